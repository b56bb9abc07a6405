// Stand-in for absl flags: a flag is a variable; one that is set counts as given on the command line.
#pragma once
namespace absl {
template <class T> struct Flag { T value; bool given = false; bool IsSpecifiedOnCommandLine() const { return given; } };
template <class T> T GetFlag(const Flag<T>& f) { return f.value; }
template <class T, class V> void SetFlag(Flag<T>* f, V&& v) { f->value = static_cast<V&&>(v); f->given = true; }
}
#define ABSL_FLAG(Type, name, def, help) absl::Flag<Type> FLAGS_##name{def}
#define ABSL_DECLARE_FLAG(Type, name) extern absl::Flag<Type> FLAGS_##name
