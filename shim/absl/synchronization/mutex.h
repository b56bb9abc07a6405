#pragma once
#include "absl/base/thread_annotations.h"
namespace absl {
enum ConstInitType { kConstInit };
class Mutex { public: Mutex() = default; constexpr explicit Mutex(ConstInitType) {} void Lock() {} void Unlock() {} };
class MutexLock { public: explicit MutexLock(Mutex*) {} explicit MutexLock(Mutex&) {} };
}
