// open, fdopen, fgetc, ... on the file tree in memory (descriptor 1000, one file at a time). Natively linked with --wrap for each.
#pragma once
#include <cerrno>
#include <cstdio>
#include <filesystem>
#include "sx.h"
namespace {
struct Handle { std::size_t at = 0; bool err = false, eof = false, live = false; sxfs::Node* node = nullptr; };
Handle handle; int fd_open, stream_open;
bool ours(const void* f) { return f == &handle; }
int do_open(const char* name) { auto* n = sxfs::find(name); if (!n || sxfs::fault("open")) { errno = 2; return -1; } handle = Handle{}; handle.node = n; ++fd_open; return 1000; }
std::FILE* do_fdopen() { if (sxfs::fault("fdopen")) return nullptr; handle.live = true; ++stream_open; return reinterpret_cast<std::FILE*>(&handle); }
int do_fgetc() { sx_assert(handle.live, "a closed stream is read"); if (handle.err || handle.eof) return EOF; if (handle.node->dir || sxfs::fault("fgetc")) { handle.err = true; return EOF; } if (handle.at >= handle.node->data.size()) { handle.eof = true; return EOF; } return static_cast<unsigned char>(handle.node->data[handle.at++]); }
int do_fclose() { sx_assert(handle.live, "a stream is closed twice"); handle.live = false; --stream_open; --fd_open; return 0; }
}
#ifdef MBO_ENGINE
#define SX_C(name) name
#define SX_REAL(ret, name, params, args) 
#define SX_ELSE(name, args) sx_fail("a foreign stream is used")
#else
#define SX_C(name) __wrap_##name
#define SX_REAL(ret, name, params, args) extern "C" ret __real_##name params;
#define SX_ELSE(name, args) return __real_##name args
#endif
SX_REAL(int, close, (int), ) SX_REAL(int, fgetc, (std::FILE*), ) SX_REAL(int, getc, (std::FILE*), ) SX_REAL(int, ferror, (std::FILE*), ) SX_REAL(int, feof, (std::FILE*), ) SX_REAL(int, fclose, (std::FILE*), ) SX_REAL(std::size_t, fread, (void*, std::size_t, std::size_t, std::FILE*), ) SX_REAL(char*, fgets, (char*, int, std::FILE*), ) SX_REAL(std::FILE*, fopen, (const char*, const char*), )
extern "C" {
int SX_C(open)(const char* name, int, ...) { return do_open(name); }
std::FILE* SX_C(fdopen)(int fd, const char*) { sx_assert(fd == 1000, "a wrong descriptor is used"); return do_fdopen(); }
int SX_C(close)(int fd) { if (fd == 1000) { --fd_open; return 0; } SX_ELSE(close, (fd)); return 0; }
int SX_C(fgetc)(std::FILE* f) { if (ours(f)) return do_fgetc(); SX_ELSE(fgetc, (f)); return 0; }
int SX_C(getc)(std::FILE* f) { if (ours(f)) return do_fgetc(); SX_ELSE(getc, (f)); return 0; }
int SX_C(ferror)(std::FILE* f) noexcept { if (ours(f)) return handle.err; SX_ELSE(ferror, (f)); return 0; }
int SX_C(feof)(std::FILE* f) noexcept { if (ours(f)) return handle.eof; SX_ELSE(feof, (f)); return 0; }
int SX_C(fclose)(std::FILE* f) { if (ours(f)) return do_fclose(); SX_ELSE(fclose, (f)); return 0; }
std::size_t SX_C(fread)(void* p, std::size_t k, std::size_t n, std::FILE* f) { if (!ours(f)) { SX_ELSE(fread, (p, k, n, f)); return 0; } std::size_t i = 0; for (; i < k * n; ++i) { int c = do_fgetc(); if (c == EOF) break; static_cast<char*>(p)[i] = static_cast<char>(c); } return k ? i / k : 0; }
char* SX_C(fgets)(char* p, int n, std::FILE* f) { if (!ours(f)) { SX_ELSE(fgets, (p, n, f)); return nullptr; } int i = 0; while (i + 1 < n) { int c = do_fgetc(); if (c == EOF) { if (i == 0 || handle.err) return nullptr; break; } p[i++] = static_cast<char>(c); if (c == '\n') break; } p[i] = 0; return p; }
std::FILE* SX_C(fopen)(const char* name, const char* mode) { if (name[0] == '@') { if (do_open(name) < 0) return nullptr; return do_fdopen(); } SX_ELSE(fopen, (name, mode)); return nullptr; }
}
