// Stand-ins for the C library's files, for stream buffers and for the allocator; includes the corresponding strf headers.
#pragma once
#include <cstdio>
#include <cwchar>
#include <cstring>
#include <new>
#include <streambuf>
#include "sink.h"
// stand-ins for the C library and the stream buffer: they record what they accept
struct Device { unsigned w[700]; int n = 0, calls = 0, fail_at = -1, part = 0, failed = 0, after = 0;
    int take(int count) { if (failed) { ++after; } int acc = count; if (calls == fail_at && count > 0) { acc = part == 0 ? 0 : part == 1 ? (count > 1 ? 1 : 0) : count - 1; failed = 1; } ++calls; return acc; } };
static Device* dev;
template <class C> static std::size_t device_write(const C* p, std::size_t n) { int a = dev->take((int)n); for (int i = 0; i < a; ++i) { if (dev->n < 700) dev->w[dev->n] = uni::val(p[i]); ++dev->n; } return a; }
static std::size_t my_fwrite(const void* p, std::size_t sz, std::size_t n, FILE* f) { sym_check(sz == 1, "fwrite element size"); return device_write(static_cast<const char*>(p), n); }
static wint_t my_fputwc(wchar_t c, FILE*) { return device_write(&c, 1) == 1 ? (wint_t)(c & 0x7FFFFFFF) : WEOF; }
namespace std { using ::my_fwrite; using ::my_fputwc; }
struct Tr : std::char_traits<char> { };
namespace std { template <> class basic_streambuf<char, Tr> { public: std::streamsize sputn(const char* p, std::streamsize n) { sym_check(n >= 0, "sputn count"); return (std::streamsize)device_write(p, (std::size_t)n); } }; }
#define fwrite my_fwrite
#define fputwc my_fputwc
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#undef fwrite
#undef fputwc
#include <strf/to_string.hpp>
static long live_bytes = 0; static int alloc_no = 0, alloc_fail = -1; static bool alloc_threw = false;
template <class T> struct Alloc { typedef T value_type; Alloc() = default; template <class U> Alloc(const Alloc<U>&) { }
    T* allocate(std::size_t n) { if (alloc_no++ == alloc_fail) { alloc_threw = true; throw std::bad_alloc(); } live_bytes += n; return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) { live_bytes -= n; std::free(p); }
    bool operator==(const Alloc&) const { return true; } bool operator!=(const Alloc&) const { return false; } };
