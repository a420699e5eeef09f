// Platform shims: what MSVC 2015 / Windows gives the library for free. No library behaviour lives here.
#pragma once
#include <cmath>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <climits>
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <iostream>
#include <sstream>
#include <type_traits>
#include <tuple>
#include <bitset>
#include <random>
#include <mm_malloc.h>
#include <immintrin.h>

#define _aligned_malloc _mm_malloc
#define _aligned_free _mm_free
#define __cdecl

// floating point control word
typedef int errno_t;
enum : unsigned { _DN_SAVE=0, _DN_FLUSH=0x01000000u, _MCW_DN=0x03000000u, _RC_CHOP=0x300u, _RC_NEAR=0, _MCW_RC=0x300u, _CW_DEFAULT=0x9001Fu };
inline errno_t _controlfp_s(unsigned* cur, unsigned nv, unsigned mask) {
	unsigned c = _mm_getcsr();
	if (mask & _MCW_DN) { c &= ~(0x8000u|0x0040u); if ((nv & _MCW_DN)==_DN_FLUSH) c |= (0x8000u|0x0040u); }
	if (mask & _MCW_RC) { c &= ~0x6000u; c |= (nv & _MCW_RC) << 5; }
	_mm_setcsr(c);
	*cur = ((c & 0x8000u) ? (unsigned)_DN_FLUSH : 0u) | ((c & 0x6000u) >> 5);
	return 0;
}

#define STRING(x) #x
#ifndef MAX_PATH
#define MAX_PATH 260
#endif

namespace nntl { namespace threads { namespace _impl { struct win_srwlock; struct win_condition_var; } } }
#include <chrono>
#include <cstdio>
#include <cstdarg>
namespace nntl_port {
	template<typename T, typename Dep> struct lazy_ { typedef T type; };
	template<typename T, typename Dep> using lazy = typename lazy_<T, Dep>::type;
}
// "secure" CRT: as documented, a call that would overrun its buffer terminates the program
inline int printf_s(const char* f, ...) { va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r; }
inline int sprintf_s(char* b, size_t n, const char* f, ...) {
	va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a);
	if (r < 0 || (size_t)r >= n) { fprintf(stderr, "sprintf_s: buffer too small\n"); abort(); }
	return r;
}
template<size_t N> inline int sprintf_s(char (&b)[N], const char* f, ...) {
	va_list a; va_start(a, f); int r = vsnprintf(b, N, f, a); va_end(a);
	if (r < 0 || (size_t)r >= N) { fprintf(stderr, "sprintf_s: buffer too small\n"); abort(); }
	return r;
}
inline errno_t strcpy_s(char* d, size_t n, const char* s) {
	if (strlen(s) >= n) { fprintf(stderr, "strcpy_s: buffer too small\n"); abort(); }
	strcpy(d, s); return 0;
}
inline errno_t fopen_s(FILE** f, const char* name, const char* mode) {
	std::string m; for (; *mode; ++mode) if (*mode != 'S') m += *mode;
	*f = fopen(name, m.c_str()); return *f ? 0 : 2;
}
inline size_t fread_s(void* b, size_t bs, size_t es, size_t n, FILE* f) {
	if (es && n > bs / es) { fprintf(stderr, "fread_s: buffer too small\n"); abort(); }
	return fread(b, es, n, f);
}
#define sscanf_s sscanf
#define _ftelli64 ftello
#define _fseeki64 fseeko
