// operator new with injected failures (P20)
#include "alloc.h"
#include <new>
#include <cstdlib>
void* operator new(std::size_t n) { if (al::thr && al::fail()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return al::fail() ? nullptr : malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return al::fail() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); } void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
