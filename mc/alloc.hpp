// Counts live heap blocks, and fails the n-th allocation on request (plain flavour only; link with -rdynamic).
#pragma once
#include <cstddef>
#include <cstdlib>
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); }
namespace alloc { static long live = 0, total = 0; }
extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) { alloc::live++; alloc::total++; } return p; }
extern "C" void free(void *p) { if (p) alloc::live--; __libc_free(p); }
extern "C" void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) { alloc::live++; alloc::total++; } return p; }
extern "C" void *realloc(void *o, size_t n) { void *p = __libc_realloc(o, n); if (!o && p) { alloc::live++; alloc::total++; } return p; }
