// counts live blocks and can make the k-th array allocation fail; used by the drivers that check for leaks
#pragma once
#include <new>
#include <cstdlib>
static long g_live = 0; static int g_fail_at = 0;
static void* drv_alloc(size_t n) { void* p = malloc(n ? n : 1); if (p) g_live++; return p; }
static void drv_free(void* p) { if (p) { g_live--; free(p); } }
void* operator new(size_t n) { void* p = drv_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = drv_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (g_fail_at > 0 && --g_fail_at == 0) return nullptr; return drv_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (g_fail_at > 0 && --g_fail_at == 0) return nullptr; return drv_alloc(n); }
void operator delete(void* p) noexcept { drv_free(p); }
void operator delete[](void* p) noexcept { drv_free(p); }
void operator delete(void* p, size_t) noexcept { drv_free(p); }
void operator delete[](void* p, size_t) noexcept { drv_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drv_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drv_free(p); }
