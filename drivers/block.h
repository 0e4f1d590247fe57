// counts the blocks CPLMalloc hands to this program (not those GDAL takes for itself)
#pragma once
#include <set>
#include <cstdlib>
static long g_blocks = 0; static void* g_block[4096];
extern "C" char __executable_start, etext;
static bool own(void* a) { return (char*)a >= &__executable_start && (char*)a < &etext; }
extern "C" __attribute__((noinline)) void* CPLMalloc(size_t n) { void* p = n ? malloc(n) : nullptr; if (p && own(__builtin_return_address(0))) for (auto& b : g_block) if (!b) { b = p; g_blocks++; break; } return p; }
extern "C" __attribute__((noinline)) void VSIFree(void* p) { if (p && g_blocks > 0) for (auto& b : g_block) if (b == p) { b = nullptr; g_blocks--; break; } free(p); }
