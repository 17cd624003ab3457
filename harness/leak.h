// Counts C++ allocations, so a scenario can check that everything was given back.
#pragma once
#include <new>
#include <stdlib.h>
static long gLiveNew;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); gLiveNew++; return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); gLiveNew++; return p; }
void operator delete(void *p) noexcept { if (p) { gLiveNew--; free(p); } }
void operator delete[](void *p) noexcept { if (p) { gLiveNew--; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { gLiveNew--; free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { gLiveNew--; free(p); } }
