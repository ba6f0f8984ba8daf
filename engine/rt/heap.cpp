#include "heap.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
HObj *heapObjs;
size_t nHeapObjs;
static size_t capHeapObjs;
uint8_t *heapBase, *heapCur, *heapEnd;
bool heapActive = false;
static void *heapAlloc(size_t n, size_t al) {
  if (!heapActive) { void *p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) / al * al); if (!p) throw std::bad_alloc(); return p; }
  if (n > (1ULL << 31)) throw std::bad_alloc();
  if (!heapBase) {
    size_t cap = 16ULL << 30;
    void *q = mmap((void *)0x200000000000ULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (q == MAP_FAILED) { fprintf(stderr, "sym heap\n"); abort(); }
    heapBase = (uint8_t *)q; heapCur = heapBase; heapEnd = heapBase + cap;
  }
  if (al < 16) al = 16;
  uint8_t *p = (uint8_t *)(((uint64_t)heapCur + al - 1) & ~(uint64_t)(al - 1));
  heapCur = p + ((n + 31) & ~(size_t)15);
  if (heapCur > heapEnd) { fprintf(stderr, "sym heap exhausted\n"); abort(); }
  if (nHeapObjs == capHeapObjs) { capHeapObjs = capHeapObjs ? capHeapObjs * 2 : 65536; heapObjs = (HObj *)realloc(heapObjs, capHeapObjs * sizeof(HObj)); }
  heapObjs[nHeapObjs++] = {(uint64_t)p, n};
  return p;
}
static void heapFree(void *p) { if (p && !((uint8_t *)p >= heapBase && (uint8_t *)p < heapEnd)) free(p); }
void *operator new(size_t n) { return heapAlloc(n, 16); }
void *operator new[](size_t n) { return heapAlloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return heapAlloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return heapAlloc(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heapAlloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heapAlloc(n, 16); }
void operator delete(void *p) noexcept { heapFree(p); }
void operator delete[](void *p) noexcept { heapFree(p); }
void operator delete(void *p, size_t) noexcept { heapFree(p); }
void operator delete[](void *p, size_t) noexcept { heapFree(p); }
void operator delete(void *p, std::align_val_t) noexcept { heapFree(p); }
void operator delete[](void *p, std::align_val_t) noexcept { heapFree(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heapFree(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heapFree(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { heapFree(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { heapFree(p); }
extern "C" void *__eng_new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
extern "C" void __eng_del(void *p) { free(p); }
extern "C" void __eng_dels(void *p, size_t) { free(p); }
