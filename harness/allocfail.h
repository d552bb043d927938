// operator new and delete, and the memory of expat, under the control of the
// monitor: chosen allocations fail
#ifndef VF_ALLOCFAIL_H
#define VF_ALLOCFAIL_H
#include <new>
#include <climits>
#include <expat.h>
namespace {
// which of the allocations fail: from the first-th on, count of them
// (or, with permille, each with this probability)
struct Alloc { long n, first, count, hits, live; int permille; unsigned long long x; bool armed; } A;
bool failing() {
  if (!A.armed) return false;
  long i = A.n++;
  if (A.permille) { A.x = A.x * 6364136223846793005ULL + 1442695040888963407ULL; if ((int)((A.x >> 33) % 1000) >= A.permille) return false; }
  else if (i < A.first || i - A.first >= A.count) return false;
  ++A.hits; return true;
}
void *get(size_t n) { if (failing()) return 0; void *p = malloc(n ? n : 1); if (p) ++A.live; return p; }
void *reget(void *o, size_t n) { if (failing()) return 0; void *p = realloc(o, n ? n : 1); if (p && !o) ++A.live; return p; }
void put(void *p) { if (p) { --A.live; free(p); } }
}
void *operator new(size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
// the parser takes its memory from here, too
extern "C" XML_Parser XML_ParserCreate(const XML_Char *encoding) {
  XML_Memory_Handling_Suite s; s.malloc_fcn = get; s.realloc_fcn = reget; s.free_fcn = put;
  return XML_ParserCreate_MM(encoding, &s, 0);
}
#endif
