// A first-fit arena that hands out blocks at a chosen misalignment and remembers which are out.
#ifndef VF_ARENA_H
#define VF_ARENA_H
#include <cstddef>
#include <cstdint>
struct Arena { unsigned char* base = 0; size_t size = 0; struct B { size_t o, n; } b[256]; int nb = 0; unsigned off = 0, mod = 256; long bad = 0, served = 0;
  void init(void* p, size_t n) { base = (unsigned char*)p; size = n; nb = 0; }
  bool has(const void* p) const { return p >= base && p < base + size; }
  void* get(size_t n) { if (n > size || nb == 256) return 0; size_t at = 0; int i = 0;
    for (;; ++i) { size_t a = at; while (((uintptr_t)base + a) % mod != off) ++a; size_t lim = i < nb ? b[i].o : size; if (a + n <= lim) { for (int j = nb; j > i; --j) b[j] = b[j - 1]; b[i] = {a, n}; ++nb; ++served; return base + a; } if (i >= nb) return 0; at = b[i].o + (b[i].n ? b[i].n : 1); } }
  bool put(void* p) { size_t o = (unsigned char*)p - base; for (int i = 0; i < nb; ++i) if (b[i].o == o) { for (int j = i; j + 1 < nb; ++j) b[j] = b[j + 1]; --nb; return true; } ++bad; return false; }
  bool inside(const void* p, size_t n) const { size_t o = (const unsigned char*)p - base; for (int i = 0; i < nb; ++i) if (o >= b[i].o && o + n <= b[i].o + b[i].n) return true; return false; } };
#endif
