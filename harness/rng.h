// Reference for the lattice generator: 47-bit multiplicative congruential sequence.
#ifndef VF_RNG_H
#define VF_RNG_H
#include "lat.h"
#include <cmath>
namespace vf {
typedef unsigned long long u64; typedef unsigned __int128 u128;
static const u64 M47 = (1ull << 47) - 1;
static const u64 MULT = (1222ull << 36) + (1498ull << 24) + (712ull << 12) + 1645ull;
inline u64 mul47(u64 a, u64 b) { return (u64)((u128)a * b & M47); }
inline u64 pow47(u64 a, u64 n) { u64 r = 1; for (; n; n >>= 1, a = mul47(a, a)) if (n & 1) r = mul47(r, a); return r; }
inline u64 seedVal(const Seed& s) { u64 r = 0; for (int i = 3; i >= 0; --i) r = (r << 12) + (u64)(unsigned)s.elem().elem().elem(i).elem(); return r; }
inline Seed mkSeed(u64 v) { Seed s; for (int i = 0; i < 4; ++i) s.elem().elem().elem(i).elem() = (v >> (12 * i)) & 4095; return s; }
inline bool wellFormed(const Seed& s) { for (int i = 0; i < 4; ++i) { int w = s.elem().elem().elem(i).elem(); if (w < 0 || w > (i < 3 ? 4095 : 2047)) return false; } return true; }
inline double unif(u64 s) { return (double)s / 140737488355328.0; }
// the reference generator: a lattice draw of w words moves the seed on by (volume+1) steps per word
struct Ref {
  u64 seed; int V; u64 an;
  void lattice(int v) { V = v; an = pow47(MULT, v + 1); }
  std::vector<double> site(int lex, int w) const { std::vector<double> r; u64 s = mul47(seed, pow47(MULT, lex + 1)); for (int i = 0; i < w; ++i) { r.push_back(unif(s)); s = mul47(s, an); } return r; }
  void advance(int w) { for (int i = 0; i < w; ++i) seed = mul47(seed, an); }
  std::vector<double> scalar(int w) { std::vector<double> r; for (int i = 0; i < w; ++i) { seed = mul47(seed, MULT); r.push_back(unif(seed)); } return r; }
};
inline bool closeU(double g, double w) { return std::fabs(g - w) <= 1.3e-7; }      // single precision result
// gaussian words from two uniform fills: one cosine per real, cosine and sine per complex number
inline std::vector<double> gaussWords(const std::vector<double>& u, const std::vector<double>& v, bool cplx) {
  std::vector<double> r; const double P = 6.283185307;
  for (size_t i = 0; i < u.size(); i += cplx ? 2 : 1) { double m = std::sqrt(-2 * std::log(u[i])); r.push_back(m * std::cos(P * v[i])); if (cplx) r.push_back(m * std::sin(P * v[i])); }
  return r;
}
inline bool closeG(double g, double w) { return std::isinf(w) || std::isnan(w) || std::fabs(g - w) <= 2e-5 * (1 + std::fabs(w)); }
} // namespace vf
#endif
