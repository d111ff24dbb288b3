// Reference site tensors: spin rank x colour rank x complex, evaluated from the
// component formulas in plain complex<double> arithmetic.
#ifndef VF_TEN_H
#define VF_TEN_H
#include "lat.h"
#include <complex>
namespace vf {
typedef std::complex<double> cd;
inline int ipow(int b, int e) { int r = 1; while (e--) r *= b; return r; }
struct Ten {
  int sr = 0, sn = 1, cr = 0, cn = 1; bool cplx = false; std::vector<cd> v;
  Ten() : v(1) {}
  Ten(int sr_, int sn_, int cr_, int cn_, bool c = true) : sr(sr_), sn(sr_ ? sn_ : 1), cr(cr_), cn(cr_ ? cn_ : 1), cplx(c), v(ipow(sn, sr) * ipow(cn, cr)) {}
  int sd() const { return ipow(sn, sr); } int cdm() const { return ipow(cn, cr); }
  cd& at(int s, int c) { return v[s * cdm() + c]; } const cd& at(int s, int c) const { return v[s * cdm() + c]; }
  Ten like() const { return Ten(sr, sn, cr, cn, cplx); }
};
// conversion from site objects
template<class T> void leaf(const RScalar<T>& a, cd& o, bool& c) { o = cd((double)a.elem(), 0); }
template<class T> void leaf(const RComplex<T>& a, cd& o, bool& c) { o = cd((double)a.real(), (double)a.imag()); c = true; }
template<class T> struct ColorOf;
template<class R> struct ColorOf<PScalar<R>> { enum { r = 0, n = 1 }; static void get(const PScalar<R>& a, Ten& t, int s) { leaf(a.elem(), t.at(s, 0), t.cplx); } };
template<class R, int N> struct ColorOf<PColorVector<R, N>> { enum { r = 1, n = N }; static void get(const PColorVector<R, N>& a, Ten& t, int s) { for (int i = 0; i < N; ++i) leaf(a.elem(i), t.at(s, i), t.cplx); } };
template<class R, int N> struct ColorOf<PColorMatrix<R, N>> { enum { r = 2, n = N }; static void get(const PColorMatrix<R, N>& a, Ten& t, int s) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) leaf(a.elem(i, j), t.at(s, i * N + j), t.cplx); } };
template<class C> Ten ten(const PScalar<C>& a) { Ten t(0, 1, ColorOf<C>::r, ColorOf<C>::n, false); ColorOf<C>::get(a.elem(), t, 0); return t; }
template<class C, int N> Ten ten(const PSpinVector<C, N>& a) { Ten t(1, N, ColorOf<C>::r, ColorOf<C>::n, false); for (int i = 0; i < N; ++i) ColorOf<C>::get(a.elem(i), t, i); return t; }
template<class C, int N> Ten ten(const PSpinMatrix<C, N>& a) { Ten t(2, N, ColorOf<C>::r, ColorOf<C>::n, false); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ColorOf<C>::get(a.elem(i, j), t, i * N + j); return t; }
template<class T> Ten ten(const OScalar<T>& a) { return ten(a.elem()); }
inline bool same(const Ten& a, const Ten& b, double tol = 0) {
  if (a.sr != b.sr || a.cr != b.cr || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); ++i) { double d = std::abs(a.v[i] - b.v[i]); if (!(d <= tol * (1 + std::abs(b.v[i])))) return false; }
  return true;
}
inline std::string show(const Ten& a) { std::string s = fmt("s%d^%d c%d^%d [", a.sn, a.sr, a.cn, a.cr); for (size_t i = 0; i < a.v.size() && i < 12; ++i) s += fmt("(%g,%g)", a.v[i].real(), a.v[i].imag()); return s + "]"; }

// component formulas
template<class F> Ten map1(const Ten& a, F f, int c = -1) { Ten r = a; for (auto& x : r.v) x = f(x); if (c >= 0) r.cplx = c; return r; }
inline Ten operator+(const Ten& a, const Ten& b) { Ten r = a; r.cplx = a.cplx || b.cplx; for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = a.v[i] + b.v[i]; return r; }
inline Ten operator-(const Ten& a, const Ten& b) { Ten r = a; r.cplx = a.cplx || b.cplx; for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = a.v[i] - b.v[i]; return r; }
inline Ten operator-(const Ten& a) { return map1(a, [](cd x) { return -x; }); }
// index contraction in one space: result rank and terms
struct Contr { int r, n; struct Tm { int o, a, b; }; std::vector<Tm> t; };
inline const Contr& contr(int ra, int rb, int n) {
  static std::map<int, Contr> m; int key = (ra * 3 + rb) * 16 + n; auto it = m.find(key); if (it != m.end()) return it->second;
  Contr c; c.n = n;
  if (ra == 0) { c.r = rb; for (int i = 0; i < ipow(n, rb); ++i) c.t.push_back({i, 0, i}); }
  else if (rb == 0) { c.r = ra; for (int i = 0; i < ipow(n, ra); ++i) c.t.push_back({i, i, 0}); }
  else if (ra == 2 && rb == 2) { c.r = 2; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) c.t.push_back({i * n + j, i * n + k, k * n + j}); }
  else if (ra == 2 && rb == 1) { c.r = 1; for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) c.t.push_back({i, i * n + k, k}); }
  else abort();
  return m[key] = c;
}
inline Ten operator*(const Ten& a, const Ten& b) {
  int sn = a.sr ? a.sn : b.sn, cn = a.cr ? a.cn : b.cn;
  const Contr& s = contr(a.sr, b.sr, sn); const Contr& c = contr(a.cr, b.cr, cn);
  Ten r(s.r, sn, c.r, cn, a.cplx || b.cplx);
  for (auto& x : s.t) for (auto& y : c.t) { cd u = a.at(x.a, y.a); if (u == 0.0) continue; r.at(x.o, y.o) += u * b.at(x.b, y.b); }
  return r;
}
inline Ten transS(const Ten& a) { if (a.sr != 2) return a; Ten r = a; for (int i = 0; i < a.sn; ++i) for (int j = 0; j < a.sn; ++j) for (int c = 0; c < a.cdm(); ++c) r.at(i * a.sn + j, c) = a.at(j * a.sn + i, c); return r; }
inline Ten transC(const Ten& a) { if (a.cr != 2) return a; Ten r = a; for (int i = 0; i < a.cn; ++i) for (int j = 0; j < a.cn; ++j) for (int s = 0; s < a.sd(); ++s) r.at(s, i * a.cn + j) = a.at(s, j * a.cn + i); return r; }
inline Ten trans(const Ten& a) { return transS(transC(a)); }
inline Ten conjT(const Ten& a) { return map1(a, [](cd x) { return std::conj(x); }); }
inline Ten adjT(const Ten& a) { return conjT(trans(a)); }
inline Ten trS(const Ten& a) { if (a.sr != 2) return a; Ten r(0, 1, a.cr, a.cn, a.cplx); for (int i = 0; i < a.sn; ++i) for (int c = 0; c < a.cdm(); ++c) r.at(0, c) += a.at(i * a.sn + i, c); return r; }
inline Ten trC(const Ten& a) { if (a.cr != 2) return a; Ten r(a.sr, a.sn, 0, 1, a.cplx); for (int i = 0; i < a.cn; ++i) for (int s = 0; s < a.sd(); ++s) r.at(s, 0) += a.at(s, i * a.cn + i); return r; }
inline Ten tr(const Ten& a) { return trS(trC(a)); }
inline Ten reT(const Ten& a) { return map1(a, [](cd x) { return cd(x.real(), 0); }, 0); }
inline Ten imT(const Ten& a) { return map1(a, [](cd x) { return cd(x.imag(), 0); }, 0); }
inline Ten timI(const Ten& a) { return map1(a, [](cd x) { return cd(-x.imag(), x.real()); }); }
inline Ten timMI(const Ten& a) { return map1(a, [](cd x) { return cd(x.imag(), -x.real()); }); }
inline Ten inner(const Ten& a, const Ten& b) { Ten r(0, 1, 0, 1, true); for (size_t i = 0; i < a.v.size(); ++i) r.v[0] += std::conj(a.v[i]) * b.v[i]; return r; }
inline Ten norm(const Ten& a) { Ten r(0, 1, 0, 1, false); for (auto x : a.v) r.v[0] += std::norm(x); return r; }
// per space: both vectors -> matrix with the second conjugated; scalars multiply
inline Ten outer(const Ten& a, const Ten& b) {
  Ten r(a.sr ? 2 : 0, a.sn, a.cr ? 2 : 0, a.cn, true);
  for (int s1 = 0; s1 < a.sd(); ++s1) for (int s2 = 0; s2 < b.sd(); ++s2) for (int c1 = 0; c1 < a.cdm(); ++c1) for (int c2 = 0; c2 < b.cdm(); ++c2)
    r.at(a.sr ? s1 * a.sn + s2 : 0, a.cr ? c1 * a.cn + c2 : 0) = a.at(s1, c1) * std::conj(b.at(s2, c2));
  return r;
}
inline int eps3(int i, int j, int k) { return (i - j) * (j - k) * (k - i) / 2; }
// sum eps^{i1 j1 k1} eps^{i2 j2 k2} A^{i1 i2} B^{j1 j2} -> (k2, k1), colour matrices at fixed spin components
inline void contrXX(const Ten& a, int sa, const Ten& b, int sb, Ten& r, int so) {
  for (int i1 = 0; i1 < 3; ++i1) for (int j1 = 0; j1 < 3; ++j1) { int k1 = 3 - i1 - j1; if (i1 == j1) continue;
    for (int i2 = 0; i2 < 3; ++i2) for (int j2 = 0; j2 < 3; ++j2) { int k2 = 3 - i2 - j2; if (i2 == j2) continue;
      r.at(so, k2 * 3 + k1) += double(eps3(i1, j1, k1) * eps3(i2, j2, k2)) * a.at(sa, i1 * 3 + i2) * b.at(sb, j1 * 3 + j2); } }
}
// which: the two spin indices (1..4) of the pair (a: 1,2; b: 3,4) that are summed
inline Ten quarkContract(const Ten& a, const Ten& b, int p, int q) {
  int n = a.sn; Ten r(2, n, 2, 3, true);
  for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int k = 0; k < n; ++k) {
    int ix[5] = {0, -1, -1, -1, -1}; ix[p] = ix[q] = k; int free = 0; for (int m = 1; m <= 4; ++m) if (ix[m] < 0) ix[m] = free++ ? y : x;
    contrXX(a, ix[1] * n + ix[2], b, ix[3] * n + ix[4], r, x * n + y);
  }
  return r;
}
inline Ten peekS(const Ten& a, int i, int j = -1) { Ten r(0, 1, a.cr, a.cn, a.cplx); int s = j < 0 ? i : i * a.sn + j; for (int c = 0; c < a.cdm(); ++c) r.at(0, c) = a.at(s, c); return r; }
inline Ten peekC(const Ten& a, int i, int j = -1) { Ten r(a.sr, a.sn, 0, 1, a.cplx); int c = j < 0 ? i : i * a.cn + j; for (int s = 0; s < a.sd(); ++s) r.at(s, 0) = a.at(s, c); return r; }
inline void pokeS(Ten& d, const Ten& a, int i, int j = -1) { int s = j < 0 ? i : i * d.sn + j; for (int c = 0; c < d.cdm(); ++c) d.at(s, c) = a.at(0, c); }
inline void pokeC(Ten& d, const Ten& a, int i, int j = -1) { int c = j < 0 ? i : i * d.cn + j; for (int s = 0; s < d.sd(); ++s) d.at(s, c) = a.at(s, 0); }
} // namespace vf
#endif
