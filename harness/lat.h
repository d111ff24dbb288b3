// Lattice helpers shared by the harnesses: coordinate odometers, start-up.
#ifndef VF_LAT_H
#define VF_LAT_H
#include "qdp.h"
#include "qdp_util.h"
#include "vf.h"
namespace vf {
using namespace QDP;
typedef std::vector<int> IV;
inline multi1d<int> m1(const IV& v) { multi1d<int> r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
inline IV v1(const multi1d<int>& v) { IV r(v.size()); for (int i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
inline int volume(const IV& s) { int v = 1; for (int e : s) v *= e; return v; }
// independent decomposition of a lexicographic number, first direction fastest
inline IV lex2c(int l, const IV& s) { IV c(s.size()); for (size_t i = 0; i < s.size(); ++i) { c[i] = l % s[i]; l /= s[i]; } return c; }
inline int c2lex(const IV& c, const IV& s) { int l = 0; for (int i = (int)s.size() - 1; i >= 0; --i) l = l * s[i] + c[i]; return l; }
inline void startup() {
  static char a0[] = "vf"; static char* av[] = {a0, nullptr}; static char** pv = av; static int ac = 1;
  QDP_initialize(&ac, &pv);
}
inline void lattice(const IV& s) {
  Layout::setLattSize(m1(s));
  Layout::create();
}
// sizes the selected ordering documents as acceptable
inline bool acceptable(const IV& s) {
#if QDP_USE_LEXICO_LAYOUT == 1
  return true;
#elif QDP_USE_CB32_LAYOUT == 1
  for (size_t i = 0; i < s.size(); ++i) if (s[i] % (i ? 2 : 4)) return false;
  return true;
#else
  return s[0] % 2 == 0;
#endif
}
// listed larger lattices: one long direction, tens of thousands of sites
inline std::vector<IV> largeShapes(int vmax) {
  std::vector<IV> r; const int nd = Nd;
#if QDP_USE_CB32_LAYOUT == 1
  const bool cb32 = true;
#else
  const bool cb32 = false;
#endif
  for (int e : {300, 16500, 33000}) for (int mu = 0; mu < nd; ++mu) { IV s(nd, cb32 ? 2 : 1); s[0] = cb32 ? 4 : 2; s[mu] = e; r.push_back(s); }
  IV b = nd == 4 ? IV{20, 20, 14, 14} : nd == 3 ? IV{40, 44, 46} : IV{280, 282}; r.push_back(b); if (nd == 4) { r.push_back(IV{8, 6, 10, 12}); if (!cb32) r.push_back(IV{6, 5, 7, 9}); }
  std::vector<IV> o; for (auto& s : r) if (acceptable(s) && volume(s) <= vmax) o.push_back(s); return o;
}
// every machine word of a site object, in storage order (skips alignment padding)
template<class T, class F> void words(PScalar<T>&, F&&); template<class T, class F> void words(PSeed<T>&, F&&);
template<class T, int N, class F> void words(PSpinVector<T, N>&, F&&); template<class T, int N, class F> void words(PColorVector<T, N>&, F&&);
template<class T, int N, class F> void words(PSpinMatrix<T, N>&, F&&); template<class T, int N, class F> void words(PColorMatrix<T, N>&, F&&);
template<class T, class F> inline void words(RScalar<T>& a, F&& f) { f(a.elem()); }
template<class T, class F> inline void words(RComplex<T>& a, F&& f) { f(a.real()); f(a.imag()); }
template<class T, class F> inline void words(PScalar<T>& a, F&& f) { words(a.elem(), f); }
template<class T, class F> inline void words(PSeed<T>& a, F&& f) { for (int i = 0; i < 4; ++i) words(a.elem(i), f); }
template<class T, int N, class F> inline void words(PSpinVector<T, N>& a, F&& f) { for (int i = 0; i < N; ++i) words(a.elem(i), f); }
template<class T, int N, class F> inline void words(PColorVector<T, N>& a, F&& f) { for (int i = 0; i < N; ++i) words(a.elem(i), f); }
template<class T, int N, class F> inline void words(PSpinMatrix<T, N>& a, F&& f) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) words(a.elem(i, j), f); }
template<class T, int N, class F> inline void words(PColorMatrix<T, N>& a, F&& f) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) words(a.elem(i, j), f); }
template<class E> inline std::vector<double> wordsOf(const E& a) { std::vector<double> v; words(const_cast<E&>(a), [&](auto& w) { v.push_back((double)w); }); return v; }
template<class E> inline bool sameWords(const E& a, const E& b) { return wordsOf(a) == wordsOf(b); }
template<class E> inline bool bitsEqual(const E& a, const E& b) {      // words compared as bit patterns
  std::vector<std::string> x, y; auto g = [](std::vector<std::string>& v) { return [&v](auto& w) { v.push_back(std::string((const char*)&w, sizeof w)); }; };
  words(const_cast<E&>(a), g(x)); words(const_cast<E&>(b), g(y)); return x == y; }
} // namespace vf
#endif
