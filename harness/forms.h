// Judging unary and binary site forms on all pairs of unit components and dense operands.
#ifndef VF_FORMS_H
#define VF_FORMS_H
#include "ten.h"
using namespace QDP; using namespace vf;
static int V; static IV S;
static double TOL = 0;

template<class L> struct El { typedef typename std::decay<decltype(std::declval<L&>().elem(0))>::type T; typedef OScalar<T> O; };
// the container an expression evaluates to
template<class C, class N> struct Dest; template<class T, class N> struct Dest<OLattice<T>, N> { typedef OLattice<N> t; }; template<class T, class N> struct Dest<OScalar<T>, N> { typedef OScalar<N> t; };
template<class E, class C> auto value(const QDPExpr<E, C>& e) {     // the element type the expression really yields
  typedef typename std::decay<decltype(forEach(e, EvalLeaf1(0), OpCombine()))>::type N; typename Dest<C, N>::t r(e); return r; }
template<class T> struct Rk; template<class C> struct Rk<PScalar<C>> { enum { s = 0, c = ColorOf<C>::r }; }; template<class C, int N> struct Rk<PSpinVector<C, N>> { enum { s = 1, c = ColorOf<C>::r }; }; template<class C, int N> struct Rk<PSpinMatrix<C, N>> { enum { s = 2, c = ColorOf<C>::r }; };
template<class L> constexpr bool hasS() { return Rk<typename El<L>::T>::s == 2; } template<class L> constexpr bool hasC() { return Rk<typename El<L>::T>::c == 2; }
template<class T, class C> C value(const QDPType<T, C>& e) { C r(static_cast<const C&>(e)); return r; }
template<class T> Ten siteTen(const OLattice<T>& f, int i) { return ten(f.elem(i)); }
template<class T> Ten siteTen(const OScalar<T>& f, int) { return ten(f.elem()); }

template<class E> void setWords(E& e, const std::function<double(int)>& f) { int k = 0; words(e, [&](auto& w) { w = typename std::decay<decltype(w)>::type(f(k)); ++k; }); }
template<class E> int nwords() { E e; int k = 0; words(e, [&](auto&) { ++k; }); return k; }
static int mix(unsigned a, unsigned b, unsigned c) { unsigned h = a * 2654435761u ^ (b * 40503u + 12345u) * 2246822519u ^ c * 3266489917u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return h & 0x7fffffff; }

// How operands are drawn.  BASIS: every pair of unit words (decides real-bilinear
// forms completely) and dense small integers; DENSE: dense only; POS: positive.
enum Mode { BASIS, DENSE, POS, POW2, BOOL, UNIT };
template<class E> void dense(E& e, int seed, Mode m) {
  setWords(e, [&](int k) -> double { int h = mix(seed, k, 77);
    switch (m) { case POS: return 1 + h % 9; case POW2: { static const double v[] = {1, 2, 4, -1, -2, 0.5}; return v[h % 6]; } case BOOL: return h & 1; case UNIT: return (h % 1999 - 999) / 1024.0; default: return h % 7 - 3; } });
}
template<class E> void unit(E& e, int i) { setWords(e, [&](int k) { return k == i ? 1.0 : 0.0; }); }

static const char* KIND[] = {"LL", "LS", "SL", "SS"};
struct Fail { std::string nm; bool done = false; void operator()(const char* kind, const Ten& got, const Ten& want, const std::string& in) { if (done) return; done = true; violation(nm + ":" + kind, in + " got " + show(got) + " want " + show(want)); } };

template<class A, class B, class F, class G> void bin(const std::string& nm, Mode ma, Mode mb, F f, G ref) {
  typedef typename El<A>::T EA; typedef typename El<B>::T EB; typedef OScalar<EA> OA; typedef OScalar<EB> OB;
  cur(nm); Fail fail{nm};
  int da = nwords<EA>(), db = nwords<EB>(); int nd = thorough() ? 256 : 64;
  bool basis = ma == BASIS && mb == BASIS;
  long pairs = basis ? (long)da * db : 0;
  auto setA = [&](EA& e, long p) { if (p < pairs) unit(e, p / db); else dense(e, p - pairs, ma); };
  auto setB = [&](EB& e, long p) { if (p < pairs) unit(e, p % db); else dense(e, 1000 + p - pairs, mb); };
  A a; B b;
  for (long p0 = 0; p0 < pairs + nd; p0 += V) {
    for (int k = 0; k < V; ++k) { setA(a.elem(k), p0 + k); setB(b.elem(k), p0 + k); }
    auto r = value(f(a, b)); eval(V);
    for (int k = 0; k < V; ++k) { Ten g = siteTen(r, k), w = ref(ten(a.elem(k)), ten(b.elem(k))); if (!same(g, w, TOL)) fail("LL", g, w, fmt("pair %ld", p0 + k)); }
    transition();
  }
  // single-site operands: the second fixed (one unit word / dense value), the first over the lattice
  long nb = basis ? db : 0;
  for (long j = 0; j < nb + 4; ++j) {
    OB ob; if (j < nb) unit(ob.elem(), j); else dense(ob.elem(), 5000 + j, mb);
    for (long i0 = 0; i0 < (j < nb ? da : V); i0 += V) {
      for (int k = 0; k < V; ++k) { if (j < nb && i0 + k < da) unit(a.elem(k), i0 + k); else dense(a.elem(k), 9 + i0 + k, ma); }
      auto r = value(f(a, ob)); eval(V);
      for (int k = 0; k < V; ++k) { Ten g = siteTen(r, k), w = ref(ten(a.elem(k)), ten(ob.elem())); if (!same(g, w, TOL)) fail("LS", g, w, fmt("scalar %ld site %ld", j, i0 + k)); }
    }
    transition();
  }
  long na = basis ? da : 0;
  for (long j = 0; j < na + 4; ++j) {
    OA oa; if (j < na) unit(oa.elem(), j); else dense(oa.elem(), 6000 + j, ma);
    for (long i0 = 0; i0 < (j < na ? db : V); i0 += V) {
      for (int k = 0; k < V; ++k) { if (j < na && i0 + k < db) unit(b.elem(k), i0 + k); else dense(b.elem(k), 9 + i0 + k, mb); }
      auto r = value(f(oa, b)); eval(V);
      for (int k = 0; k < V; ++k) { Ten g = siteTen(r, k), w = ref(ten(oa.elem()), ten(b.elem(k))); if (!same(g, w, TOL)) fail("SL", g, w, fmt("scalar %ld site %ld", j, i0 + k)); }
    }
    transition();
  }
  for (long p = std::max(0L, pairs - (thorough() ? pairs : 2000)); p < pairs + 16; ++p) {
    OA oa; OB ob; setA(oa.elem(), p); setB(ob.elem(), p); auto r = value(f(oa, ob)); eval();
    Ten g = siteTen(r, 0), w = ref(ten(oa.elem()), ten(ob.elem())); if (!same(g, w, TOL)) fail("SS", g, w, fmt("pair %ld", p));
  }
  state(hash(nm)); trace(); outcome(hash(nm)); sample("binary " + nm);
}
template<class A, class F, class G> void una(const std::string& nm, Mode ma, F f, G ref) {
  typedef typename El<A>::T EA; typedef OScalar<EA> OA; cur(nm); Fail fail{nm};
  int da = nwords<EA>(), nd = thorough() ? 512 : 64; int nu = ma == BASIS ? da + da * da : 0;     // units and sums of two units
  auto setA = [&](EA& e, int p) { if (ma == BASIS && p < da) unit(e, p); else if (p < nu) { int i = (p - da) / da, j = (p - da) % da; setWords(e, [&](int k) { return (k == i ? 1.0 : 0.0) + (k == j ? 2.0 : 0.0); }); } else dense(e, p, ma); };
  A a;
  for (int p0 = 0; p0 < nu + nd; p0 += V) {
    for (int k = 0; k < V; ++k) setA(a.elem(k), p0 + k);
    auto r = value(f(a)); eval(V);
    for (int k = 0; k < V; ++k) { Ten g = siteTen(r, k), w = ref(ten(a.elem(k))); if (!same(g, w, TOL)) fail("L", g, w, fmt("case %d", p0 + k)); }
    transition();
  }
  for (int p = std::max(0, nu - 1000); p < nu + 16; ++p) { OA o; setA(o.elem(), p); auto r = value(f(o)); eval(); Ten g = siteTen(r, 0), w = ref(ten(o.elem())); if (!same(g, w, TOL)) fail("S", g, w, fmt("case %d", p)); }
  state(hash(nm)); trace(); outcome(hash(nm)); sample("unary " + nm);
}
#define A1 [](auto& a)
#define A2 [](auto& a, auto& b)
#define R1 [](const Ten& a)
#define R2 [](const Ten& a, const Ten& b)

#endif
