// C07: specialised kernels against the component formula, for every target, scalar and aliasing.
#include "forms.h"
#ifdef VF_THREADED          // the same statements split over threads: a choice of targets, under the thread runtime of C09
#include "omprt.h"
static std::string POL; extern "C" void vft_report(const char* kind, const char* msg) { vf::violation(vf::curcase() + " " + kind, msg); }
#else
static const std::string POL;
#endif
#ifndef PART
#define PART 0
#endif
struct Target { const Subset* s; std::vector<char> in; std::string nm; };   // s null: whole-lattice statement
static std::vector<Set*> keep; static std::vector<Target> T; static int LIGHT;   // first LIGHT targets get all scalar pairs
struct Mask : SetFunc { unsigned long m; bool lex; Mask(unsigned long m_, bool lex_) : m(m_), lex(lex_) {} int operator()(const multi1d<int>& x) const { int i = lex ? c2lex(v1(x), S) : Layout::linearSiteIndex(x); return (m >> i) & 1; } int numSubsets() const { return 2; } };
static void addMask(unsigned long m) { Set* s = new Set; s->make(Mask(m, false)); keep.push_back(s); Target t; t.s = &(*s)[1]; t.in.resize(V); for (int i = 0; i < V; ++i) t.in[i] = m >> i & 1; t.nm = fmt("mask%lx", m); T.push_back(t); }
static bool LARGE = false;   // a long lattice whose site values repeat with period PER: per-site cost is a comparison of words
static const int PER = 7;
template<class E> static inline bool eqw(const E& a, const E& b) { return memcmp(&a, &b, sizeof(E)) == 0 || sameWords(a, b); }
struct Range : SetFunc { int a, b; Range(int a_, int b_) : a(a_), b(b_) {} int operator()(const multi1d<int>& x) const { int i = Layout::linearSiteIndex(x); return i >= a && i < b; } int numSubsets() const { return 2; } };
struct Holes : SetFunc { int m; Holes(int m_) : m(m_) {} int operator()(const multi1d<int>& x) const { return Layout::linearSiteIndex(x) % m != 0; } int numSubsets() const { return 2; } };
static void addLarge(SetFunc& f, const char* nm) { Set* s = new Set; s->make(f); keep.push_back(s); Target t; t.s = &(*s)[1]; t.in.assign(V, 0); for (int i = 0; i < V; ++i) t.in[i] = f(Layout::siteCoords(0, i)); t.nm = nm; T.push_back(t); }
static void targets() {
  Target w; w.s = nullptr; w.in.assign(V, 1); w.nm = "whole"; T.push_back(w); w.s = &all; w.nm = "all"; T.push_back(w);
  for (int p = 0; p < 2; ++p) { Target t; t.s = p ? &odd : &even; t.in.assign(V, 0); for (int i = 0; i < t.s->numSiteTable(); ++i) t.in[t.s->siteTable()[i]] = 1; t.nm = p ? "odd" : "even"; T.push_back(t); }
  LIGHT = 4;
#ifdef VF_THREADED
  for (unsigned long m : {0ul, 0x10ul, 0xEFul, 0x7Eul, 0x55ul, 0x18ul, 0xFFul}) addMask(m & ((1ul << V) - 1)); return;
#endif
  if (LARGE) { T.erase(T.begin() + 1, T.begin() + 3); Range r(1, V - 2); addLarge(r, "range"); Holes h(5); addLarge(h, "holes"); LIGHT = 0; return; }
  if (V <= 8) for (unsigned long m = 0; m < (1ul << V); ++m) addMask(m);
  else {   // every contiguous range; every range with one hole; every pair of sites
    for (int a = 0; a < V; ++a) for (int b = a; b < V; ++b) { unsigned long m = 0; for (int i = a; i <= b; ++i) m |= 1ul << i; addMask(m); }
    for (int a = 0; a < V; ++a) addMask(((1ul << V) - 1) & ~(1ul << a));
    for (int a = 0; a < V; ++a) for (int b = a + 2; b < V; ++b) addMask(1ul << a | 1ul << b);
  }
}
// --- component helpers
static Ten sc(cd z, const Ten& a) { return map1(a, [=](cd x) { return z * x; }); }
static Ten spinwise(const Ten& a, const std::function<cd(int)>& f) { Ten r = a; int n = r.v.size() / 4; for (int s = 0; s < 4; ++s) for (int c = 0; c < n; ++c) r.v[s * n + c] *= f(s); return r; }
static Ten g5(const Ten& a) { return spinwise(a, [](int s) { return s < 2 ? 1. : -1.; }); }
static Ten pp(const Ten& a) { return spinwise(a, [](int s) { return s < 2 ? 1. : 0.; }); }
static Ten pm(const Ten& a) { return spinwise(a, [](int s) { return s < 2 ? 0. : 1.; }); }
static Ten ti(const Ten& a) { return sc(cd(0, 1), a); }
template<class O> void setScalar(O& o, cd z) { int k = 0; words(o.elem(), [&](auto& w) { w = typename std::decay<decltype(w)>::type(k++ ? z.imag() : z.real()); }); }
template<class O> constexpr bool isComplex() { return sizeof(O) > 8 || sizeof(O) == 2 * sizeof(typename WordType<O>::Type_t); }
// --- one statement form.  nf: field operands read (0..2), ns: scalars read
template<class D, class X, class SA> struct Bench {
  D d, d0, y; X x, x0; D y0;
  std::string t; SA a, b; std::vector<cd> vals;
  Bench(const std::string& t_) : t(t_) { for (int i = 0; i < V; ++i) { int j = LARGE ? i % PER : i; dense(d0.elem(i), j + 1, DENSE); dense(x0.elem(i), j + 401, DENSE); dense(y0.elem(i), j + 901, DENSE); }
    if (isComplex<SA>()) vals = {cd(2, -1), cd(0, 1), cd(-1, 0), cd(0, 0), cd(1, 0), cd(1, 3)}; else vals = {2, -1, 1, 0, 0.5, -3}; }
  template<class FS, class FW, class R> void run(const char* nm, int nf, int ns, FS fs, FW fw, R ref, bool pow2 = false) {
    std::string name = POL + nm + " " + t; cur(name); Fail fail{name};
    if (LARGE) return runLarge(name, nf, ns, fs, fw, ref, pow2);
    std::vector<Ten> D0(V), X0(V), Y0(V); for (int i = 0; i < V; ++i) { D0[i] = ten(d0.elem(i)); X0[i] = ten(x0.elem(i)); Y0[i] = ten(y0.elem(i)); }
    std::vector<std::pair<cd, cd>> sp; std::vector<cd> vs = vals; if (pow2) vs = {2, -1, 1, -4, 0.5};
    if (ns == 0) sp = {{1, 1}}; else if (ns == 1) for (cd v : vs) sp.push_back({v, 1}); else for (cd v : vs) for (cd w : vs) sp.push_back({v, w});
#ifdef VF_THREADED
    sp.resize(1);
#endif
    const bool sameT = std::is_same<D, X>::value; const int na = nf == 0 ? 1 : nf == 1 ? (sameT ? 2 : 1) : (sameT ? 5 : 2);
    for (size_t k = 0; k < T.size(); ++k) for (int al = 0; al < na; ++al) for (size_t q = 0; q < sp.size(); ++q) {
      if ((int)k >= LIGHT && ns == 2 && !thorough() && q % 7 != (k % 7) % sp.size()) continue;      // every pair of scalars still meets a seventh of the masks
      for (int i = 0; i < V; ++i) { d.elem(i) = d0.elem(i); x.elem(i) = x0.elem(i); y.elem(i) = y0.elem(i); }
      setScalar(a, sp[q].first); setScalar(b, sp[q].second);
      go(al, std::integral_constant<bool, sameT>(), fs, fw, T[k]);
      transition();
      for (int i = 0; i < V; ++i) { eval(); Ten g = ten(d.elem(i));
        const Ten& xx = sameT && (al == 1 || al == 4) ? D0[i] : sameT && al == 3 ? X0[i] : X0[i];
        const Ten& yy = sameT ? (al == 2 || al == 4 ? D0[i] : al == 3 ? X0[i] : Y0[i]) : (al == 1 ? D0[i] : Y0[i]);
        Ten w = T[k].in[i] ? ref(D0[i], xx, yy, sp[q].first, sp[q].second) : D0[i];
        if (!same(g, w, TOL)) fail("value", g, w, fmt("target %s aliasing %d a=(%g,%g) b=(%g,%g) site %d", T[k].nm.c_str(), al, sp[q].first.real(), sp[q].first.imag(), sp[q].second.real(), sp[q].second.imag(), i)); }
      if (!(sameT && (al == 1 || al == 4))) for (int i = 0; i < V; ++i) if (!sameWords(x.elem(i), x0.elem(i))) fail("operand changed", ten(x.elem(i)), X0[i], T[k].nm);
      if (al == 0) for (int i = 0; i < V; ++i) if (!sameWords(y.elem(i), y0.elem(i))) fail("operand changed", ten(y.elem(i)), Y0[i], T[k].nm);
      state(hash(fmt("%s|%zu|%d|%zu", name.c_str(), k, al, q)));
    }
    trace(); outcome(hash(name)); sample(name);
  }
  template<class FS, class FW, class R> void runLarge(const std::string& name, int nf, int ns, FS fs, FW fw, R ref, bool pow2) {
    Fail fail{name}; std::vector<Ten> D0(PER), X0(PER), Y0(PER); for (int i = 0; i < PER; ++i) { D0[i] = ten(d0.elem(i)); X0[i] = ten(x0.elem(i)); Y0[i] = ten(y0.elem(i)); }
    cd va = isComplex<SA>() ? pow2 ? cd(2, -2) : cd(2, -1) : cd(2), vb = isComplex<SA>() ? cd(-1, 4) : cd(-0.5);
    for (size_t k = 0; k < T.size(); ++k) {
      for (int i = 0; i < V; ++i) { d.elem(i) = d0.elem(i); x.elem(i) = x0.elem(i); y.elem(i) = y0.elem(i); }
      setScalar(a, va); setScalar(b, vb);
      go(0, std::integral_constant<bool, std::is_same<D, X>::value>(), fs, fw, T[k]); transition();
      int first[PER]; for (int c = 0; c < PER; ++c) first[c] = -1;
      for (int i = 0; i < V; ++i) { int c = i % PER;
        if (!T[k].in[i]) { if (!eqw(d.elem(i), d0.elem(i))) { fail("outside", ten(d.elem(i)), D0[c], fmt("target %s of %d sites, site %d", T[k].nm.c_str(), V, i)); break; } continue; }
        if (first[c] < 0) { first[c] = i; eval(); Ten g = ten(d.elem(i)), w = ref(D0[c], X0[c], Y0[c], va, vb); if (!same(g, w, TOL)) { fail("value", g, w, fmt("target %s of %d sites, site %d", T[k].nm.c_str(), V, i)); break; } }
        else if (!eqw(d.elem(i), d.elem(first[c]))) { fail("value", ten(d.elem(i)), ten(d.elem(first[c])), fmt("target %s of %d sites, site %d against site %d with the same operands", T[k].nm.c_str(), V, i, first[c])); break; } }
      for (int i = 0; i < V; ++i) if (!eqw(x.elem(i), x0.elem(i)) || !eqw(y.elem(i), y0.elem(i))) { fail("operand changed", ten(x.elem(i)), X0[i % PER], fmt("%s site %d", T[k].nm.c_str(), i)); break; }
      eval(V); state(hash(fmt("%s|%zu|large", name.c_str(), k)));
    }
    trace(); outcome(hash(name)); sample(name);
  }
  template<class FS, class FW> void go(int al, std::true_type, FS fs, FW fw, Target& t) {
    D& X_ = al == 1 || al == 4 ? d : x; D& Y_ = al == 2 || al == 4 ? d : al == 3 ? x : y;
    if (t.s) fs(d, X_, Y_, a, b, *t.s); else fw(d, X_, Y_, a, b); }
  template<class FS, class FW> void go(int al, std::false_type, FS fs, FW fw, Target& t) {
    D& Y_ = al == 1 ? d : y;
    if (t.s) fs(d, x, Y_, a, b, *t.s); else fw(d, x, Y_, a, b); }
};
#define F(nf, ns, op, e, r) B.run("d " #op " " #e, nf, ns, [](auto& d, auto& x, auto& y, auto& a, auto& b, const Subset& s) { d[s] op e; }, [](auto& d, auto& x, auto& y, auto& a, auto& b) { d op e; }, [](const Ten& d, const Ten& x, const Ten& y, cd a, cd b) -> Ten { return r; });
#define FP(nf, ns, op, e, r) B.run("d " #op " " #e, nf, ns, [](auto& d, auto& x, auto& y, auto& a, auto& b, const Subset& s) { d[s] op e; }, [](auto& d, auto& x, auto& y, auto& a, auto& b) { d op e; }, [](const Ten& d, const Ten& x, const Ten& y, cd a, cd b) -> Ten { return r; }, true);
template<class L, class SA> void blas1(const std::string& t) { Bench<L, L, SA> B(t);
  F(1, 1, +=, a * x, d + sc(a, x)) F(1, 1, -=, a * x, d - sc(a, x)) F(1, 1, +=, x * a, d + sc(a, x)) F(1, 1, -=, x * a, d - sc(a, x))
  F(2, 1, =, a * x + y, sc(a, x) + y) F(2, 1, =, y + a * x, y + sc(a, x)) F(2, 1, =, a * x - y, sc(a, x) - y) F(2, 1, =, y - a * x, y - sc(a, x))
  F(2, 1, =, x * a + y, sc(a, x) + y) F(2, 1, =, y + x * a, y + sc(a, x)) F(2, 1, =, x * a - y, sc(a, x) - y) F(2, 1, =, y - x * a, y - sc(a, x))
  F(1, 1, =, a * x, sc(a, x)) F(1, 1, =, x * a, sc(a, x)) F(0, 1, *=, a, sc(a, d)) }
template<class L, class SA> void blas2(const std::string& t) { Bench<L, L, SA> B(t);
  F(2, 2, =, a * x + b * y, sc(a, x) + sc(b, y)) F(2, 2, =, x * a + b * y, sc(a, x) + sc(b, y)) F(2, 2, =, a * x + y * b, sc(a, x) + sc(b, y)) F(2, 2, =, x * a + y * b, sc(a, x) + sc(b, y))
  F(2, 2, =, a * x - b * y, sc(a, x) - sc(b, y)) F(2, 2, =, x * a - b * y, sc(a, x) - sc(b, y)) F(2, 2, =, a * x - y * b, sc(a, x) - sc(b, y)) F(2, 2, =, x * a - y * b, sc(a, x) - sc(b, y)) }
template<class L, class SA> void blas0(const std::string& t) { Bench<L, L, SA> B(t);
  F(1, 0, =, x, x) F(1, 0, +=, x, d + x) F(1, 0, -=, x, d - x) F(2, 0, =, x + y, x + y) F(2, 0, =, x - y, x - y) FP(0, 1, /=, a, sc(cd(1) / a, d)) F(1, 0, =, -x, sc(-1, x)) }
#define G5 GammaConst<4, 15>()
template<class L, class SA> void gam1(const std::string& t) { Bench<L, L, SA> B(t);
#define CH(P, p) F(1, 1, +=, a * P(x), d + sc(a, p(x))) F(1, 1, -=, a * P(x), d - sc(a, p(x))) F(1, 0, +=, P(x), d + p(x)) F(1, 0, -=, P(x), d - p(x)) F(1, 0, =, P(x), p(x)) \
  F(2, 1, =, x + a * P(y), x + sc(a, p(y))) F(2, 1, =, x - a * P(y), x - sc(a, p(y))) F(2, 1, =, a * x + P(y), sc(a, x) + p(y)) F(2, 1, =, a * x - P(y), sc(a, x) - p(y)) \
  F(1, 1, =, a * P(x), sc(a, p(x))) F(2, 2, =, a * x + b * P(y), sc(a, x) + sc(b, p(y))) F(2, 2, =, a * x - b * P(y), sc(a, x) - sc(b, p(y)))
  CH(chiralProjectPlus, pp) CH(chiralProjectMinus, pm) }
template<class L, class SA> void gam2(const std::string& t) { Bench<L, L, SA> B(t);
  F(1, 1, =, a * (G5 * x), sc(a, g5(x))) F(2, 1, =, x - a * (G5 * y), x - sc(a, g5(y))) F(2, 1, =, x + a * (G5 * y), x + sc(a, g5(y))) F(2, 2, =, a * x + b * (G5 * y), sc(a, x) + sc(b, g5(y))) F(2, 2, =, a * x - b * (G5 * y), sc(a, x) - sc(b, g5(y)))
  F(2, 2, =, G5 * (a * x - b * y), g5(sc(a, x) - sc(b, y))) F(2, 2, =, G5 * (a * x + b * y), g5(sc(a, x) + sc(b, y)))
  F(2, 2, =, a * x + b * (G5 * timesI(y)), sc(a, x) + sc(b, g5(ti(y)))) F(2, 2, =, a * x - b * (G5 * timesI(y)), sc(a, x) - sc(b, g5(ti(y))))
  F(2, 1, =, x + a * (G5 * timesI(y)), x + sc(a, g5(ti(y)))) F(2, 1, =, x - a * (G5 * timesI(y)), x - sc(a, g5(ti(y))))
  F(1, 1, +=, a * (G5 * timesI(x)), d + sc(a, g5(ti(x)))) F(1, 1, -=, a * (G5 * timesI(x)), d - sc(a, g5(ti(x)))) F(1, 0, +=, G5 * x, d + g5(x)) F(1, 0, =, G5 * timesI(x), g5(ti(x))) }
template<class M> void mats(const std::string& t) { Bench<M, M, Real> B(t);
#define MM(op, W) F(2, 0, op, x * y, W(x * y)) F(2, 0, op, adj(x) * y, W(adjT(x) * y)) F(2, 0, op, x * adj(y), W(x * adjT(y))) F(2, 0, op, adj(x) * adj(y), W(adjT(x) * adjT(y)))
  MM(=, ) MM(+=, d +) MM(-=, d -) F(1, 0, =, d * x, d * x) F(1, 0, =, x * d, x * d) F(0, 0, =, d * d, d * d) F(1, 0, =, adj(x), adjT(x)) F(1, 0, +=, adj(x), d + adjT(x)) }
template<class VT, class M> void matvec(const std::string& t) { Bench<VT, M, Real> B(t);
#define MV(op, W) F(2, 0, op, x * y, W(x * y)) F(2, 0, op, adj(x) * y, W(adjT(x) * y)) F(2, 0, op, x * y + y, W(x * y + y)) F(2, 0, op, adj(x) * (x * y), W(adjT(x) * (x * y)))
  MV(=, ) MV(+=, d +) MV(-=, d -) }
// norms and inner products of fields, arrays of fields and aliased arguments
template<class L> void norms(const std::string& t) {
  L x, y; multi1d<L> xs(3), ys(3); for (int i = 0; i < V; ++i) { int j = LARGE ? i % PER : i; dense(x.elem(i), j + 1, DENSE); dense(y.elem(i), j + 71, DENSE); for (int k = 0; k < 3; ++k) { dense(xs[k].elem(i), j + 100 * k + 1, DENSE); dense(ys[k].elem(i), j + 100 * k + 51, DENSE); } }
  auto dot = [](const Ten& a, const Ten& b) { cd r = 0; for (size_t k = 0; k < a.v.size(); ++k) r += std::conj(a.v[k]) * b.v[k]; return r; };
  auto cmp = [&](const char* nm, const std::string& tg, auto& got, cd want) { eval(); transition(); std::vector<double> w = wordsOf(got.elem()); cd g(w[0], w.size() > 1 ? w[1] : 0); check(g == (w.size() > 1 ? want : cd(want.real(), 0)), std::string(nm) + " " + t, fmt("target %s got (%g,%g) want (%g,%g)", tg.c_str(), g.real(), g.imag(), want.real(), want.imag())); state(hash(nm + t + tg)); };
  for (auto& g : T) {
    cur(POL + "norms " + t + " " + g.nm); cd n = 0, p = 0, q = 0, nn = 0, pq = 0, xx = 0;
    for (int i = 0; i < V; ++i) if (g.in[i]) { Ten a = ten(x.elem(i)), b = ten(y.elem(i)); n += dot(a, a); p += dot(a, b); q += dot(b, a); for (int k = 0; k < 3; ++k) { Ten c = ten(xs[k].elem(i)), e = ten(ys[k].elem(i)); nn += dot(c, c); pq += dot(c, e); xx += dot(c, a); } }
#define N1(label, fn, w, ...) { auto r = fn(__VA_ARGS__); if (g.s) r = fn(__VA_ARGS__, *g.s); cmp(label, g.nm, r, w); }
    N1("norm2(x)", norm2, n, x) N1("innerProduct(x,y)", innerProduct, p, x, y) N1("innerProduct(y,x)", innerProduct, q, y, x) N1("innerProduct(x,x)", innerProduct, n, x, x)
    N1("innerProductReal(x,y)", innerProductReal, p, x, y) N1("innerProductReal(x,x)", innerProductReal, n, x, x)
    N1("norm2(xs)", norm2, nn, xs) N1("innerProduct(xs,ys)", innerProduct, pq, xs, ys) N1("innerProductReal(xs,ys)", innerProductReal, pq, xs, ys) N1("innerProduct(xs,xs)", innerProduct, nn, xs, xs)
  }
  trace(); outcome(hash("norms" + t));
}
static void go(Pool& pool) {
  IV s(Nd, 1); s[0] = 2; s[1] = 2; s[2] = 2; if (getenv("C07_BIG")) s[1] = 4; if (getenv("C07_LARGE")) { LARGE = true; s[3] = atoi(getenv("C07_LARGE")); }
  S = s; V = volume(s); lattice(s); targets();
#define J(...) pool.run("kernel", [=] { __VA_ARGS__; });
#define VEC(L, SA) { std::string t = #L "/" #SA; J(blas1<L, SA>(t)) J(blas2<L, SA>(t)) J((blas0<L, SA>(t))) }
#if PART == 0
  VEC(LatticeFermion, Real) J(norms<LatticeFermion>("LatticeFermion"))
#elif PART == 1
  VEC(LatticeFermion, Complex)
#elif PART == 2
  J(gam1<LatticeFermion, Real>("LatticeFermion/Real")) 
#elif PART == 3
  J(gam2<LatticeFermion, Real>("LatticeFermion/Real")) 
#elif PART == 4
  J(mats<LatticeColorMatrix>("LatticeColorMatrix")) VEC(LatticeColorMatrix, Real) J(norms<LatticeColorMatrix>("LatticeColorMatrix"))
#elif PART == 5
  J(matvec<LatticeHalfFermion, LatticeColorMatrix>("half")) J(matvec<LatticeFermion, LatticeColorMatrix>("ferm")) J(matvec<LatticeColorVector, LatticeColorMatrix>("colorvec")) J(matvec<LatticeStaggeredFermion, LatticeColorMatrix>("stag")) J(matvec<LatticePropagator, LatticeColorMatrix>("prop"))
#elif PART == 6
  VEC(LatticeStaggeredFermion, Real) VEC(LatticeHalfFermion, Complex) J(norms<LatticeStaggeredFermion>("LatticeStaggeredFermion")) J(norms<LatticeHalfFermion>("LatticeHalfFermion"))
#elif PART == 7
  // the other precision's fields and scalars
  VEC(LatticeFermionD, RealD) J(norms<LatticeFermionD>("LatticeFermionD")) VEC(LatticeFermionF, RealF) J(norms<LatticeFermionF>("LatticeFermionF"))
#elif PART == 8
  VEC(LatticeColorMatrixD, RealD) J(mats<LatticeColorMatrixD>("LatticeColorMatrixD")) J(mats<LatticeColorMatrixF>("LatticeColorMatrixF")) J(matvec<LatticeHalfFermionD, LatticeColorMatrixD>("halfD")) J(matvec<LatticeFermionD, LatticeColorMatrixD>("fermD"))
#elif PART == 9
  J(gam1<LatticeFermionD, RealD>("LatticeFermionD/RealD")) J(gam2<LatticeFermionD, RealD>("LatticeFermionD/RealD"))
  VEC(LatticeFermionD, ComplexD)
#endif
}
#ifdef VF_THREADED
int main(int argc, char** argv) {
  init(argc, argv); vft_policy(8, 0, 0, 0); startup(); Pool pool(700);
  int pol[][3] = {{2, 0, 0}, {3, 0, 1}, {4, 3, 0}, {5, 0, 0}, {8, 0, 1}, {7, 0, 0}, {6, 0, 1}, {3, 1, 0}};
  for (int k = 0; k < (thorough() ? 8 : 5); ++k) { vft_policy(pol[k][0], pol[k][1], pol[k][2], pol[k][0] <= 3); POL = fmt("%d threads%s%s ", pol[k][0], pol[k][1] ? fmt(" team %d", pol[k][1]).c_str() : "", pol[k][2] ? " descending" : ""); T.clear(); go(pool); pool.drain(); }
  return finish(); }
#else
int main(int argc, char** argv) { init(argc, argv); startup(); Pool pool(700); go(pool); pool.drain(); return finish(); }
#endif
