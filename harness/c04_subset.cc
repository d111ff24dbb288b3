// C04: operations directed at a subset change exactly the subset's sites.
// Every 2-colouring of a small lattice gives a subset; every operation form is
// applied under it and judged site by site against the single-site operation.
#include "lat.h"
using namespace QDP; using namespace vf;

struct TableFunc : public SetFunc { std::vector<int> col; IV s; TableFunc(const std::vector<int>& c, const IV& s_) : col(c), s(s_) {}
  int operator()(const multi1d<int>& x) const override { return col[c2lex(v1(x), s)]; } int numSubsets() const override { return 2; } };

static IV S; static int V; static std::vector<int> lin; static std::vector<int> inS; static std::string ctx;
static std::vector<int> order;              // site table of the subset

template<class E, class W> static bool sameElem(const E& a, const E& b) { return sameWords(a, b); }
template<class L, class W> static void fill(L& f, int salt, int lo, int hi) {   // exact small values
  typedef typename std::decay<decltype(f.elem(0))>::type E;
  memset((void*)f.getF(), 0, V * sizeof(E));
  for (int i = 0; i < V; ++i) { int k = 0; words(f.elem(i), [&](auto& w) { w = W(lo + (int)((i * 7 + k * 3 + salt * 5 + (i * k) % 4) % (hi - lo + 1))); ++k; }); }
}

// L: field, O: single-site object.  `apply(dest)` performs the subset operation,
// `ref(site object, linear site)` the operation on that site alone.
template<class L, class O, class W, class A, class R> static void judge(const char* key, int lo, int hi, A&& apply, R&& ref) {
  L d; fill<L, W>(d, 1, lo, hi); L d0; fill<L, W>(d0, 1, lo, hi);
  apply(d); eval();
  typedef typename std::decay<decltype(d.elem(0))>::type E;
  for (int i = 0; i < V; ++i) {
    if (!inS[i]) { if (memcmp(&d.elem(i), &d0.elem(i), sizeof(E))) { violation(std::string("outside-changed:") + key, ctx + fmt(": linear site %d outside the subset changed", i)); return; } }
    else { O o; o.elem() = d0.elem(i); ref(o, i); if (!sameElem<E, W>(o.elem(), d.elem(i))) { violation(std::string("inside:") + key, ctx + fmt(": linear site %d has the wrong value", i)); return; } }
  }
  state(hash(ctx + key));
}
// a sub-lattice that owns its storage
template<class L, class SL, class O, class W, class A, class R> static void judgeOwn(const char* key, const Subset& ss, int lo, int hi, A&& apply, R&& ref) {
  L d0; fill<L, W>(d0, 1, lo, hi); SL o(ss, d0); SL before(o);
  apply(o); eval();
  typedef typename std::decay<decltype(d0.elem(0))>::type E;
  for (size_t j = 0; j < order.size(); ++j) {
    O x; x.elem() = d0.elem(order[j]); if (!sameElem<E, W>(before.getF()[j], x.elem())) { violation(std::string("copy-shares:") + key, ctx + fmt(": position %d of a copy changed", (int)j)); return; }
    ref(x, order[j]); if (!sameElem<E, W>(x.elem(), o.getF()[j])) { violation(std::string("own:") + key, ctx + fmt(": position %d (site %d) of an owning sub-lattice is wrong", (int)j, order[j])); return; }
  }
  L back; fill<L, W>(back, 3, lo, hi); L b0; fill<L, W>(b0, 3, lo, hi); back = o;      // scatter
  for (int i = 0; i < V; ++i) if (!inS[i] && memcmp(&back.elem(i), &b0.elem(i), sizeof(E))) { violation(std::string("own-scatter-outside:") + key, ctx); return; }
  for (size_t j = 0; j < order.size(); ++j) if (!sameElem<E, W>(back.elem(order[j]), o.getF()[j])) { violation(std::string("own-scatter:") + key, ctx); return; }
}

#define OPS_ALL(X) X("=", =) X("+=", +=) X("-=", -=) X("*=", *=) X("/=", /=) X("%=", %=) X("|=", |=) X("&=", &=) X("^=", ^=) X("<<=", <<=) X(">>=", >>=)
#define OPS_ADD(X) X("=", =) X("+=", +=) X("-=", -=)
#define OPS_SCL(X) X("*=", *=) X("/=", /=)

template<class L, class O, class W> static void additive(const char* ty, const Subset& ss, int lo, int hi) {
  L b, c; fill<L, W>(b, 2, lo, hi); fill<L, W>(c, 4, lo, hi);
  O sc; { L t; fill<L, W>(t, 6, lo, hi); sc.elem() = t.elem(V - 1); }
  std::string T(ty);
#define X(nm, op) \
  judge<L, O, W>((T + nm + "field").c_str(), lo, hi, [&](L& d) { d[ss] op b; }, [&](O& o, int i) { O r; r.elem() = b.elem(i); o op r; }); \
  judge<L, O, W>((T + nm + "expr").c_str(), lo, hi, [&](L& d) { d[ss] op b + c; }, [&](O& o, int i) { O r, q; r.elem() = b.elem(i); q.elem() = c.elem(i); o op r + q; }); \
  judge<L, O, W>((T + nm + "site-object").c_str(), lo, hi, [&](L& d) { d[ss] op sc; }, [&](O& o, int) { o op sc; }); \
  judge<L, O, W>((T + nm + "site-expr").c_str(), lo, hi, [&](L& d) { d[ss] op sc - sc + sc; }, [&](O& o, int) { o op sc; });
  OPS_ADD(X)
#undef X
  judge<L, O, W>((T + "=zero").c_str(), lo, hi, [&](L& d) { d[ss] = zero; }, [&](O& o, int) { zero_rep(o.elem()); });
  judge<L, O, W>((T + "zero_rep").c_str(), lo, hi, [&](L& d) { zero_rep(d, ss); }, [&](O& o, int) { zero_rep(o.elem()); });
  judge<L, O, W>((T + "=-expr-view").c_str(), lo, hi, [&](L& d) { OSubLattice<typename std::decay<decltype(d.elem(0))>::type> v(d[ss]); v = b - c; }, [&](O& o, int i) { O r, q; r.elem() = b.elem(i); q.elem() = c.elem(i); o = r - q; });
  // value extraction and insertion
  judge<L, O, W>((T + "insert").c_str(), lo, hi, [&](L& d) { multi1d<O> a(V); for (int i = 0; i < V; ++i) a[i].elem() = b.elem(i); QDP_insert(d, a, ss); }, [&](O& o, int i) { o.elem() = b.elem(i); });
  judge<L, O, W>((T + "extract").c_str(), lo, hi, [&](L& d) { multi1d<O> a(V); for (int i = 0; i < V; ++i) a[i].elem() = d.elem(i); QDP_extract(a, b, ss); for (int i = 0; i < V; ++i) d.elem(i) = a[i].elem(); }, [&](O& o, int i) { o.elem() = b.elem(i); });
  // masks: every mask that agrees with bits of the operand pattern
  for (int m = 0; m < 5; ++m) {
    LatticeBoolean mask; for (int i = 0; i < V; ++i) mask.elem(i).elem().elem().elem() = m == 0 ? true : m == 1 ? false : m == 2 ? (i & 1) : m == 3 ? ((i * 5 + 1) % 3 == 0) : (i == V - 1);
    auto mk = [&](int i) { return mask.elem(i).elem().elem().elem(); };
    judge<L, O, W>((T + "copymask").c_str(), lo, hi, [&](L& d) { copymask(d[ss], mask, b); }, [&](O& o, int i) { if (mk(i)) o.elem() = b.elem(i); });
    std::vector<int> keep = inS; for (auto& e : inS) e = 1;
    judge<L, O, W>((T + "copymask-all").c_str(), lo, hi, [&](L& d) { copymask(d, mask, b); }, [&](O& o, int i) { if (mk(i)) o.elem() = b.elem(i); });
    inS = keep;
  }
}
template<class L, class SL, class O, class W> static void owning(const char* ty, const Subset& ss, int lo, int hi) {
  L b, c; fill<L, W>(b, 2, lo, hi); fill<L, W>(c, 4, lo, hi); std::string T(ty);
  O sc; sc.elem() = c.elem(0);
#define X(nm, op) \
  judgeOwn<L, SL, O, W>((T + nm + "field").c_str(), ss, lo, hi, [&](SL& d) { d op b; }, [&](O& o, int i) { O r; r.elem() = b.elem(i); o op r; }); \
  judgeOwn<L, SL, O, W>((T + nm + "expr").c_str(), ss, lo, hi, [&](SL& d) { d op b + c; }, [&](O& o, int i) { O r, q; r.elem() = b.elem(i); q.elem() = c.elem(i); o op r + q; }); \
  judgeOwn<L, SL, O, W>((T + nm + "site-object").c_str(), ss, lo, hi, [&](SL& d) { d op sc; }, [&](O& o, int) { o op sc; });
  OPS_ADD(X)
#undef X
  judgeOwn<L, SL, O, W>((T + "=zero").c_str(), ss, lo, hi, [&](SL& d) { d = zero; }, [&](O& o, int) { zero_rep(o.elem()); });
  judgeOwn<L, SL, O, W>((T + "=own").c_str(), ss, lo, hi, [&](SL& d) { SL e(ss, b); d = e; e = zero; }, [&](O& o, int i) { o.elem() = b.elem(i); });
  judgeOwn<L, SL, O, W>((T + "=copy").c_str(), ss, lo, hi, [&](SL& d) { SL e(d); d += b; e += b; SL g(e); e = zero; d = g; }, [&](O& o, int i) { O r; r.elem() = b.elem(i); o += r; });
  judgeOwn<L, SL, O, W>((T + "=setSubset").c_str(), ss, lo, hi, [&](SL& d) { SL e; e.setSubset(ss); e = b; d = e; e.setSubset(all); e = c; }, [&](O& o, int i) { o.elem() = b.elem(i); });
  LatticeBoolean mask; for (int i = 0; i < V; ++i) mask.elem(i).elem().elem().elem() = (i * 3) % 4 < 2;
  judgeOwn<L, SL, O, W>((T + "copymask").c_str(), ss, lo, hi, [&](SL& d) { copymask(d, mask, b); }, [&](O& o, int i) { if (mask.elem(i).elem().elem().elem()) o.elem() = b.elem(i); });
  { SL o(ss, b); O t = sum(o); O r; zero_rep(r.elem()); for (int i : order) { O e; e.elem() = b.elem(i); r += e; }
    typedef typename std::decay<decltype(b.elem(0))>::type E; if (!sameElem<E, W>(t.elem(), r.elem())) violation("own-sum:" + T, ctx); eval(); }
}

static void integers(const Subset& ss) {
  typedef LatticeInteger L; typedef Integer O; typedef int W;
  additive<L, O, W>("int", ss, -20, 20);
  L b, c; fill<L, W>(b, 2, 1, 6); fill<L, W>(c, 4, 0, 3);
  Integer three = 3;
  auto iv = [](const L& f, int i) { return f.elem(i).elem().elem().elem(); };
#define X(nm, op) \
  judge<L, O, W>("int" nm "field", 0, 40, [&](L& d) { d[ss] op b; }, [&](O& o, int i) { int v = o.elem().elem().elem().elem(); v op iv(b, i); o.elem().elem().elem().elem() = v; }); \
  judge<L, O, W>("int" nm "expr", 0, 40, [&](L& d) { d[ss] op b + c; }, [&](O& o, int i) { int v = o.elem().elem().elem().elem(); v op iv(b, i) + iv(c, i); o.elem().elem().elem().elem() = v; }); \
  judge<L, O, W>("int" nm "literal", 0, 40, [&](L& d) { d[ss] op 3; }, [&](O& o, int) { int v = o.elem().elem().elem().elem(); v op 3; o.elem().elem().elem().elem() = v; }); \
  judge<L, O, W>("int" nm "site-object", 0, 40, [&](L& d) { d[ss] op three; }, [&](O& o, int) { int v = o.elem().elem().elem().elem(); v op 3; o.elem().elem().elem().elem() = v; }); \
  judge<L, O, W>("int" nm "site-expr", 0, 40, [&](L& d) { d[ss] op three + three; }, [&](O& o, int) { int v = o.elem().elem().elem().elem(); v op 6; o.elem().elem().elem().elem() = v; }); \
  judgeOwn<L, SubLatticeInteger, O, W>("int" nm "field", ss, 0, 40, [&](SubLatticeInteger& d) { d op b; }, [&](O& o, int i) { int v = o.elem().elem().elem().elem(); v op iv(b, i); o.elem().elem().elem().elem() = v; }); \
  judgeOwn<L, SubLatticeInteger, O, W>("int" nm "literal", ss, 0, 40, [&](SubLatticeInteger& d) { d op 3; }, [&](O& o, int) { int v = o.elem().elem().elem().elem(); v op 3; o.elem().elem().elem().elem() = v; });
  OPS_ALL(X)
#undef X
  // the whole lattice as target (no brackets)
  std::vector<int> keep = inS; for (auto& e : inS) e = 1;
#define X(nm, op) \
  judge<L, O, W>("int-whole" nm "field", 0, 40, [&](L& d) { d op b; }, [&](O& o, int i) { int v = o.elem().elem().elem().elem(); v op iv(b, i); o.elem().elem().elem().elem() = v; }); \
  judge<L, O, W>("int-whole" nm "expr", 0, 40, [&](L& d) { d op b + c; }, [&](O& o, int i) { int v = o.elem().elem().elem().elem(); v op iv(b, i) + iv(c, i); o.elem().elem().elem().elem() = v; }); \
  judge<L, O, W>("int-whole" nm "literal", 0, 40, [&](L& d) { d op 3; }, [&](O& o, int) { int v = o.elem().elem().elem().elem(); v op 3; o.elem().elem().elem().elem() = v; });
  OPS_ALL(X)
#undef X
  inS = keep;
  // booleans
  LatticeBoolean x, y; for (int i = 0; i < V; ++i) { x.elem(i).elem().elem().elem() = (i * 3) % 5 < 2; y.elem(i).elem().elem().elem() = i % 3 == 1; }
  auto bv = [](const LatticeBoolean& f, int i) { return (bool)f.elem(i).elem().elem().elem(); };
  for (int op = 0; op < 3; ++op) {
    LatticeBoolean d = x; if (op == 0) d[ss] = y; else if (op == 1) d[ss] |= y; else d[ss] &= y; eval();
    for (int i = 0; i < V; ++i) { bool w = bv(x, i); if (inS[i]) w = op == 0 ? bv(y, i) : op == 1 ? (w || bv(y, i)) : (w && bv(y, i)); if (bv(d, i) != w) { violation(fmt("bool-op%d", op), ctx); break; } }
  }
}
template<class L, class O, class W> static void scaled(const char* ty, const Subset& ss) {
  std::string T(ty); LatticeReal b; fill<LatticeReal, REAL>(b, 2, 1, 1); for (int i = 0; i < V; ++i) b.elem(i).elem().elem().elem() = REAL(1 << (i % 4)); Real two = 2.0;
#define X(nm, op) \
  judge<L, O, W>((T + nm + "real-field").c_str(), -30, 30, [&](L& d) { d[ss] op b; }, [&](O& o, int i) { Real r; r.elem() = b.elem(i); o op r; }); \
  judge<L, O, W>((T + nm + "real-expr").c_str(), -30, 30, [&](L& d) { d[ss] op b + b; }, [&](O& o, int i) { Real r; r.elem() = b.elem(i); o op r + r; }); \
  judge<L, O, W>((T + nm + "real").c_str(), -30, 30, [&](L& d) { d[ss] op two; }, [&](O& o, int) { o op two; }); \
  judge<L, O, W>((T + nm + "literal").c_str(), -30, 30, [&](L& d) { d[ss] op 4.0; }, [&](O& o, int) { Real r = 4.0; o op r; });
  OPS_SCL(X)
#undef X
}
template<class L, class O, class W> static void cscaled(const char* ty, const Subset& ss) {
  std::string T(ty);
  { LatticeComplex z; fill<LatticeComplex, REAL>(z, 3, -3, 3);
    judge<L, O, W>((T + "=complex*field").c_str(), -30, 30, [&](L& d) { L e(d); d[ss] = z * e; }, [&](O& o, int i) { Complex q; q.elem() = z.elem(i); O e; e = q * o; o = e; }); }
}
template<class L, class W> static void randoms(const char* ty, const Subset& ss) {
  std::string T(ty); typedef typename std::decay<decltype(L().elem(0))>::type E;
  for (int g = 0; g < 2; ++g) for (int form = 0; form < 2; ++form) {
    Seed s0; QDP::Seed sd; RNG::savern(s0);
    L full; if (g) gaussian(full); else random(full);
    Seed after; RNG::savern(after); RNG::setrn(s0);
    L d, d0; fill<L, W>(d, 1, -9, 9); fill<L, W>(d0, 1, -9, 9);
    if (form) { if (g) gaussian(d, ss); else random(d, ss); } else { if (g) gaussian(d[ss]); else random(d[ss]); }
    RNG::setrn(after); eval();
    for (int i = 0; i < V; ++i) {
      bool ok = bitsEqual(d.elem(i), inS[i] ? full.elem(i) : d0.elem(i));
      if (!ok) { violation((inS[i] ? "inside:" : "outside-changed:") + T + (g ? "gaussian" : "random") + (form ? "(d,s)" : "(d[s])"), ctx + fmt(" linear site %d", i)); break; }
    }
  }
}

static void scalarViews(const Subset& ss) {
  Real r; r = 1.0; r[ss] = Real(2.0); if (toDouble(r) != 2.0) violation("scalar-object[subset]=", ctx);
  Integer n; n = 1; n[ss] += Integer(2); if (toInt(n) != 3) violation("scalar-object[subset]+=", ctx);
  eval();
}
// peekSite / pokeSite address exactly one site
template<class L, class O, class W> static void sites(const char* ty, const IV& s) {
  L d; fill<L, W>(d, 1, -20, 20); L v; fill<L, W>(v, 2, -20, 20); L want; fill<L, W>(want, 1, -20, 20);
  typedef typename std::decay<decltype(d.elem(0))>::type E;
  int step = V <= 300 ? 1 : V / 211; long n = 0;
  for (int l = V - 1; l >= 0; l -= step, ++n) {
    auto c = m1(lex2c(l, s)); int i = Layout::linearSiteIndex(c);
    O x = peekSite(d, c); if (!sameElem<E, W>(x.elem(), want.elem(i))) { violation(std::string("peekSite:") + ty, "shape " + str(s) + fmt(": site %d", l)); return; }
    O y; y.elem() = v.elem(i); pokeSite(d, y, c); want.elem(i) = v.elem(i);
    if (n < 64 && memcmp(d.getF(), want.getF(), V * sizeof(E))) { violation(std::string("pokeSite:") + ty, "shape " + str(s) + fmt(": after poking site %d", l)); return; }
  }
  if (memcmp(d.getF(), want.getF(), V * sizeof(E))) violation(std::string("pokeSite:") + ty, "shape " + str(s) + ": other sites changed");
  eval(2 * n); transition(n); trace();
}
static void siteRun(const IV& s) {
  S = s; V = volume(s); lattice(s); ctx = "shape " + str(s) + " single sites"; cur(ctx);
  sites<LatticeInteger, Integer, int>("int", s); sites<LatticeReal, Real, REAL>("real", s); sites<LatticeComplex, Complex, REAL>("complex", s); sites<LatticeColorMatrix, ColorMatrix, REAL>("colmat", s);
  if (V < 8000) { sites<LatticeFermion, Fermion, REAL>("ferm", s); sites<LatticePropagator, Propagator, REAL>("prop", s); sites<LatticeDouble, Double, DOUBLE>("double", s); }
  state(hash(ctx));
}
static void run(const IV& s, int lo, int hi, bool big) {
  S = s; V = volume(s); lattice(s); lin.clear(); for (int l = 0; l < V; ++l) lin.push_back(Layout::linearSiteIndex(m1(lex2c(l, s))));
  { LatticeReal w; random(w); }                 // the generator is in use
  for (int code = lo; code < hi; ++code) {
    std::vector<int> col(V); for (int l = 0; l < V; ++l) { int i = lin[l]; col[l] = code >= 0 ? (code >> (l % 30)) & 1 : code == -1 ? i >= V / 7 && i < V - 5 : code == -2 ? i != V / 2 : code == -3 ? i == V - 1 : code == -4 ? 1 : code == -5 ? i < V / 2 || i == V - 1 : i % 257 == 3; }
    ctx = "shape " + str(s) + " subset " + (V > 100 ? fmt("%d", code) : str(col)); cur(ctx);
    Set set; set.make(TableFunc(col, s)); const Subset& ss = set[1];
    inS.assign(V, 0); order.clear(); for (int i = 0; i < ss.numSiteTable(); ++i) { order.push_back(ss.siteTable()[i]); }
    for (int l = 0; l < V; ++l) inS[lin[l]] = col[l];
    if (V > 7000 && !thorough()) { additive<LatticeInteger, Integer, int>("int", ss, -20, 20); additive<LatticeReal, Real, REAL>("real", ss, -20, 20); owning<LatticeInteger, SubLatticeInteger, Integer, int>("int", ss, -20, 20); if (!order.empty()) randoms<LatticeReal, REAL>("real", ss); transition(); trace(); outcome(hash(ctx)); continue; }
    integers(ss); scalarViews(ss);
    additive<LatticeReal, Real, REAL>("real", ss, -20, 20);
    additive<LatticeComplex, Complex, REAL>("complex", ss, -20, 20);
    additive<LatticeColorMatrix, ColorMatrix, REAL>("colmat", ss, -20, 20);
    additive<LatticeFermion, Fermion, REAL>("ferm", ss, -20, 20);
    owning<LatticeInteger, SubLatticeInteger, Integer, int>("int", ss, -20, 20);
    owning<LatticeColorMatrix, SubLatticeColorMatrix, ColorMatrix, REAL>("colmat", ss, -20, 20);
    scaled<LatticeReal, Real, REAL>("real", ss);
    scaled<LatticeColorMatrix, ColorMatrix, REAL>("colmat", ss);
    scaled<LatticeFermion, Fermion, REAL>("ferm", ss);
    cscaled<LatticeComplex, Complex, REAL>("complex", ss); cscaled<LatticeColorMatrix, ColorMatrix, REAL>("colmat", ss); cscaled<LatticeFermion, Fermion, REAL>("ferm", ss);
    if (!order.empty()) { randoms<LatticeReal, REAL>("real", ss); randoms<LatticeColorMatrix, REAL>("colmat", ss); }
    if (big || code % 16 == 5) {
      additive<LatticePropagator, Propagator, REAL>("prop", ss, -20, 20);
      additive<LatticeSpinMatrix, SpinMatrix, REAL>("spinmat", ss, -20, 20);
      additive<LatticeHalfFermion, HalfFermion, REAL>("halfferm", ss, -20, 20);
      additive<LatticeDouble, Double, DOUBLE>("double", ss, -20, 20);
      additive<LatticeDColorMatrix, DColorMatrix, DOUBLE>("dcolmat", ss, -20, 20);
      additive<LatticeStaggeredFermion, StaggeredFermion, REAL>("stag", ss, -20, 20);
      owning<LatticeFermion, SubLatticeFermion, Fermion, REAL>("ferm", ss, -20, 20);
      owning<LatticePropagator, SubLatticePropagator, Propagator, REAL>("prop", ss, -20, 20);
      scaled<LatticePropagator, Propagator, REAL>("prop", ss);
      scaled<LatticeDColorMatrix, DColorMatrix, DOUBLE>("dcolmat", ss);
      randoms<LatticeFermion, REAL>("ferm", ss); randoms<LatticeDouble, DOUBLE>("double", ss);
    }
    transition(); trace(); outcome(hash(ctx));
  }
}

int main(int argc, char** argv) {
  init(argc, argv); startup();
  IV a(Nd, 1); a[0] = 2; a[1] = 2; a[2] = 2; IV b(Nd, 1); b[0] = 4; b[1] = 3;
  Pool pool(500);
  int step = 16, t = thorough();
  for (int lo = 0; lo < 256; lo += step) pool.run("subsets", [=] { run(a, lo, lo + step, t); });
  for (int lo = 0; lo < 4096; lo += 64) pool.run("subsets12", [=] { run(b, lo, lo + 64, t); });
  if (t) { IV c(Nd, 1); c[0] = 2; c[1] = 8; for (int lo = 0; lo < 65536; lo += 512) pool.run("subsets16", [=] { run(c, lo, lo + 512, false); }); }
  // listed larger lattices, one per process: ranges with and without holes, single sites, every 257th site
  for (auto& l : largeShapes(80000)) for (int code = -6; code < 0; ++code) pool.run("large", [=] { run(l, code, code + 1, volume(l) < 3000); });
  // single sites: every site of each small lattice, every site of the listed larger ones in strides
  { IV h(Nd, 1); h[0] = 4; h[1] = 2; h[2] = 2; IV k(Nd, 1); k[0] = 6; k[1] = 2; k[Nd - 1] = 4; for (auto& l : {a, b, h, k}) pool.run("sites", [=] { siteRun(l); }); }
  for (auto& l : largeShapes(80000)) pool.run("sites", [=] { siteRun(l); });
  pool.drain();
  return finish();
}
