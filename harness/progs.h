// Programs over lattice fields whose observations are the same however the run is spread over nodes or threads.
#ifndef VF_PROGS_H
#define VF_PROGS_H
#include "par.h"
#ifndef ARCH_SCALAR
#include "qdp_parscalar_global_sum.h"
#endif
using namespace vf; using namespace par;
struct Jump : public MapFunc { IV by; Jump(const IV& b) : by(b) {} multi1d<int> operator()(const multi1d<int>& c, int s) const { multi1d<int> r = c; for (int i = 0; i < Nd; ++i) { int n = Layout::lattSize()[i]; r[i] = ((c[i] + (s > 0 ? by[i] : -by[i])) % n + n) % n; } return r; } };
struct Mirror : public MapFunc { int mu; Mirror(int m) : mu(m) {} multi1d<int> operator()(const multi1d<int>& c, int) const { multi1d<int> r = c; r[mu] = Layout::lattSize()[mu] - 1 - c[mu]; return r; } };
struct Jumps : public ArrayMapFunc { multi1d<int> operator()(const multi1d<int>& c, int s, int d) const { multi1d<int> r = c; int n = Layout::lattSize()[d]; r[d] = ((c[d] + 2 * (s > 0 ? 1 : -1)) % n + n) % n; return r; } int numArray() const { return Nd; } };
struct Slices : public SetFunc { int mu; Slices(int m) : mu(m) {} int operator()(const multi1d<int>& c) const { return c[mu]; } int numSubsets() const { return Layout::lattSize()[mu]; } };
struct OneSite : public SetFunc { int lex; OneSite(int l) : lex(l) {} int operator()(const multi1d<int>& c) const { return c2lex(v1(c), v1(Layout::lattSize())) == lex; } int numSubsets() const { return 3; } };
template<class L> static void shifts(const char* nm) { L f; fill(f); for (int mu = 0; mu < Nd; ++mu) for (int s = -1; s <= 1; s += 2) { L g = shift(f, s, mu); field(fmt("%s %d %d", nm, s, mu), g); } }
template<class L> static void reds(const char* nm) { L f, g; fill(f, 1); fill(g, 2); std::string n = nm;
  scalar(n + " sum", sum(f)); scalar(n + " norm2", norm2(f)); scalar(n + " inner", innerProduct(f, g)); scalar(n + " innerReal", innerProductReal(f, g));
  for (auto* s : {&rb[0], &rb[1]}) { scalar(n + " sum sub", sum(f, *s)); scalar(n + " norm2 sub", norm2(f, *s)); scalar(n + " inner sub", innerProduct(f, g, *s)); scalar(n + " innerReal sub", innerProductReal(f, g, *s)); }
  Set one; one.make(OneSite(Layout::vol() - 1)); for (int k = 0; k < 3; ++k) { scalar(n + " sum one", sum(f, one[k])); scalar(n + " norm2 one", norm2(f, one[k])); scalar(n + " inner one", innerProduct(f, g, one[k])); }
  for (int mu = 0; mu < Nd; ++mu) { Set ts; ts.make(Slices(mu)); auto r = sumMulti(f, ts); for (int k = 0; k < r.size(); ++k) scalar(n + fmt(" multi %d %d", mu, k), r[k]); }
  multi1d<L> a(2), b(2); a[0] = f; a[1] = g; b[0] = g; b[1] = f; scalar(n + " array norm2", norm2(a)); scalar(n + " array inner", innerProduct(a, b)); scalar(n + " array innerReal", innerProductReal(a, b)); scalar(n + " array norm2 sub", norm2(a, rb[1])); scalar(n + " array inner sub", innerProduct(a, b, rb[0])); }
static void arrays() { multi1d<LatticeColorMatrix> a(2); fill(a[0], 1); fill(a[1], 2); Set ts; ts.make(Slices(Nd - 1)); auto r = sumMulti(a, ts); for (int j = 0; j < r.size2(); ++j) for (int k = 0; k < r.size1(); ++k) scalar(fmt("array multi %d %d", j, k), r(j, k));
  multi1d<ColorMatrix> q(2); q[0] = 1.0; q[1] = 2.0; auto p = sumMulti(q, ts); for (int j = 0; j < p.size2(); ++j) for (int k = 0; k < p.size1(); ++k) scalar(fmt("array const %d %d", j, k), p(j, k)); }
static void seeds(const char* l) { Seed s; RNG::savern(s); scalar(l, s); }
static void classes() { static const double bad[] = {NAN, INFINITY, -INFINITY, 1e-45, 0.0, 5.0}; for (int lex = 0; lex < Layout::vol(); ++lex) for (double v : bad) { LatticeReal f; f = 3.0; for (int i = 0; i < Layout::sitesOnNode(); ++i) if (lexOf(i) == lex) { f.elem(i).elem().elem().elem() = (float)v; } num("nan", isnan(f)); num("inf", isinf(f)); num("finite", isfinite(f)); num("normal", isnormal(f)); } }
static void extremes() { for (int lex = 0; lex < Layout::vol(); ++lex) for (int k = 0; k < 2; ++k) { LatticeReal f; LatticeDouble d; for (int i = 0; i < Layout::sitesOnNode(); ++i) { double v = (lexOf(i) % 7) + (lexOf(i) == lex ? (k ? 50 : -50) : 0); if (k) v -= 100; f.elem(i).elem().elem().elem() = v; d.elem(i).elem().elem().elem() = v; } scalar("max", globalMax(f)); scalar("min", globalMin(f)); scalar("dmax", globalMax(d)); scalar("dmin", globalMin(d)); } }
static void layout() { const int n = Layout::numNodes(), V = Layout::vol(); IV s = v1(Layout::lattSize()), sub = v1(Layout::subgridLattSize()); std::set<std::pair<int, int>> used; int loc = Layout::sitesOnNode();
  expect(n * loc == V && volume(sub) == loc, "the nodes' sites do not add up"); std::string tab;
  for (int l = 0; l < V; ++l) { IV c = lex2c(l, s); int nd = Layout::nodeNumber(m1(c)), li = Layout::linearSiteIndex(m1(c)); tab += fmt("%d ", nd * 0); expect(nd >= 0 && nd < n && li >= 0 && li < loc, fmt("site %d is given to node %d, place %d", l, nd, li)); expect(used.insert(std::make_pair(nd, li)).second, fmt("two sites share node %d, place %d", nd, li)); if (nd < 0 || nd >= n || li < 0 || li >= loc) continue;
    expect(v1(Layout::siteCoords(nd, li)) == c, fmt("the coordinates of node %d, place %d are not those of site %d", nd, li, l)); IV nc = v1(Layout::getLogicalCoordFrom(nd)); bool in = true; for (int i = 0; i < Nd; ++i) in = in && c[i] / sub[i] == nc[i]; expect(in, fmt("site %d lies outside the box of node %d", l, nd)); expect(v1(Layout::nodeCoord(m1(c))) == nc, "node coordinate of a site");
    int raw[8]; for (int i = 0; i < Nd; ++i) raw[i] = c[i]; expect(Layout::QDPXX_nodeNumber(raw) == nd && Layout::QDPXX_getLinearSiteIndex(raw) == li, "C interface to the layout"); int out[8]; Layout::QDPXX_getSiteCoords(out, nd, li); expect(IV(out, out + Nd) == c, "C interface to the coordinates"); }
  expect(v1(Layout::getLogicalCoordFrom(Layout::nodeNumber())) == v1(Layout::nodeCoord()) && Layout::getNodeNumberFrom(Layout::nodeCoord()) == Layout::nodeNumber(), "this node's coordinate"); expect(Layout::primaryNode() == (Layout::nodeNumber() == 0), "primary node"); IV ls = v1(Layout::logicalSize()); for (int i = 0; i < Nd; ++i) expect(ls[i] * sub[i] == s[i], "logical size");
  num("volume", V); for (int mu = 0; mu < Nd; ++mu) { LatticeInteger x = Layout::latticeCoordinate(mu); field("coordinate", x); } }
static void sets() { std::vector<const Set*> ss = {&rb, &rb3, &mcb}; Set a, b; a.make(Slices(Nd - 1)); b.make(OneSite(3)); ss.push_back(&a); ss.push_back(&b); for (size_t k = 0; k < ss.size(); ++k) { const Set& S = *ss[k]; LatticeInteger c; for (int i = 0; i < Layout::sitesOnNode(); ++i) c.elem(i).elem().elem().elem() = S.latticeColoring()[i]; field(fmt("colours %d", (int)k), c); num("colours", S.numSubsets());
    std::vector<int> n(Layout::sitesOnNode(), 0); for (int j = 0; j < S.numSubsets(); ++j) { const Subset& s = S[j]; for (int i = 0; i < s.numSiteTable(); ++i) { int t = s.siteTable()[i]; expect(t >= 0 && t < Layout::sitesOnNode() && S.latticeColoring()[t] == j, "a subset lists a site of another colour"); if (t >= 0 && t < (int)n.size()) n[t]++; } } for (int x : n) expect(x == 1, "a site is listed a wrong number of times"); }
  num("all", all.numSiteTable() * Layout::numNodes()); }
static void exprs() { LatticeColorMatrix u, v; LatticeFermion p, q; fill(u, 1); fill(v, 2); fill(p, 3); q = zero; q[rb[0]] = u * shift(p, FORWARD, 0) + shift(adj(v) * p, BACKWARD, 3); field("hop", q); q[rb[1]] += shift(p, BACKWARD, 1) - q; field("hop2", q); v[rb[1]] = shift(shift(u, FORWARD, 0), BACKWARD, 1) * adj(shift(u, FORWARD, 2)); field("staple", v);
  LatticeReal x; LatticeBoolean m; fill(x); fill(m); LatticeReal y = where(m, shift(x, FORWARD, 1), x); field("where", y); copymask(y, m, LatticeReal(x + x)); field("copymask", y); copymask(y[rb[1]], m, x); field("copymask sub", y); y[rb[0]] = zero; field("zero sub", y); y = zero; field("zero", y); y[rb[1]] = 4; field("const sub", y); y = 3; field("const", y);
  OSubLattice<LatticeReal::Subtype_t> w; LatticeReal z; fill(z, 5); z[rb[0]] *= x; z[rb[1]] -= shift(x, FORWARD, 3); field("compound", z); multi1d<Real> e(Layout::sitesOnNode()); QDP_extract(e, x, all); QDP_insert(y, e, rb[1]); field("insert", y); }
static void randoms() { LatticeReal r; random(r); field("r", r); seeds("s"); random(r, rb[0]); field("r0", r); seeds("s"); LatticeColorMatrix c; random(c); field("c", c); Set one; one.make(OneSite(Layout::vol() - 1)); random(c, one[1]); field("c1", c); seeds("s"); random(c, one[2]); seeds("s"); Real x; random(x); scalar("x", x); seeds("s"); LatticeFermion g; gaussian(g); field("g", g); g = zero; gaussian(g, rb[1]); field("g1", g); seeds("s"); Complex z; random(z); scalar("z", z); random(r[rb[1]]); field("rs", r); gaussian(r[rb[0]]); field("gs", r); seeds("s"); Seed q; q = 77; RNG::setrn(q); random(r); field("r", r); seeds("s"); }
static void peeks() { LatticeColorMatrix u; LatticeInteger k; LatticeBoolean b; LatticeDouble d; fill(u); fill(k); fill(b); fill(d); for (int l = 0; l < Layout::vol(); ++l) { multi1d<int> c = m1(lex2c(l, v1(Layout::lattSize()))); scalar("u", peekSite(u, c)); if (l % 3 == 0) scalar("k", peekSite(k, c)); if (l % 3 == 2) scalar("e", peekSite(d + d, c)); } }
static void pokes() { for (int l = 0; l < Layout::vol(); ++l) { LatticeColorMatrix u; fill(u); ColorMatrix m; m = 9; pokeSite(u, m, m1(lex2c(l, v1(Layout::lattSize())))); field("poke", u); } Real x(2.5f); scalar("os", peekSite(x, m1(IV(Nd, 0)))); }
static void casts() { bool p = Layout::primaryNode(); int i = p ? 41 : 0; QDPInternal::broadcast(i); num("i", i); double d = p ? 2.5 : 0; QDPInternal::broadcast(d); num("d", d); bool b = p; QDPInternal::broadcast(b); num("b", b); for (int n : {0, 1, 3, 4096}) { std::string s; if (p) { s.assign(n, 'q'); if (n > 2) s[1] = 0; } else s = "stale text"; QDPInternal::broadcast(s); scalar("s", s); } char t[9] = {0}; if (p) memcpy(t, "transfer", 9); QDPInternal::broadcast((void*)t, 9); scalar("t", std::string(t, 9)); }
static void sums() {
  int i = Layout::nodeNumber() + 1; double dw[5], dg[5]; int n = Layout::numNodes();
#ifndef ARCH_SCALAR
  QDPInternal::globalSumArray(&i, 1); unsigned u[2] = {(unsigned)Layout::nodeNumber(), 4000000000u}; QDPInternal::globalSumArray(u, 2); expect(i == n * (n + 1) / 2, "integer sum"); { float f[3]; double d[3]; int k = Layout::nodeNumber(); for (int j = 0; j < 3; ++j) { f[j] = std::ldexp(1.0f / (3 * k + j + 1), 7 * (k % 3)); d[j] = f[j] / 7.0; } double want[3] = {0, 0, 0}, wd[3] = {0, 0, 0}; for (int q = 0; q < n; ++q) for (int j = 0; j < 3; ++j) { float g = std::ldexp(1.0f / (3 * q + j + 1), 7 * (q % 3)); want[j] += g; wd[j] += g / 7.0; } QDPGlobalSums::QDP_sum_float_array(f, 3); QDPGlobalSums::QDP_sum_double_array(d, 3); for (int j = 0; j < 3; ++j) expect(std::abs(f[j] - want[j]) <= 4e-7 * n * want[j] && std::abs(d[j] - wd[j]) <= 1e-15 * n * wd[j], "sum of rounded numbers"); mp::obs("rounded float", 'N', std::string((char*)f, sizeof f)); mp::obs("rounded double", 'N', std::string((char*)d, sizeof d)); } expect(u[0] == (unsigned)(n * (n - 1) / 2) && u[1] == 4000000000u * (unsigned)n, "unsigned sum");
  for (int k = 0; k < n; ++k) { bool b = Layout::nodeNumber() == k; struct { unsigned char lo[4]; bool b; unsigned char hi[7]; } q; for (int m = 0; m < 4; ++m) { memset(&q, m & 1 ? 0xFF : 0, sizeof q); q.b = m & 2 ? b : !b; if (m & 2) QDPInternal::globalOr(q.b); else QDPInternal::globalAnd(q.b); unsigned char w = m & 1 ? 0xFF : 0; bool same = true; for (unsigned char x : q.lo) same = same && x == w; for (unsigned char x : q.hi) same = same && x == w; expect(same, "a logical reduction changes the memory next to its argument"); unsigned char raw; memcpy(&raw, &q.b, 1); expect(raw == (m & 2 ? 1 : 0), fmt("logical reduction %d gives %d", m, raw)); } }
#endif
  (void)i; (void)dw; (void)dg; num("n", 1); }
// a map may be refused when a node needs sites of more than one other node
static bool spreads(const IV& by, const IV& s, const IV& g) { IV sub = s; for (int i = 0; i < Nd; ++i) sub[i] /= g[i]; for (int sg = -1; sg <= 1; sg += 2) { std::set<IV> from; for (int l = 0; l < volume(sub); ++l) { IV c = lex2c(l, sub), q(Nd); for (int i = 0; i < Nd; ++i) q[i] = ((c[i] + sg * by[i]) % s[i] + s[i]) % s[i] / sub[i]; if (q != IV(Nd, 0)) from.insert(q); } if (from.size() > 1) return true; } return false; }
static void jump(const IV& b) { LatticeColorVector f; fill(f); Map m; m.make(Jump(b)); LatticeColorVector g = m(f); field("jump", g); BiDirectionalMap bm; bm.make(Jump(b)); for (int sg = -1; sg <= 1; sg += 2) { g = bm(f, sg); field(fmt("bi %d", sg), g); } g = bm(f + f, 1); field("bi expr", g); }
static void maps() { LatticeColorVector f; fill(f); ArrayBiDirectionalMap am; am.make(Jumps()); for (int mu = 0; mu < Nd; ++mu) for (int sg = -1; sg <= 1; sg += 2) { LatticeColorVector g = am(f, sg, mu); field(fmt("abi %d %d", mu, sg), g); } ArrayMap aa; aa.make(Jumps()); for (int mu = 0; mu < Nd; ++mu) { LatticeColorVector g = aa(f, mu); field(fmt("am %d", mu), g); Real x(1.5); Real y = aa(x, mu); scalar("const", y); } }
static std::vector<Prog> steps() {
  std::vector<Prog> r = {{"layout", 0, layout}, {"sets", 0, sets}, {"shift integer", 1, [] { shifts<LatticeInteger>("i"); }}, {"shift boolean", 0, [] { LatticeBoolean f; fill(f); for (int mu = 0; mu < Nd; ++mu) for (int s = -1; s <= 1; s += 2) { LatticeBoolean g = shift(f, s, mu); field(fmt("b %d %d", s, mu), g); } }}, {"shift matrix", 0, [] { shifts<LatticeColorMatrix>("m"); }}, {"shift fermion", 0, [] { shifts<LatticeFermion>("f"); }}, {"shift propagator", 0, [] { shifts<LatticePropagator>("p"); }}, {"shift double", 0, [] { shifts<LatticeDouble>("d"); }},
    {"maps", 0, maps, [](const IV& s, const IV& g) { for (int mu = 0; mu < Nd; ++mu) { IV b(Nd, 0); b[mu] = 2; if (spreads(b, s, g)) return true; } return false; }}, {"expressions", 0, exprs}, {"reduce complex", 0, [] { reds<LatticeComplex>("c"); }}, {"reduce matrix", 0, [] { reds<LatticeColorMatrix>("m"); }}, {"reduce fermion", 0, [] { reds<LatticeFermion>("f"); }}, {"reduce double", 0, [] { reds<LatticeComplexD>("d"); }}, {"reduce arrays", 0, arrays}, {"sum integer", 1, [] { LatticeInteger f; fill(f); scalar("s", sum(f)); scalar("s0", sum(f, rb[0])); Set ts; ts.make(Slices(0)); auto r = sumMulti(f, ts); for (int k = 0; k < r.size(); ++k) scalar("m", r[k]); }},
    {"classify", 0, classes}, {"extremes", 0, extremes}, {"random", 0, randoms}, {"peek", 0, peeks}, {"poke", 0, pokes}, {"broadcast", 1, casts}, {"low-level sums", 1, sums},
    {"mirror", 0, [] { for (int mu = 0; mu < Nd; ++mu) { Map m; m.make(Mirror(mu)); LatticeReal f; fill(f); LatticeReal g = m(f); field(fmt("mirror %d", mu), g); } }}};
  for (int mu = 0; mu < Nd; ++mu) for (int d = 2; d <= 7; ++d) { IV b(Nd, 0); b[mu] = d; r.push_back({fmt("jump %d by %d", mu, d), 0, [b] { jump(b); }, [b](const IV& s, const IV& g) { return spreads(b, s, g); }}); }
  IV b(Nd, 0); b[0] = 2; b[Nd - 1] = 1; r.push_back({"diagonal", 0, [b] { jump(b); }, [b](const IV& s, const IV& g) { return spreads(b, s, g); }});
  return r;
}
// short programs whose message timings are explored completely, and their pairs
static std::vector<Prog> atoms() {
  std::vector<Prog> r; LatticeReal* keep = 0; (void)keep;
  auto sh1 = [](int s, int mu) { return [s, mu] { LatticeReal f; fill(f, 1); LatticeReal g = shift(f, s, mu); field(fmt("sh %d %d", s, mu), g); }; };
  r.push_back({"one shift forward x", 9, sh1(1, 0)}); r.push_back({"one shift back t", 9, sh1(-1, Nd - 1)}); r.push_back({"one shift forward t", 9, sh1(1, Nd - 1)});
  r.push_back({"one peek", 9, [] { LatticeReal f; fill(f); scalar("peek", peekSite(f, m1(lex2c(Layout::vol() - 1, v1(Layout::lattSize()))))); }});
  r.push_back({"one sum", 9, [] { LatticeReal f; fill(f); scalar("sum", sum(f)); }});
  r.push_back({"one word", 9, [] { std::string s = Layout::primaryNode() ? "word" : ""; QDPInternal::broadcast(s); scalar("word", s); }});
  r.push_back({"one draw", 9, [] { Real x; random(x); scalar("x", x); seeds("seed"); }});
  return r;
}
#endif
