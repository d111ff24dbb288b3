// C03: maps and shifts.
#include "lat.h"
using namespace QDP; using namespace vf;

// map function given by a table over lexicographic positions, one per (sign, direction)
struct Table : public MapFunc {
  std::vector<int> fw, bw; IV s;
  Table(const std::vector<int>& f, const std::vector<int>& b, const IV& s_) : fw(f), bw(b), s(s_) {}
  multi1d<int> operator()(const multi1d<int>& x, int sign) const override { int l = c2lex(v1(x), s); return m1(lex2c(sign > 0 ? fw[l] : bw[l], s)); }
};
struct ATable : public ArrayMapFunc {
  std::vector<std::vector<int>> fw, bw; IV s;
  multi1d<int> operator()(const multi1d<int>& x, int sign, int dir) const override { int l = c2lex(v1(x), s); return m1(lex2c(sign > 0 ? fw[dir][l] : bw[dir][l], s)); }
  int numArray() const override { return fw.size(); }
};

struct Geo { IV s; int V; std::vector<int> lin; std::vector<int> par; };
static Geo geo(const IV& s) { Geo g; g.s = s; g.V = volume(s); for (int l = 0; l < g.V; ++l) { IV c = lex2c(l, s); g.lin.push_back(Layout::linearSiteIndex(m1(c))); int p = 0; for (int e : c) p += e; g.par.push_back(p & 1); } return g; }

// every word of a site element distinct and exact
template<class E, class W> static void fillElem(E& e, int site, int salt) { W* w = (W*)&e; for (size_t k = 0; k < sizeof(E) / sizeof(W); ++k) w[k] = W(site * 613 + (int)k + salt * 100003); }
template<class E, class W> static bool isElem(const E& e, int site, int salt) { E x; fillElem<E, W>(x, site, salt); return memcmp(&x, &e, sizeof(E)) == 0; }
template<class L, class W> static void fill(L& f, const Geo& g, int salt) { typedef typename std::decay<decltype(f.elem(0))>::type E; for (int l = 0; l < g.V; ++l) fillElem<E, W>(f.elem(g.lin[l]), l, salt); }
// f at site l must be the source filled at site src[l]; src -1: untouched (salt 9)
template<class L, class W> static void expect(const L& f, const Geo& g, const std::vector<int>& src, int salt, const char* key, const std::string& what) {
  typedef typename std::decay<decltype(f.elem(0))>::type E;
  for (int l = 0; l < g.V; ++l) {
    bool ok = src[l] >= 0 ? isElem<E, W>(f.elem(g.lin[l]), src[l], salt) : isElem<E, W>(f.elem(g.lin[l]), l, 9);
    if (!ok) { violation(key, what + fmt(" wrong at site %s (should come from %d)", str(lex2c(l, g.s)).c_str(), src[l])); return; }
  }
}
static std::vector<int> masked(const std::vector<int>& src, const Geo& g, int par) { std::vector<int> r(src); for (int l = 0; l < g.V; ++l) if (g.par[l] != par) r[l] = -1; return r; }
static std::vector<int> comp(const std::vector<int>& outer, const std::vector<int>& inner) { std::vector<int> r(outer.size()); for (size_t l = 0; l < r.size(); ++l) r[l] = inner[outer[l]]; return r; }

// plain map on one element type, whole lattice and both checkerboards
template<class L, class W, class M> static void oneType(M&& map, const Geo& g, const std::vector<int>& src, const char* ty, const std::string& what) {
  L f, r; fill<L, W>(f, g, 1);
  fill<L, W>(r, g, 9); r = map(f); expect<L, W>(r, g, src, 1, (std::string("map-") + ty).c_str(), what);
  for (int cb = 0; cb < 2; ++cb) { fill<L, W>(r, g, 9); r[rb[cb]] = map(f); expect<L, W>(r, g, masked(src, g, cb), 1, (std::string("map-subset-") + ty).c_str(), what); }
  expect<L, W>(f, g, comp(src, src).size() ? [&] { std::vector<int> id(g.V); for (int l = 0; l < g.V; ++l) id[l] = l; return id; }() : src, 1, (std::string("source-changed-") + ty).c_str(), what);
  eval(3);
}
template<class M> static void allTypes(M&& map, const Geo& g, const std::vector<int>& src, const std::string& what) {
  oneType<LatticeInteger, int>(map, g, src, "int", what);
  oneType<LatticeRealD, double>(map, g, src, "realD", what);
  oneType<LatticeComplex, REAL>(map, g, src, "complex", what);
  oneType<LatticeColorMatrix, REAL>(map, g, src, "colmat", what);
  oneType<LatticeFermion, REAL>(map, g, src, "ferm", what);
  oneType<LatticePropagator, REAL>(map, g, src, "prop", what);
  oneType<LatticeSeed, int>(map, g, src, "seed", what);
  oneType<LatticeHalfFermion, REAL>(map, g, src, "halfferm", what);
}

static int iv(const LatticeInteger& f, int i) { return f.elem(i).elem().elem().elem(); }

// every function of the sites into themselves
static void everyMap(const IV& s, uint64_t lo, uint64_t hi, bool perms) {
  lattice(s); Geo g = geo(s);
  LatticeInteger f, h; fill<LatticeInteger, int>(f, g, 1); for (int l = 0; l < g.V; ++l) h.elem(g.lin[l]).elem().elem().elem() = 10 * l + 3;
  Map remade;
  auto one = [&](const std::vector<int>& t) {
    std::string what = "shape " + str(s) + " map " + str(t); cur(what);
    Map m(Table(t, std::vector<int>(g.V, 0), s)); remade.make(Table(t, std::vector<int>(g.V, 0), s));
    LatticeInteger r; fill<LatticeInteger, int>(r, g, 9);
    r = m(f); expect<LatticeInteger, int>(r, g, t, 1, "map", what);
    fill<LatticeInteger, int>(r, g, 9); r[odd] = remade(f); expect<LatticeInteger, int>(r, g, masked(t, g, 1), 1, "map-subset", what);
    r = h - m(h + h);                             // inside an expression, of an expression
    for (int l = 0; l < g.V; ++l) if (iv(r, g.lin[l]) != 10 * l + 3 - 2 * (10 * t[l] + 3)) { violation("map-expr", what); break; }
    r = m(m(f)); expect<LatticeInteger, int>(r, g, comp(t, t), 1, "map-map", what);
    r = m(remade(f * Integer(1))); expect<LatticeInteger, int>(r, g, comp(t, t), 1, "map-map-expr", what);
    eval(5); state(hash(str(s) + str(t))); transition(5); trace();
  };
  if (!perms) for (uint64_t n = lo; n < hi; ++n) { std::vector<int> t(g.V); uint64_t m = n; for (int l = 0; l < g.V; ++l) { t[l] = m % g.V; m /= g.V; } one(t); }
  else { std::vector<int> t(g.V); for (int l = 0; l < g.V; ++l) t[l] = l; uint64_t n = 0; do { if (n >= lo && n < hi) one(t); ++n; } while (std::next_permutation(t.begin(), t.end()) && n < hi); }
  sample(fmt("shape %s maps %llu..%llu of %s", str(s).c_str(), (unsigned long long)lo, (unsigned long long)hi, perms ? "permutations" : "all functions"));
}

// nesting: every ordered pair of maps of a 4-site lattice (and triples over a base)
static void pairs(const IV& s, uint64_t lo, uint64_t hi) {
  lattice(s); Geo g = geo(s); int V = g.V; uint64_t N = 1; for (int i = 0; i < V; ++i) N *= V;
  auto tab = [&](uint64_t n) { std::vector<int> t(V); for (int l = 0; l < V; ++l) { t[l] = n % V; n /= V; } return t; };
  LatticeInteger f, h, r; fill<LatticeInteger, int>(f, g, 1); for (int l = 0; l < V; ++l) h.elem(g.lin[l]).elem().elem().elem() = 7 * l + 1;
  std::vector<Map*> ms; for (uint64_t n = 0; n < N; ++n) { ms.push_back(new Map); ms.back()->make(Table(tab(n), tab(0), s)); }
  for (uint64_t a = lo; a < hi; ++a) { std::vector<int> ta = tab(a);
    for (uint64_t b = 0; b < N; ++b) { std::vector<int> tb = tab(b);
      std::string what = "shape " + str(s) + " outer " + str(ta) + " inner " + str(tb);
      r = (*ms[a])((*ms[b])(f)); expect<LatticeInteger, int>(r, g, comp(ta, tb), 1, "nested", what);
      r = (*ms[a])(h) * (*ms[b])(h) + (*ms[a])(h + (*ms[b])(h));
      for (int l = 0; l < V; ++l) { auto H = [&](int x) { return 7 * x + 1; }; int w = H(ta[l]) * H(tb[l]) + H(ta[l]) + H(tb[ta[l]]); if (iv(r, g.lin[l]) != w) { violation("nested-expr", what + fmt(" site %d: %d expected %d", l, iv(r, g.lin[l]), w)); break; } }
      eval(2); transition(2); state(hash(fmt("p%llu,%llu", (unsigned long long)a, (unsigned long long)b) + str(s))); trace();
    } }
}

// array / bidirectional / array-bidirectional maps from arbitrary tables
static void families(const IV& s) {
  lattice(s); Geo g = geo(s); int V = g.V;
  std::vector<std::vector<int>> base;     // a varied base of tables
  for (int k = 0; k < 6; ++k) { std::vector<int> t(V); for (int l = 0; l < V; ++l) t[l] = k == 0 ? l : k == 1 ? (l + 1) % V : k == 2 ? (l + V - 1) % V : k == 3 ? V - 1 - l : k == 4 ? 0 : (l * 3 + 1) % V; base.push_back(t); }
  for (int na = 1; na <= 5; ++na)
    for (int code = 0; code < 36; ++code) {
      ATable t; t.s = s; for (int d = 0; d < na; ++d) { t.fw.push_back(base[(code + d) % 6]); t.bw.push_back(base[(code / 6 + 2 * d + 1) % 6]); }
      ArrayMap A(t); ArrayBiDirectionalMap AB(t); A.make(t);
      for (int d = 0; d < na; ++d) {
        std::string what = fmt("shape %s family %d of %d, direction %d", str(s).c_str(), code, na, d); cur(what);
        Table p(t.fw[d], t.bw[d], s); Map P(p); BiDirectionalMap B(p);
        auto ck = [&](auto&& m, const std::vector<int>& src, const char* k) {
          LatticeInteger f, r; fill<LatticeInteger, int>(f, g, 1); fill<LatticeInteger, int>(r, g, 9);
          r = m(f); expect<LatticeInteger, int>(r, g, src, 1, k, what);
          r = m(f + f) - m(f); expect<LatticeInteger, int>(r, g, src, 1, (std::string(k) + "-expr").c_str(), what);
          LatticeColorMatrix u, v; fill<LatticeColorMatrix, REAL>(u, g, 1); fill<LatticeColorMatrix, REAL>(v, g, 9); v[even] = m(u); expect<LatticeColorMatrix, REAL>(v, g, masked(src, g, 0), 1, (std::string(k) + "-subset").c_str(), what);
          eval(3); transition(3); };
        ck([&](auto&& x) { return P(x); }, t.fw[d], "map");
        ck([&](auto&& x) { return A(x, d); }, t.fw[d], "array-map");
        ck([&](auto&& x) { return B(x, +1); }, t.fw[d], "bimap-forward");
        ck([&](auto&& x) { return B(x, -1); }, t.bw[d], "bimap-backward");
        ck([&](auto&& x) { return AB(x, +1, d); }, t.fw[d], "array-bimap-forward");
        ck([&](auto&& x) { return AB(x, -1, d); }, t.bw[d], "array-bimap-backward");
        ck([&](auto&& x) { return AB(x, FORWARD, d); }, t.fw[d], "array-bimap-FORWARD");
        ck([&](auto&& x) { return AB(x, BACKWARD, d); }, t.bw[d], "array-bimap-BACKWARD");
        state(hash(what)); trace();
      }
    }
}

static std::vector<int> nb(const IV& s, int sign, int mu) { int V = volume(s); std::vector<int> t(V); for (int l = 0; l < V; ++l) { IV c = lex2c(l, s); c[mu] = (c[mu] + sign + s[mu]) % s[mu]; t[l] = c2lex(c, s); } return t; }
static void shifts(const IV& s, bool types) {
  lattice(s); Geo g = geo(s); std::string L = "shape " + str(s);
  LatticeInteger f, r; fill<LatticeInteger, int>(f, g, 1); std::vector<int> id(g.V); for (int l = 0; l < g.V; ++l) id[l] = l;
  for (int mu = 0; mu < Nd; ++mu) for (int sg : {+1, -1}) {
    auto t = nb(s, sg, mu); std::string what = L + fmt(" shift %+d direction %d", sg, mu); cur(what);
    fill<LatticeInteger, int>(r, g, 9); r = shift(f, sg, mu); expect<LatticeInteger, int>(r, g, t, 1, "shift", what);
    for (int cb = 0; cb < 2; ++cb) { fill<LatticeInteger, int>(r, g, 9); r[rb[cb]] = shift(f, sg, mu); expect<LatticeInteger, int>(r, g, masked(t, g, cb), 1, "shift-subset", what); }
    r = shift(shift(f, sg, mu), -sg, mu); expect<LatticeInteger, int>(r, g, id, 1, "shift-inverse", what);
    for (int nu = 0; nu < Nd; ++nu) for (int s2 : {+1, -1}) { r = shift(shift(f, s2, nu), sg, mu); expect<LatticeInteger, int>(r, g, comp(t, nb(s, s2, nu)), 1, "shift-shift", what + fmt(" of shift %+d direction %d", s2, nu)); eval(); }
    if (types) allTypes([&](auto&& x) { return shift(x, sg, mu); }, g, t, what);
    eval(4); transition(4 + 4 * Nd); state(hash(what)); trace();
  }
  outcome(hash(L));
  if (g.V > 12) sample(L + ": all shifts and pairs of shifts");
}

int main(int argc, char** argv) {
  init(argc, argv); startup();
  std::string mode = argc > 1 ? argv[1] : "maps";
  Pool pool(400);
  IV ones(Nd, 1);
  auto sh = [&](std::initializer_list<int> v) { IV s(ones); int i = 0; for (int e : v) s[i++] = e; return s; };
  if (mode == "maps") {
    for (auto& s : {sh({2}), sh({2, 2}), sh({4}), sh({2, 1, 2}), sh({2, 3}), sh({6})}) {
      uint64_t V = volume(s), N = 1; for (uint64_t i = 0; i < V; ++i) N *= V;
      for (uint64_t lo = 0; lo < N; lo += 6000) pool.run("all-maps", [=] { everyMap(s, lo, std::min(N, lo + 6000), false); });
    }
    for (auto& s : {sh({2, 2, 2}), sh({4, 1, 1, 2})}) for (uint64_t lo = 0; lo < 40320; lo += 5040) pool.run("permutations", [=] { everyMap(s, lo, lo + 5040, true); });
    for (auto& s : {sh({2, 2}), sh({4})}) for (uint64_t lo = 0; lo < 256; lo += 16) pool.run("pairs", [=] { pairs(s, lo, std::min<uint64_t>(256, lo + 16)); });

    for (auto& s : {sh({2, 2, 2}), sh({4, 3}), sh({2, 1, 3, 2})}) pool.run("families", [=] { families(s); });
  } else {
    std::vector<IV> ss; int mv = atoi(argv[2]);
    std::vector<int> ext{1, 2, 3, 4, 5, 6, 8};
    shapes(Nd, mv, ext, [&](const IV& s) { if (acceptable(s)) ss.push_back(s); });
    for (size_t k = 0; k < ss.size(); ++k) pool.run("shifts", [=] { shifts(ss[k], volume(ss[k]) <= 24 || k % 16 == 0); });
    for (auto& s : largeShapes(80000)) pool.run("shifts", [=] { shifts(s, volume(s) < 6000); });
    vf::extra("shift_shapes", ss.size());
  }
  pool.drain();
  return finish();
}
