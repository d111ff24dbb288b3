// C10: values drawn at each site, and the seed left behind, against a big-integer reference.
#include "rng.h"
using namespace QDP; using namespace vf;
#if defined(QDP_USE_CB32_LAYOUT)
enum { CBF = 4 };
#else
enum { CBF = 1 };
#endif
static IV S; static int V; static std::vector<int> lex;      // lexicographic number of linear site
struct Mask : SetFunc { unsigned m; Mask(unsigned m_) : m(m_) {} int operator()(const multi1d<int>& x) const override { return m >> c2lex(v1(x), S) & 1; } int numSubsets() const override { return 2; } };
static void setup(const IV& s) { S = s; V = volume(s); lattice(s); lex.resize(V); for (int i = 0; i < V; ++i) lex[Layout::linearSiteIndex(m1(lex2c(i, s)))] = i; }
template<class E> int nw() { E e; return wordsOf(e).size(); }
template<class L> struct El { typedef typename std::decay<decltype(std::declval<L&>().elem(0))>::type T; };
template<class L> bool isC() { typedef typename El<L>::T E; return !std::is_same<E, PScalar<PScalar<RScalar<typename WordType<E>::Type_t>>>>::value; }
static std::vector<u64> seeds() { std::vector<u64> r; u64 w[] = {0, 1, 2048, 4095}, t[] = {0, 1, 1024, 2047}; for (u64 a : t) for (u64 b : w) for (u64 c : w) for (u64 d : w) r.push_back(a << 36 | b << 24 | c << 12 | d); r.push_back(11); r.push_back(MULT); return r; }
static void seedIs(const Ref& R, const std::string& in) { Seed s; RNG::savern(s); eval(); if (!wellFormed(s) || seedVal(s) != R.seed) violation("seed after draw", in + fmt(" got %llx want %llx", seedVal(s), R.seed)); }
// one draw; form: 0 whole, 1 (field,subset), 2 view, 3 owning sub-lattice
template<class L> void draw(Ref& R, bool gauss, int form, const Subset* ss, const std::string& in) {
  typedef typename El<L>::T E; int w = nw<E>(); L d; for (int i = 0; i < V; ++i) words(d.elem(i), [&](auto& x) { x = typename std::decay<decltype(x)>::type(77 + i); });
  std::vector<char> inS(V, form == 0); if (form) { const int* tab = ss->siteTable().slice(); for (int j = 0; j < ss->numSiteTable(); ++j) inS[tab[j]] = 1; }
  typedef OSubLattice<E> SL; SL own;
  if (form == 0) { if (gauss) gaussian(d); else random(d); }
  else if (form == 1) { if (gauss) gaussian(d, *ss); else random(d, *ss); }
  else if (form == 2) { if (gauss) gaussian(d[*ss]); else random(d[*ss]); }
  else { own.setSubset(*ss); if (gauss) gaussian(own); else random(own); for (int j = 0; j < ss->numSiteTable(); ++j) d.elem(ss->siteTable()[j]) = own.getF()[j]; }
  transition();
  Ref R2 = R; R2.advance(w);
  for (int i = 0; i < V; ++i) { auto g = wordsOf(d.elem(i)); eval();
    if (!inS[i]) { for (double x : g) if (x != 77 + i) { violation("draw outside the subset", in + fmt(" site %d", i)); break; } continue; }
    std::vector<double> u = R.site(lex[i], w), want = gauss ? gaussWords(u, R2.site(lex[i], w), isC<L>()) : u;
    for (int k = 0; k < w; ++k) if (!(gauss ? closeG(g[k], want[k]) : closeU(g[k], want[k]))) { violation(gauss ? "gaussian value" : "uniform value", in + fmt(" site %d (lex %d) word %d got %.9g want %.9g", i, lex[i], k, g[k], want[k])); break; } }
  R.advance(gauss ? 2 * w : w); seedIs(R, in);
}
template<class O> void drawScalar(Ref& R, const std::string& in) { O o; random(o); auto g = wordsOf(o.elem()); auto want = R.scalar(g.size()); eval(); transition(); for (size_t k = 0; k < g.size(); ++k) if (!closeU(g[k], want[k])) { violation("uniform single-site value", in + fmt(" word %zu got %.9g want %.9g", k, g[k], want[k])); break; } seedIs(R, in); }
static Ref at(u64 s) { RNG::setrn(mkSeed(s)); Ref R; R.seed = s; R.lattice(V); return R; }
static void allSeeds() { for (u64 s : seeds()) { std::string in = fmt("seed %llx", s); cur(in); Ref R = at(s); draw<LatticeReal>(R, false, 0, nullptr, in); draw<LatticeComplex>(R, false, 0, nullptr, in); drawScalar<Real>(R, in); if (s) { draw<LatticeReal>(R, true, 0, nullptr, in); draw<LatticeFermion>(R, true, 0, nullptr, in); } drawScalar<SpinMatrix>(R, in); state(hash(in)); trace(); }
  // integers as seeds
  for (long v : {0l, 1l, 11l, 4095l, 4096l, 16777215l, 16777216l, 2147483647l}) { Seed s; s = Integer((int)v); eval(); check(seedVal(s) == (u64)v, "seed from integer", fmt("%ld", v)); Seed t = (int)v; check(seedVal(t) == (u64)v, "seed from integer", fmt("%ld", v)); }
  trace(); }
static void arith(int part) { auto sv = seeds(); for (size_t a = part; a < sv.size(); a += 4) { cur(fmt("seed product %zu", a)); Seed x = mkSeed(sv[a]);
  for (u64 b : sv) { Seed y = mkSeed(b), p = x * y, o = x | y; eval(2); transition(); check(wellFormed(p) && seedVal(p) == mul47(sv[a], b), "seed product", fmt("%llx %llx got %llx", sv[a], b, seedVal(p))); check(seedVal(o) == (sv[a] | b), "seed or", fmt("%llx %llx", sv[a], b)); check(toBool(x == y) == (sv[a] == b) && toBool(x != y) == (sv[a] != b), "seed comparison", fmt("%llx %llx", sv[a], b)); state(hash(&b, 8, sv[a])); }
  for (int k = 0; k <= 12; ++k) { Seed p = x << k; eval(); check(seedVal(p) == ((sv[a] << k) & M47), "seed shift", fmt("%llx << %d got %llx", sv[a], k, seedVal(p))); for (int q : {0, 1, 1498, 4095}) { Seed r = (x << k) | q; check(seedVal(r) == (((sv[a] << k) & M47) | q), "seed shift-or", fmt("%llx", sv[a])); } } } trace(); }
static void allShapes(Pool& pool) { std::vector<std::vector<IV>> ch(8); int n = 0; int maxv = (thorough() ? 256 : 64) * CBF; shapes(Nd, maxv, {1, 2, 3, 4, 5, 6, 8, 10, 12, 16}, [&](const IV& s) { if (acceptable(s)) ch[n++ % 8].push_back(s); });
  int m = 0; for (auto& s : largeShapes(thorough() ? 140000 : 80000)) if (volume(s) < 70000 || s.size() < 4 || s[1] > 2) ch[m++ % 8].push_back(s);
  for (auto& list : ch) pool.run("shapes", [&] { for (auto& s : list) { cur("shape " + str(s)); setup(s); for (u64 sd : {11ull, (u64)M47, 0x5a5a5a5a5a5bull & M47}) { std::string in = "shape " + str(s) + fmt(" seed %llx", sd); Ref R = at(sd);
    draw<LatticeReal>(R, false, 0, nullptr, in); draw<LatticeComplex>(R, true, 0, nullptr, in); for (int c = 0; c < 2; ++c) draw<LatticeReal>(R, false, 1, &rb[c], in); drawScalar<Real>(R, in); draw<LatticeColorMatrix>(R, false, 0, nullptr, in); state(hash(in)); } trace(); } }); }
static void masks(int part) { for (unsigned m = part; m < 256; m += 4) { Set set; set.make(Mask(m)); std::string in = fmt("mask %x", m); cur(in); Ref R = at(0x123456789abull); const Subset* a = &set[1];
  for (int form = 1; form < 4; ++form) { std::string i2 = in + fmt(" form %d", form); draw<LatticeReal>(R, false, form, a, i2); draw<LatticeComplex>(R, true, form, a, i2); draw<LatticeColorMatrix>(R, false, form, a, i2); draw<LatticeFermion>(R, true, form, a, i2); draw<LatticeRealD>(R, false, form, a, i2); draw<LatticePropagator>(R, false, form, a, i2); draw<LatticeSpinMatrix>(R, true, form, a, i2); draw<LatticeColorVector>(R, true, form, a, i2); }
  // bit for bit the values of the whole-lattice draw
  { LatticeFermion w, d; RNG::setrn(mkSeed(99)); gaussian(w); RNG::setrn(mkSeed(99)); d = zero; gaussian(d, *a); for (int j = 0; j < a->numSiteTable(); ++j) { int i = a->siteTable()[j]; eval(); if (!bitsEqual(w.elem(i), d.elem(i))) violation("subset draw differs from whole draw", in); } }
  state(hash(in)); trace(); } }
// every sequence of draws up to a depth
static void sequences(int first, int depth) {
  static const unsigned MK[] = {0, 1, 0x80, 0x5a, 0xfe, 0xff}; const int NO = 13; std::vector<Set*> st; for (unsigned m : MK) { Set* s = new Set; s->make(Mask(m)); st.push_back(s); }
  auto op = [&](int o, Ref& R, const std::string& in) { switch (o) {
    case 0: drawScalar<Real>(R, in); break; case 1: drawScalar<Complex>(R, in); break; case 2: draw<LatticeReal>(R, false, 0, nullptr, in); break; case 3: draw<LatticeComplex>(R, true, 0, nullptr, in); break;
    case 4: draw<LatticeFermion>(R, false, 1, &(*st[0])[1], in); break; case 5: draw<LatticeComplex>(R, false, 2, &(*st[0])[1], in); break; case 6: draw<LatticeReal>(R, true, 3, &(*st[0])[1], in); break;
    case 12: draw<LatticeReal>(R, false, 1, &(*st[5])[1], in); break; default: draw<LatticeComplex>(R, o & 1, 1 + (o % 3), &(*st[1 + (o - 7) % 4])[1], in); } };
  long n = 1; for (int k = 1; k < depth; ++k) n *= NO;
  for (long q = 0; q < n; ++q) { std::string in = fmt("seq %d", first); Ref R = at(0x7ffffffffff7ull & M47); op(first, R, in); long r = q; for (int k = 1; k < depth; ++k) { int o = r % NO; r /= NO; in += fmt(",%d", o); cur(in); op(o, R, in); } state(hash(in)); trace(); }
  sample(fmt("all sequences of %d draws starting with draw %d", depth, first));
}
int main(int argc, char** argv) {
  init(argc, argv); startup(); Pool pool(700); std::string mode = argc > 1 ? argv[1] : "all";
  if (mode == "shapes") { allShapes(pool); pool.drain(); return finish(); }
  IV s(Nd, 1); s[0] = s[1] = s[2] = 2; setup(s);
  { Seed d; RNG::savern(d); eval(); check(seedVal(d) == 11, "default seed", fmt("%llx", seedVal(d))); }
  pool.run("seeds", allSeeds); for (int p = 0; p < 4; ++p) { pool.run("masks", [=] { masks(p); }); pool.run("arith", [=] { arith(p); }); }
  for (int f = 0; f < 13; ++f) pool.run("seq", [=] { sequences(f, thorough() ? 5 : 4); });
  pool.drain(); return finish();
}
