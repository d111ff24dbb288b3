// C08: reductions over every subset, colouring, position and arrangement of values.
#include "forms.h"
#include <cmath>
#include <limits>
#include <algorithm>
#ifndef PART
#define PART 0
#endif
struct Col : SetFunc { std::vector<int> c; int k; Col(const std::vector<int>& c_, int k_) : c(c_), k(k_) {} int operator()(const multi1d<int>& x) const override { return c[c2lex(v1(x), S)]; } int numSubsets() const override { return k; } };
static std::vector<int> lin;     // linear index of lexicographic site
static Ten zeroLike(const Ten& a) { return map1(a, [](cd) { return cd(0); }); }
static cd dot(const Ten& a, const Ten& b) { cd r = 0; for (size_t k = 0; k < a.v.size(); ++k) r += std::conj(a.v[k]) * b.v[k]; return r; }
static Ten num(cd z, bool c) { Ten t(0, 1, 0, 1, c); t.v[0] = z; return t; }
static Ten real1(const Ten& a) { return num(a.v[0].real(), false); }
static void cmp(const std::string& nm, const std::string& in, const Ten& g, const Ten& w) { eval(); transition(); if (!same(g, w)) violation(nm, in + " got " + show(g) + " want " + show(w)); }

// every k-colouring: sums over each colour, over the set, and their total
template<class L> void colourings(const std::string& t, int k) {
  L a, b; multi1d<L> as(2); for (int i = 0; i < V; ++i) { dense(a.elem(i), i + 1, DENSE); dense(b.elem(i), i + 301, DENSE); dense(as[0].elem(i), i + 501, DENSE); dense(as[1].elem(i), i + 701, DENSE); }
  std::vector<Ten> A(V), B(V), P0(V), P1(V); for (int i = 0; i < V; ++i) { A[i] = ten(a.elem(i)); B[i] = ten(b.elem(i)); P0[i] = ten(as[0].elem(i)); P1[i] = ten(as[1].elem(i)); }
  Ten whole = zeroLike(A[0]); for (auto& x : A) whole = whole + x;
  long n = 1; for (int i = 0; i < V; ++i) n *= k;
  Set set; std::vector<int> c(V);
  for (long m = 0; m < n; ++m) {
    long r = m; for (int i = 0; i < V; ++i) { c[i] = r % k; r /= k; }
    std::string in = fmt("%s %d-colouring %ld", t.c_str(), k, m); cur(in);
    set.make(Col(c, k));
    std::vector<Ten> sa(k, zeroLike(whole)), sm(k, zeroLike(whole)), s0 = sa, s1 = sa; std::vector<cd> nn(k), ip(k), na(k);
    for (int x = 0; x < V; ++x) { int i = lin[x], q = c[x]; sa[q] = sa[q] + A[i]; sm[q] = sm[q] + A[i] - B[i]; s0[q] = s0[q] + P0[i]; s1[q] = s1[q] + P1[i]; nn[q] += dot(A[i], A[i]); ip[q] += dot(A[i], B[i]); na[q] += dot(P0[i], P0[i]) + dot(P1[i], P1[i]); }
    auto mu = sumMulti(a, set); auto me = sumMulti(a - b, set); auto mm = sumMulti(as, set);
    if (mu.size() != k || me.size() != k || mm.size2() != 2 || mm.size1() != k) { violation("sumMulti size:" + t, in); continue; }
    Ten tot = zeroLike(whole);
    for (int q = 0; q < k; ++q) {
      const Subset& ss = set[q]; std::string w = fmt("%s colour %d", in.c_str(), q);
      cmp("sumMulti " + t, w, ten(mu[q]), sa[q]); cmp("sumMulti(expr) " + t, w, ten(me[q]), sm[q]);
      cmp("sumMulti(array) " + t, w, ten(mm(0, q)), s0[q]); cmp("sumMulti(array) " + t, w, ten(mm(1, q)), s1[q]);
      auto s = sum(a, ss); cmp("sum(subset) " + t, w, ten(s), sa[q]);
      auto e = sum(a - b, ss); cmp("sum(expr,subset) " + t, w, ten(e), sm[q]);
      auto v = sum(a[ss]); cmp("sum(view) " + t, w, ten(v), sa[q]);
      auto no = norm2(a, ss); cmp("norm2(subset) " + t, w, ten(no), num(nn[q], false));
      auto p = innerProduct(a, b, ss); cmp("innerProduct(subset) " + t, w, ten(p), num(ip[q], true));
      auto pr = innerProductReal(a, b, ss); cmp("innerProductReal(subset) " + t, w, ten(pr), num(ip[q].real(), false));
      auto an = norm2(as, ss); cmp("norm2(array,subset) " + t, w, ten(an), num(na[q], false));
      tot = tot + ten(s);
    }
    auto al = sum(a); cmp("sum = sum of parts " + t, in, ten(al), tot); cmp("sum " + t, in, ten(al), whole);
    state(hash(in)); trace();
  }
  outcome(hash("col" + t)); sample(fmt("all %ld %d-colourings, %s", n, k, t.c_str()));
}
// integers and reals: the whole family of operand arrangements
template<class L> void forms(const std::string& t) {
  typedef typename El<L>::T E; typedef OScalar<E> O;
  L a, b; O s, s2; multi1d<L> xs(3), ys(3); multi1d<O> us(3), ws(3); dense(s.elem(), 90, DENSE); dense(s2.elem(), 91, DENSE);
  for (int i = 0; i < V; ++i) { dense(a.elem(i), i + 1, DENSE); dense(b.elem(i), i + 301, DENSE); for (int k = 0; k < 3; ++k) { dense(xs[k].elem(i), i + 100 * k, DENSE); dense(ys[k].elem(i), i + 31 + 100 * k, DENSE); } }
  for (int k = 0; k < 3; ++k) { dense(us[k].elem(), 700 + k, DENSE); dense(ws[k].elem(), 800 + k, DENSE); }
  Ten TS = ten(s.elem()), TS2 = ten(s2.elem());
  for (unsigned m = 0; m <= (1u << V); ++m) {      // every mask, and the whole lattice
    bool whole = m == (1u << V); std::vector<int> c(V); for (int i = 0; i < V; ++i) c[i] = whole ? 1 : m >> i & 1;
    Set set; set.make(Col(c, 2)); const Subset& ss = set[1]; std::string in = whole ? "whole" : fmt("mask %x", m); cur(t + " " + in);
    cd n = 0, p = 0, q = 0, e = 0, sp = 0, ps = 0, nx = 0, xy = 0, ne = 0; int cnt = 0; Ten SS1 = zeroLike(TS);
    for (int x = 0; x < V; ++x) if (c[x]) { int i = lin[x]; ++cnt; Ten A = ten(a.elem(i)), B = ten(b.elem(i)); n += dot(A, A); p += dot(A, B); q += dot(B, A); e += dot(A - B, A + B); ne += dot(A - B, A - B); sp += dot(TS, A); ps += dot(A, TS); SS1 = SS1 + TS;
      for (int k = 0; k < 3; ++k) { Ten X = ten(xs[k].elem(i)), Y = ten(ys[k].elem(i)); nx += dot(X, X); xy += dot(X, Y); } }
    cd nu = 0, uw = 0; for (int k = 0; k < 3; ++k) { nu += dot(ten(us[k].elem()), ten(us[k].elem())); uw += dot(ten(us[k].elem()), ten(ws[k].elem())); }
#define R(nm, W, C, fn, ...) { auto r = whole ? fn(__VA_ARGS__) : fn(__VA_ARGS__, ss); cmp(std::string(nm) + " " + t, in, ten(r), num(W, C)); }
    R("norm2(x)", n, false, norm2, a) R("norm2(expr)", ne, false, norm2, a - b) R("norm2(array)", nx, false, norm2, xs)
    R("innerProduct(x,y)", p, true, innerProduct, a, b) R("innerProduct(y,x)", q, true, innerProduct, b, a) R("innerProduct(x,x)", n, true, innerProduct, a, a)
    R("innerProduct(e,e)", e, true, innerProduct, a - b, a + b) R("innerProduct(e,x)", e, true, innerProduct, a - b, L(a + b)) R("innerProduct(x,e)", e, true, innerProduct, L(a - b), a + b)
    R("innerProduct(s,x)", sp, true, innerProduct, s, a) R("innerProduct(x,s)", ps, true, innerProduct, a, s) R("innerProduct(array)", xy, true, innerProduct, xs, ys)
    R("innerProductReal(x,y)", p.real(), false, innerProductReal, a, b) R("innerProductReal(y,x)", q.real(), false, innerProductReal, b, a) R("innerProductReal(x,x)", n, false, innerProductReal, a, a)
    R("innerProductReal(e,e)", e.real(), false, innerProductReal, a - b, a + b) R("innerProductReal(e,x)", e.real(), false, innerProductReal, a - b, L(a + b)) R("innerProductReal(x,e)", e.real(), false, innerProductReal, L(a - b), a + b)
    R("innerProductReal(s,x)", sp.real(), false, innerProductReal, s, a) R("innerProductReal(x,s)", ps.real(), false, innerProductReal, a, s) R("innerProductReal(array)", xy.real(), false, innerProductReal, xs, ys)
    // single-site operands are not multiplied by the number of sites
    R("norm2(S)", dot(TS, TS), false, norm2, s) R("norm2(S expr)", dot(TS - TS2, TS - TS2), false, norm2, s - s2) R("innerProduct(S,S)", dot(TS, TS2), true, innerProduct, s, s2) R("innerProductReal(S,S)", dot(TS, TS2).real(), false, innerProductReal, s, s2)
    R("norm2(S array)", nu, false, norm2, us) R("innerProduct(S array)", uw, true, innerProduct, us, ws) R("innerProductReal(S array)", uw.real(), false, innerProductReal, us, ws)
    { auto r = whole ? sum(s) : sum(s, ss); cmp("sum(S) " + t, in, ten(r), TS); auto r2 = whole ? sum(s - s2) : sum(s - s2, ss); cmp("sum(S expr) " + t, in, ten(r2), TS - TS2); }
    { auto r = sumMulti(s, set); bool ok = r.size() == 2; check(ok, "sumMulti(S) " + t, in); for (int k = 0; ok && k < 2; ++k) cmp("sumMulti(S) " + t, in, ten(r[k]), TS); }
    { auto r = sumMulti(us, set); bool ok = r.size2() == 3 && r.size1() == 2; check(ok, "sumMulti(S array) " + t, in); for (int j = 0; ok && j < 3; ++j) for (int k = 0; k < 2; ++k) cmp("sumMulti(S array) " + t, in, ten(r(j, k)), ten(us[j].elem())); }
    // sums of traces, products, shifts and adjoints
    { Ten w = zeroLike(TS); Ten tr0(0, 1, 0, 1); std::vector<Ten> sh(2 * Nd, w); for (int x = 0; x < V; ++x) if (c[x]) { IV cx = lex2c(x, S); for (int mu = 0; mu < Nd; ++mu) for (int d = 0; d < 2; ++d) { IV y = cx; y[mu] = (y[mu] + (d ? 1 : S[mu] - 1)) % S[mu]; sh[2 * mu + d] = sh[2 * mu + d] + ten(a.elem(lin[c2lex(y, S)])); } }
      if (m % 5 == 0 || whole) for (int mu = 0; mu < Nd; ++mu) { { auto r = whole ? sum(shift(a, BACKWARD, mu)) : sum(shift(a, BACKWARD, mu), ss); cmp("sum(shift) " + t, in, ten(r), sh[2 * mu]); } { auto r = whole ? sum(shift(a, FORWARD, mu)) : sum(shift(a, FORWARD, mu), ss); cmp("sum(shift) " + t, in, ten(r), sh[2 * mu + 1]); } } }
    // empty arrays
    { multi1d<L> none; auto r = norm2(none, ss); cmp("norm2(empty array) " + t, in, ten(r), num(0, false)); }
    state(hash(t + in)); trace();
  }
  outcome(hash("forms" + t));
}
// each site once: site i holds 2^i
template<class L> void bits(const std::string& t, const Set& set, const std::string& sn) {
  L a; auto put = [](auto& e, double v) { bool f = true; words(e, [&](auto& w) { w = typename std::decay<decltype(w)>::type(f ? v : 0); f = false; }); };
  for (int i = 0; i < V; ++i) put(a.elem(i), std::ldexp(1.0, i));
  auto mu = sumMulti(a, set); multi1d<L> as(2); as[0] = a; as[1] = a + a; auto mm = sumMulti(as, set); double tot = 0;
  for (int k = 0; k < set.numSubsets(); ++k) {
    double w = 0; const Subset& ss = set[k]; for (int i = 0; i < V; ++i) if (set.latticeColoring()[i] == k) w += std::ldexp(1.0, i);
    auto s = sum(a, ss); auto e = sum(a + a, ss); auto v = sum(a[ss]); tot += w;
    double got[6] = {wordsOf(s.elem())[0], wordsOf(e.elem())[0] / 2, wordsOf(v.elem())[0], wordsOf(mu[k].elem())[0], wordsOf(mm(0, k).elem())[0], wordsOf(mm(1, k).elem())[0] / 2};
    for (int q = 0; q < 6; ++q) { eval(); transition(); check(got[q] == w, fmt("site counting:%d %s", q, t.c_str()), fmt("shape %s set %s colour %d got %.17g want %.17g", str(S).c_str(), sn.c_str(), k, got[q], w)); }
  }
  auto s = sum(a); check(wordsOf(s.elem())[0] == tot && tot == std::ldexp(1.0, V) - 1, "site counting:all " + t, str(S));
  state(hash("bits" + t + str(S) + sn));
}
struct W8 { int k; double d; };
struct One : SetFunc { int operator()(const multi1d<int>&) const override { return 0; } int numSubsets() const override { return 1; } };
static Set& oneSet() { static Set s; s.make(One()); return s; }
struct Slice : SetFunc { int mu; Slice(int m) : mu(m) {} int operator()(const multi1d<int>& x) const override { return x[mu]; } int numSubsets() const override { return S[mu]; } };
static void allShapes(Pool& pool) {
  std::vector<std::vector<IV>> ch(8); int n = 0; int maxv = thorough() ? 52 : 36;
  shapes(Nd, maxv, {1, 2, 3, 4, 5, 6, 8, 12, 16}, [&](const IV& s) { if (acceptable(s)) ch[n++ % 8].push_back(s); });
  for (auto& list : ch) pool.run("shapes", [&] { for (auto& s : list) {
    S = s; V = volume(s); cur("shape " + str(s)); lattice(s);
    auto go = [&](const Set& set, const std::string& nm) { bits<LatticeRealD>("RealD", set, nm); bits<LatticeComplexD>("ComplexD", set, nm); if (V <= 24) { bits<LatticeReal>("Real", set, nm); } if (V <= 30) bits<LatticeInteger>("Integer", set, nm); };
    go(rb, "rb"); go(oneSet(), "all"); for (int mu = 0; mu < Nd; ++mu) { Set t; t.make(Slice(mu)); go(t, fmt("slice%d", mu)); }
#if QDP_ND == 4
    go(rb3, "rb3");
#endif
    trace(); } });
}
// extremum wherever it sits
template<class L> void extremum(const std::string& t) {
  typedef typename WordType<typename El<L>::T>::Type_t W; bool dbl = !std::numeric_limits<W>::is_integer;
  auto judge = [&](const std::vector<double>& v, const std::string& in) {
    L a, neg; for (int i = 0; i < V; ++i) { words(a.elem(i), [&](auto& w) { w = W(v[i]); }); words(neg.elem(i), [&](auto& w) { w = W(-v[i]); }); }
    double mx = *std::max_element(v.begin(), v.end()), mn = *std::min_element(v.begin(), v.end());
    auto g1 = globalMax(a), g2 = globalMin(a), g3 = globalMax(-a), g4 = globalMin(-a), g5 = globalMax(neg), g6 = globalMin(neg + neg);
    double got[6] = {wordsOf(g1.elem())[0], wordsOf(g2.elem())[0], wordsOf(g3.elem())[0], wordsOf(g4.elem())[0], wordsOf(g5.elem())[0], wordsOf(g6.elem())[0]}, want[6] = {mx, mn, -mn, -mx, -mn, -2 * mx};
    for (int q = 0; q < 6; ++q) { eval(); transition(); if (got[q] != want[q]) violation(fmt("extremum:%s:%d", t.c_str(), q), in + fmt(" got %.17g want %.17g", got[q], want[q])); }
    state(hash(t + in));
  };
  // every order of V distinct values: mixed, all positive, all negative
  std::vector<std::vector<double>> base = {{-3, -2, -1, 0, 1, 2, 3, 4}, {-9, -8, -7, -6, -5, -4, -3, -2}, {1, 2, 3, 4, 5, 6, 7, 8}};
  if (dbl) base.push_back({-1e30, -1e-30, 0.25, 1e-30, 2e-30, 1e30, 0.5, 3}); else base.push_back({-1073741823, -5, -4, 0, 7, 8, 1073741800, 1073741823});
  for (size_t b = 0; b < base.size(); ++b) { cur(fmt("extremum %s base %zu", t.c_str(), b)); std::vector<double> v = base[b]; for (auto& x : v) x = (double)(W)x; std::sort(v.begin(), v.end()); long k = 0; do { if (b == 0 || thorough() || k % 7 == 0) judge(v, fmt("perm %zu.%ld", b, k)); ++k; } while (std::next_permutation(v.begin(), v.end())); }
  // every arrangement with ties
  double al[] = {-2, 0, 5}; for (int m = 0; m < 6561; ++m) { std::vector<double> v(V); int r = m; for (int i = 0; i < V; ++i) { v[i] = al[r % 3]; r /= 3; } judge(v, fmt("ties %d", m)); }
  if (dbl) { double inf = std::numeric_limits<double>::infinity(); for (int i = 0; i < V; ++i) for (int j = 0; j < V; ++j) { std::vector<double> v(V); for (int k = 0; k < V; ++k) v[k] = k; v[i] = inf; v[j] = -inf; judge(v, fmt("inf %d %d", i, j)); } }
  { typedef OScalar<typename El<L>::T> O; for (int x = -3; x <= 3; ++x) { O s; words(s.elem(), [&](auto& w) { w = W(x); }); auto g = globalMax(s), h = globalMin(s), k = globalMax(-s), l = globalMin(-s); eval(4); check(wordsOf(g.elem())[0] == x && wordsOf(h.elem())[0] == x && wordsOf(k.elem())[0] == -x && wordsOf(l.elem())[0] == -x, "extremum of single-site:" + t, fmt("%d", x)); } }
  trace(); outcome(hash("ext" + t));
}
// a special value wherever it sits
template<class L> void special(const std::string& t) {
  typedef typename WordType<typename El<L>::T>::Type_t W; typedef std::numeric_limits<W> N; int nw = nwords<typename El<L>::T>();
  W sp[] = {N::quiet_NaN(), -N::quiet_NaN(), N::infinity(), -N::infinity(), W(N::min() / 2), W(-N::denorm_min()), W(0), W(-0.0), N::max(), N::lowest(), N::min()}; const int NS = 11;
  L a; W one = W(1.5);
  auto put = [&](int site, int word, W v) { int k = 0; words(a.elem(site), [&](auto& w) { if (k++ == word) w = v; }); };
  for (int i = 0; i < V; ++i) words(a.elem(i), [&](auto& w) { w = one; });
  auto cls = [&](W v) { int c = std::fpclassify(v); return c; };
  auto judge = [&](const std::vector<W>& v, const std::string& in) {
    bool n = false, f = true, inf = false, no = true; for (W x : v) { int c = cls(x); n |= c == FP_NAN; inf |= c == FP_INFINITE; f &= c != FP_NAN && c != FP_INFINITE; no &= c == FP_NORMAL; }
    bool g[4] = {isnan(a), isinf(a), isfinite(a), isnormal(a)}, h[4] = {isnan(-a), isinf(-a), isfinite(-a), isnormal(-a)}, w[4] = {n, inf, f, no}; static const char* nm[] = {"isnan", "isinf", "isfinite", "isnormal"};
    for (int q = 0; q < 4; ++q) { eval(2); transition(); if (g[q] != w[q]) violation(fmt("%s %s", nm[q], t.c_str()), in + fmt(" got %d", g[q])); if (h[q] != w[q]) violation(fmt("%s(expr) %s", nm[q], t.c_str()), in + fmt(" got %d", h[q])); }
    state(hash(t + in));
  };
  cur("special " + t); judge({one}, "ordinary");
  for (int i = 0; i < V; ++i) for (int k = 0; k < nw; ++k) for (int s = 0; s < NS; ++s) { put(i, k, sp[s]); judge({one, sp[s]}, fmt("site %d word %d value %d", i, k, s));
    for (int j = 0; j < V; ++j) for (int q = 0; q < NS; ++q) { int k2 = (k + j + q) % nw; if (j == i && k2 == k) continue; if (nw > 4 && (i + j + k + s + q) % 16) continue; put(j, k2, sp[q]); judge({one, sp[s], sp[q]}, fmt("site %d word %d value %d and site %d word %d value %d", i, k, s, j, k2, q)); put(j, k2, one); }
    put(i, k, one); }
  typedef OScalar<typename El<L>::T> O; O o; words(o.elem(), [&](auto& w) { w = one; });
  for (int k = 0; k < nw; ++k) for (int s = 0; s < NS; ++s) { int z = 0; words(o.elem(), [&](auto& w) { w = z++ == k ? sp[s] : one; }); int c = cls(sp[s]); eval(4);
    check(isnan(o) == (c == FP_NAN) && isinf(o) == (c == FP_INFINITE) && isfinite(o) == (c != FP_NAN && c != FP_INFINITE) && isnormal(o) == (c == FP_NORMAL), "special value in single-site:" + t, fmt("word %d value %d", k, s)); }
  trace(); outcome(hash("special" + t));
}
// sums are accumulated in double precision: exact far beyond single precision
template<class L> void wide(const std::string& t) {
  typedef typename WordType<typename El<L>::T>::Type_t W; double big = 16777216;      // 2^24
  for (int i = 0; i < V; ++i) for (int m = 0; m < 256; ++m) { L a; a = zero; for (int k = 0; k < V; ++k) words(a.elem(k), [&](auto& w) { w = W(k == i ? big : m >> k & 1); });
    double w = big; for (int k = 0; k < V; ++k) if (k != i && m >> k & 1) w += 1; auto s = sum(a); auto s2 = sum(a, all); auto s3 = sumMulti(a, oneSet()); auto s4 = sum(a[all]);
    double g[4] = {wordsOf(s.elem())[0], wordsOf(s2.elem())[0], wordsOf(s3[0].elem())[0], wordsOf(s4.elem())[0]};
    for (int q = 0; q < 4; ++q) { eval(); transition(); check(g[q] == w, fmt("wide sum:%s:%d", t.c_str(), q), fmt("big at %d mask %d got %.17g want %.17g", i, m, g[q], w)); }
    state(hash(fmt("wide%s%d.%d", t.c_str(), i, m))); }
  trace();
}
// listed larger lattices: distinct integers at every site, sets of many subsets, an extremum or a special value at chosen sites
struct Many : SetFunc { int k, kind; Many(int a, int b) : k(a), kind(b) {} int operator()(const multi1d<int>& x) const override { int l = c2lex(v1(x), S); return kind == 0 ? l % k : kind == 1 ? (int)((long)l * k / V) : l == V / 2 ? k - 1 : 0; } int numSubsets() const override { return k; } };
template<class L> static void largeOne(const std::string& t, bool cplx) { L a, b; std::vector<double> A(V), B(V), C(V); for (int i = 0; i < V; ++i) { A[i] = i % 9973 - 4000; B[i] = i * 7l % 13 - 5; C[i] = cplx ? i % 11 - 4 : 0; int q = 0; words(a.elem(i), [&](auto& w) { w = q++ ? C[i] : A[i]; }); q = 0; words(b.elem(i), [&](auto& w) { w = q++ ? 0 : B[i]; }); }
  std::vector<std::pair<Set*, std::string>> sets; sets.push_back({&rb, "rb"}); sets.push_back({&oneSet(), "one"}); for (int mu = 0; mu < Nd; ++mu) { Set* s = new Set; s->make(Slice(mu)); sets.push_back({s, fmt("slices %d", mu)}); } for (int k : {33, 257, 1000}) for (int kind = 0; kind < 3; ++kind) { Set* s = new Set; s->make(Many(k, kind)); sets.push_back({s, fmt("%d subsets, kind %d", k, kind)}); }
  multi1d<L> as(3); as[0] = a; as[1] = b; as[2] = a; double wa = 0, wc = 0; for (int i = 0; i < V; ++i) { wa += A[i]; wc += C[i]; }
  for (auto& e : sets) { const Set& set = *e.first; std::string in = t + " shape " + str(S) + " " + e.second; cur(in); const int k = set.numSubsets(); std::vector<double> sa(k), sc(k), sb(k), sn(k), sp(k), sq(k); for (int i = 0; i < V; ++i) { int q = set.latticeColoring()[i]; sa[q] += A[i]; sc[q] += C[i]; sb[q] += B[i]; sn[q] += A[i] * A[i] + C[i] * C[i]; sp[q] += A[i] * B[i]; sq[q] += -C[i] * B[i]; }
    auto mu = sumMulti(a, set); auto mm = sumMulti(as, set); auto me = sumMulti(a - b, set); if (!check(mu.size() == k && me.size() == k && mm.size2() == 3 && mm.size1() == k, "sumMulti size:" + t, in)) continue;
    for (int q = 0; q < k; ++q) { eval(); transition(); const std::string w = in + fmt(" colour %d", q); auto is = [&](auto&& g, double r, double c, const char* n) { auto x = wordsOf(g.elem()); if (x[0] != r || (x.size() > 1 && x[1] != c)) violation(std::string(n) + " " + t, w + fmt(" got %.17g want %.17g", x[0], r)); };
      is(mu[q], sa[q], sc[q], "sumMulti"); is(me[q], sa[q] - sb[q], sc[q], "sumMulti(expr)"); is(mm(0, q), sa[q], sc[q], "sumMulti(array)"); is(mm(1, q), sb[q], 0, "sumMulti(array)"); is(mm(2, q), sa[q], sc[q], "sumMulti(array)");
      if (k < 300 && (k < 40 || q % 16 == 1)) { const Subset& ss = set[q]; is(sum(a, ss), sa[q], sc[q], "sum(subset)"); is(sum(a - b, ss), sa[q] - sb[q], sc[q], "sum(expr,subset)"); is(sum(a[ss]), sa[q], sc[q], "sum(view)"); is(norm2(a, ss), sn[q], 0, "norm2(subset)"); is(innerProduct(a, b, ss), sp[q], sq[q], "innerProduct(subset)"); is(innerProductReal(a, b, ss), sp[q], 0, "innerProductReal(subset)"); } } state(hash(in)); trace(); }
  { auto s = sum(a), v = sum(a + b - b); double n2 = 0, ip = 0; for (int i = 0; i < V; ++i) { n2 += A[i] * A[i] + C[i] * C[i]; ip += A[i] * B[i]; } check(wordsOf(s.elem())[0] == wa && wordsOf(v.elem())[0] == wa, "sum " + t, str(S)); auto n = norm2(a); auto p = innerProduct(a, b); auto r = innerProductReal(a, b); auto n3 = norm2(as); double nb = 0; for (double x : B) nb += x * x; check(toDouble(n) == n2 && wordsOf(p.elem())[0] == ip && toDouble(r) == ip && toDouble(n3) == 2 * n2 + nb, "norm2 or innerProduct " + t, str(S)); eval(4); }
  std::vector<int> at{0, 1, V / 3, V / 2 - 1, V / 2, V - 2, V - 1}; for (int p = 255; p < V; p = p * 2 + 1) { at.push_back(p); at.push_back(p + 1 < V ? p + 1 : 0); }
  for (int i : at) { L z; z = a; for (W8 v : {W8{0, std::numeric_limits<double>::quiet_NaN()}, W8{1, std::numeric_limits<double>::infinity()}, W8{2, 1e-310}}) { words(z.elem(i), [&](auto& w) { w = v.d; }); eval(4); bool sub = v.k == 2; bool wn = isnan(z), wi = isinf(z), wf = isfinite(z), wo = isnormal(z); (void)sub; std::string in = t + " shape " + str(S) + fmt(" special value %d at %d", v.k, i); check(wn == (v.k == 0) && wi == (v.k == 1) && wf == (v.k == 2) && !wo, "special value " + t, in); } z = b; words(z.elem(i), [&](auto& w) { w = 3; }); check(!isnan(z) && !isinf(z) && isfinite(z), "special value " + t, str(S)); } sample(t + " on listed larger lattice " + str(S)); }
static void largeMax() { LatticeRealD a; LatticeInteger n; std::vector<int> at{0, 1, V / 3, V / 2 - 1, V / 2, V - 2, V - 1}; for (int p = 255; p < V; p = p * 2 + 1) { at.push_back(p); at.push_back(p + 1 < V ? p + 1 : 0); } for (int hi : at) for (int lo : at) if (hi != lo) { for (int i = 0; i < V; ++i) { double v = i == hi ? 70001 : i == lo ? -70001 : (i * 7919l) % 70000; a.elem(i).elem().elem().elem() = v; n.elem(i).elem().elem().elem() = (int)v; } eval(4); check(toDouble(globalMax(a)) == 70001 && toDouble(globalMin(a)) == -70001 && toDouble(globalMax(a * RealD(-1))) == 70001, "extremum", str(S) + fmt(" at %d and %d", hi, lo)); state(hash(fmt("mx%d %d", hi, lo) + str(S))); } trace(); }
// arrays of many fields
template<class L> static void arrays(const std::string& t, const IV& sh) { S = sh; V = volume(sh); lattice(sh); Set* many = new Set; many->make(Many(5, 0));
  for (int n : {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) { std::string in = t + " shape " + str(sh) + fmt(" %d fields", n); cur(in);
    multi1d<L> a(n), b(n); std::vector<double> sa(n * 5), no(6), ip(6); std::vector<std::vector<double>> A(n, std::vector<double>(V)), B = A;
    for (int j = 0; j < n; ++j) for (int i = 0; i < V; ++i) { A[j][i] = (j * 31 + i * 7) % 101 - 50; B[j][i] = (j * 17 + i * 5) % 97 - 30; bool f = true; words(a[j].elem(i), [&](auto& w) { w = f ? A[j][i] : 0; f = false; }); f = true; words(b[j].elem(i), [&](auto& w) { w = f ? B[j][i] : 0; f = false; }); int q = many->latticeColoring()[i]; sa[j * 5 + q] += A[j][i]; for (int k : {q, 5}) { no[k] += A[j][i] * A[j][i]; ip[k] += A[j][i] * B[j][i]; } }
    auto is = [&](auto&& g, double r, const char* nm) { eval(); transition(); auto x = wordsOf(g.elem()); if (x[0] != r) violation(std::string(nm) + " of an array " + t, in + fmt(" got %.17g want %.17g", x[0], r)); };
    is(norm2(a), no[5], "norm2"); is(innerProduct(a, b), ip[5], "innerProduct"); is(innerProductReal(a, b), ip[5], "innerProductReal");
    for (int q = 0; q < 5; ++q) { const Subset& ss = (*many)[q]; is(norm2(a, ss), no[q], "norm2(subset)"); is(innerProduct(a, b, ss), ip[q], "innerProduct(subset)"); is(innerProductReal(a, b, ss), ip[q], "innerProductReal(subset)"); }
    auto mm = sumMulti(a, *many); if (check(mm.size2() == n && mm.size1() == (n ? 5 : mm.size1()), "sumMulti(array) size " + t, in)) for (int j = 0; j < n; ++j) for (int q = 0; q < 5; ++q) is(mm(j, q), sa[j * 5 + q], "sumMulti(array)");
    state(hash(in)); trace(); }
}
static void large(const IV& s) { S = s; V = volume(s); lattice(s); largeOne<LatticeRealD>("RealD", false); largeOne<LatticeComplexD>("ComplexD", true); if (V < 7000) largeMax(); }
static void small(const IV& s) { S = s; V = volume(s); lattice(s); lin.resize(V); for (int x = 0; x < V; ++x) lin[x] = Layout::linearSiteIndex(m1(lex2c(x, s))); }
static void go(Pool& pool) {
#define J(...) pool.run("reduce", [=] { __VA_ARGS__; });
#if PART == 9
  allShapes(pool); for (auto& s : largeShapes(140000)) pool.run("large", [=] { large(s); });
  { IV a(Nd, 1), b(Nd, 1); a[0] = a[1] = a[2] = 2; b[0] = 4; b[1] = 6; for (auto& s : {a, b}) if (acceptable(s)) { J(arrays<LatticeRealD>("RealD", s)) J(arrays<LatticeComplexD>("ComplexD", s)) J(arrays<LatticeReal>("Real", s)) J(arrays<LatticeFermion>("Fermion", s)) J(arrays<LatticeInteger>("Integer", s)) } } return;
#endif
  IV s(Nd, 1); s[0] = s[1] = 2; s[2] = 2; small(s);
#if PART == 0
  J(colourings<LatticeInteger>("Integer", 3)) J(colourings<LatticeReal>("Real", 3)) J(colourings<LatticeComplex>("Complex", 3)) J(colourings<LatticeRealD>("RealD", 2)) J(colourings<LatticeComplexF>("ComplexF", 2))
  J(extremum<LatticeInteger>("Integer")) J(extremum<LatticeReal>("Real")) J(extremum<LatticeRealD>("RealD"))
  J(wide<LatticeReal>("Real")) J(wide<LatticeRealF>("RealF")) J(wide<LatticeComplexF>("ComplexF"))
#elif PART == 1
  J(colourings<LatticeColorMatrix>("ColorMatrix", 2)) J(colourings<LatticeFermion>("Fermion", 2)) J(colourings<LatticeStaggeredFermion>("StaggeredFermion", 2)) J(colourings<LatticeSpinMatrix>("SpinMatrix", 2))
#elif PART == 2
  J(forms<LatticeComplex>("Complex")) J(forms<LatticeFermion>("Fermion")) J(forms<LatticeColorMatrix>("ColorMatrix")) J(forms<LatticeColorVector>("ColorVector"))
#elif PART == 3
  J(colourings<LatticePropagator>("Propagator", 2)) J(forms<LatticePropagator>("Propagator")) J(forms<LatticeSpinMatrix>("SpinMatrix")) J(forms<LatticeFermionD>("FermionD"))
#elif PART == 4
  J(special<LatticeReal>("Real")) J(special<LatticeComplex>("Complex")) J(special<LatticeRealD>("RealD")) J(special<LatticeColorMatrix>("ColorMatrix")) J(special<LatticeFermion>("Fermion")) J(special<LatticeColorVectorD>("ColorVectorD")) J(special<LatticeSpinMatrix>("SpinMatrix"))
#endif
}
int main(int argc, char** argv) { init(argc, argv); startup(); Pool pool(700); go(pool); pool.drain(); return finish(); }
