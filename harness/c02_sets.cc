// C02: sets against their colouring function; histories of set objects.
#include "lat.h"
#include <memory>
using namespace QDP; using namespace vf;

struct TableFunc : public SetFunc {   // colour looked up by lexicographic position
  std::vector<int> col; int n; IV s;
  TableFunc(const std::vector<int>& c, int n_, const IV& s_) : col(c), n(n_), s(s_) {}
  int operator()(const multi1d<int>& x) const override { return col[c2lex(v1(x), s)]; }
  int numSubsets() const override { return n; }
};

// full comparison of a live set with the colours (by lexicographic site) it should have
static bool verify(const Set& S, const std::vector<int>& col, int k, const IV& s, const std::string& what, bool use = true) {
  int V = volume(s); bool ok = true;
  std::string L = str(s) + (col.size() > 100 ? std::string() : " colours " + str(col));
  auto bad = [&](const char* key, const std::string& m) { ok = false; violation(std::string(key), what + " shape " + L + ": " + m); };
  if (S.numSubsets() != k) { bad("num-subsets", fmt("%d != %d", S.numSubsets(), k)); return false; }
  const multi1d<int>& lc = S.latticeColoring();
  if (lc.size() != V) { bad("colouring-size", fmt("%d", lc.size())); return false; }
  std::vector<int> lin(V), want(V);          // colour by linear index
  for (int l = 0; l < V; ++l) { lin[l] = Layout::linearSiteIndex(m1(lex2c(l, s))); want[lin[l]] = col[l]; }
  std::vector<int> hits(V, 0);
  for (int i = 0; i < V; ++i) if (lc[i] != want[i]) bad("colouring", fmt("linear site %d has colour %d, function says %d", i, lc[i], want[i]));
  for (int c = 0; c < k; ++c) {
    const Subset& ss = S[c];
    std::vector<int> mine; for (int i = 0; i < V; ++i) if (want[i] == c) mine.push_back(i);
    if (ss.color() != c) bad("colour-number", fmt("%d", c));
    if (&ss.getSet() != &S) bad("parent-set", fmt("subset %d does not refer to its set", c));
    if (ss.numSiteTable() != (int)mine.size() || ss.siteTable().size() != (int)mine.size()) { bad("size", fmt("subset %d has %d sites, expected %d", c, ss.numSiteTable(), (int)mine.size())); continue; }
    std::set<int> got; bool inr = true;
    for (int i = 0; i < ss.numSiteTable(); ++i) { int t = ss.siteTable()[i]; if (t < 0 || t >= V) { inr = false; bad("site-range", fmt("%d", t)); } else { got.insert(t); hits[t]++; } }
    if (!inr) continue;
    if (got != std::set<int>(mine.begin(), mine.end())) bad("members", fmt("subset %d", c));
    if (ss.hasOrderedRep()) {
      bool exact = !mine.empty() && ss.start() == mine.front() && ss.end() == mine.back() && ss.end() - ss.start() + 1 == (int)mine.size();
      if (!exact) bad("ordered-range", fmt("subset %d claims [%d,%d] with %d sites", c, ss.start(), ss.end(), (int)mine.size()));
    }
    if (use) {       // what a user sees: assignment under the subset touches exactly its sites
      LatticeInteger f; f = Integer(7); f[ss] = Integer(3 + c);
      for (int i = 0; i < V; ++i) if (f.elem(i).elem().elem().elem() != (want[i] == c ? 3 + c : 7)) bad("assign", fmt("subset %d linear site %d", c, i));
    }
  }
  for (int i = 0; i < V; ++i) if (hits[i] != 1) bad("partition", fmt("linear site %d is in %d subsets", i, hits[i]));
  return ok;
}

static void funcs(const IV& s, int k, uint64_t lo, uint64_t hi) {
  lattice(s); int V = volume(s);
  Set reused;                                   // rebuilt over and over
  for (uint64_t n = lo; n < hi; ++n) {
    std::vector<int> col(V); uint64_t m = n; for (int l = 0; l < V; ++l) { col[l] = m % k; m /= k; }
    cur("shape " + str(s) + " colours " + str(col));
    TableFunc f(col, k, s);
    Set S; S.make(f); verify(S, col, k, s, "make", n % 7 == 0);
    reused.make(f); verify(reused, col, k, s, "remake", n % 5 == 0);
    eval(2); state(hash(str(s) + "/" + str(col))); transition(2); trace();
  }
  if (hi > 3) sample(fmt("shape %s: %llu colourings with %d colours", str(s).c_str(), (unsigned long long)(hi - lo), k));
}

static void refuse(const IV& s) {      // exactly one site coloured out of range
  lattice(s); int V = volume(s);
  for (int k = 1; k <= 3; ++k) for (int l = 0; l < V; ++l) for (int badc : {-1, k, k + 1, 1 << 20, -(1 << 30)}) {
    std::vector<int> col(V, k - 1); col[l] = badc;
    ChildResult r = child([&](int fd) { Set S; TableFunc f(col, k, s); S.make(f); put(fd, "accepted"); }, 20);
    eval(); transition(); state(hash(str(s) + "!" + str(col)));
    if (r.out == "accepted" || (r.exited && r.code == 0)) violation("bad-colour-accepted", fmt("shape %s colour %d of %d", str(s).c_str(), badc, k));
    else if (r.sig == SIGSEGV || r.sig == SIGBUS) violation("bad-colour-crash", fmt("shape %s colour %d of %d: signal %d", str(s).c_str(), badc, k, r.sig));
  }
}

static void predefined(const IV& s) {
  lattice(s); int V = volume(s);
  std::vector<int> c1(V), c2(V), c3(V), c32(V);
  for (int l = 0; l < V; ++l) {
    IV x = lex2c(l, s); int sum = 0, s3 = 0, hyper = 0, low = 0;
    for (int m = 0; m < Nd; ++m) { sum += x[m]; if (m < 3) s3 += x[m]; low |= (x[m] % 2) << m; hyper += x[m] / 2; }
    c2[l] = sum % 2; c3[l] = s3 % 2; c32[l] = low + ((hyper % 2) << Nd);
  }
  verify(rb, c2, 2, s, "rb");
  if (Nd >= 3) verify(rb3, c3, 2, s, "rb3");
  verify(mcb, c32, 1 << (Nd + 1), s, "mcb");
  std::vector<int> lin(V), par(V);
  for (int l = 0; l < V; ++l) { lin[l] = Layout::linearSiteIndex(m1(lex2c(l, s))); par[lin[l]] = c2[l]; }
  auto one = [&](const Subset& ss, const char* nm, int colour) {      // colour -1: all
    std::set<int> want, got; for (int i = 0; i < V; ++i) if (colour < 0 || par[i] == colour) want.insert(i);
    for (int i = 0; i < ss.numSiteTable(); ++i) got.insert(ss.siteTable()[i]);
    if (got != want || ss.numSiteTable() != (int)want.size()) violation(std::string("predefined-") + nm, "shape " + str(s));
    if (ss.hasOrderedRep() && (want.empty() || ss.start() != *want.begin() || ss.end() != *want.rbegin() || ss.end() - ss.start() + 1 != (int)want.size())) violation(std::string("predefined-range-") + nm, "shape " + str(s));
    if (colour < 0 && !ss.hasOrderedRep()) violation("all-not-ordered", "shape " + str(s));
    eval();
  };
  one(all, "all", -1); one(even, "even", 0); one(odd, "odd", 1);
  if (rb[0].siteTable().size() != even.siteTable().size() || &even.getSet() != &rb || &odd.getSet() != &rb) violation("even-odd-parent", str(s));
  eval(3); transition(V); trace(); outcome(hash("pre" + str(s))); for (int l = 0; l < V; ++l) state(hash(fmt("p%d/%d/%d", l, c32[l], c2[l]) + str(s)));
}

// sets of very many subsets
static void many(const IV& s) { lattice(s); int V = volume(s); Set S; for (int k : {31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 5000, 40000}) for (int kind = 0; kind < 4; ++kind) { if ((long)k * V > 20000000) continue; std::vector<int> col(V); for (int l = 0; l < V; ++l) col[l] = kind == 0 ? l % k : kind == 1 ? k - 1 - l % k : kind == 2 ? (int)((long)l * k / V) : (int)((long)l * 7919 % k); cur("shape " + str(s) + fmt(" %d colours, kind %d", k, kind)); TableFunc f(col, k, s); S.make(f); if (!verify(S, col, k, s, fmt("%d colours, kind %d", k, kind), k < 1100 && (long)k * V < 3000000)) return; Set T(S); if (!verify(T, col, k, s, "copy", false)) return; eval(2); transition(2); trace(); state(hash(fmt("%d %d", k, kind) + str(s))); } sample("up to 40000 subsets, shape " + str(s)); }
// Histories over three set objects: build, rebuild, copy, assign, destroy.
struct Model { std::vector<int> col; int k = 0; bool live = false; };
static void histories(const IV& s, int depth, int first) {
  lattice(s); int V = volume(s);
  std::vector<std::pair<std::vector<int>, int>> fs(4);
  for (int l = 0; l < V; ++l) { IV x = lex2c(l, s); int sum = 0; for (int e : x) sum += e;
    fs[0].first.push_back(sum % 2); fs[1].first.push_back(l % 3); fs[2].first.push_back(l * 2 < V ? 0 : 1); fs[3].first.push_back(l == 1 ? 1 : 0); }
  fs[0].second = 2; fs[1].second = 3; fs[2].second = 4; fs[3].second = 2;   // the third has empty subsets, the fourth as many subsets as the first, of other sizes
  // operations: 0..11 make(i,f); 12..20 assign i=j (i==j included); 21..26 recreate i as a copy of j (i!=j); 27..29 destroy i
  const int NOP = 30;
  auto name = [&](int o) { if (o < 12) return fmt("make(%d,f%d)", o / 4, o % 4); if (o < 21) return fmt("%d=%d", (o - 12) / 3, (o - 12) % 3);
    if (o < 27) { int a = (o - 21) / 2, b = (a + 1 + (o - 21) % 2) % 3; return fmt("copy(%d from %d)", a, b); } return fmt("destroy(%d)", o - 27); };
  std::vector<int> h;
  auto run = [&](const std::vector<int>& ops) -> bool {
    std::unique_ptr<Set> P[3]; Model M[3]; std::string what;
    for (int i = 0; i < 3; ++i) { P[i].reset(new Set); M[i].live = true; }
    for (size_t n = 0; n < ops.size(); ++n) {
      int o = ops[n]; what += name(o) + ";"; cur("history " + what);
      if (o < 12) { int i = o / 4; if (!M[i].live) return false; auto& g = fs[o % 4]; TableFunc f(g.first, g.second, s); P[i]->make(f); M[i].col = g.first; M[i].k = g.second; }
      else if (o < 21) { int i = (o - 12) / 3, j = (o - 12) % 3; if (!M[i].live || !M[j].live) return false; *P[i] = *P[j]; M[i] = M[j]; }
      else if (o < 27) { int a = (o - 21) / 2, b = (a + 1 + (o - 21) % 2) % 3; if (!M[b].live) return false; P[a].reset(new Set(*P[b])); M[a] = M[b]; }
      else { int i = o - 27; if (!M[i].live) return false; P[i].reset(); M[i].live = false; }
      if (n + 1 == ops.size()) {
        uint64_t h = 0;
        for (int i = 0; i < 3; ++i) if (M[i].live && M[i].k) verify(*P[i], M[i].col, M[i].k, s, what + " set " + fmt("%d", i)); else if (M[i].live && P[i]->numSubsets() != 0) violation("empty-set", what);
        for (int i = 0; i < 3; ++i) h = hash(fmt("%d/%d/", M[i].live, M[i].k) + str(M[i].col), h + i);
        state(h); transition(); eval(); trace();
      }
    }
    return true;
  };
  std::function<void()> rec = [&] {
    if (!h.empty() && !run(h)) return;
    if ((int)h.size() == depth) return;
    for (int o = 0; o < NOP; ++o) { if (h.empty() && o != first) continue; h.push_back(o); rec(); h.pop_back(); }
  };
  rec();
}

int main(int argc, char** argv) {
  init(argc, argv); startup();
  std::string mode = argc > 1 ? argv[1] : "funcs";
  Pool pool(300);
  IV ones(Nd, 1);
  auto sh = [&](std::initializer_list<int> v) { IV s(ones); int i = 0; for (int e : v) s[i++] = e; return s; };
  if (mode == "funcs") {
    struct Job { IV s; int kmax; };
    bool t = thorough();
    std::vector<Job> js{{sh({2}), 4}, {sh({2, 2}), 4}, {sh({2, 1, 2}), 4}, {sh({4}), 4}, {sh({2, 3}), 4}, {sh({6}), t ? 5 : 3}, {sh({2, 2, 2}), t ? 4 : 3}, {sh({4, 1, 2}), t ? 4 : 3}, {sh({2, 5}), t ? 3 : 2}, {sh({2, 2, 3}), t ? 3 : 2}, {sh({2, 1, 1, 3}), 3}, {sh({2, 2, 1, 2}), t ? 3 : 2}};
    for (auto& j : js) { if (!acceptable(j.s)) continue;
      for (int k = 1; k <= j.kmax; ++k) {
        uint64_t N = 1; for (int l = 0; l < volume(j.s); ++l) N *= k;
        for (uint64_t lo = 0; lo < N; lo += 4096) pool.run("funcs", [=] { funcs(j.s, k, lo, std::min(N, lo + 4096)); });
      } }
    for (auto& s : {sh({2, 2}), sh({4}), sh({2, 3})}) if (acceptable(s)) pool.run("refuse", [=] { refuse(s); });
  } else if (mode == "predef") {
    std::vector<int> ext{1, 2, 3, 4, 5, 6, 8};
    std::vector<IV> ss; shapes(Nd, atoi(argv[2]), ext, [&](const IV& s) { if (acceptable(s)) ss.push_back(s); });
    for (auto& s : ss) pool.run("predef", [=] { cur("shape " + str(s)); predefined(s); });
    for (auto& s : largeShapes(140000)) pool.run("predef", [=] { cur("shape " + str(s)); predefined(s); });
    for (auto& s : largeShapes(7000)) pool.run("many", [=] { many(s); });
    pool.drain(); vf::extra("shapes", ss.size());
  } else {
    int depth = thorough() ? 4 : 3;
    for (auto& s : {sh({2, 2}), sh({4, 1, 3})}) for (int first = 0; first < 30; ++first) pool.run("history", [=] { histories(s, depth, first); });
  }
  pool.drain();
  return finish();
}
