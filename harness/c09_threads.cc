// C09: threaded execution gives the sequential result under every schedule.
#include "progs.h"
#include "omprt.h"
static std::vector<std::string>& reports() { static std::vector<std::string> r; return r; }
extern "C" void vft_report(const char* kind, const char* msg) {
#ifdef ARCH_SCALAR
  if (reports().size() < 20) reports().push_back(std::string(kind) + "|" + msg); if (!strcmp(kind, "deadlock")) { fprintf(stderr, "%s\n", msg); }
#else
  mp::misuse(std::string(kind) + ": " + msg);
#endif
}
// statements whose kernels split their sites themselves, for every kind of target
template<class L> static void vectors(const char* nm) {
  std::string n = nm; Set one; one.make(OneSite(Layout::vol() / 2)); const Subset* ts[] = {&all, &rb[0], &rb[1], &one[0], &one[1], &one[2]}; Real a(2.0), b(-3.0); Complex z = cmplx(Real(1.0), Real(2.0));
  for (int k = 0; k < 6; ++k) { const Subset& s = *ts[k]; L x, y, d; auto go = [&](const char* f, std::function<void()> w) { fill(x, 1); fill(y, 2); fill(d, 3); w(); field(n + fmt(" %s %d", f, k), d); };
    go("=", [&] { d[s] = x; }); go("+=", [&] { d[s] += y; }); go("-=", [&] { d[s] -= y; }); go("0", [&] { d[s] = zero; }); go("a*", [&] { d[s] = a * x; }); go("*=", [&] { d[s] *= a; }); go("ax+y", [&] { d[s] = a * x + y; }); go("y+ax", [&] { d[s] = y + a * x; }); go("ax-y", [&] { d[s] = a * x - y; }); go("x-ay", [&] { d[s] = x - a * y; }); go("+=ax", [&] { d[s] += a * x; }); go("-=ax", [&] { d[s] -= a * x; }); go("x+y", [&] { d[s] = x + y; }); go("x-y", [&] { d[s] = x - y; }); go("ax+by", [&] { d[s] = a * x + b * y; }); go("ax-by", [&] { d[s] = a * x - b * y; });
    go("zx", [&] { d[s] = z * x; }); go("zx+y", [&] { d[s] = z * x + y; }); go("+=zx", [&] { d[s] += z * x; }); go("-=zx", [&] { d[s] -= z * x; }); go("x-zy", [&] { d[s] = x - z * y; });
    scalar(n + " norm2", norm2(x, s)); scalar(n + " inner", innerProduct(x, y, s)); scalar(n + " innerReal", innerProductReal(x, y, s)); scalar(n + " sum", sum(x, s)); }
  L x, y, d; fill(x, 1); fill(y, 2); d = a * x + y; field(n + " whole", d); d += z * x; field(n + " whole +=", d); d = x - a * y; field(n + " whole -", d); scalar(n + " norm2", norm2(x)); scalar(n + " inner", innerProduct(x, y)); scalar(n + " innerReal", innerProductReal(x, y)); }
template<class L> static void gammas(const char* nm) { std::string n = nm; Set one; one.make(OneSite(1)); const Subset* ts[] = {&all, &rb[0], &one[0], &one[1], &one[2]}; Real a(2.0), b(-3.0);
  for (int k = 0; k < 5; ++k) { const Subset& s = *ts[k]; L x, y, d; auto go = [&](const char* f, std::function<void()> w) { fill(x, 1); fill(y, 2); fill(d, 3); w(); field(n + fmt(" %s %d", f, k), d); };
    go("g5", [&] { d[s] = GammaConst<4, 15>() * x; }); go("ax+bg5y", [&] { d[s] = a * x + b * (GammaConst<4, 15>() * y); }); go("pp", [&] { d[s] = chiralProjectPlus(x); }); go("pm", [&] { d[s] = chiralProjectMinus(x); }); go("ax+Py", [&] { d[s] = a * x + b * chiralProjectPlus(y); }); go("+=aP", [&] { d[s] += a * chiralProjectMinus(x); }); go("x-Py", [&] { d[s] = x - a * chiralProjectMinus(y); }); go("ig5", [&] { d[s] = timesI(GammaConst<4, 15>() * x); }); } }
static void halves() { Set one; one.make(OneSite(2)); const Subset* ts[] = {&all, &rb[1], &one[0], &one[1], &one[2]}; LatticeFermion x, d; LatticeHalfFermion h, q; LatticeColorMatrix u;
  for (int k = 0; k < 5; ++k) { const Subset& s = *ts[k]; auto re = [&] { fill(x, 1); fill(h, 2); fill(d, 3); fill(q, 4); fill(u, 5); };
#define VF_DIR(D, S) re(); q[s] = spinProjectDir##D##S(x); field(fmt("proj %s %d", #D #S, k), q); re(); d[s] = spinReconstructDir##D##S(h); field(fmt("recon %s %d", #D #S, k), d); re(); q[s] = adj(u) * spinProjectDir##D##S(x); field(fmt("uproj %s %d", #D #S, k), q); re(); d[s] = spinReconstructDir##D##S(u * h); field(fmt("urecon %s %d", #D #S, k), d); re(); d[s] += spinReconstructDir##D##S(u * h); field(fmt("+=urecon %s %d", #D #S, k), d); re(); d[s] += spinReconstructDir##D##S(h); field(fmt("+=recon %s %d", #D #S, k), d);
    VF_DIR(0, Plus) VF_DIR(0, Minus) VF_DIR(1, Plus) VF_DIR(1, Minus) VF_DIR(2, Plus) VF_DIR(2, Minus) VF_DIR(3, Plus) VF_DIR(3, Minus) } }
static void matrices() { Set one; one.make(OneSite(3)); const Subset* ts[] = {&all, &rb[1], &one[0], &one[1], &one[2]}; LatticeColorMatrix u, v, w; LatticeFermion p, q; LatticeHalfFermion h, g; Real a(2.0);
  for (int k = 0; k < 5; ++k) { const Subset& s = *ts[k]; auto re = [&] { fill(u, 1); fill(v, 2); fill(w, 3); fill(p, 4); fill(q, 5); fill(h, 6); fill(g, 7); };
#define VF_MAT(N, E, D) re(); E; field(fmt("%s %d", N, k), D);
    VF_MAT("uv", w[s] = u * v, w) VF_MAT("ua", w[s] = u * adj(v), w) VF_MAT("av", w[s] = adj(u) * v, w) VF_MAT("aa", w[s] = adj(u) * adj(v), w) VF_MAT("+=uv", w[s] += u * v, w) VF_MAT("+=ua", w[s] += u * adj(v), w) VF_MAT("+=av", w[s] += adj(u) * v, w) VF_MAT("+=aa", w[s] += adj(u) * adj(v), w) VF_MAT("-=uv", w[s] -= u * v, w) VF_MAT("-=aa", w[s] -= adj(u) * adj(v), w) VF_MAT("=u", w[s] = u, w) VF_MAT("+=u", w[s] += u, w) VF_MAT("-=u", w[s] -= u, w) VF_MAT("+=au", w[s] += a * u, w)
    VF_MAT("up", q[s] = u * p, q) VF_MAT("ap", q[s] = adj(u) * p, q) VF_MAT("uh", g[s] = u * h, g) VF_MAT("ah", g[s] = adj(u) * h, g) VF_MAT("+=up", q[s] += u * p, q) } }
static std::vector<Prog> threadPrograms() {
  std::vector<Prog> r = steps();
  r.push_back({"kernels fermion", 0, [] { vectors<LatticeFermion>("f"); }}); r.push_back({"kernels single", 0, [] { vectors<LatticeDiracFermionF3>("f3"); }}); r.push_back({"kernels double", 0, [] { vectors<LatticeDiracFermionD3>("d3"); }}); r.push_back({"kernels half", 0, [] { vectors<LatticeHalfFermion>("h"); }}); r.push_back({"kernels staggered", 0, [] { vectors<LatticeColorVector>("s"); }}); r.push_back({"kernels chiral", 0, [] { gammas<LatticeDiracFermionF3>("gf"); gammas<LatticeDiracFermionD3>("gd"); }}); r.push_back({"kernels halves", 0, halves}); r.push_back({"kernels matrices", 0, matrices});
  std::vector<Prog> o; for (auto& p : r) { if (p.name.find("jump") == 0 && p.name != "jump 0 by 2") continue; o.push_back(p); }
  return o;
}
namespace par { std::vector<Prog> programs() { return threadPrograms(); } }
int main(int c, char** v) {
  init(c, v); bool T = thorough(); int N = getenv("VF_N") ? atoi(getenv("VF_N")) : 0;
#if defined(VF_REFERENCE)
  return emitMain();
#elif defined(ARCH_SCALAR)
  if (getenv("VF_SPLIT")) vft_split(atoi(getenv("VF_SPLIT")));
  std::vector<IV> shapes; auto add = [&](const IV& s) { if (acceptable(s)) shapes.push_back(s); };
  add({2, 2, 2, 2}); add({2, 2, 1, 1}); if (T) { add({4, 2, 2, 2}); add({2, 1, 1, 1}); add({6, 2, 1, 2}); }
  Pool pool(3000); auto P = programs(); if (const char* o = getenv("VF_PROG")) { std::vector<Prog> q; for (auto& p : P) { std::stringstream in(o); bool hit = false; for (std::string t; std::getline(in, t, '|');) hit = hit || p.name.find(t) != std::string::npos; if (hit) q.push_back(p); } P = q; }
  for (auto& s : shapes) { auto ref = reference(s);
    for (int n = N ? N : 1; n <= (N ? N : T ? 6 : 5); ++n) for (int team = 0; team < n; ++team) { if (team && !T && team != n - 1) continue; for (int order = 0; order < 2; ++order) pool.run(str(s) + fmt("/%d threads", n), [&, n, team, order, s] {
      for (auto& p : P) { std::string w = str(s) + fmt("/%d threads", n) + (team ? fmt(" team %d", team) : std::string()) + (order ? " descending" : "") + " " + p.name; cur(w);
        bool ex = !order && n > 1 && (n <= (T ? 5 : 4)) && (team == 0 || T); const Ref& rf = ref.find(p.name)->second;
        ChildResult cr = child([&](int fd) { vft_policy(n, team, order, ex); log().clear(); sh(s, IV()); p.fn(); mp::Buf b; b.i((int)reports().size()); for (auto& r : reports()) b.b(r); b.i((int)log().size()); for (auto& r : log()) { b.b(r.label); b.i(r.kind); b.b(r.data); } VftStats x = vft_stats(); b.b(&x, sizeof x); vf::put(fd, b.s); }, 600);
        trace(); bool ok = cr.exited && cr.code == 0;
        if (!ok) { if (rf.ok || !(cr.exited || cr.sig == SIGABRT)) violation(w, cr.exited && cr.code == 92 ? "deadlock" : cr.exited ? fmt("ends with %d", cr.code) : fmt("dies of signal %d", cr.sig)); continue; }
        mp::Buf b; b.s = cr.out; int k = b.gi(); for (int i = 0; i < k; ++i) { std::string r = b.gb(); violation(w + " " + r.substr(0, r.find('|')), r.substr(r.find('|') + 1)); }
        if (!rf.ok) { violation(w, "succeeds where the sequential run refuses"); continue; }
        k = b.gi(); size_t cnt = 0; uint64_t h = 5; for (int i = 0; i < k; ++i) { Rec r; r.label = b.gb(); r.kind = b.gi(); r.data = b.gb(); h = hash(r.data, h); auto it = rf.obs.find(r.label); eval();
          if (r.kind == 'E') { violation(w + " error", r.data); continue; } if (it == rf.obs.end()) { violation(w + " " + r.label, "no such observation in the sequential run"); continue; } ++cnt; if (it->second.data != r.data) violation(w + " " + r.label, "differs from the sequential run: " + hex(r.data) + " instead of " + hex(it->second.data)); }
        if (cnt != rf.obs.size()) violation(w, "observations are missing");
        std::string xs = b.gb(); VftStats x; memcpy(&x, xs.data(), sizeof x); extra("regions", x.regions); extra("memory accesses watched", x.accesses); extra("pairs of accesses ordered", x.pairs); extra("schedules of regions", x.schedules); extra("regions with bounded orders", x.capped); transition(x.syncs + x.choices); state(hash(fmt("%d %d %d", n, team, order), h)); outcome(h); if (st().samples.size() < 3) sample(w); }
    }); }
    pool.drain(); }
#else
  std::vector<Plan> P = {{IV{4, 2, 2, 2}, {2}}}; if (T) P.push_back({IV{4, 4, 2, 2}, {4}}); std::vector<std::pair<int, int>> cfgs; for (int n = 2; n <= (T ? 5 : 3); ++n) { cfgs.push_back({n, 0}); cfgs.push_back({n, 1}); } cfgs.push_back({8, 1});
  par::variants() = 1; par::maxdev() = 0; for (auto& q : cfgs) { if (N && q.first != N) continue; vft_policy(q.first, 0, q.second, q.first <= 3 && !q.second); par::prefix() = fmt("%d threads%s ", q.first, q.second ? " descending" : ""); parMain(P); }
#endif
  return finish();
}
