// Programs of the distributed checks: the same source runs in the scalar build, whose observations are the reference, and
// on every node of the parallel build.
#ifndef VF_PAR_H
#define VF_PAR_H
#include "lat.h"
#include "mp.h"
#include <dirent.h>
namespace par {
using namespace vf; using namespace QDP;
struct Rec { std::string label; int kind; std::string data; };
inline std::vector<Rec>& log() { static std::vector<Rec> l; return l; }
inline std::string& dir() { static std::string d; return d; }
inline std::string file(const std::string& n) { return dir() + "/" + n; }
inline void rec(const std::string& l, char k, const std::string& d) {
#ifdef ARCH_SCALAR
  static std::map<std::string, int> seen; log().push_back(Rec{l + fmt("#%d", seen[l]++), k, d});
#else
  mp::obs(l, k, d);
#endif
}
inline int lexOf(int i) { return c2lex(v1(Layout::siteCoords(Layout::nodeNumber(), i)), v1(Layout::lattSize())); }
template<class T> inline std::string bits(const T& e) { std::string s; words(const_cast<T&>(e), [&](auto& w) { s.append((const char*)&w, sizeof w); }); return s; }
template<class T> inline void field(const std::string& l, const OLattice<T>& f) { mp::Buf b; for (int i = 0; i < Layout::sitesOnNode(); ++i) { b.i(lexOf(i)); b.b(bits(f.elem(i))); } rec(l, 'F', b.s); }
inline void scalar(const std::string& l, const std::string& d) { rec(l, 'S', d); }
inline void num(const std::string& l, double v) { rec(l, 'S', fmt("%.17g", v)); }
template<class T> inline void scalar(const std::string& l, const OScalar<T>& f) { rec(l, 'S', bits(f.elem())); }
inline void fail(const std::string& s) { rec("error", 'E', s); }
inline void expect(bool ok, const std::string& s) { if (!ok) fail(s); }
// whole numbers that differ from site to site and from word to word
template<class T> inline void fill(OLattice<T>& f, int salt = 0) { for (int i = 0; i < Layout::sitesOnNode(); ++i) { int l = lexOf(i), k = 0; words(f.elem(i), [&](auto& w) { w = (std::remove_reference_t<decltype(w)>)(((l * 37 + k++ * 11 + salt * 7 + (l >> 3) * 5) % 61) - 30); }); } }
inline void fill(LatticeBoolean& f, int salt = 0) { for (int i = 0; i < Layout::sitesOnNode(); ++i) f.elem(i).elem().elem().elem() = (lexOf(i) * 5 + salt) % 3 == 0; }
struct Prog { std::string name; int dev; std::function<void()> fn;       // dev: how many free choices are explored jointly (quick)
  std::function<bool(const IV& shape, const IV& grid)> mayRefuse; int light = 0; };   // light: 1 left out of the other orderings and node numberings
std::vector<Prog> programs();
inline std::vector<std::pair<std::string, std::string>> files(const std::string& d) { std::vector<std::pair<std::string, std::string>> r; if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) if (e->d_name[0] != '.') r.push_back(std::make_pair(std::string(e->d_name), slurp(d + "/" + e->d_name))); closedir(p); } std::sort(r.begin(), r.end()); return r; }
inline void wipe(const std::string& d) { if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); } }
inline void sh(const std::vector<int>& s, const IV& geom) {
  static std::vector<std::string> a; a = {"vf"}; if (!geom.empty()) { a.push_back("-geom"); for (int g : geom) a.push_back(std::to_string(g)); }
  static std::vector<char*> av; av.clear(); for (auto& x : a) av.push_back(&x[0]); av.push_back(0); static char** pv = av.data(); pv = av.data(); static int ac; ac = (int)a.size();
  QDP_initialize(&ac, &pv); lattice(s);
}
#ifdef ARCH_SCALAR
// writes the observations of every program on the shape in VF_SHAPE to the file VF_EMIT
inline int emitMain() {
  IV s; { std::stringstream in(getenv("VF_SHAPE")); std::string t; while (std::getline(in, t, ',')) s.push_back(atoi(t.c_str())); }
  quiet(); sh(s, IV()); mp::Buf out; std::string d = scratch() + fmt("/ref%d", (int)getpid()); mkdir(d.c_str(), 0755); dir() = d;
  for (auto& p : programs()) { if (getenv("VF_BIG") && p.light) continue; wipe(d);
    ChildResult c = child([&](int fd) { p.fn(); mp::Buf b; b.i((int)log().size()); for (auto& r : log()) { b.b(r.label); b.i(r.kind); b.b(r.data); } vf::put(fd, b.s); });
    out.b(p.name); bool ok = c.exited && c.code == 0; if (!ok && !(c.exited || c.sig == SIGABRT)) { fprintf(stderr, "%s\n", p.name.c_str()); return 3; }
    out.i(ok); out.b(ok ? c.out : std::string()); auto f = files(d); out.i((int)f.size()); for (auto& x : f) { out.b(x.first); out.b(x.second); } }
  wipe(d); rmdir(d.c_str()); spew(getenv("VF_EMIT"), out.s); return 0;
}
#endif
struct Ref { bool ok; std::map<std::string, Rec> obs; std::map<std::string, std::string> files; };
inline std::map<std::string, Ref> reference(const IV& s, bool big = false) {
  std::string f = scratch() + fmt("/exp%d", (int)getpid()), sp; for (size_t i = 0; i < s.size(); ++i) sp += (i ? "," : "") + std::to_string(s[i]);
  int st = system((std::string(big ? "VF_BIG=1 " : "") + "VF_OUT= VF_SHAPE=" + sp + " VF_EMIT=" + f + " " + getenv("VF_SCALAR")).c_str()); std::map<std::string, Ref> r;
  if (st) { violation("reference", "the scalar build does not deliver its observations"); return r; }
  mp::Buf b; b.s = slurp(f); unlink(f.c_str());
  while (b.at < b.s.size()) { std::string n = b.gb(); Ref& x = r[n]; x.ok = b.gi(); mp::Buf o; o.s = b.gb(); int k = x.ok ? o.gi() : 0; for (int i = 0; i < k; ++i) { Rec q; q.label = o.gb(); q.kind = o.gi(); q.data = o.gb(); x.obs[q.label] = q; } k = b.gi(); for (int i = 0; i < k; ++i) { std::string a = b.gb(); x.files[a] = b.gb(); } }
  return r;
}
#ifndef ARCH_SCALAR
inline std::map<int, std::string> sites(const std::string& d, std::string& err) { mp::Buf b; b.s = d; std::map<int, std::string> m; while (b.at < b.s.size()) { int l = b.gi(); std::string v = b.gb(); if (!m.insert(std::make_pair(l, v)).second) err = fmt("site %d is held twice", l); } return m; }
inline void judge(const std::string& where, const Ref& ref, const mp::Result& r, const std::string& d, int n, bool mayRefuse) {
  auto bad = [&](const std::string& s, const std::string& m = "") { violation(where + s, m); };
  if (r.bad) { bad("", r.why); return; }
  if (r.aborted) { if (mayRefuse) { extra("refused by design"); return; } if (ref.ok) bad("", "refused (" + r.why + ") where the single-node run succeeds"); return; }
  if (!ref.ok) { bad("", "succeeds where the single-node run refuses"); return; }
  size_t cnt = 0; uint64_t h = 7;
  for (auto& o : r.obs) {
    for (auto& x : o.data) if (x.empty()) { if (o.kind != 'E') bad(o.label, "not observed on every node"); } else h = hash(x, h);
    if (o.kind == 'N') { for (auto& x : o.data) if (x != o.data[0]) bad(o.label, "nodes differ: " + hex(o.data[0]) + " and " + hex(x)); continue; }
    if (o.kind == 'E') { for (auto& x : o.data) if (!x.empty()) bad("error", x); continue; }
    auto it = ref.obs.find(o.label); if (it == ref.obs.end()) { bad(o.label, "no such observation in the single-node run"); continue; } ++cnt;
    if (o.kind == 'S') { for (int k = 0; k < n; ++k) if (o.data[k] != it->second.data + ".") bad(o.label, fmt("node %d has ", k) + hex(o.data[k]) + ", the single-node run " + hex(it->second.data)); }
    else { std::string err; std::string all; for (auto& x : o.data) all += x.substr(0, x.empty() ? 0 : x.size() - 1); auto got = sites(all, err), want = sites(it->second.data, err); if (!err.empty()) bad(o.label, err); else if (got != want) { std::string w = fmt("%d sites, expected %d", (int)got.size(), (int)want.size()); for (auto& x : want) if (got[x.first] != x.second) { w = fmt("site %d: ", x.first) + hex(got[x.first]) + ", the single-node run has " + hex(x.second); break; } bad(o.label, w); } }
  }
  if (cnt != ref.obs.size()) bad("", "observations are missing");
  for (int k = 0; k < n; ++k) { auto f = files(d + fmt("/r%d", k)); if (k) { if (!f.empty()) bad("file:" + f[0].first, fmt("written by node %d", k)); continue; } std::map<std::string, std::string> m(f.begin(), f.end()); if (m != ref.files) { std::string w = fmt("%d files, expected %d", (int)m.size(), (int)ref.files.size()); for (auto& x : ref.files) if (!m.count(x.first)) w = "file " + x.first + " is missing"; else if (m[x.first] != x.second) { size_t p = 0; while (p < m[x.first].size() && p < x.second.size() && m[x.first][p] == x.second[p]) ++p; w = "file " + x.first + fmt(" differs from the single-node file at byte %d (%d bytes, expected %d)", (int)p, (int)m[x.first].size(), (int)x.second.size()); break; } bad("files", w); } }
  for (auto& x : ref.files) h = hash(x.second, h); state(h);
}
// all grids with n nodes that divide the lattice and leave the ordering an acceptable piece
inline std::vector<IV> grids(const IV& s, int n) { std::vector<IV> r; IV g(s.size(), 1); std::function<void(int, int)> rec = [&](int d, int left) { if (d == (int)s.size()) { IV sub = s; for (size_t i = 0; i < s.size(); ++i) sub[i] /= g[i]; if (left == 1 && acceptable(sub)) r.push_back(g); return; } for (int k = 1; k <= left; ++k) if (left % k == 0 && s[d] % k == 0) { g[d] = k; rec(d + 1, left / k); } g[d] = 1; }; rec(0, n); return r; }
struct Plan { IV shape; std::vector<int> nodes; bool big = false; };      // big: a long lattice, every program once under each policy
inline std::string& prefix() { static std::string s; return s; }
inline int& variants() { static int v = 3; return v; }
inline int& maxdev() { static int v = 99; return v; }
inline int parMain(const std::vector<Plan>& plans, const std::string& only = "") {
  bool T = thorough(); Pool pool(3000);
  for (auto& pl : plans) { auto ref = reference(pl.shape, pl.big);
    for (int n : pl.nodes) for (auto& g : grids(pl.shape, n)) pool.run(str(pl.shape) + "/" + str(g), [&, n, g] {
      auto P = programs(); std::string d = scratch() + fmt("/d%d", (int)getpid()); mkdir(d.c_str(), 0755); for (int k = 0; k < n; ++k) mkdir((d + fmt("/r%d", k)).c_str(), 0755);
      for (int v = 0; v < (n == 1 || pl.big ? 1 : variants()); ++v) { mp::Cfg c; c.dims = g; c.grid = v == 1; c.lastfast = v == 2; c.revsum = v == 2;
        for (auto& p : P) { if (!only.empty() && p.name.find(only) == std::string::npos) continue; if (const char* o = getenv("VF_PROG")) { std::stringstream in(o); bool hit = false; for (std::string t; std::getline(in, t, '|');) hit = hit || p.name.find(t) != std::string::npos; if (!hit) continue; }
          bool other = v || n > 4 || pl.big || getenv("VF_OTHER_ORDER"); if (p.light && (pl.big || other || n > (T ? 4 : 2))) continue;
          const Ref& rf = ref.find(p.name)->second; bool refuse = p.mayRefuse && p.mayRefuse(pl.shape, g); int dev = p.dev + (T ? 1 : 0); if (other) dev = std::min(dev, T && !pl.big ? 1 : 0); dev = std::min(dev, maxdev()); uint64_t cap = T ? 20000 : 400;
          bool full = mp::explore(c, dev, cap, [&](mp::Choices& ch) {
            std::string w = prefix() + str(pl.shape) + "/" + str(g) + (v == 1 ? " grid network" : v == 2 ? " nodes numbered from the last direction" : "") + " " + p.name;
            for (int k = 0; k < n; ++k) wipe(d + fmt("/r%d", k)); cur(w + " " + ch.str());
            mp::Controller ctl(c, ch); mp::Result r = ctl.run([&](int me) { dir() = d + fmt("/r%d", me); sh(pl.shape, g); p.fn(); });
            trace(); eval(r.obs.size()); transition(r.steps); extra("messages", r.msgs); judge(w + " ", rf, r, d, n, refuse); if (st().samples.size() < 3) sample(w + " [" + ch.str() + "]"); });
          extra(full ? "programs with every timing explored" : "programs with bounded deviations explored"); } }
      for (int k = 0; k < n; ++k) { wipe(d + fmt("/r%d", k)); rmdir((d + fmt("/r%d", k)).c_str()); } rmdir(d.c_str());
    });
    pool.drain(); }
  return 0;
}
#endif
} // namespace par
#endif
