// C01: every lattice shape up to a volume bound, for one storage ordering.
#include "lat.h"
using namespace QDP; using namespace vf;

static const int MAXV = atoi(getenv("C01_MAXVOL") ? getenv("C01_MAXVOL") : "64");

static void explore(const IV& s, bool nested) {
  std::string L = str(s);
  int V = volume(s);
  auto bad = [&](const char* k, const std::string& m) { violation(std::string(k), "shape " + L + ": " + m); };
  if (Layout::vol() != V) bad("vol", fmt("vol=%d", Layout::vol()));
  if (Layout::sitesOnNode() != V) bad("sitesOnNode", fmt("%d", Layout::sitesOnNode()));
  if (v1(Layout::lattSize()) != s) bad("lattSize", "");
  if (v1(Layout::subgridLattSize()) != s) bad("subgridLattSize", "");
  if (Layout::numNodes() != 1 || Layout::nodeNumber() != 0 || !Layout::primaryNode()) bad("single-node", "");
  std::vector<int> seen(V, -1);
  for (int l = 0; l < V; ++l) {
    IV c = lex2c(l, s);
    cur(L + " site " + str(c));
    multi1d<int> mc = m1(c);
    int i = Layout::linearSiteIndex(mc);
    eval();
    if (Layout::nodeNumber(mc) != 0) bad("node", str(c));
    if (i < 0 || i >= V) { bad("range", fmt("site %s -> %d", str(c).c_str(), i)); continue; }
    if (seen[i] >= 0) bad("injective", fmt("sites %s and %s -> %d", str(c).c_str(), str(lex2c(seen[i], s)).c_str(), i));
    seen[i] = l;
    if (v1(Layout::siteCoords(0, i)) != c) bad("inverse", fmt("site %s -> %d -> %s", str(c).c_str(), i, str(v1(Layout::siteCoords(0, i))).c_str()));
    if (v1(mc) != c) bad("argument-changed", str(c));
    // the C entry points
    std::vector<int> cc(c); 
    if (Layout::QDPXX_getLinearSiteIndex(cc.data()) != i || Layout::QDPXX_nodeNumber(cc.data()) != 0) bad("c-api", str(c));
    std::vector<int> back(s.size(), -7); Layout::QDPXX_getSiteCoords(back.data(), 0, i);
    if (back != c) bad("c-api", str(c));
    // the lexicographic numbering
    IV d = v1(crtesn(l, m1(s)));
    if (local_site(m1(d), m1(s)) != l) bad("lexico-inverse", fmt("%d", l));
#if QDP_USE_CB3D_LAYOUT != 1
    if (d != c) bad("lexico", fmt("crtesn(%d)=%s", l, str(d).c_str()));
    if (local_site(mc, m1(s)) != l) bad("lexico", fmt("local_site(%s)=%d", str(c).c_str(), local_site(mc, m1(s))));
    if (Layout::linearSiteIndex(l) != i) bad("lexico-linear", fmt("linearSiteIndex(%d)=%d expected %d", l, Layout::linearSiteIndex(l), i));
#else
    if (Layout::linearSiteIndex(l) != Layout::linearSiteIndex(m1(d))) bad("lexico-linear", fmt("%d", l));
#endif
    if (v1(Layout::localLexiCoordFromLinear(l)) != c) bad("local-lexico", fmt("%d", l));
    state(hash(L + "|" + str(c) + fmt("|%d", i)));
  }
  for (int mu = 0; mu < Nd; ++mu) {
    LatticeInteger x = Layout::latticeCoordinate(mu);
    for (int l = 0; l < V; ++l) {
      IV c = lex2c(l, s); eval();
      int i = Layout::linearSiteIndex(m1(c));
      if (i < 0 || i >= V) continue;
      if (x.elem(i).elem().elem().elem() != c[mu]) bad("coordinate-field", fmt("mu=%d site %s", mu, str(c).c_str()));
      Integer p = peekSite(x, m1(c));
      if (toInt(p) != c[mu]) bad("coordinate-field", fmt("peek mu=%d site %s", mu, str(c).c_str()));
    }
  }
  outcome(hash(L)); transition(V); trace();
  if (V > 8) sample("shape " + L + fmt(": %d sites round-tripped, linear index of last site %d", V, Layout::linearSiteIndex(m1(lex2c(V - 1, s)))));
}

int main(int argc, char** argv) {
  init(argc, argv);
  startup();
  std::vector<IV> yes, no;
  std::vector<int> ext{1, 2, 3, 4, 5, 6, 7, 8};
#if QDP_USE_CB32_LAYOUT == 1
  ext = {2, 4, 6, 8, 12, 1, 3};
  int MV = MAXV * 8;
#else
  int MV = MAXV;
#endif
  shapes(Nd, MV, ext, [&](const IV& s) { (acceptable(s) ? yes : no).push_back(s); });
  // larger extents along one direction each
  for (int mu = 0; mu < Nd; ++mu) for (int e : {16, 24, 34}) {
    IV s(Nd, 2);
#if QDP_USE_CB32_LAYOUT == 1
    s[0] = 4; if (mu == 0 && e == 34) e = 36;
#endif
    s[mu] = e; yes.push_back(s);
  }
  for (auto& s : largeShapes(140000)) yes.push_back(s);
  {
    Pool pool(120);
    for (size_t k = 0; k < yes.size(); k += 16)
      pool.run("shapes", [&, k] {
        for (size_t j = k; j < yes.size() && j < k + 16; ++j) {
          // the layout can be created once per process
          int p[2]; if (pipe(p)) abort();
          cur("shape " + str(yes[j]));
          pid_t c = fork();
          if (c == 0) { st() = Stats(); alarm(60); lattice(yes[j]); explore(yes[j], false); flush(); _exit(0); }
          close(p[0]); close(p[1]);
          int stt; waitpid(c, &stt, 0);
          if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) violation("refused", "shape " + str(yes[j]) + " that this ordering documents as acceptable: " + curcase());
        }
      });
    // sizes outside the documented ones: refused, or else fully correct
    for (size_t k = 0; k < no.size(); k += 16)
      pool.run("odd-shapes", [&] {
        for (size_t j = k; j < no.size() && j < k + 16; ++j) {
          ChildResult r = child([&](int fd) { signal(SIGFPE, SIG_DFL); lattice(no[j]); put(fd, "C"); st() = Stats(); explore(no[j], true); flush(); put(fd, "D"); }, 60);
          if (r.out == "") { vf::extra("refused"); eval(); }
          else if (r.out != "CD") violation("accepted-then-died", "shape " + str(no[j]));
        }
      });
  }
  vf::extra("shapes_acceptable", yes.size()); vf::extra("shapes_outside", no.size());
  return finish();
}
