// C23: a run distributed over nodes gives the single-node result.
#include "progs.h"
namespace par { std::vector<Prog> programs() { auto r = steps(); auto a = atoms(); r.insert(r.end(), a.begin(), a.end()); for (auto& x : a) for (auto& y : a) r.push_back({x.name + " then " + y.name, 2, [x, y] { x.fn(); y.fn(); }, nullptr, 1}); return r; } }
int main(int c, char** v) {
  init(c, v);
#ifdef ARCH_SCALAR
  return emitMain();
#else
  bool T = thorough(); std::vector<Plan> P = {{IV{4, 2, 2, 2}, {1, 2, 4}}, {IV{8, 2, 2, 2}, {4}}, {IV{4, 4, 2, 2}, {8}}, {IV{2, 2, 2, 4}, {4}}, {IV{6, 3, 1, 2}, {3}}};
  if (!getenv("VF_OTHER_ORDER") && !getenv("VF_PROG")) P.push_back({IV{4, 34, 4, 2}, {2}, true});      // more sites, faces and bytes than fit in one or two of anything short
  if (T) { P.push_back({IV{4, 2, 2, 2}, {8}}); P.push_back({IV{4, 4, 4, 2}, {4, 8}}); P.push_back({IV{2, 3, 2, 6}, {6, 3}}); P.push_back({IV{2, 6, 1, 5}, {5, 2}}); }
  parMain(P); return finish();
#endif
}
