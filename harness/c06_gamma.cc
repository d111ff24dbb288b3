// C06: gamma matrices and spin projectors in every form.  AGG includes the fused spin kernels.
#include "forms.h"
#if AGG == 1
#include "scalarsite_generic/generic_mv_switchbox.h"
#include "scalarsite_generic/generic_spin_proj_inlines.h"
#include "scalarsite_generic/generic_spin_recon_inlines.h"
#include "scalarsite_generic/generic_spin_proj.h"
#include "scalarsite_generic/generic_spin_recon.h"
#include "scalarsite_generic/generic_fused_spin_proj.h"
#include "scalarsite_generic/generic_fused_spin_recon.h"
#include "scalarsite_generic/qdp_generic_spin_project_evaluates.h"
#include "scalarsite_generic/qdp_generic_fused_spin_proj_evaluates.h"
#include "scalarsite_generic/qdp_generic_fused_spin_recon_evaluates.h"
#endif
#if AGG == 2
#include "scalarsite_sse/sse_spin_proj_inlines.h"
#include "scalarsite_sse/sse_spin_recon_inlines.h"
#include "scalarsite_sse/sse_spin_proj.h"
#include "scalarsite_sse/sse_spin_recon.h"
#include "scalarsite_sse/qdp_sse_spin_evaluates.h"
#endif
#ifndef PART
#define PART 0
#endif
static Ten G[16], D[16], One;
static Ten mat(std::initializer_list<std::pair<int, cd>> l) { Ten m(2, 4, 0, 1); for (auto& e : l) m.v[e.first] = e.second; return m; }
static Ten scl(cd z, const Ten& a) { return map1(a, [=](cd x) { return z * x; }); }
static void basis() {
  const cd I(0, 1);
  One = mat({{0, 1}, {5, 1}, {10, 1}, {15, 1}});
  // manual, section Spin Conventions
  Ten g[4] = {mat({{3, I}, {6, I}, {9, -I}, {12, -I}}), mat({{3, -1}, {6, 1}, {9, 1}, {12, -1}}), mat({{2, I}, {7, -I}, {8, -I}, {13, I}}), mat({{2, 1}, {7, 1}, {8, 1}, {13, 1}})};
  // Dirac-Pauli: gamma_k = -sigma_2 x sigma_k-like with the documented signs of the code's basis, gamma_3 diagonal
  Ten d[4] = {mat({{3, -I}, {6, -I}, {9, I}, {12, I}}), mat({{3, -1}, {6, 1}, {9, 1}, {12, -1}}), mat({{2, -I}, {7, I}, {8, I}, {13, -I}}), mat({{0, 1}, {5, 1}, {10, -1}, {15, -1}})};
  for (int n = 0; n < 16; ++n) { G[n] = One; D[n] = One; for (int k = 0; k < 4; ++k) if (n >> k & 1) { G[n] = G[n] * g[k]; D[n] = D[n] * d[k]; } }
}
// right multiplication of an object without spin-matrix index is not defined; left works on vectors and matrices
template<class L> void left(const std::string& t, int n) {
  const Ten& g = G[n]; const Ten& d = D[n]; std::string N = std::to_string(n);
  una<L>("Gamma(" + N + ")*" + t, BASIS, [=](auto& a) { return Gamma(n) * a; }, [&](const Ten& a) { return g * a; });
  una<L>("GammaDP(" + N + ")*" + t, BASIS, [=](auto& a) { return GammaDP(n) * a; }, [&](const Ten& a) { return d * a; });
  una<L>("Gamma(" + N + ")*(" + t + "+)", DENSE, [=](auto& a) { return Gamma(n) * (a + a); }, [&](const Ten& a) { return g * (a + a); });
  una<L>("GammaDP(" + N + ")*(" + t + "+)", DENSE, [=](auto& a) { return GammaDP(n) * (a + a); }, [&](const Ten& a) { return d * (a + a); });
  una<L>("Gamma(15)*(Gamma(" + N + ")*" + t + ")", DENSE, [=](auto& a) { return Gamma(15) * (Gamma(n) * a); }, [&](const Ten& a) { return G[15] * (g * a); });
  for (int m = 0; m < 16; ++m) una<L>("Gamma(" + std::to_string(m) + ")*(Gamma(" + N + ")*" + t + ")", DENSE, [=](auto& a) { return Gamma(m) * (Gamma(n) * a); }, [&](const Ten& a) { return (G[m] * g) * a; });
  una<L>("a+Gamma(" + N + ")*a " + t, DENSE, [=](auto& a) { return a + Gamma(n) * a; }, [&](const Ten& a) { return a + g * a; });
}
template<class L> void right(const std::string& t, int n) {
  const Ten& g = G[n]; const Ten& d = D[n]; std::string N = std::to_string(n);
  una<L>(t + "*Gamma(" + N + ")", BASIS, [=](auto& a) { return a * Gamma(n); }, [&](const Ten& a) { return a * g; });
  una<L>(t + "*GammaDP(" + N + ")", BASIS, [=](auto& a) { return a * GammaDP(n); }, [&](const Ten& a) { return a * d; });
  una<L>("(" + t + "+)*Gamma(" + N + ")", DENSE, [=](auto& a) { return (a + a) * Gamma(n); }, [&](const Ten& a) { return (a + a) * g; });
  una<L>("(" + t + "+)*GammaDP(" + N + ")", DENSE, [=](auto& a) { return (a + a) * GammaDP(n); }, [&](const Ten& a) { return (a + a) * d; });
  for (int m = 0; m < 16; ++m) una<L>("Gamma(" + N + ")*" + t + "*Gamma(" + std::to_string(m) + ")", DENSE, [=](auto& a) { return Gamma(n) * a * Gamma(m); }, [&](const Ten& a) { return g * a * G[m]; });
  una<L>("Gamma*adj(Gamma*" + t + ")", DENSE, [=](auto& a) { return Gamma(n) * adj(Gamma(n) * a); }, [&](const Ten& a) { return g * adjT(g * a); });
  una<L>("trace(Gamma(" + N + ")*" + t + ")", BASIS, [=](auto& a) { return trace(Gamma(n) * a); }, [&](const Ten& a) { return tr(g * a); });
  una<L>("trace(" + t + "*Gamma(" + N + "))", BASIS, [=](auto& a) { return trace(a * Gamma(n)); }, [&](const Ten& a) { return tr(a * g); });
  una<L>("trace(Gamma*(" + t + "*Gamma*" + t + "))", DENSE, [=](auto& a) { return trace(Gamma(n) * (a * Gamma(15) * a)); }, [&](const Ten& a) { return tr(g * (a * G[15] * a)); });
  una<L>("traceSpin(Gamma(" + N + ")*" + t + ")", DENSE, [=](auto& a) { return traceSpin(Gamma(n) * a); }, [&](const Ten& a) { return trS(g * a); });
  bin<L, L>("trace(adj(" + t + ")*Gamma*b)", DENSE, DENSE, [=](auto& a, auto& b) { return trace(adj(a) * (Gamma(n) * b)); }, [&](const Ten& a, const Ten& b) { return tr(adjT(a) * (g * b)); });
  bin<L, L>("trace(a*Gamma*b) " + t, DENSE, DENSE, [=](auto& a, auto& b) { return trace(a * (Gamma(n) * b)); }, [&](const Ten& a, const Ten& b) { return tr(a * (g * b)); });
}
template<class L, int n> void leftC(const std::string& t) {
  const Ten& g = G[n]; const Ten& d = D[n]; std::string N = std::to_string(n);
  una<L>("GammaConst<" + N + ">*" + t, BASIS, [](auto& a) { return GammaConst<4, n>() * a; }, [&](const Ten& a) { return g * a; });
  una<L>("GammaConstDP<" + N + ">*" + t, BASIS, [](auto& a) { return GammaConstDP<4, n>() * a; }, [&](const Ten& a) { return d * a; });
  una<L>("GammaConst<" + N + ">*(" + t + "+)", DENSE, [](auto& a) { return GammaConst<4, n>() * (a + a); }, [&](const Ten& a) { return g * (a + a); });
  una<L>("a-GammaConst<" + N + ">*a " + t, DENSE, [](auto& a) { return a - GammaConst<4, n>() * a; }, [&](const Ten& a) { return a - g * a; });
}
template<class L, int n> void rightC(const std::string& t) {
  const Ten& g = G[n]; const Ten& d = D[n]; std::string N = std::to_string(n);
  una<L>(t + "*GammaConst<" + N + ">", BASIS, [](auto& a) { return a * GammaConst<4, n>(); }, [&](const Ten& a) { return a * g; });
  una<L>(t + "*GammaConstDP<" + N + ">", BASIS, [](auto& a) { return a * GammaConstDP<4, n>(); }, [&](const Ten& a) { return a * d; });
  una<L>("(" + t + "+)*GammaConst<" + N + ">", DENSE, [](auto& a) { return (a + a) * GammaConst<4, n>(); }, [&](const Ten& a) { return (a + a) * g; });
  una<L>("trace(GammaConst<" + N + ">*" + t + ")", DENSE, [](auto& a) { return trace(GammaConst<4, n>() * a); }, [&](const Ten& a) { return tr(g * a); });
}
template<class L, int... n> void leftAll(const std::string& t, std::integer_sequence<int, n...>) { (leftC<L, n>(t), ...); }
template<class L, int... n> void rightAll(const std::string& t, std::integer_sequence<int, n...>) { (rightC<L, n>(t), ...); }
typedef std::make_integer_sequence<int, 16> All16;

// projectors
static Ten proj(int mu, int s) { return s > 0 ? One + G[1 << mu] : One - G[1 << mu]; }
static Ten upper(const Ten& a) { Ten r(1, 2, a.cr, a.cn, true); for (int i = 0; i < 2; ++i) for (int c = 0; c < a.cdm(); ++c) r.at(i, c) = a.at(i, c); return r; }
// the unique full spinor in the image of the projector whose upper half is h
static Ten rebuild(const Ten& h, int mu, int s) { Ten f(1, 4, h.cr, h.cn, true); for (int i = 0; i < 2; ++i) for (int c = 0; c < h.cdm(); ++c) f.at(i, c) = h.at(i, c); return proj(mu, s) * f; }
// (a projector of either sign has unit upper-left block and gamma maps upper to lower, so proj*(h,0) is that spinor)
struct PF { int mu, s; };
#define DIRS(X) X(0, Plus, 1) X(1, Plus, 1) X(2, Plus, 1) X(3, Plus, 1) X(0, Minus, -1) X(1, Minus, -1) X(2, Minus, -1) X(3, Minus, -1)
template<class F, class H, class M> void projectors(const std::string& t) {
#define X(mu, S, s) { std::string k = #mu #S " " + t; auto p = [](const Ten& a) { return upper(proj(mu, s) * a); }; auto rc = [](const Ten& h) { return rebuild(h, mu, s); }; \
  una<F>("spinProject(run time) " + k, BASIS, [](auto& a) { return spinProject(a, mu, s); }, p); \
  una<F>("spinProjectDir" + k, BASIS, [](auto& a) { return spinProjectDir##mu##S(a); }, p); \
  una<F>("spinProjectDir(expr)" + k, DENSE, [](auto& a) { return spinProjectDir##mu##S(a + a); }, [&](const Ten& a) { return p(a + a); }); \
  una<H>("spinReconstruct(run time) " + k, BASIS, [](auto& a) { return spinReconstruct(a, mu, s); }, rc); \
  una<H>("spinReconstructDir" + k, BASIS, [](auto& a) { return spinReconstructDir##mu##S(a); }, rc); \
  una<H>("spinReconstructDir(expr)" + k, DENSE, [](auto& a) { return spinReconstructDir##mu##S(a + a); }, [&](const Ten& a) { return rc(a + a); }); \
  una<F>("reconstruct(project)" + k, BASIS, [](auto& a) { return spinReconstructDir##mu##S(spinProjectDir##mu##S(a)); }, [&](const Ten& a) { return proj(mu, s) * a; }); \
  bin<M, F>("adj(u)*spinProjectDir" + k, BASIS, BASIS, [](auto& u, auto& a) { return adj(u) * spinProjectDir##mu##S(a); }, [&](const Ten& u, const Ten& a) { return adjT(u) * p(a); }); \
  bin<M, F>("u*spinProjectDir" + k, DENSE, DENSE, [](auto& u, auto& a) { return u * spinProjectDir##mu##S(a); }, [&](const Ten& u, const Ten& a) { return u * p(a); }); \
  bin<M, F>("spinProjectDir(u*)" + k, DENSE, DENSE, [](auto& u, auto& a) { return spinProjectDir##mu##S(u * a); }, [&](const Ten& u, const Ten& a) { return p(u * a); }); \
  bin<M, H>("spinReconstructDir(u*h)" + k, BASIS, BASIS, [](auto& u, auto& h) { return spinReconstructDir##mu##S(u * h); }, [&](const Ten& u, const Ten& h) { return rc(u * h); }); \
  bin<M, H>("spinReconstructDir(adj(u)*h)" + k, DENSE, DENSE, [](auto& u, auto& h) { return spinReconstructDir##mu##S(adj(u) * h); }, [&](const Ten& u, const Ten& h) { return rc(adjT(u) * h); }); \
  bin<M, F>("u*reconstruct(project)" + k, DENSE, DENSE, [](auto& u, auto& a) { return u * spinReconstructDir##mu##S(spinProjectDir##mu##S(a)); }, [&](const Ten& u, const Ten& a) { return u * (proj(mu, s) * a); }); \
  bin<F, H>("a+spinReconstructDir" + k, DENSE, DENSE, [](auto& a, auto& h) { return a + spinReconstructDir##mu##S(h); }, [&](const Ten& a, const Ten& h) { return a + rc(h); }); \
  }
  DIRS(X)
#undef X
}
template<class L> void chiral(const std::string& t) {
  una<L>("chiralProjectPlus " + t, BASIS, A1 { return chiralProjectPlus(a); }, R1 { return scl(0.5, One + G[15]) * a; });
  una<L>("chiralProjectMinus " + t, BASIS, A1 { return chiralProjectMinus(a); }, R1 { return scl(0.5, One - G[15]) * a; });
  una<L>("chiralProjectPlus(expr) " + t, DENSE, A1 { return chiralProjectPlus(a + a); }, R1 { return (One + G[15]) * a; });
  una<L>("chiralProjectMinus(expr) " + t, DENSE, A1 { return chiralProjectMinus(a + a); }, R1 { return (One - G[15]) * a; });
  una<L>("Plus(Gamma) " + t, DENSE, A1 { return chiralProjectPlus(Gamma(1) * a); }, R1 { return scl(0.5, One + G[15]) * (G[1] * a); });
}
// assignment and accumulation of the fused forms under every kind of target
template<class F, class H, class M> void targets(const std::string& t) {
  const int V2 = V; std::vector<const Subset*> subs; Set one, three;
  struct By : SetFunc { int k; By(int k_) : k(k_) {} int operator()(const multi1d<int>& x) const { return (x[0] + 2 * x[1] + x[2] * 3 + (Nd > 3 ? x[Nd - 1] : 0)) % k; } int numSubsets() const { return k; } };
  By b1(3), b2(7); one.make(b1); three.make(b2);
  subs.push_back(&all); subs.push_back(&even); subs.push_back(&odd); for (int i = 0; i < 3; ++i) subs.push_back(&one[i]); for (int i = 0; i < 7; ++i) subs.push_back(&three[i]);
  F psi, f0; H chi, h0; M u; for (int i = 0; i < V2; ++i) { dense(psi.elem(i), i + 1, DENSE); dense(f0.elem(i), i + 501, DENSE); dense(chi.elem(i), i + 901, DENSE); dense(h0.elem(i), i + 1901, DENSE); dense(u.elem(i), i + 301, DENSE); }
  for (size_t k = 0; k < subs.size(); ++k) { const Subset& s = *subs[k]; std::vector<bool> in(V2); for (int i = 0; i < s.numSiteTable(); ++i) in[s.siteTable()[i]] = true;
    auto jf = [&](const char* nm, const F& g, const std::function<Ten(int)>& w) { Fail f{std::string(nm) + " under subset " + t}; for (int i = 0; i < V2; ++i) { eval(); Ten q = ten(g.elem(i)), e = in[i] ? w(i) : ten(f0.elem(i)); if (!same(q, e, TOL)) f("L", q, e, fmt("subset %zu site %d", k, i)); } transition(); };
    auto jh = [&](const char* nm, const H& g, const std::function<Ten(int)>& w) { Fail f{std::string(nm) + " under subset " + t}; for (int i = 0; i < V2; ++i) { eval(); Ten q = ten(g.elem(i)), e = in[i] ? w(i) : ten(h0.elem(i)); if (!same(q, e, TOL)) f("L", q, e, fmt("subset %zu site %d", k, i)); } transition(); };
#define X(mu, S, sg) { H h(h0); h[s] = spinProjectDir##mu##S(psi); jh("h=proj" #mu #S, h, [&](int i) { return upper(proj(mu, sg) * ten(psi.elem(i))); }); \
    h = h0; h[s] = adj(u) * spinProjectDir##mu##S(psi); jh("h=adj(u)*proj" #mu #S, h, [&](int i) { return adjT(ten(u.elem(i))) * upper(proj(mu, sg) * ten(psi.elem(i))); }); \
    F f(f0); f[s] = spinReconstructDir##mu##S(chi); jf("f=recon" #mu #S, f, [&](int i) { return rebuild(ten(chi.elem(i)), mu, sg); }); \
    f = f0; f[s] += spinReconstructDir##mu##S(chi); jf("f+=recon" #mu #S, f, [&](int i) { return ten(f0.elem(i)) + rebuild(ten(chi.elem(i)), mu, sg); }); \
    f = f0; f[s] = spinReconstructDir##mu##S(u * chi); jf("f=recon(u*h)" #mu #S, f, [&](int i) { return rebuild(ten(u.elem(i)) * ten(chi.elem(i)), mu, sg); }); \
    f = f0; f[s] += spinReconstructDir##mu##S(u * chi); jf("f+=recon(u*h)" #mu #S, f, [&](int i) { return ten(f0.elem(i)) + rebuild(ten(u.elem(i)) * ten(chi.elem(i)), mu, sg); }); \
    if (k == 0) { F g(f0); g = spinReconstructDir##mu##S(u * chi); jf("whole f=recon(u*h)" #mu #S, g, [&](int i) { return rebuild(ten(u.elem(i)) * ten(chi.elem(i)), mu, sg); }); g = f0; g += spinReconstructDir##mu##S(u * chi); jf("whole f+=recon(u*h)" #mu #S, g, [&](int i) { return ten(f0.elem(i)) + rebuild(ten(u.elem(i)) * ten(chi.elem(i)), mu, sg); }); \
      F p(psi); p = spinReconstructDir##mu##S(spinProjectDir##mu##S(p)); jf("in place " #mu #S, p, [&](int i) { return proj(mu, sg) * ten(psi.elem(i)); }); } }
    DIRS(X)
#undef X
  }
  state(vf::hash("targets" + t)); trace();
}
static void go(Pool& pool) {
  IV s(Nd, 1); s[0] = 4; s[1] = 4; s[2] = 2; S = s; V = volume(s); lattice(s); basis();
#define J(...) pool.run("gamma", [=] { __VA_ARGS__; });
#if PART == 0
  for (int n = 0; n < 16; ++n) J(left<LatticeFermion>("ferm", n); left<LatticeSpinVector>("spinvec", n); left<LatticeSpinMatrix>("spinmat", n); right<LatticeSpinMatrix>("spinmat", n))
#elif PART == 1
  for (int n = 0; n < 16; ++n) J(left<LatticePropagator>("prop", n); right<LatticePropagator>("prop", n))
#elif PART == 2
  J(leftAll<LatticeFermion>("ferm", All16())) J(leftAll<LatticeSpinVector>("spinvec", All16())) J(leftAll<LatticeSpinMatrix>("spinmat", All16())) J(rightAll<LatticeSpinMatrix>("spinmat", All16()))
  J(leftAll<LatticePropagator>("prop", All16())) J(rightAll<LatticePropagator>("prop", All16()))
  // the algebra itself, read off the library's matrices
  J({ SpinMatrix one; one = 1.0; std::vector<Ten> g, d; for (int n = 0; n < 16; ++n) { SpinMatrix m, e; m = Gamma(n) * one; e = GammaDP(n) * one; g.push_back(ten(m)); d.push_back(ten(e)); }
    for (auto* v : {&g, &d}) for (int a = 0; a < 16; ++a) { Ten sq = (*v)[a] * (*v)[a]; check(same(sq, One) || same(sq, scl(-1, One)), fmt("square:%d:%d", v == &d, a), show(sq));
      for (int b = 0; b < 16; ++b) { Ten x = (*v)[a] * (*v)[b], y = (*v)[b] * (*v)[a]; check(same(x, y) || same(x, scl(-1, y)), fmt("commute:%d:%d:%d", v == &d, a, b), "neither commute nor anticommute");
        int want = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if ((a >> i & 1) && (b >> j & 1) && i != j) want ^= 1; check(same(x, scl(want ? -1 : 1, y)), fmt("sign:%d:%d:%d", v == &d, a, b), "wrong commutation sign"); eval(); transition(); } }
    state(vf::hash("algebra")); trace(); outcome(vf::hash("algebra")); })
#elif PART == 3
  J(projectors<LatticeFermion, LatticeHalfFermion, LatticeColorMatrix>("ferm")) J(targets<LatticeFermion, LatticeHalfFermion, LatticeColorMatrix>("ferm"))
  J(chiral<LatticeFermion>("ferm"); chiral<LatticeSpinVector>("spinvec")) J(chiral<LatticeSpinMatrix>("spinmat")) J(chiral<LatticePropagator>("prop"))
#endif
}
int main(int argc, char** argv) { init(argc, argv); startup(); Pool pool(700); go(pool); pool.drain(); return finish(); }
