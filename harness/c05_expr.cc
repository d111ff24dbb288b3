// C05: expressions against the component formulas.  PART selects what is compiled.
#include "forms.h"
#ifndef PART
#define PART 0
#endif
static Ten diagAdd(const Ten& m, const Ten& s, double sm, double ss) {     // matrix and scalar: the scalar multiplies the unit matrix
  Ten r = m; for (auto& x : r.v) x *= sm;
  for (int i = 0; i < m.sn; ++i) for (int c = 0; c < m.cn; ++c) r.at(m.sr == 2 ? i * m.sn + i : i, m.cr == 2 ? c * m.cn + c : c) += ss * s.v[0];
  r.cplx = m.cplx || s.cplx; return r;
}

// ---- element-type families
template<class L> static void linear(const std::string& t) {      // all types
  una<L>("+" + t, BASIS, A1 { return +a; }, R1 { return a; });
  una<L>("-" + t, BASIS, A1 { return -a; }, R1 { return -a; });
  una<L>("localNorm2 " + t, BASIS, A1 { return localNorm2(a); }, R1 { return norm(a); });
  bin<L, L>(t + "+" + t, BASIS, BASIS, A2 { return a + b; }, R2 { return a + b; });
  bin<L, L>(t + "-" + t, BASIS, BASIS, A2 { return a - b; }, R2 { return a - b; });
  bin<L, L>("localInnerProductReal " + t, BASIS, BASIS, A2 { return localInnerProductReal(a, b); }, R2 { return reT(inner(a, b)); });
  bin<L, LatticeReal>(t + "*real", BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; });
  bin<LatticeReal, L>("real*" + t, BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; });
  bin<L, LatticeReal>(t + "/real", DENSE, POW2, A2 { return a / b; }, R2 { return map1(a, [&](cd x) { return x / b.v[0]; }); });
  { auto k = 4.0f; una<L>(t + "*4", BASIS, [&](auto& a) { return a * typename WordType<L>::Type_t(4); }, R1 { return map1(a, [](cd x) { return 4. * x; }); });
    una<L>("4*" + t, BASIS, [&](auto& a) { return typename WordType<L>::Type_t(4) * a; }, R1 { return map1(a, [](cd x) { return 4. * x; }); });
    una<L>(t + "/4", BASIS, [&](auto& a) { return a / typename WordType<L>::Type_t(4); }, R1 { return map1(a, [](cd x) { return x / 4.; }); }); }
}
template<class L> static void complexes(const std::string& t) {   // all complex types
  una<L>("conj " + t, BASIS, A1 { return conj(a); }, R1 { return conjT(a); });
  una<L>("real " + t, BASIS, A1 { return real(a); }, R1 { return reT(a); });
  una<L>("imag " + t, BASIS, A1 { return imag(a); }, R1 { return imT(a); });
  una<L>("timesI " + t, BASIS, A1 { return timesI(a); }, R1 { return timI(a); });
  una<L>("timesMinusI " + t, BASIS, A1 { return timesMinusI(a); }, R1 { return timMI(a); });
  if constexpr (Rk<typename El<L>::T>::s == 0 && Rk<typename El<L>::T>::c == 0) una<L>("cmplx(real,imag) " + t, BASIS, A1 { return cmplx(real(a), imag(a)); }, R1 { return a; });
  if constexpr (Rk<typename El<L>::T>::s == 0 && Rk<typename El<L>::T>::c == 0) una<L>("cmplx(imag,real) " + t, BASIS, A1 { return cmplx(imag(a), real(a)); }, R1 { return map1(a, [](cd x) { return cd(x.imag(), x.real()); }); });
  bin<L, L>("localInnerProduct " + t, BASIS, BASIS, A2 { return localInnerProduct(a, b); }, R2 { return inner(a, b); });
  bin<L, L>("real localInnerProduct " + t, BASIS, BASIS, A2 { return real(localInnerProduct(a, b)); }, R2 { return reT(inner(a, b)); });
  bin<L, L>("imag localInnerProduct " + t, BASIS, BASIS, A2 { return imag(localInnerProduct(a, b)); }, R2 { return imT(inner(a, b)); });
  bin<L, LatticeComplex>(t + "*complex", BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; });
  bin<LatticeComplex, L>("complex*" + t, BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; });
  bin<LatticeComplex, L>("adj(complex)*" + t, BASIS, BASIS, A2 { return adj(a) * b; }, R2 { return adjT(a) * b; });
  bin<LatticeComplex, L>("conj(complex)*" + t, BASIS, BASIS, A2 { return conj(a) * b; }, R2 { return adjT(a) * b; });
  bin<L, LatticeComplex>(t + "*adj(complex)", BASIS, BASIS, A2 { return a * adj(b); }, R2 { return a * adjT(b); });
  bin<L, L>(t + "+timesI", BASIS, BASIS, A2 { return a + timesI(b); }, R2 { return a + timI(b); });
  bin<L, L>(t + "-timesI", BASIS, BASIS, A2 { return a - timesI(b); }, R2 { return a - timI(b); });
}
template<class L> static void square(const std::string& t) {      // no vector index: scalars and matrices
  una<L>("adj " + t, BASIS, A1 { return adj(a); }, R1 { return adjT(a); });
  una<L>("transpose " + t, BASIS, A1 { return transpose(a); }, R1 { return trans(a); });
  if constexpr (hasC<L>() && hasS<L>()) una<L>("transposeColor " + t, BASIS, A1 { return transposeColor(a); }, R1 { return transC(a); });
  if constexpr ((hasS<L>())) una<L>("transposeSpin " + t, BASIS, A1 { return transposeSpin(a); }, R1 { return transS(a); });
  una<L>("trace " + t, BASIS, A1 { return trace(a); }, R1 { return tr(a); });
  if constexpr ((hasC<L>())) una<L>("traceColor " + t, BASIS, A1 { return traceColor(a); }, R1 { return trC(a); });
  if constexpr ((hasS<L>())) una<L>("traceSpin " + t, BASIS, A1 { return traceSpin(a); }, R1 { return trS(a); });
  una<L>("realTrace " + t, BASIS, A1 { return realTrace(a); }, R1 { return reT(tr(a)); });
  una<L>("imagTrace " + t, BASIS, A1 { return imagTrace(a); }, R1 { return imT(tr(a)); });
  una<L>("real trace " + t, BASIS, A1 { return real(trace(a)); }, R1 { return reT(tr(a)); });
  una<L>("imag trace " + t, BASIS, A1 { return imag(trace(a)); }, R1 { return imT(tr(a)); });
  if constexpr ((hasS<L>()) && (hasC<L>())) una<L>("traceSpin traceColor " + t, BASIS, A1 { return traceSpin(traceColor(a)); }, R1 { return tr(a); });
  if constexpr ((hasS<L>()) && (hasC<L>())) una<L>("traceColor traceSpin " + t, BASIS, A1 { return traceColor(traceSpin(a)); }, R1 { return tr(a); });
  bin<L, LatticeReal>(t + "+real", BASIS, BASIS, A2 { return a + b; }, R2 { return diagAdd(a, b, 1, 1); });
  bin<L, LatticeReal>(t + "-real", BASIS, BASIS, A2 { return a - b; }, R2 { return diagAdd(a, b, 1, -1); });
  bin<LatticeReal, L>("real+" + t, BASIS, BASIS, A2 { return a + b; }, R2 { return diagAdd(b, a, 1, 1); });
  bin<LatticeReal, L>("real-" + t, BASIS, BASIS, A2 { return a - b; }, R2 { return diagAdd(b, a, -1, 1); });
  bin<L, LatticeComplex>(t + "+complex", BASIS, BASIS, A2 { return a + b; }, R2 { return diagAdd(a, b, 1, 1); });
  bin<L, LatticeComplex>(t + "-complex", BASIS, BASIS, A2 { return a - b; }, R2 { return diagAdd(a, b, 1, -1); });
  bin<LatticeComplex, L>("complex+" + t, BASIS, BASIS, A2 { return a + b; }, R2 { return diagAdd(b, a, 1, 1); });
  bin<LatticeComplex, L>("complex-" + t, BASIS, BASIS, A2 { return a - b; }, R2 { return diagAdd(b, a, -1, 1); });
}
template<class A, class B> static void product(const std::string& t) {                       // a*b, a without vector index
  bin<A, B>("a*b " + t, BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; });
  bin<A, B>("adj(a)*b " + t, BASIS, BASIS, A2 { return adj(a) * b; }, R2 { return adjT(a) * b; });
  bin<A, B>("transpose(a)*b " + t, DENSE, DENSE, A2 { return transpose(a) * b; }, R2 { return trans(a) * b; });
  bin<A, B>("conj(a)*b " + t, DENSE, DENSE, A2 { return conj(a) * b; }, R2 { return conjT(a) * b; });
  bin<A, B>("(-a)*b " + t, DENSE, DENSE, A2 { return (-a) * b; }, R2 { return -(a * b); });
  bin<A, B>("adj(a+a)*b " + t, DENSE, DENSE, A2 { return adj(a + a) * b; }, R2 { return adjT(a + a) * b; });
  bin<A, B>("adj(a)*(b+b) " + t, DENSE, DENSE, A2 { return adj(a) * (b + b); }, R2 { return adjT(a) * (b + b); });
}
template<class A, class B> static void products(const std::string& t) {                      // both without vector index
  product<A, B>(t);
  bin<A, B>("a*adj(b) " + t, BASIS, BASIS, A2 { return a * adj(b); }, R2 { return a * adjT(b); });
  bin<A, B>("adj(a)*adj(b) " + t, BASIS, BASIS, A2 { return adj(a) * adj(b); }, R2 { return adjT(a) * adjT(b); });
  bin<A, B>("(a+a)*adj(b) " + t, DENSE, DENSE, A2 { return (a + a) * adj(b); }, R2 { return (a + a) * adjT(b); });
  bin<A, B>("a*adj(b+b) " + t, DENSE, DENSE, A2 { return a * adj(b + b); }, R2 { return a * adjT(b + b); });
  bin<A, B>("adj(a*b) " + t, DENSE, DENSE, A2 { return adj(a * b); }, R2 { return adjT(a * b); });
  bin<A, B>("transpose(a*b) " + t, DENSE, DENSE, A2 { return transpose(a * b); }, R2 { return trans(a * b); });
  bin<A, B>("trace(a*b) " + t, BASIS, BASIS, A2 { return trace(a * b); }, R2 { return tr(a * b); });
  if constexpr (hasC<A>() && hasC<B>()) bin<A, B>("traceColor(a*b) " + t, BASIS, BASIS, A2 { return traceColor(a * b); }, R2 { return trC(a * b); });
  if constexpr (hasS<A>() && hasS<B>()) bin<A, B>("traceSpin(a*b) " + t, BASIS, BASIS, A2 { return traceSpin(a * b); }, R2 { return trS(a * b); });
  bin<A, B>("trace(a*adj(b)) " + t, BASIS, BASIS, A2 { return trace(a * adj(b)); }, R2 { return tr(a * adjT(b)); });
  if constexpr (hasC<A>() && hasC<B>()) bin<A, B>("traceColor(a*adj(b)) " + t, DENSE, DENSE, A2 { return traceColor(a * adj(b)); }, R2 { return trC(a * adjT(b)); });
  if constexpr (hasS<A>() && hasS<B>()) bin<A, B>("traceSpin(a*adj(b)) " + t, DENSE, DENSE, A2 { return traceSpin(a * adj(b)); }, R2 { return trS(a * adjT(b)); });
  if constexpr (hasS<A>() && hasS<B>()) bin<A, B>("traceSpin(adj(a)*b) " + t, DENSE, DENSE, A2 { return traceSpin(adj(a) * b); }, R2 { return trS(adjT(a) * b); });
  if constexpr (hasC<A>() && hasC<B>()) bin<A, B>("traceColor(adj(a)*b) " + t, DENSE, DENSE, A2 { return traceColor(adj(a) * b); }, R2 { return trC(adjT(a) * b); });
  bin<A, B>("real trace(a*b) " + t, BASIS, BASIS, A2 { return real(trace(a * b)); }, R2 { return reT(tr(a * b)); });
  bin<A, B>("realTrace(a*b) " + t, DENSE, DENSE, A2 { return realTrace(a * b); }, R2 { return reT(tr(a * b)); });
  bin<A, B>("imagTrace(a*adj(b)) " + t, DENSE, DENSE, A2 { return imagTrace(a * adj(b)); }, R2 { return imT(tr(a * adjT(b))); });
  bin<A, B>("trace(adj(a)*adj(b)) " + t, DENSE, DENSE, A2 { return trace(adj(a) * adj(b)); }, R2 { return tr(adjT(a) * adjT(b)); });
  bin<A, B>("a*b+a*b " + t, DENSE, DENSE, A2 { return a * b + a * b; }, R2 { return a * b + a * b; });
  bin<A, B>("a*b-adj(a)*b " + t, DENSE, DENSE, A2 { return a * b - adj(a) * b; }, R2 { return a * b - adjT(a) * b; });
}
template<class A> static void sameSquare(const std::string& t) {
  products<A, A>(t + t);
  bin<A, A>("trace(adj(a)*b) " + t, BASIS, BASIS, A2 { return trace(adj(a) * b); }, R2 { return tr(adjT(a) * b); });
  bin<A, A>("real trace(adj(a)*b) " + t, BASIS, BASIS, A2 { return real(trace(adj(a) * b)); }, R2 { return reT(tr(adjT(a) * b)); });
  bin<A, A>("imag trace(adj(a)*b) " + t, DENSE, DENSE, A2 { return imag(trace(adj(a) * b)); }, R2 { return imT(tr(adjT(a) * b)); });
  bin<A, A>("a*b*adj(a) " + t, DENSE, DENSE, A2 { return a * b * adj(a); }, R2 { return a * b * adjT(a); });
  bin<A, A>("a*(b*adj(a)) " + t, DENSE, DENSE, A2 { return a * (b * adj(a)); }, R2 { return a * (b * adjT(a)); });
  bin<A, A>("adj(a*b)*b " + t, DENSE, DENSE, A2 { return adj(a * b) * b; }, R2 { return adjT(a * b) * b; });
  bin<A, A>("trace(a*b*adj(a)) " + t, DENSE, DENSE, A2 { return trace(a * b * adj(a)); }, R2 { return tr(a * b * adjT(a)); });
  bin<A, A>("trace(adj(a)*(b*b)) " + t, DENSE, DENSE, A2 { return trace(adj(a) * (b * b)); }, R2 { return tr(adjT(a) * (b * b)); });
}
template<class L> static void picks(const std::string& t) {       // where, peek, poke
  LatticeBoolean m; for (int i = 0; i < V; ++i) m.elem(i).elem().elem().elem() = mix(i, 3, 1) & 1;
  Boolean yes = true, no = false;
  for (int pass = 0; pass < 4; ++pass) {
    L a, b; for (int i = 0; i < V; ++i) { dense(a.elem(i), pass * 100 + i, DENSE); dense(b.elem(i), pass * 100 + 50 + i, DENSE); }
    L r; r = where(m, a, b); L r1; r1 = where(yes, a, b); L r2; r2 = where(no, a, b); L r3; r3 = where(m, a + b, a - b); L r4; r4 = where(!m, a, b);
    typename El<L>::O sa, sb; sa.elem() = a.elem(0); sb.elem() = b.elem(0);
    L r5; r5 = where(m, sa, b); L r6; r6 = where(m, a, sb); typename El<L>::O r7; r7 = where(yes, sa, sb); typename El<L>::O r8; r8 = where(no, sa, sb);
    Fail f{"where " + t};
    for (int i = 0; i < V; ++i) { bool c = m.elem(i).elem().elem().elem(); Ten x = ten(a.elem(i)), y = ten(b.elem(i)); Ten z;
      auto ck = [&](const char* k, const L& g, const Ten& w) { eval(); Ten q = ten(g.elem(i)); if (!same(q, w)) f(k, q, w, fmt("site %d", i)); };
      ck("m,a,b", r, c ? x : y); ck("yes,a,b", r1, x); ck("no,a,b", r2, y); ck("m,a+b,a-b", r3, c ? x + y : x - y); ck("!m,a,b", r4, c ? y : x); ck("m,S,b", r5, c ? ten(sa) : y); ck("m,a,S", r6, c ? x : ten(sb)); }
    if (!same(ten(r7), ten(sa)) || !same(ten(r8), ten(sb))) violation("where-SS " + t, "single site");
  }
  transition(); state(hash("picks" + t)); trace();
}
template<class L, class SL, class SV> static void peekpoke(const std::string& t, int sr, int sn, int cr, int cn) {
  // SL: colour part left after peekSpin; SV: spin part left after peekColor
  L a; SL c; SV s; typename El<SL>::O oc; typename El<SV>::O os;
  for (int i = 0; i < V; ++i) { dense(a.elem(i), i, DENSE); dense(c.elem(i), 200 + i, DENSE); dense(s.elem(i), 300 + i, DENSE); }
  dense(oc.elem(), 400, DENSE); dense(os.elem(), 401, DENSE);
  typename El<L>::O oa; oa.elem() = a.elem(0);
  Fail f{"peek/poke " + t};
  auto each = [&](const char* k, const L& g, const std::function<void(Ten&, int)>& w) { for (int i = 0; i < V; ++i) { eval(); Ten e = ten(a.elem(i)); w(e, i); Ten q = ten(g.elem(i)); if (!same(q, e)) { f(k, q, e, fmt("site %d", i)); break; } } transition(); };
  if constexpr (!std::is_same<SL, L>::value) {
    for (int i = 0; i < sn; ++i) for (int j = 0; j < (sr == 2 ? sn : 1); ++j) { int jj = sr == 2 ? j : -1;
      SL p; typename El<SL>::O op; L d(a), d2(a), d3(a); typename El<L>::O od(oa);
      if constexpr (hasS<L>()) { p = peekSpin(a, i, j); op = peekSpin(oa, i, j); pokeSpin(d, c, i, j); pokeSpin(d2, c + c, i, j); pokeSpin(d3, oc, i, j); pokeSpin(od, oc, i, j); }
      else { p = peekSpin(a, i); op = peekSpin(oa, i); pokeSpin(d, c, i); pokeSpin(d2, c + c, i); pokeSpin(d3, oc, i); pokeSpin(od, oc, i); }
      for (int k = 0; k < V; ++k) { Ten w = peekS(ten(a.elem(k)), i, jj), q = ten(p.elem(k)); if (!same(q, w)) f("peekSpin", q, w, fmt("(%d,%d)", i, j)); }
      Ten w = peekS(ten(oa), i, jj); if (!same(ten(op), w)) f("peekSpin-S", ten(op), w, fmt("(%d,%d)", i, j));
      each("pokeSpin", d, [&](Ten& e, int k) { pokeS(e, ten(c.elem(k)), i, jj); });
      each("pokeSpin-expr", d2, [&](Ten& e, int k) { Ten x = ten(c.elem(k)); pokeS(e, x + x, i, jj); });
      each("pokeSpin-S", d3, [&](Ten& e, int k) { pokeS(e, ten(oc), i, jj); });
      Ten e = ten(oa); pokeS(e, ten(oc), i, jj); if (!same(ten(od), e)) f("pokeSpin-SS", ten(od), e, "");
      L d4(a); if constexpr (hasS<L>()) pokeSpin(d4[even], c, i, j); else pokeSpin(d4[even], c, i);
      std::vector<bool> ev(V); for (int k = 0; k < even.numSiteTable(); ++k) ev[even.siteTable()[k]] = true;
      each("pokeSpin-subset", d4, [&](Ten& e, int k) { if (ev[k]) pokeS(e, ten(c.elem(k)), i, jj); });
    }
  }
  if constexpr (!std::is_same<SV, L>::value) {
    for (int i = 0; i < cn; ++i) for (int j = 0; j < (cr == 2 ? cn : 1); ++j) { int jj = cr == 2 ? j : -1;
      SV p; typename El<SV>::O op; L d(a), d2(a), d3(a); typename El<L>::O od(oa);
      if constexpr (hasC<L>()) { p = peekColor(a, i, j); op = peekColor(oa, i, j); pokeColor(d, s, i, j); pokeColor(d2, s + s, i, j); pokeColor(d3, os, i, j); pokeColor(od, os, i, j); }
      else { p = peekColor(a, i); op = peekColor(oa, i); pokeColor(d, s, i); pokeColor(d2, s + s, i); pokeColor(d3, os, i); pokeColor(od, os, i); }
      for (int k = 0; k < V; ++k) { Ten w = peekC(ten(a.elem(k)), i, jj), q = ten(p.elem(k)); if (!same(q, w)) f("peekColor", q, w, fmt("(%d,%d)", i, j)); }
      Ten w = peekC(ten(oa), i, jj); if (!same(ten(op), w)) f("peekColor-S", ten(op), w, fmt("(%d,%d)", i, j));
      each("pokeColor", d, [&](Ten& e, int k) { pokeC(e, ten(s.elem(k)), i, jj); });
      each("pokeColor-expr", d2, [&](Ten& e, int k) { Ten x = ten(s.elem(k)); pokeC(e, x + x, i, jj); });
      each("pokeColor-S", d3, [&](Ten& e, int k) { pokeC(e, ten(os), i, jj); });
      Ten e = ten(oa); pokeC(e, ten(os), i, jj); if (!same(ten(od), e)) f("pokeColor-SS", ten(od), e, "");
      L d4(a); if constexpr (hasC<L>()) pokeColor(d4[odd], s, i, j); else pokeColor(d4[odd], s, i);
      std::vector<bool> ev(V); for (int k = 0; k < odd.numSiteTable(); ++k) ev[odd.siteTable()[k]] = true;
      each("pokeColor-subset", d4, [&](Ten& e, int k) { if (ev[k]) pokeC(e, ten(s.elem(k)), i, jj); });
    }
  }
  state(hash("peek" + t)); trace();
}

// ---- compositions: every operator applied to every operator's result
#define OPU(N, EX, RX) struct N { static const char* nm() { return #N; } template<class X> static auto f(const X& x) { return EX; } static Ten r(const Ten& x) { return RX; } };
#define OPB(N, EX, RX) struct N { static const char* nm() { return #N; } template<class X, class Y> static auto f(const X& x, const Y& y) { return EX; } static Ten r(const Ten& x, const Ten& y) { return RX; } };
OPU(uneg, -x, -x) OPU(uadj, adj(x), adjT(x)) OPU(uconj, conj(x), conjT(x)) OPU(utr, transpose(x), trans(x)) OPU(uI, timesI(x), timI(x)) OPU(umI, timesMinusI(x), timMI(x)) OPU(utc, transposeColor(x), transC(x)) OPU(uts, transposeSpin(x), transS(x))
OPB(badd, x + y, x + y) OPB(bsub, x - y, x - y) OPB(bmul, x * y, x * y) OPB(bam, adj(x) * y, adjT(x) * y) OPB(bma, x * adj(y), x * adjT(y)) OPB(bama, adj(x) * adj(y), adjT(x) * adjT(y))
OPU(otrace, trace(x), tr(x)) OPU(otc, traceColor(x), trC(x)) OPU(ots, traceSpin(x), trS(x)) OPU(ort, realTrace(x), reT(tr(x))) OPU(oit, imagTrace(x), imT(tr(x))) OPU(ore, real(x), reT(x)) OPU(oim, imag(x), imT(x)) OPU(orr, real(trace(x)), reT(tr(x))) OPU(oii, imag(trace(x)), imT(tr(x))) OPU(on2, localNorm2(x), norm(x))
template<class... T> struct Ls {};
typedef Ls<uneg, uadj, uconj, utr, uI, umI> Un; typedef Ls<badd, bsub, bmul, bam, bma, bama> Bi; typedef Ls<otrace, ort, oit, ore, oim, orr, oii, on2> Out;
template<class L> struct Ops { L a, b, c; std::vector<Ten> A, B, C; typename El<L>::O s; Ten Sx; Ops() { for (int i = 0; i < V; ++i) { dense(a.elem(i), i + 31, DENSE); dense(b.elem(i), i + 77, DENSE); dense(c.elem(i), i + 131, DENSE); } dense(s.elem(), 7, DENSE); Sx = ten(s); for (int i = 0; i < V; ++i) { A.push_back(ten(a.elem(i))); B.push_back(ten(b.elem(i))); C.push_back(ten(c.elem(i))); } } };
static std::string ctype; static Fail cfail{""};
template<class X, class W> void verdict(const std::string& nm, const X& x, W w) { auto r = value(x); Fail f{"compose " + ctype + " " + nm}; for (int i = 0; i < V; ++i) { eval(); Ten g = siteTen(r, i), t = w(i); if (!same(g, t, TOL)) { f("L", g, t, fmt("site %d", i)); break; } } state(hash(ctype + nm)); transition(); trace(); outcome(hash(ctype + nm)); }
template<class O, class L> void c1(Ops<L>& o) {}
// unary over unary, unary over binary, binary over unary (each side), binary over binary (each side), outer over binary/unary
template<class P, class Q, class L> void uu(Ops<L>& o) { verdict(std::string(P::nm()) + "(" + Q::nm() + " a)", P::f(Q::f(o.a)), [&](int i) { return P::r(Q::r(o.A[i])); }); }
template<class P, class Q, class L> void ub(Ops<L>& o) { verdict(std::string(P::nm()) + "(a " + Q::nm() + " b)", P::f(Q::f(o.a, o.b)), [&](int i) { return P::r(Q::r(o.A[i], o.B[i])); });
  verdict(std::string(P::nm()) + "(s " + Q::nm() + " b)", P::f(Q::f(o.s, o.b)), [&](int i) { return P::r(Q::r(o.Sx, o.B[i])); }); verdict(std::string(P::nm()) + "(a " + Q::nm() + " s)", P::f(Q::f(o.a, o.s)), [&](int i) { return P::r(Q::r(o.A[i], o.Sx)); }); }
template<class P, class Q, class L> void bu(Ops<L>& o) { verdict("(" + std::string(Q::nm()) + " a) " + P::nm() + " b", P::f(Q::f(o.a), o.b), [&](int i) { return P::r(Q::r(o.A[i]), o.B[i]); }); verdict("a " + std::string(P::nm()) + " (" + Q::nm() + " b)", P::f(o.a, Q::f(o.b)), [&](int i) { return P::r(o.A[i], Q::r(o.B[i])); }); }
template<class P, class Q, class L> void bb(Ops<L>& o) { verdict("(a " + std::string(Q::nm()) + " b) " + P::nm() + " c", P::f(Q::f(o.a, o.b), o.c), [&](int i) { return P::r(Q::r(o.A[i], o.B[i]), o.C[i]); }); verdict("a " + std::string(P::nm()) + " (b " + Q::nm() + " c)", P::f(o.a, Q::f(o.b, o.c)), [&](int i) { return P::r(o.A[i], Q::r(o.B[i], o.C[i])); }); }
#define PAIRS(FN) template<class L, class P, class... Q> void FN##row(Ops<L>& o, Ls<Q...>) { (FN<P, Q>(o), ...); } template<class L, class... P, class R> void FN##all(Ops<L>& o, Ls<P...>, R r) { (FN##row<L, P>(o, r), ...); }
PAIRS(uu) PAIRS(ub) PAIRS(bu) PAIRS(bb)
template<class A, class B> struct Cat; template<class... A, class... B> struct Cat<Ls<A...>, Ls<B...>> { typedef Ls<A..., B...> t; };
template<bool Y, class A> using If = typename std::conditional<Y, A, Ls<>>::type;
template<class L> using UnT = typename Cat<typename Cat<Un, If<hasC<L>() && hasS<L>(), Ls<utc>>>::t, If<hasS<L>(), Ls<uts>>>::t;
template<class L> using OutT = typename Cat<typename Cat<Out, If<hasC<L>(), Ls<otc>>>::t, If<hasS<L>(), Ls<ots>>>::t;
template<class L> void compose(const char* t) { ctype = t; cur(t); Ops<L> o; typedef UnT<L> U; typedef OutT<L> O; uuall(o, U(), U()); uball(o, U(), Bi()); buall(o, Bi(), U()); bball(o, Bi(), Bi()); uuall(o, O(), U()); uball(o, O(), Bi()); }
// outer over two levels of binaries
template<class P, class Q, class R, class L> void obb(Ops<L>& o) { verdict(std::string(R::nm()) + "((a " + Q::nm() + " b) " + P::nm() + " c)", R::f(P::f(Q::f(o.a, o.b), o.c)), [&](int i) { return R::r(P::r(Q::r(o.A[i], o.B[i]), o.C[i])); }); verdict(std::string(R::nm()) + "(a " + P::nm() + " (b " + Q::nm() + " c))", R::f(P::f(o.a, Q::f(o.b, o.c))), [&](int i) { return R::r(P::r(o.A[i], Q::r(o.B[i], o.C[i]))); }); }
template<class L, class P, class Q, class... R> void obb3(Ops<L>& o, Ls<R...>) { (obb<P, Q, R>(o), ...); }
template<class L, class P, class... Q, class R> void obb2(Ops<L>& o, Ls<Q...>, R r) { (obb3<L, P, Q>(o, r), ...); }
template<class L, class... P, class R> void obb1(Ops<L>& o, Ls<P...>, R r) { (obb2<L, P>(o, Ls<P...>(), r), ...); }
template<class L> void compose3(const char* t) { ctype = t; cur(t); Ops<L> o; obb1(o, Bi(), typename Cat<typename Cat<Ls<otrace, orr, uadj>, If<hasC<L>(), Ls<otc>>>::t, If<hasS<L>(), Ls<ots>>>::t()); }

static void go(Pool& pool) {
  IV s(Nd, 1); s[0] = 4; s[1] = 4; s[2] = 2; S = s; V = volume(s); lattice(s);
#define J(...) pool.run("expr", [=] { __VA_ARGS__; });
#if PART == 0
  J(linear<LatticeReal>("real"); linear<LatticeComplex>("complex"); linear<LatticeColorMatrix>("colmat"); linear<LatticeColorVector>("colvec"))
  J(linear<LatticeSpinMatrix>("spinmat"); linear<LatticeSpinVector>("spinvec"))
  J(linear<LatticeFermion>("ferm"); linear<LatticeHalfFermion>("half"); linear<LatticeStaggeredFermion>("stag"))
  J(complexes<LatticeComplex>("complex"); complexes<LatticeColorMatrix>("colmat"); complexes<LatticeColorVector>("colvec"))
  J(complexes<LatticeSpinMatrix>("spinmat"); complexes<LatticeSpinVector>("spinvec"))
  J(complexes<LatticeFermion>("ferm"); complexes<LatticeHalfFermion>("half"))
  J(square<LatticeComplex>("complex"); square<LatticeReal>("real"); square<LatticeColorMatrix>("colmat"))
  J(square<LatticeSpinMatrix>("spinmat"))
  J(square<LatticePropagator>("prop"))
#elif PART == 1
  J(linear<LatticePropagator>("prop"))
  J(complexes<LatticePropagator>("prop"))
  J(sameSquare<LatticeComplex>("complex"); sameSquare<LatticeReal>("real"))
  J(sameSquare<LatticeColorMatrix>("colmat"))
  J(sameSquare<LatticeSpinMatrix>("spinmat"))
#elif PART == 2
  J(product<LatticeColorMatrix, LatticeColorVector>("colmat.colvec"); product<LatticeColorMatrix, LatticeFermion>("colmat.ferm"))
  J(product<LatticeSpinMatrix, LatticeSpinVector>("spinmat.spinvec"); product<LatticeColorMatrix, LatticeHalfFermion>("colmat.half"); product<LatticeColorMatrix, LatticeStaggeredFermion>("colmat.stag"))
  J(product<LatticeSpinMatrix, LatticeFermion>("spinmat.ferm"))
  J(product<LatticePropagator, LatticeFermion>("prop.ferm"))
  J(products<LatticeColorMatrix, LatticeSpinMatrix>("colmat.spinmat"); products<LatticeSpinMatrix, LatticeColorMatrix>("spinmat.colmat"))
  J(product<LatticeColorMatrix, LatticeSpinVector>("colmat.spinvec"); product<LatticeSpinMatrix, LatticeColorVector>("spinmat.colvec"))
#elif PART == 3
  J(products<LatticeColorMatrix, LatticePropagator>("colmat.prop"))
  J(products<LatticePropagator, LatticeColorMatrix>("prop.colmat"))
  J(products<LatticeSpinMatrix, LatticePropagator>("spinmat.prop"))
  J(products<LatticePropagator, LatticeSpinMatrix>("prop.spinmat"))
#elif PART == 4
  J(sameSquare<LatticePropagator>("prop"))
#elif PART == 5
  J(compose<LatticeComplex>("complex"); compose3<LatticeComplex>("complex"))
  J(compose<LatticeColorMatrix>("colmat"))
#elif PART == 6
  J(compose3<LatticeColorMatrix>("colmat"))
  J(compose<LatticeSpinMatrix>("spinmat"))
#elif PART == 7
  J(compose<LatticePropagator>("prop"))
  J(compose3<LatticeSpinMatrix>("spinmat"))
#elif PART == 8
  J(picks<LatticeReal>("real"); picks<LatticeInteger>("int"); picks<LatticeComplex>("complex"); picks<LatticeColorMatrix>("colmat"); picks<LatticeColorVector>("colvec"); picks<LatticeSpinMatrix>("spinmat"); picks<LatticeSpinVector>("spinvec"); picks<LatticeFermion>("ferm"); picks<LatticePropagator>("prop"); picks<LatticeHalfFermion>("half"); picks<LatticeDouble>("double"); picks<LatticeDColorMatrix>("dcolmat"))
  J(peekpoke<LatticeColorMatrix, LatticeColorMatrix, LatticeComplex>("colmat", 0, 1, 2, Nc); peekpoke<LatticeColorVector, LatticeColorVector, LatticeComplex>("colvec", 0, 1, 1, Nc); peekpoke<LatticeSpinMatrix, LatticeComplex, LatticeSpinMatrix>("spinmat", 2, Ns, 0, 1); peekpoke<LatticeSpinVector, LatticeComplex, LatticeSpinVector>("spinvec", 1, Ns, 0, 1);
    peekpoke<LatticeFermion, LatticeColorVector, LatticeSpinVector>("ferm", 1, Ns, 1, Nc); peekpoke<LatticePropagator, LatticeColorMatrix, LatticeSpinMatrix>("prop", 2, Ns, 2, Nc))
  J(bin<LatticeColorVector, LatticeColorVector>("outer colvec", BASIS, BASIS, A2 { return outerProduct(a, b); }, R2 { return outer(a, b); });
    bin<LatticeSpinVector, LatticeSpinVector>("outer spinvec", BASIS, BASIS, A2 { return outerProduct(a, b); }, R2 { return outer(a, b); });
    bin<LatticeFermion, LatticeFermion>("outer ferm", BASIS, BASIS, A2 { return outerProduct(a, b); }, R2 { return outer(a, b); });
    bin<LatticeComplex, LatticeComplex>("outer complex", BASIS, BASIS, A2 { return outerProduct(a, b); }, R2 { return outer(a, b); });
    bin<LatticeHalfFermion, LatticeHalfFermion>("outer half", BASIS, BASIS, A2 { return outerProduct(a, b); }, R2 { return outer(a, b); });
    bin<LatticeFermion, LatticeFermion>("traceSpin outer ferm", BASIS, BASIS, A2 { return traceSpin(outerProduct(a, b)); }, R2 { return trS(outer(a, b)); });
    bin<LatticeFermion, LatticeFermion>("traceColor outer ferm", BASIS, BASIS, A2 { return traceColor(outerProduct(a, b)); }, R2 { return trC(outer(a, b)); });
    bin<LatticeFermion, LatticeFermion>("trace outer ferm", BASIS, BASIS, A2 { return trace(outerProduct(a, b)); }, R2 { return tr(outer(a, b)); });
    bin<LatticeSpinVector, LatticeSpinVector>("traceSpin outer spinvec", BASIS, BASIS, A2 { return traceSpin(outerProduct(a, b)); }, R2 { return trS(outer(a, b)); });
    bin<LatticeColorVector, LatticeColorVector>("traceColor outer colvec", BASIS, BASIS, A2 { return traceColor(outerProduct(a, b)); }, R2 { return trC(outer(a, b)); });
    bin<LatticeColorVector, LatticeColorVector>("colorInner colvec", BASIS, BASIS, A2 { return localColorInnerProduct(a, b); }, R2 { return inner(a, b); });
    bin<LatticeColorVector, LatticeColorVector>("colorVectorContract", BASIS, BASIS, A2 { return colorVectorContract(a, b); }, R2 { return inner(conjT(a), b); });
    bin<LatticeColorVectorSpinMatrix, LatticeColorVectorSpinMatrix>("colorInner colvecspinmat", BASIS, BASIS, A2 { return localColorInnerProduct(a, b); }, R2 { Ten r(2, a.sn, 0, 1); for (int i = 0; i < a.sn; ++i) for (int j = 0; j < a.sn; ++j) for (int k = 0; k < a.sn; ++k) for (int c = 0; c < a.cn; ++c) r.v[i * a.sn + j] += std::conj(a.at(k * a.sn + i, c)) * b.at(k * b.sn + j, c); return r; }))
#if QDP_NC == 3
  J(bin<LatticePropagator, LatticePropagator>("quarkContract13", BASIS, BASIS, A2 { return quarkContract13(a, b); }, R2 { return quarkContract(a, b, 1, 3); }))
  J(bin<LatticePropagator, LatticePropagator>("quarkContract14", BASIS, BASIS, A2 { return quarkContract14(a, b); }, R2 { return quarkContract(a, b, 1, 4); }))
  J(bin<LatticePropagator, LatticePropagator>("quarkContract23", BASIS, BASIS, A2 { return quarkContract23(a, b); }, R2 { return quarkContract(a, b, 2, 3); }))
  J(bin<LatticePropagator, LatticePropagator>("quarkContract24", BASIS, BASIS, A2 { return quarkContract24(a, b); }, R2 { return quarkContract(a, b, 2, 4); }))
  J(bin<LatticePropagator, LatticePropagator>("quarkContract12", BASIS, BASIS, A2 { return quarkContract12(a, b); }, R2 { return quarkContract(a, b, 1, 2); }))
  J(bin<LatticePropagator, LatticePropagator>("quarkContract34", BASIS, BASIS, A2 { return quarkContract34(a, b); }, R2 { return quarkContract(a, b, 3, 4); }))
  J(bin<LatticePropagator, LatticePropagator>("traceSpin quarkContract13", BASIS, BASIS, A2 { return traceSpin(quarkContract13(a, b)); }, R2 { return trS(quarkContract(a, b, 1, 3)); });
    bin<LatticePropagator, LatticePropagator>("traceColor(a*traceSpin(quarkContract13))", DENSE, DENSE, A2 { return traceColor(traceSpin(a) * traceSpin(quarkContract13(a, b))); }, R2 { return trC(trS(a) * trS(quarkContract(a, b, 1, 3))); });
    bin<LatticePropagator, LatticePropagator>("trace(a*quarkContract24)", DENSE, DENSE, A2 { return trace(a * quarkContract24(a, b)); }, R2 { return tr(a * quarkContract(a, b, 2, 4)); }))
  J(bin<LatticeColorVector, LatticeColorVector>("colorCrossProduct", BASIS, BASIS, A2 { return colorCrossProduct(a, b); }, R2 { Ten r = a.like(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r.v[i] += double(eps3(i, j, k)) * a.v[j] * b.v[k]; return r; });
    for (int k = 0; k < nwords<El<LatticeColorVector>::T>(); ++k) { LatticeColorVector c; for (int i = 0; i < V; ++i) unit(c.elem(i), k); ColorVector oc; unit(oc.elem(), k); Ten tc = ten(oc);
      auto ref = [&](const Ten& a, const Ten& b) { Ten r(0, 1, 0, 1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int l = 0; l < 3; ++l) r.v[0] += double(eps3(i, j, l)) * a.v[i] * b.v[j] * tc.v[l]; return r; };
      bin<LatticeColorVector, LatticeColorVector>("colorContract vec S", BASIS, BASIS, [&](auto& a, auto& b) { return colorContract(a, b, oc); }, ref); }
    for (int k = 0; k < nwords<El<LatticeColorMatrix>::T>(); ++k) { LatticeColorMatrix c; for (int i = 0; i < V; ++i) unit(c.elem(i), k); Ten tc = ten(c.elem(0));
      LatticeComplex r; typedef LatticeColorMatrix M; M a, b; int d = nwords<El<M>::T>(); Fail f{"colorContract mat"};
      for (int p0 = 0; p0 < d * d; p0 += V) { for (int i = 0; i < V; ++i) { int p = (p0 + i) % (d * d); unit(a.elem(i), p / d); unit(b.elem(i), p % d); } r = colorContract(a, b, c); eval(V);
        for (int i = 0; i < V; ++i) { Ten A = ten(a.elem(i)), B = ten(b.elem(i)), w(0, 1, 0, 1); for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) if (eps3(x, y, z)) for (int u = 0; u < 3; ++u) for (int v = 0; v < 3; ++v) for (int t = 0; t < 3; ++t) w.v[0] += double(eps3(x, y, z) * eps3(u, v, t)) * A.v[x * 3 + u] * B.v[y * 3 + v] * tc.v[z * 3 + t];
          if (!same(ten(r.elem(i)), w)) f("L", ten(r.elem(i)), w, fmt("k=%d", k)); } transition(); } })
#endif
#elif PART == 9
  // scalars: comparisons, logic, integers, C math library
  J({ typedef LatticeReal R; typedef LatticeInteger I;
#define CMP(op) bin<R, R>("real" #op "real", DENSE, DENSE, A2 { return a op b; }, R2 { Ten t; t.v[0] = a.v[0].real() op b.v[0].real(); return t; }); bin<I, I>("int" #op "int", DENSE, DENSE, A2 { return a op b; }, R2 { Ten t; t.v[0] = a.v[0].real() op b.v[0].real(); return t; }); bin<R, I>("real" #op "int", DENSE, DENSE, A2 { return a op b; }, R2 { Ten t; t.v[0] = a.v[0].real() op b.v[0].real(); return t; }); \
   bin<I, I>("int" #op "3", DENSE, DENSE, A2 { return a op 1; }, R2 { Ten t; t.v[0] = a.v[0].real() op 1; return t; });
    CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=) })
  J({ typedef LatticeBoolean B; typedef LatticeInteger I; auto iv = [](const Ten& t) { return (int)t.v[0].real(); };
#define BL(nm, EX, RX) bin<B, B>("bool " nm, BOOL, BOOL, A2 { return EX; }, R2 { bool x = a.v[0].real() != 0, y = b.v[0].real() != 0; Ten t; t.v[0] = (RX) ? 1 : 0; return t; });
    BL("&&", a && b, x && y) BL("||", a || b, x || y) BL("!a&&b", !a && b, !x && y) BL("a||!b", a || !b, x || !y) BL("!(a&&b)", !(a && b), !(x && y)) BL("&", a & b, x && y) BL("|", a | b, x || y) BL("^", a ^ b, x != y) BL("==", a == b, x == y) BL("!=", a != b, x != y)
    una<B>("!bool", BOOL, A1 { return !a; }, R1 { Ten t; t.v[0] = a.v[0].real() == 0; return t; });
#define IB(nm, ma, mb, op) bin<I, I>("int " nm, ma, mb, A2 { return a op b; }, R2 { Ten t; int x = (int)a.v[0].real(), y = (int)b.v[0].real(); t.v[0] = x op y; return t; }); bin<I, I>("int " nm " literal", ma, mb, A2 { return (a op 3) + b - b; }, R2 { Ten t; int x = (int)a.v[0].real(); t.v[0] = x op 3; return t; });
    IB("+", BASIS, BASIS, +) IB("-", BASIS, BASIS, -) IB("*", BASIS, BASIS, *) IB("/", DENSE, POS, /) IB("%", DENSE, POS, %) IB("&", DENSE, DENSE, &) IB("|", DENSE, DENSE, |) IB("^", DENSE, DENSE, ^) IB("<<", POS, POS, <<) IB(">>", DENSE, POS, >>)
    una<I>("-int", DENSE, A1 { return -a; }, R1 { Ten t; t.v[0] = -(int)a.v[0].real(); return t; });
    una<I>("int expr", DENSE, A1 { return (a * a + 3 * a - 1) % 5 + (a << 2) - (a >> 1); }, R1 { Ten t; int x = (int)a.v[0].real(); t.v[0] = (x * x + 3 * x - 1) % 5 + (x << 2) - (x >> 1); return t; });
    bin<I, LatticeReal>("int*real", BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; }); bin<I, LatticeReal>("int+real", DENSE, DENSE, A2 { return a + b; }, R2 { return a + b; }); bin<LatticeReal, I>("real-int", DENSE, DENSE, A2 { return a - b; }, R2 { return a - b; }); bin<LatticeReal, I>("real/int", DENSE, POW2, A2 { return a * b; }, R2 { return a * b; }); })
  J({ TOL = 2e-6; typedef LatticeReal R; typedef LatticeComplex C;
#define FN(fn, m) una<R>(#fn, m, A1 { return fn(a); }, R1 { Ten t; t.v[0] = std::fn(a.v[0].real()); return t; });
    FN(sin, UNIT) FN(cos, UNIT) FN(tan, UNIT) FN(asin, UNIT) FN(acos, UNIT) FN(atan, UNIT) FN(sinh, UNIT) FN(cosh, UNIT) FN(tanh, UNIT) FN(exp, UNIT) FN(log, POS) FN(log10, POS) FN(sqrt, POS) FN(ceil, POW2) FN(floor, POW2) FN(fabs, DENSE) FN(sin, DENSE) FN(cos, DENSE) FN(exp, DENSE) FN(floor, UNIT) FN(ceil, UNIT)
#define FB(fn, ma, mb) bin<R, R>(#fn, ma, mb, A2 { return fn(a, b); }, R2 { Ten t; t.v[0] = std::fn(a.v[0].real(), b.v[0].real()); return t; });
    FB(pow, POS, DENSE) FB(pow, POS, UNIT) FB(atan2, DENSE, POW2) FB(atan2, POW2, DENSE)
    bin<R, R>("cmplx", BASIS, BASIS, A2 { return cmplx(a, b); }, R2 { Ten t; t.v[0] = cd(a.v[0].real(), b.v[0].real()); return t; });
    bin<C, C>("complex/complex", DENSE, POW2, A2 { return a / b; }, R2 { Ten t(0, 1, 0, 1); t.v[0] = a.v[0] / b.v[0]; return t; });
    bin<R, C>("real/complex", DENSE, POW2, A2 { return a / b; }, R2 { Ten t(0, 1, 0, 1); t.v[0] = a.v[0] / b.v[0]; return t; });
    bin<R, R>("real/real", DENSE, POS, A2 { return a / b; }, R2 { Ten t; t.v[0] = a.v[0] / b.v[0]; return t; });
    bin<LatticeColorMatrix, C>("colmat/complex", DENSE, POW2, A2 { return a / b; }, R2 { return map1(a, [&](cd x) { return x / b.v[0]; }); });
    bin<LatticeFermion, C>("ferm/complex", DENSE, POW2, A2 { return a / b; }, R2 { return map1(a, [&](cd x) { return x / b.v[0]; }); });
    una<R>("literals", DENSE, A1 { return 2.0 * a + a * 3.0 - a / 4.0 + (1.0 - a); }, R1 { Ten t; double x = a.v[0].real(); t.v[0] = 2 * x + x * 3 - x / 4 + (1 - x); return t; });
    bin<R, R>("pow literal", POS, POS, A2 { return pow(a, 2.0) + atan2(b, 1.0); }, R2 { Ten t; double x = a.v[0].real(), y = b.v[0].real(); t.v[0] = x * x + std::atan2(y, 1.0); return t; }); })
  // mixed precision
  J({ typedef LatticeColorMatrixF F; typedef LatticeColorMatrixD D; bin<F, D>("float*double colmat", BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; }); bin<D, F>("double*adj(float) colmat", BASIS, BASIS, A2 { return a * adj(b); }, R2 { return a * adjT(b); }); bin<D, F>("double+float colmat", BASIS, BASIS, A2 { return a + b; }, R2 { return a + b; });
    una<F>("D=F", BASIS, A1 { typename std::conditional<std::is_same<typename std::decay<decltype(a)>::type, F>::value, D, ColorMatrixD>::type d; d = a; return d; }, R1 { return a; });
    una<D>("F=D", BASIS, A1 { typename std::conditional<std::is_same<typename std::decay<decltype(a)>::type, D>::value, F, ColorMatrixF>::type d; d = a; return d; }, R1 { return a; });
    bin<LatticeFermionF, LatticeFermionD>("float-double ferm", BASIS, BASIS, A2 { return a - b; }, R2 { return a - b; }); bin<LatticeColorMatrixF, LatticeFermionD>("floatmat*doubleferm", BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; });
    bin<LatticeRealD, LatticeFermionF>("doublereal*floatferm", BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; }); bin<LatticeComplexF, LatticeComplexD>("complexF*complexD", BASIS, BASIS, A2 { return a * b; }, R2 { return a * b; }); bin<LatticePropagatorF, LatticeSpinMatrixD>("propF*spinmatD", DENSE, DENSE, A2 { return a * b; }, R2 { return a * b; }); })
#endif
}
int main(int argc, char** argv) {
  init(argc, argv); startup(); Pool pool(700); go(pool); pool.drain(); return finish();
}
