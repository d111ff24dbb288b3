// C20: every operation history of the array containers, against plain value vectors, under the address sanitizer and with counted elements.
#include "bio.h"
using namespace QDP; using namespace vf;
static long live = 0;
struct Obj { int* p; Obj() : p(new int(-7)) { ++live; } Obj(int v) : p(new int(v)) { ++live; } Obj(const Obj& o) : p(new int(*o.p)) { ++live; } ~Obj() { delete p; p = 0; --live; } Obj& operator=(const Obj& o) { *p = *o.p; return *this; } Obj& operator=(int v) { *p = v; return *this; }
  Obj& operator+=(const Obj& o) { *p += *o.p; return *this; } Obj& operator-=(const Obj& o) { *p -= *o.p; return *this; } Obj& operator*=(const Obj& o) { *p *= *o.p; return *this; } Obj& operator/=(const Obj& o) { *p = *p * 3 + *o.p; return *this; } };
static Obj operator*(const Obj& a, const Obj& b) { return Obj(*a.p * *b.p); }
static bool operator!=(const Obj& a, const Obj& b) { return *a.p != *b.p; }
static bool operator<(const Obj& a, const Obj& b) { return *a.p < *b.p; }
static bool operator>(const Obj& a, const Obj& b) { return *a.p > *b.p; }
static Obj sin(const Obj& a) { return Obj(*a.p + 100); } static Obj cos(const Obj& a) { return Obj(*a.p + 101); } static Obj tan(const Obj& a) { return Obj(*a.p + 102); } static Obj sqrt(const Obj& a) { return Obj(*a.p + 103); } static Obj log(const Obj& a) { return Obj(*a.p + 104); } static Obj asin(const Obj& a) { return Obj(*a.p + 105); } static Obj acos(const Obj& a) { return Obj(*a.p + 106); } static Obj atan(const Obj& a) { return Obj(*a.p + 107); }
static int val(const Obj& o) { return *o.p; } static int val(int o) { return o; }
typedef std::vector<int> D;
static long prod(const D& d) { long n = 1; for (int x : d) n *= x; return n; }
template<class T> T* own(long n) { return new T[n]; }
// ---- one face per container: sizes slowest first
template<class C> struct Face;
#define FACE(C, R, NAME, MK, RS, SZ, AT, PLACE) template<class T> struct Face<C<T>> { typedef T E; enum { rank = R }; static const char* name() { return NAME; } static C<T>* mk(const D& d) { return MK; } static void resize(C<T>& c, const D& d) { RS; } static D size(const C<T>& c) { return SZ; } template<class X> static auto& at(X& c, const D& i) { return AT; } static C<T>* place(T* p, const D& d) { return PLACE; } }
FACE(multi1d, 1, "1d array", new multi1d<T>(d[0]), c.resize(d[0]), (D{c.size1()}), c(i[0]), new multi1d<T>(p, d[0]));
FACE(multi2d, 2, "2d array", (new multi2d<T>(d[0], d[1])), c.resize(d[0], d[1]), (D{c.size2(), c.size1()}), c(i[0], i[1]), new multi2d<T>(p, d[0], d[1]));
FACE(multi3d, 3, "3d array", (new multi3d<T>(d[0], d[1], d[2])), c.resize(d[0], d[1], d[2]), (D{c.size3(), c.size2(), c.size1()}), c(i[0], i[1], i[2]), new multi3d<T>(p, d[0], d[1], d[2]));
FACE(multi4d, 4, "4d array", (new multi4d<T>(d[0], d[1], d[2], d[3])), c.resize(d[0], d[1], d[2], d[3]), (D{c.size4(), c.size3(), c.size2(), c.size1()}), c(i[0], i[1], i[2], i[3]), new multi4d<T>(p, d[0], d[1], d[2], d[3]));
FACE(multi5d, 5, "5d array", (new multi5d<T>(d[0], d[1], d[2], d[3], d[4])), c.resize(d[0], d[1], d[2], d[3], d[4]), (D{c.size5(), c.size4(), c.size3(), c.size2(), c.size1()}), c(i[0], i[1], i[2], i[3], i[4]), new multi5d<T>(p, d[0], d[1], d[2], d[3], d[4]));
static multi1d<int> m1d(const D& d) { multi1d<int> m(d.size()); for (size_t i = 0; i < d.size(); ++i) m[i] = d[i]; return m; }
template<int R, class T> struct ND : multiNd<T> { ND() {} explicit ND(const multi1d<int>& d) : multiNd<T>(d) {} ND(const ND& o) : multiNd<T>(o) {} ND& operator=(const ND& o) { multiNd<T>::operator=((const multiNd<T>&)o); return *this; } ND& operator=(int v) { multiNd<T>::operator=(v); return *this; } };
template<int R, class T> struct Face<ND<R, T>> { typedef T E; typedef ND<R, T> C; enum { rank = R }; static const char* name() { static std::string s = fmt("n-dimensional array of rank %d", R); return s.c_str(); } static C* mk(const D& d) { return new C(m1d(d)); } static void resize(C& c, const D& d) { c.resize(m1d(d)); } static D size(const C& c) { D d; for (int i = 0; i < c.size().size(); ++i) d.push_back(c.size(i)); if (d.empty()) d.assign(R, 0); return d; } template<class X> static auto& at(X& c, const D& i) { if constexpr (R == 1) return c(i[0]); else if constexpr (R == 2) return c(i[0], i[1]); else if constexpr (R == 3) return c(i[0], i[1], i[2]); else return c(i[0], i[1], i[2], i[3]); } static C* place(T*, const D&) { return nullptr; } };
FACE(Array1dO, 1, "1-based 1d array", new Array1dO<T>(d[0]), c.resize(d[0]), (D{c.size()}), c[i[0] + 1], nullptr);
FACE(Array2dO, 2, "1-based 2d array", (new Array2dO<T>(d[0], d[1])), c.resize(d[0], d[1]), (D{c.size2(), c.size1()}), c(i[0] + 1, i[1] + 1), nullptr);
FACE(Array3dO, 3, "1-based 3d array", (new Array3dO<T>(d[0], d[1], d[2])), c.resize(d[0], d[1], d[2]), (D{c.size3(), c.size2(), c.size1()}), c(i[0] + 1, i[1] + 1, i[2] + 1), nullptr);
FACE(Array4dO, 4, "1-based 4d array", (new Array4dO<T>(d[0], d[1], d[2], d[3])), c.resize(d[0], d[1], d[2], d[3]), (D{c.size4(), c.size3(), c.size2(), c.size1()}), c(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1), nullptr);
FACE(Array5dO, 5, "1-based 5d array", (new Array5dO<T>(d[0], d[1], d[2], d[3], d[4])), c.resize(d[0], d[1], d[2], d[3], d[4]), (D{c.size5(), c.size4(), c.size3(), c.size2(), c.size1()}), c(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1, i[4] + 1), nullptr);
static void each(const D& d, const std::function<void(const D&, long)>& f) { long n = prod(d); for (long k = 0; k < n; ++k) { D i(d.size()); long r = k; for (int q = (int)d.size() - 1; q >= 0; --q) { i[q] = r % d[q]; r /= d[q]; } f(i, k); } }
struct Model { D d; std::vector<int> v; std::vector<char> known; bool null = true, view = false; void shape(const D& s) { d = s; v.assign(prod(s), 0); known.assign(prod(s), 0); null = false; } };
template<class C> struct Sys { typedef Face<C> Fc; typedef typename Fc::E E; C* c[2] = {0, 0}; E* ext[2] = {0, 0}; long extn[2] = {0, 0}; Model m[2];
  void drop(int x) { delete c[x]; c[x] = 0; if (ext[x]) { delete[] ext[x]; ext[x] = 0; } m[x] = Model(); m[x].d.assign(Fc::rank, 0); }
  bool look(const std::string& key, const std::string& in) { for (int x = 0; x < 2; ++x) { eval(); if (!check(Fc::size(*c[x]) == m[x].d, key + ": sizes", in + fmt(" variable %d", x))) return false; bool ok = true; const C& k = *c[x]; const E* base = nullptr;
        each(m[x].d, [&](const D& i, long n) { const E& e = Fc::at(k, i); E& w = Fc::at(*c[x], i); if (!n) base = &e; ok = ok && &e == &w && &e == base + n; if (m[x].known[n]) ok = ok && val(e) == m[x].v[n]; });
        if (!check(ok, key + ": elements", in + fmt(" variable %d", x))) return false; if (m[x].view && !check(!m[x].v.size() || base == ext[x], key + ": placed memory", in)) return false; }
    if (std::is_same<E, Obj>::value) { long want = 0; for (int x = 0; x < 2; ++x) want += m[x].view ? extn[x] : prod(m[x].d); if (!check(live == want, key + ": objects alive", in + fmt(" %ld want %ld", live, want))) return false; } return true; } };
static int fresh;
template<class C> void compound(Sys<C>& s, int x, int k) { }
template<class E> void compound(Sys<multi1d<E>>& s, int x, int k) {     // one-dimensional arithmetic
  multi1d<E>&a = *s.c[x], &b = *s.c[1 - x]; Model &p = s.m[x], &q = s.m[1 - x]; auto each1 = [&](auto f) { for (size_t i = 0; i < p.v.size(); ++i) { p.v[i] = f(p.v[i], i); } }; auto both = [&] { for (size_t i = 0; i < p.v.size(); ++i) p.known[i] = p.known[i] && q.known[i]; };
  bool same = p.d == q.d; const E two(2);
  switch (k) { case 0: if (same) { a += b; each1([&](int v, int i) { return v + q.v[i]; }); both(); } break; case 1: if (same) { a -= b; each1([&](int v, int i) { return v - q.v[i]; }); both(); } break; case 2: if (same) { a *= b; each1([&](int v, int i) { return v * q.v[i]; }); both(); } break; case 3: if (same && std::is_same<E, Obj>::value) { a /= b; each1([&](int v, int i) { return v * 3 + q.v[i]; }); both(); } break;
    case 4: if (!p.null) { a += two; each1([](int v, int) { return v + 2; }); } break; case 5: if (!p.null) { a -= two; each1([](int v, int) { return v - 2; }); } break; case 6: if (!p.null) { a *= two; each1([](int v, int) { return v * 2; }); } break; case 7: a += a; each1([](int v, int) { return v + v; }); break; case 8: a -= a; each1([](int v, int) { return 0; }); break;
    case 9: if (same) { multi1d<E> t; t = a + b; a = t; each1([&](int v, int i) { return v + q.v[i]; }); both(); } break; case 10: if (same) { a = b - a; each1([&](int v, int i) { return q.v[i] - v; }); both(); } break;
    case 11: if (!p.null && !p.view) { multi1d<E> t = concat(a, b); a = t; int n = p.v.size(); D d{n + (int)q.v.size()}; p.d = d; p.v.insert(p.v.end(), q.v.begin(), q.v.end()); p.known.insert(p.known.end(), q.known.begin(), q.known.end()); } break;
    case 12: if (!p.null) { std::vector<E> src(p.v.size() + 1, E(0)); for (size_t i = 0; i < p.v.size(); ++i) src[i] = E(50 + (int)i); a = (const E*)src.data(); each1([](int, int i) { return 50 + i; }); std::fill(p.known.begin(), p.known.end(), 1); } break; case 13: if (!p.null) { multi1d<E> t(two * a); a = t; multi1d<E> u(a - two), w(two - u), z(w + two), y(two + z); a = y * two; each1([](int v, int) { return ((2 - (v * 2 - 2)) + 4) * 2; }); } break; } }
enum { CK = 14 };
template<class C> bool sliceWrite(Sys<C>& s, int x, int y) { return false; }
#define SLICE(C) template<class E> bool sliceWrite(Sys<C<E>>& s, int x, int y) { auto &a = *s.c[x], &b = *s.c[y]; Model &p = s.m[x], &q = s.m[y]; D pd(p.d.begin() + 1, p.d.end()), qd(q.d.begin() + 1, q.d.end()); long n = prod(pd); if (p.d[0] < 1 || q.d[0] < 1 || pd != qd || !n) return true; int j = p.d[0] - 1, k = 0; a[j] = b[k]; std::vector<int> t(q.v.begin() + k * n, q.v.begin() + (k + 1) * n); std::vector<char> u(q.known.begin() + k * n, q.known.begin() + (k + 1) * n); std::copy(t.begin(), t.end(), p.v.begin() + j * n); std::copy(u.begin(), u.end(), p.known.begin() + j * n); a[0] = 5; std::fill(p.v.begin(), p.v.begin() + n, 5); std::fill(p.known.begin(), p.known.begin() + n, 1); return true; }
SLICE(multi2d) SLICE(multi3d) SLICE(multi4d) SLICE(multi5d)
template<class C> void hist(const std::vector<D>& sh, int depth, int part, int parts, bool loaded = false) {
  typedef Face<C> Fc; typedef typename Fc::E E; const int S = sh.size(), R = Fc::rank; const bool oned = std::is_same<C, multi1d<E>>::value, canPlace = Fc::place(nullptr, D(R, 0)) != nullptr, ao = std::string(Fc::name()).find("1-based 1d") == 0; const bool obj = std::is_same<E, Obj>::value;
  struct Op { int k, x, s; }; std::vector<Op> ops; for (int x = 0; x < 2; ++x) { ops.push_back({0, x, 0}); for (int i = 0; i < S; ++i) { ops.push_back({1, x, i}); ops.push_back({4, x, i}); if (canPlace) ops.push_back({8, x, i}); } ops.push_back({2, x, 0}); ops.push_back({3, x, 0}); ops.push_back({3, x, 1}); ops.push_back({5, x, 0}); if (!ao) ops.push_back({6, x, 0}); if (oned) for (int k = 0; k < CK; ++k) ops.push_back({7, x, k}); if (canPlace && R > 1) { ops.push_back({9, x, x}); ops.push_back({9, x, 1 - x}); } }
  const int N = ops.size(); long tot = 1; for (int i = 0; i < depth; ++i) tot *= N; std::string key = std::string(Fc::name()) + (obj ? "" : " of int");
  for (long q = part; q < tot; q += parts) { trace(); live = 0; fresh = 10; Sys<C> s; for (int x = 0; x < 2; ++x) { s.c[x] = new C; s.m[x].d.assign(R, 0); } std::string in = key + ":"; { long r = q; for (int i = 0; i < depth; ++i) { const Op& o = ops[r % N]; r /= N; static const char* n[] = {"clear", "new", "copy-construct", "assign", "resize", "write", "fill", "arith", "place", "slice"}; in += fmt(" %s(%c,%d)", n[o.k], 'A' + o.x, o.s); } } cur(in);
    std::vector<Op> seq; if (loaded) for (int x = 0; x < 2; ++x) { seq.push_back({1, x, x % S}); seq.push_back({5, x, 0}); } { long r = q; for (int i = 0; i < depth; ++i) { seq.push_back(ops[r % N]); r /= N; } } const int L = seq.size();
    bool ok = true; for (int i = 0; i < L && ok; ++i) { const Op o = seq[i]; const int x = o.x, y = o.k == 3 && o.s ? x : 1 - x; Model& m = s.m[x]; transition();
      switch (o.k) {
        case 0: s.drop(x); s.c[x] = new C; break;
        case 1: s.drop(x); s.c[x] = Fc::mk(sh[o.s]); m.shape(sh[o.s]); break;
        case 2: { C* n = new C(*s.c[y]); s.drop(x); s.c[x] = n; bool nul = s.m[y].null; m = s.m[y]; m.view = false; m.null = nul && false; break; }
        case 3: { if (m.view && m.d != s.m[y].d) break; *s.c[x] = *s.c[y]; bool v = m.view; if (x != y) { bool nul = m.null && m.d == s.m[y].d; m = s.m[y]; m.view = v; m.null = nul; } break; }
        case 4: if (m.view) break; Fc::resize(*s.c[x], sh[o.s]); m.shape(sh[o.s]); break;
        case 5: { int f = fresh; each(m.d, [&](const D& id, long k) { Fc::at(*s.c[x], id) = f + (int)k; m.v[k] = f + k; m.known[k] = 1; }); fresh += 20; break; }
        case 6: if constexpr (!std::is_same<C, Array1dO<E>>::value) { if (m.null) break; *s.c[x] = 3; std::fill(m.v.begin(), m.v.end(), 3); std::fill(m.known.begin(), m.known.end(), 1); } break;
        case 7: compound(s, x, o.s); break;
        case 8: { s.drop(x); long n = prod(sh[o.s]); s.ext[x] = new E[n + 1]; s.extn[x] = n + 1; s.c[x] = Fc::place(s.ext[x], sh[o.s]); m.shape(sh[o.s]); m.view = true; break; }
        case 9: sliceWrite(s, x, o.s); break; }
      if (loaded && i < 3) continue; ok = s.look(key, in + fmt(" after step %d", i + 1)); state(hash(s.m[0].v.data(), s.m[0].v.size() * 4, hash(s.m[1].v.data(), s.m[1].v.size() * 4, hash(key) + s.m[0].view * 2 + s.m[1].view + hash(s.m[0].d.data(), 4 * R) * 3 + hash(s.m[1].d.data(), 4 * R) * 5))); }
    for (int x = 0; x < 2; ++x) { delete s.c[x]; s.c[x] = 0; delete[] s.ext[x]; s.ext[x] = 0; } if (ok && obj) check(live == 0, key + ": objects left after destruction", in + fmt(" %ld", live)); if (!ok) return; }
  sample(key + fmt(": all histories of %d operations over %d operations on two variables", depth, N));
}
// ---- comparisons of one-dimensional arrays, and element functions
static void compare() { std::vector<D> all; for (int n = 0; n <= 3; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 3; for (int q = 0; q < t; ++q) { D d(n); int r = q; for (int i = 0; i < n; ++i) { d[i] = r % 3; r /= 3; } all.push_back(d); } }
  for (auto& a : all) for (auto& b : all) { std::string in = "compare"; for (int v : a) in += fmt(" %d", v); in += " with"; for (int v : b) in += fmt(" %d", v); cur(in); multi1d<int> x = m1d(a), y = m1d(b); eval(6); transition(6); state(hash(in)); bool e = a.empty() && b.empty(); check((x < y) == (a < b) && (x > y) == (a > b), "1d array: order", in); if (!e) check((x == y) == (a == b) && (x != y) == (a != b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "1d array: comparison", in); }
  live = 0; { for (int n = 0; n <= 3; ++n) { multi1d<Obj> a(n); for (int i = 0; i < n; ++i) a[i] = i + 1; cur("element functions"); eval(8); transition(8); auto ck = [&](const multi1d<Obj>& r, int add) { bool ok = r.size() == n; for (int i = 0; ok && i < n; ++i) ok = val(r[i]) == i + 1 + add && val(a[i]) == i + 1; check(ok, "1d array: element function", fmt("%d of size %d", add, n)); }; ck(sin(a), 100); ck(cos(a), 101); ck(tan(a), 102); ck(sqrt(a), 103); ck(log(a), 104); ck(asin(a), 105); ck(acos(a), 106); ck(atan(a), 107); if (n) { int w = 0; for (int i = 1; i <= n; ++i) w += i * i; Obj z(norm2(a)); check(val(z) == w, "1d array: norm2", fmt("size %d", n)); } } } check(live == 0, "1d array: objects left after element functions"); trace(); }
// ---- uses that must be refused rather than run on
static void refused() { struct Case { const char* n; void (*f)(); } cs[] = {
  {"adding arrays of different sizes", [] { multi1d<int> a(2), b(3); a = 1; b = 1; a += b; }}, {"subtracting arrays of different sizes", [] { multi1d<int> a(2), b(3); a = 1; b = 1; a -= b; }}, {"multiplying arrays of different sizes", [] { multi1d<int> a(2), b(3); a = 1; b = 1; a *= b; }}, {"dividing arrays of different sizes", [] { multi1d<int> a(2), b(3); a = 1; b = 1; a /= b; }}, {"filling an array without storage", [] { multi1d<int> a; a = 1; }}, {"adding to an array without storage", [] { multi1d<int> a; a += 1; }}, {"filling a 2d array without storage", [] { multi2d<int> a; a = 1; }}, {"filling a 3d array without storage", [] { multi3d<int> a; a = 1; }}, {"filling a 4d array without storage", [] { multi4d<int> a; a = 1; }}, {"filling a 5d array without storage", [] { multi5d<int> a; a = 1; }}, {"filling an n-dimensional array without storage", [] { multiNd<int> a; a = 1; }},
  {"resizing placed memory (1d)", [] { int b[8]; multi1d<int> a(b, 2); a.resize(3); }}, {"resizing placed memory (2d)", [] { int b[8]; multi2d<int> a(b, 2, 2); a.resize(3, 1); }}, {"resizing placed memory (3d)", [] { int b[8]; multi3d<int> a(b, 2, 2, 2); a.resize(3, 1, 1); }}, {"resizing placed memory (4d)", [] { int b[8]; multi4d<int> a(b, 2, 2, 2, 1); a.resize(3, 1, 1, 1); }}, {"resizing placed memory (5d)", [] { int b[8]; multi5d<int> a(b, 2, 2, 2, 1, 1); a.resize(3, 1, 1, 1, 1); }}, {"assigning another size to placed memory", [] { int b[8]; multi1d<int> a(b, 2), c(3); c = 1; a = c; }},
  {"wrong number of indices (1 of 2)", [] { multiNd<int> a(m1d({2, 2})); a = 1; a(1) = 2; }}, {"wrong number of indices (3 of 2)", [] { multiNd<int> a(m1d({2, 2})); a = 1; a(0, 0, 0) = 2; }}, {"wrong number of indices (2 of 3)", [] { multiNd<int> a(m1d({2, 2, 1})); a = 1; a(0, 0) = 2; }}, {"wrong number of packed indices", [] { multiNd<int> a(m1d({2, 2, 1})); a = 1; a[m1d({0, 0})] = 2; }}, {"flat index too large", [] { multiNd<int> a(m1d({2, 2})); a = 1; a.getElem(4) = 2; }}, {"negative flat index", [] { multiNd<int> a(m1d({2, 2})); a = 1; a.getElem(-1) = 2; }} };
  for (auto& c : cs) { cur(c.n); eval(); transition(); trace(); state(hash(c.n)); ChildResult r = child([&](int fd) { c.f(); put(fd, "went on"); _exit(0); }); check(r.exited && r.code != 0 && r.code != 99 && r.out.empty(), std::string("not refused: ") + c.n, fmt("exit %d signal %d %s", r.code, r.sig, r.out.c_str())); } }
static void packed() { for (int rank = 1; rank <= 5; ++rank) { long t = 1; for (int i = 0; i < rank; ++i) t *= 3; for (long q = 0; q < t; ++q) { D d(rank); long r = q; for (int i = 0; i < rank; ++i) { d[i] = r % 3 + 1; r /= 3; } multiNd<int> a(m1d(d)); std::string in = "packed indices, sizes " + str(d); cur(in); eval(); transition(); state(hash(in)); bool ok = a.numElem() == prod(d); each(d, [&](const D& i, long k) { a[m1d(i)] = (int)k; }); const multiNd<int>& c = a; each(d, [&](const D& i, long k) { ok = ok && a.getElem(k) == k && c[m1d(i)] == k && c.getElem(k) == k; }); check(ok, "n-dimensional array: packed and flat indices", in); } } trace();
  // views of views reach the same element
  for (int q = 0; q < 32; ++q) { D d; for (int i = 0; i < 5; ++i) d.push_back((q >> i & 1) + 1); multi5d<int> a(d[0], d[1], d[2], d[3], d[4]); bool ok = true; each(d, [&](const D& i, long k) { a(i[0], i[1], i[2], i[3], i[4]) = k; }); each(d, [&](const D& i, long k) { ok = ok && a[i[0]][i[1]][i[2]][i[3]][i[4]] == k && &a[i[0]][i[1]][i[2]][i[3]][i[4]] == &a(i[0], i[1], i[2], i[3], i[4]) && a.slice(i[0], i[1], i[2], i[3])[i[4]] == k && a[i[0]].slice(i[1], i[2], i[3])[i[4]] == k && a[i[0]][i[1]].slice(i[2], i[3])[i[4]] == k && a[i[0]][i[1]][i[2]].slice(i[3])[i[4]] == k; }); eval(); transition(); check(ok, "slices of slices", str(d)); } }
template<class X> struct Ty { typedef X T; };
int main(int argc, char** argv) {
  init(argc, argv); startup(); Pool pool(700); const int t = thorough() ? 1 : 0;
  const std::vector<D> s1{{0}, {1}, {2}, {3}}, s2{{1, 1}, {1, 2}, {2, 1}, {2, 3}, {0, 2}}, s3{{1, 2, 1}, {2, 1, 2}, {2, 2, 1}, {1, 0, 2}}, s4{{1, 2, 1, 2}, {2, 1, 1, 2}, {1, 1, 2, 0}, {2, 2, 1, 1}}, s5{{1, 2, 1, 2, 1}, {2, 1, 1, 1, 2}, {1, 1, 2, 1, 1}, {0, 1, 1, 2, 1}};
  for (int p = 0; p < 8; ++p) { pool.run("hist", [=] { hist<multi1d<Obj>>({{0}, {1}, {3}}, 3, p, 8); }); pool.run("hist", [=] { hist<multi1d<int>>({{0}, {2}}, 3 + t, p, 8); }); pool.run("hist", [=] { hist<multi1d<Obj>>({{2}, {3}}, 3 + t, p, 8); });
    pool.run("hist", [=] { hist<multi2d<Obj>>(s2, 3 + t, p, 8); }); pool.run("hist", [=] { hist<multi3d<Obj>>(s3, 3 + t, p, 8); }); pool.run("hist", [=] { hist<multi4d<Obj>>(s4, 3 + t, p, 8); }); pool.run("hist", [=] { hist<multi5d<Obj>>(s5, 3 + t, p, 8); });
    pool.run("hist", [=] { hist<ND<1, Obj>>(s1, 3 + t, p, 8); }); pool.run("hist", [=] { hist<ND<2, Obj>>(s2, 3 + t, p, 8); }); pool.run("hist", [=] { hist<ND<3, Obj>>(s3, 3 + t, p, 8); }); pool.run("hist", [=] { hist<ND<4, Obj>>(s4, 3 + t, p, 8); });
    pool.run("hist", [=] { hist<Array1dO<Obj>>(s1, 3 + t, p, 8); }); pool.run("hist", [=] { hist<Array2dO<Obj>>(s2, 3, p, 8); }); pool.run("hist", [=] { hist<Array3dO<Obj>>(s3, 3, p, 8); }); pool.run("hist", [=] { hist<Array4dO<Obj>>(s4, 3, p, 8); }); pool.run("hist", [=] { hist<Array5dO<Obj>>(s5, 3, p, 8); }); pool.run("hist", [=] { hist<multi2d<int>>({{2, 1}, {1, 2}}, 4, p, 8); }); pool.run("hist", [=] { hist<multi3d<int>>({{2, 1, 2}, {1, 2, 2}}, 4, p, 8); }); }
  // listed larger shapes, from two filled variables on
  for (int p = 0; p < 2; ++p) { auto big = [&](auto tag, std::vector<D> sh) { typedef typename decltype(tag)::T C; pool.run("large", [=] { hist<C>(sh, 1 + t, p, 2, true); }); };
    big(Ty<multi1d<int>>(), {{70000}, {33000}, {131}}); big(Ty<multi1d<Obj>>(), {{5000}, {257}}); big(Ty<multi2d<int>>(), {{300, 260}, {130, 70}}); big(Ty<multi3d<int>>(), {{41, 40, 43}, {7, 70, 9}}); big(Ty<multi4d<int>>(), {{17, 16, 18, 15}, {3, 20, 5, 9}}); big(Ty<multi5d<int>>(), {{9, 10, 11, 8, 9}, {17, 2, 3, 5, 7}});
    big(Ty<ND<1, int>>(), {{70000}, {300}}); big(Ty<ND<2, int>>(), {{260, 300}, {9, 77}}); big(Ty<ND<3, int>>(), {{41, 40, 43}, {7, 70, 9}}); big(Ty<ND<4, int>>(), {{17, 16, 18, 15}, {3, 20, 5, 9}}); big(Ty<Array1dO<int>>(), {{70000}, {300}}); big(Ty<Array2dO<int>>(), {{260, 300}, {9, 77}}); big(Ty<Array3dO<int>>(), {{41, 40, 43}, {7, 70, 9}}); big(Ty<Array4dO<int>>(), {{17, 16, 18, 15}, {3, 20, 5, 9}}); big(Ty<Array5dO<int>>(), {{9, 10, 11, 8, 9}, {17, 2, 3, 5, 7}}); }
  pool.run("compare", [] { compare(); }); pool.run("refused", [] { refused(); }); pool.run("packed", [] { packed(); });
  pool.drain(); return finish();
}
