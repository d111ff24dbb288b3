// C12: byte images, lengths, checksums and round trips of every value type through every binary stream class.
#include "bio.h"
using namespace QDP; using namespace vf;
static std::string F() { return scratch() + fmt("/c12.%d", (int)getpid()); }
// one value: image, checksum, source untouched, then read back over an object holding something else
template<class T> bool one(const std::string& type, const T& v, T over, int wk, int rk, int form, const std::string& in) {
  std::string want = image(v), key = type + " via " + writerName(wk); T keep = v; Out o(wk, F()); eval(3); transition(2);
  if (form == 1) o.w() << v; else write(o.w(), v);
  bool ok = check(!o.w().fail(), key + ": writer fails", in) && check(o.w().getChecksum() == refcrc(0, want), key + ": checksum of bytes written", in) && check(eqv(keep, v), key + ": writing changed the value", in);
  std::string got = o.bytes(); ok = ok && check(got == want, key + ": bytes", in + " got " + hex(got) + " want " + hex(want)); if (!ok) return false;
  In i(rk, F(), want, wk & 1); key = type + " via " + readerName(rk);
  if (form == 1) i.r() >> over; else read(i.r(), over);
  return check(!i.r().fail(), key + ": reader fails", in) && check(eqv(over, v), key + ": value read back", in) && check(i.r().getChecksum() == refcrc(0, want), key + ": checksum of bytes read", in) && check((long)i.r().currentPosition() == (long)want.size(), key + ": bytes consumed", in);
}
template<class T> bool noform(const std::string& type, const T& v, const T& over, int wk, int rk, const std::string& in) {      // containers have no operators
  std::string want = image(v), key = type + " via " + writerName(wk); T keep(v); T o2(over); Out o(wk, F()); eval(3); transition(2); write(o.w(), v);
  bool ok = check(!o.w().fail(), key + ": writer fails", in) && check(o.w().getChecksum() == refcrc(0, want), key + ": checksum of bytes written", in) && check(eqv(keep, v), key + ": writing changed the value", in);
  std::string got = o.bytes(); ok = ok && check(got == want, key + ": bytes", in + " got " + hex(got) + " want " + hex(want)); if (!ok) return false;
  In i(rk, F(), want, wk & 1); key = type + " via " + readerName(rk); read(i.r(), o2);
  return check(!i.r().fail(), key + ": reader fails", in) && check(eqv(o2, v), key + ": value read back", in) && check(i.r().getChecksum() == refcrc(0, want), key + ": checksum of bytes read", in) && check((long)i.r().currentPosition() == (long)want.size(), key + ": bytes consumed", in);
}
// ---- built-in types: every pattern of boundary bytes (every pattern at all, up to two bytes)
template<class T> struct Buf { multi1d<T> d; size_t n = 0; Buf() : d(4096) {} void push_back(const T& v) { d[n++] = v; } size_t size() const { return n; } void clear() { n = 0; } T& operator[](size_t i) { return d[i]; } T* data() { return &d[0]; } };
template<class T> void prim(const char* name) {
  static const unsigned char AB[] = {0x00, 0x01, 0x7f, 0x80, 0xff}; const int n = sizeof(T); std::string in = name; cur(in);
  BinaryBufferWriter w; std::string want; Buf<T> vals; u32 crc = 0;
  auto block = [&] { // one long stream, checked in blocks
    std::string got = w.str(); eval(vals.size()); if (got != want) { for (size_t i = 0; i < vals.size(); ++i) if (got.substr(i * n, n) != want.substr(i * n, n)) { violation(in + ": bytes", fmt("value %zu got %s want %s", i, hex(got.substr(i * n, n)).c_str(), hex(want.substr(i * n, n)).c_str())); break; } if (got.size() != want.size()) violation(in + ": length", ""); }
    crc = refcrc(0, want); check(w.getChecksum() == crc, in + ": checksum of bytes written"); BinaryBufferReader r(want);
    for (size_t i = 0; i < vals.size(); ++i) { T x; unsigned char* p = (unsigned char*)&x; if (std::is_same<T, bool>::value) *p = !vals[i]; else memset(p, ~*(unsigned char*)&vals[i], n); switch (i % 3) { case 0: r.read(x); break; case 1: read(r, x); break; default: r >> x; } if (memcmp(&x, &vals[i], n)) { violation(in + ": value read back", hex(want.substr(i * n, n))); break; } }
    check(!r.fail() && r.getChecksum() == crc && (long)r.currentPosition() == (long)want.size(), in + ": reader state"); 
    BinaryBufferReader l(std::string((const char*)vals.data(), vals.size() * n)); Buf<T> back; back.n = vals.size(); l.readArrayLittleEndian((char*)back.data(), n, back.size()); check(memcmp(back.data(), vals.data(), back.size() * n) == 0 && !l.fail(), in + ": little-endian read");
    BinaryBufferReader b(want); b.readArray((char*)back.data(), n, back.size()); check(memcmp(back.data(), vals.data(), back.size() * n) == 0 && b.getChecksum() == crc, in + ": array read");
    BinaryBufferWriter aw; aw.writeArray((const char*)vals.data(), n, vals.size()); check(aw.str() == want && aw.getChecksum() == crc, in + ": array write"); transition(vals.size() * 4);
    w.open(""); w.resetChecksum(); want.clear(); vals.clear(); };
  auto add = [&](const unsigned char* p) { T v; memcpy(&v, p, n); vals.push_back(v); want += be(v); switch (vals.size() % 3) { case 0: w.write(v); break; case 1: write(w, v); break; default: w << v; } state(hash(p, n, n)); if (vals.size() == 4096) block(); };
  unsigned char b[16];
  if (std::is_same<T, bool>::value) for (b[0] = 0; b[0] < 2; ++b[0]) add(b);
  else if (n <= 2) for (int x = 0; x < 1 << 8 * n; ++x) { b[0] = x & 255; b[1] = x >> 8; add(b); }
  else { long tot = 1; for (int i = 0; i < n; ++i) tot *= 5; for (long x = 0; x < tot; ++x) { long r = x; for (int i = 0; i < n; ++i) { b[i] = AB[r % 5]; r /= 5; } add(b); } }
  block(); trace();
  T v, o; memset(&v, 0, n); ((unsigned char*)&v)[0] = 1; memset(&o, 0, n); for (int wk = 0; wk < 4; ++wk) for (int rk = 0; rk < 4; ++rk) for (int f = 0; f < 2; ++f) one(name, v, o, wk, rk, f, name);
}
static int tick = 0;
template<class T> struct Mk { static T mk() { T v; unsigned char* p = (unsigned char*)&v; for (size_t i = 0; i < sizeof v; ++i) p[i] = (unsigned char)(37 * ++tick + 11); return v; } };
template<> struct Mk<bool> { static bool mk() { return ++tick & 1; } };
template<class E> struct Mk<OScalar<E>> { static OScalar<E> mk() { OScalar<E> v; memset((void*)&v.elem(), 0x5c, sizeof(E)); words(v.elem(), [](auto& w) { w = Mk<typename std::decay<decltype(w)>::type>::mk(); }); return v; } };
template<class T> struct Mk<std::complex<T>> { static std::complex<T> mk() { T a = Mk<T>::mk(); return std::complex<T>(a, Mk<T>::mk()); } };
template<class T> T mk() { return Mk<T>::mk(); }
template<class T> multi1d<T> a1(int n) { multi1d<T> v(n); for (int i = 0; i < n; ++i) v[i] = mk<T>(); return v; }
template<class T> multi2d<T> a2(int n, int m) { multi2d<T> v(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v(i, j) = mk<T>(); return v; }
template<class T> struct Mk<multi1d<T>> { static multi1d<T> mk() { return a1<T>(++tick % 3); } };
template<class A, class B> struct Mk<std::pair<A, B>> { static std::pair<A, B> mk() { A a = Mk<A>::mk(); return std::make_pair(a, Mk<B>::mk()); } };
template<class T> struct Mk<std::vector<T>> { static std::vector<T> mk() { std::vector<T> v(++tick % 3); for (auto& x : v) x = Mk<T>::mk(); return v; } };
#define ALLK(...) for (int wk = 0; wk < 4; ++wk) for (int rk = 0; rk < 4; ++rk) { __VA_ARGS__; }
template<class T> void containers(const std::string& t) {
  const int M = 4;
  for (int n = 0; n < M; ++n) for (int old = 0; old < M; ++old) { std::string in = t + fmt(" size %d over %d", n, old); cur(in); state(hash(in)); ALLK(
      noform("array of " + t, a1<T>(n), a1<T>(old), wk, rk, in);
      { std::vector<T> v(n), o(old); for (auto& x : v) x = mk<T>(); for (auto& x : o) x = mk<T>(); noform("std::vector of " + t, v, o, wk, rk, in); noform("std::list of " + t, std::list<T>(v.begin(), v.end()), std::list<T>(o.begin(), o.end()), wk, rk, in); noform("1-based array of " + t, Array1dO<T>(v), Array1dO<T>(o), wk, rk, in);
        std::map<int, T> mp, mo; for (int i = 0; i < n; ++i) mp[(7 * i + 3) % 11 - 5] = v[i]; for (int i = 0; i < old; ++i) mo[i] = o[i]; noform("std::map to " + t, mp, mo, wk, rk, in);
        std::map<short, std::vector<T>> m2; for (int i = 0; i < n; ++i) m2[5 - i] = v; noform("std::map to std::vector of " + t, m2, std::map<short, std::vector<T>>(), wk, rk, in);
        multi1d<multi1d<T>> aa(n); for (int i = 0; i < n; ++i) aa[i] = a1<T>((i + old) % 3); noform("array of arrays of " + t, aa, multi1d<multi1d<T>>(old), wk, rk, in);
        std::vector<std::pair<int, multi1d<T>>> vp(n), vo; for (int i = 0; i < n; ++i) vp[i] = std::make_pair(i - 1, a1<T>(i)); noform("std::vector of pairs with " + t, vp, vo, wk, rk, in); }
      ); trace(); }
  noform("std::pair with " + t, std::make_pair(mk<T>(), mk<double>()), std::make_pair(mk<T>(), mk<double>()), 0, 0, t);
  // counted forms: no length is stored
  for (int n = 0; n < M; ++n) for (int num = 0; num <= n; ++num) { std::string in = t + fmt(" %d of %d", num, n); cur(in); ALLK({ multi1d<T> v = a1<T>(n), o = a1<T>(n), o2(o); std::string want; for (int i = 0; i < num; ++i) ser(want, v[i]); Out w(wk, F()); write(w.w(), v, num); eval(2); transition(2); check(w.bytes() == want, "counted array of " + t + ": bytes", in); In r(rk, F(), want, wk & 1); read(r.r(), o, num); bool ok = !r.r().fail(); for (int i = 0; i < n; ++i) ok = ok && eqv(o[i], i < num ? v[i] : o2[i]); check(ok, "counted array of " + t + ": value read back", in); }) }
  for (int n2 = 0; n2 < M; ++n2) for (int n1 = 0; n1 < M; ++n1) { std::string in = t + fmt(" %dx%d", n2, n1); cur(in); state(hash(in)); multi2d<T> v = a2<T>(n2, n1); ALLK(noform("2d array of " + t, v, a2<T>(2, 3), wk, rk, in)); trace();
    for (int p2 = 0; p2 <= n2; ++p2) for (int p1 = 0; p1 <= n1; ++p1) { multi2d<T> o = a2<T>(n2, n1), o2(o); std::string s; for (int i = 0; i < p1; ++i) for (int j = 0; j < p2; ++j) ser(s, v(j, i)); In r(0, "", s); read(r.r(), o, p2, p1); eval(); bool ok = !r.r().fail(); for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) ok = ok && eqv(o(j, i), j < p2 && i < p1 ? v(j, i) : o2(j, i)); check(ok, "counted 2d array of " + t, in); } }
  for (int n3 = 0; n3 < 3; ++n3) for (int n2 = 0; n2 < 3; ++n2) for (int n1 = 0; n1 < 4; ++n1) { std::string in = t + fmt(" %dx%dx%d", n3, n2, n1); cur(in); state(hash(in)); multi3d<T> v(n3, n2, n1), o(1, 2, 1); for (int k = 0; k < n3; ++k) for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) v(k, j, i) = mk<T>(); for (int i = 0; i < 2; ++i) o(0, i, 0) = mk<T>(); ALLK(noform("3d array of " + t, v, o, wk, rk, in)); trace();
    for (int n4 = 0; n4 < 3; ++n4) { multi4d<T> v4(n4, n3, n2, n1), o4(1, 1, 1, 1); o4(0, 0, 0, 0) = mk<T>(); for (int l = 0; l < n4; ++l) for (int k = 0; k < n3; ++k) for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) v4(l, k, j, i) = mk<T>(); noform("4d array of " + t, v4, o4, n4 % 4, (n3 + n2) % 4, in + fmt(" by %d", n4));
      for (int n5 = 0; n5 < 3; ++n5) { multi5d<T> v5(n5, n4, n3, n2, n1), o5(1, 1, 1, 1, 1); o5(0, 0, 0, 0, 0) = mk<T>(); for (int m = 0; m < n5; ++m) for (int l = 0; l < n4; ++l) for (int k = 0; k < n3; ++k) for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) v5(m, l, k, j, i) = mk<T>(); noform("5d array of " + t, v5, o5, (n4 + n5) % 4, (n3 + n2) % 4, in + fmt(" by %d %d", n4, n5)); } } }
  for (int rank = 1; rank < 5; ++rank) for (int q = 0; q < 1 << 2 * rank; ++q) { multi1d<int> sz(rank); for (int i = 0; i < rank; ++i) sz[i] = q >> 2 * i & 3; if (rank == 4 && (sz[0] == 3 || sz[1] == 3)) continue; std::string in = t + fmt(" rank %d code %d", rank, q); cur(in); state(hash(in)); multiNd<T> v(sz); for (int i = 0; i < v.numElem(); ++i) v.getElem(i) = mk<T>(); multi1d<int> one(1); one[0] = 1; multiNd<T> o(one); o.getElem(0) = mk<T>(); noform("n-dimensional array of " + t, v, o, q % 4, q / 4 % 4, in); trace(); }
}
static void strings() {
  std::vector<std::string> all; const char al[] = {'a', ' ', 'Z', '\t', '\n', '\0', '\xff'}; all.push_back(""); for (char a : al) { all.push_back(std::string(1, a)); for (char b : al) { all.push_back(std::string(1, a) + b); for (char c : al) all.push_back(std::string(1, a) + b + c); } } for (int n : {10, 127, 128, 255, 256, 257, 1000}) all.push_back(std::string(n, 'q'));
  for (auto& s : all) for (int wk = 0; wk < 4; ++wk) for (int rk = 0; rk < 4; ++rk) { std::string in = "string " + hex(s); cur(in); state(hash(s)); eval(2); transition(2);
    { std::string want = be((int)s.size()) + s, got = "old"; Out o(wk, F()); writeDesc(o.w(), s); write(o.w(), 7); check(o.w().getChecksum() == refcrc(0, want + be(7)), "described string: checksum written", in); check(o.bytes() == want + be(7), "described string: bytes", in); In i(rk, F(), want + be(7), wk & 1); readDesc(i.r(), got); int k = 0; read(i.r(), k); check(got == s && k == 7 && !i.r().fail() && i.r().getChecksum() == refcrc(0, want + be(7)), "described string: read back", in); }
    if (s.find('\0') != s.npos || s.find('\n') != s.npos) continue;
    for (int form = 0; form < 3; ++form) { std::string want = s + "\n", got = "old"; Out o(wk, F()); if (form == 0) write(o.w(), s); else if (form == 1) o.w() << s; else write(o.w(), s.c_str()); write(o.w(), 7); check(o.w().getChecksum() == refcrc(0, want + be(7)), "line: checksum written", in); check(o.bytes() == want + be(7), "line: bytes", in);
      for (int room = 1; room < 4; room += 2) { In i(rk, F(), want + be(7), wk & 1); read(i.r(), got, s.size() + room); int k = 0; read(i.r(), k); check(got == s && k == 7 && !i.r().fail() && i.r().getChecksum() == refcrc(0, want + be(7)), "line: read back", in + fmt(" room %d", room)); } } }
  trace();
}
template<class O> void tensor(const char* name) { std::string in = name; cur(in); for (int q = 0; q < 8; ++q) ALLK(noform(std::string("type=") + name, mk<O>(), mk<O>(), wk, rk, in)); state(hash(in)); trace();
  for (int n = 0; n < 3; ++n) ALLK(noform(std::string("array of type=") + name, a1<O>(n), a1<O>(2), wk, rk, in)); noform(std::string("2d array of type=") + name, a2<O>(2, 3), a2<O>(1, 1), 0, 0, in); }
// a site type whose storage is padded: what follows each image is judged apart from the image itself
template<class O> void padded(const char* name) { std::string in = name, t = std::string("type=") + name; cur(in); const size_t pad = sizeof(((O*)0)->elem()) - image(mk<O>()).size();
  for (int n = 0; n < 3; ++n) ALLK({ multi1d<O> v = a1<O>(n), o = a1<O>(1); std::string want = image(v), tight; Out w(wk, F()); write(w.w(), v); eval(2); transition(2); bool ok = check(!w.w().fail(), t + ": writer fails", in); u32 c = w.w().getChecksum(); std::string got = w.bytes(); check(c == refcrc(0, got), t + ": checksum of bytes written", in);
    if (got != want) { if (got.size() == want.size() + n * pad) { tight = got.substr(0, 4); size_t sz = (want.size() - 4) / n; for (int i = 0; i < n; ++i) tight += got.substr(4 + i * (sz + pad), sz); } ok = ok && check(tight == want, t + ": bytes", in + " got " + hex(got) + " want " + hex(want)); violation(t + ": padding words are written after each value", in + fmt(" %zu bytes for %zu", got.size(), want.size())); }
    In i(rk, F(), got, wk & 1); read(i.r(), o); check(!i.r().fail() && eqv(o, v) && i.r().getChecksum() == refcrc(0, got), t + ": value read back", in); }) state(hash(in)); trace(); }
static void tensors() {
  padded<StaggeredFermionF>("StaggeredFermionF");
#define T1(x) tensor<x>(#x);
  T1(RealF) T1(RealD) T1(ComplexF) T1(ComplexD) T1(Integer) T1(Boolean) T1(Seed) T1(ColorMatrixF) T1(ColorMatrixD) T1(ColorVectorF) T1(ColorVectorD) T1(SpinVectorF) T1(SpinVectorD) T1(SpinMatrixF) T1(SpinMatrixD) T1(DiracFermionF) T1(DiracFermionD) T1(DiracPropagatorF) T1(DiracPropagatorD) T1(HalfFermion) T1(StaggeredFermionD) T1(StaggeredPropagatorF) T1(StaggeredPropagatorD)
}
// ---- values around the sizes at which an implementation may change its method
static const int LARGE[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10007, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073};
template<class T> void large(const std::string& t) { int c = 0;
  for (int n : LARGE) { if (n * image(mk<T>()).size() > 1100000) continue; std::string in = t + fmt(" size %d", n); cur(in); state(hash(in)); trace(); multi1d<T> v = a1<T>(n); const multi1d<T> o = a1<T>(3); for (int k = 0; k < 4; ++k) { int wk = k, rk = (k + c) % 4; noform("long array of " + t, v, o, wk, rk, in);
      { multi1d<T> x = a1<T>(n); std::string want; ser(want, v); want = want.substr(4); Out w(wk, F()); write(w.w(), v, n); eval(2); transition(2); check(w.w().getChecksum() == refcrc(0, want) && w.bytes() == want, "long counted array of " + t + ": bytes", in); In r(rk, F(), want, wk & 1); read(r.r(), x, n); check(!r.r().fail() && eqv(x, v) && r.r().getChecksum() == refcrc(0, want), "long counted array of " + t + ": value read back", in); } }
    ++c; std::vector<T> sv(n); for (int i = 0; i < n; ++i) sv[i] = v[i]; noform("long std::vector of " + t, sv, std::vector<T>(), c % 4, c / 4 % 4, in); if (n < 5000) { noform("long std::list of " + t, std::list<T>(sv.begin(), sv.end()), std::list<T>(), c % 4, c / 4 % 4, in); std::map<int, T> m; for (int i = 0; i < n; ++i) m[i * 7919 % 100003 - 50000] = v[i]; noform("long std::map to " + t, m, std::map<int, T>(), c % 4, c / 4 % 4, in);
      multi2d<T> m2 = a2<T>(3, n), m3 = a2<T>(n, 2); noform("long 2d array of " + t, m2, a2<T>(1, 1), c % 4, c / 4 % 4, in); noform("long 2d array of " + t, m3, a2<T>(1, 1), c % 4, c / 4 % 4, in); } } }
template<class T> void largeArray(const std::string& t) { for (int n : LARGE) { std::string in = t + fmt(" raw size %d", n), want; cur(in); state(hash(in)); trace(); std::vector<T> v(n), x(n); std::string& o = want; for (int i = 0; i < n; ++i) { v[i] = mk<T>(); o += be(v[i]); } std::vector<T> keep(v); for (int k = 0; k < 4; ++k) { eval(4); transition(4); Out w(k, F()); w.w().writeArray((const char*)v.data(), sizeof(T), n); bool ok = check(w.w().getChecksum() == refcrc(0, want) && v == keep && w.bytes() == want, "long raw array of " + t + ": bytes", in); if (!ok) return; { In r(k, F(), want, k & 1); r.r().readArray((char*)x.data(), sizeof(T), n); check(!r.r().fail() && x == v && r.r().getChecksum() == refcrc(0, want), "long raw array of " + t + ": read back", in); }
    std::string le((const char*)v.data(), n * sizeof(T)); In r(k, F() + "l", le); std::fill(x.begin(), x.end(), T()); r.r().readArrayLittleEndian((char*)x.data(), sizeof(T), n); check(!r.r().fail() && x == v, "long raw array of " + t + ": little-endian read", in); } } unlink((F() + "l").c_str()); }
static void largeStrings() { for (int n : LARGE) for (int k = 0; k < 4; ++k) { std::string s(n, 0), in = fmt("string of %d characters", n), got; for (int i = 0; i < n; ++i) s[i] = (char)(32 + (i * 7 + i / 95) % 95); cur(in); state(hash(in)); trace(); eval(4); transition(4);
    { std::string want = be(n) + s + be(7); Out o(k, F()); writeDesc(o.w(), s); write(o.w(), 7); check(o.w().getChecksum() == refcrc(0, want) && o.bytes() == want, "long described string: bytes", in); In i((k + n) % 4, F(), want, k & 1); readDesc(i.r(), got); int q = 0; read(i.r(), q); check(got == s && q == 7 && !i.r().fail() && i.r().getChecksum() == refcrc(0, want), "long described string: read back", in); }
    { std::string want = s + "\n" + be(7); Out o(k, F()); if (n & 1) o.w() << s; else write(o.w(), s); write(o.w(), 7); check(o.w().getChecksum() == refcrc(0, want) && o.bytes() == want, "long line: bytes", in); for (int room : {1, 2, 5000}) { In i((k + n) % 4, F(), want, k & 1); read(i.r(), got, s.size() + room); int q = 0; read(i.r(), q); check(got == s && q == 7 && !i.r().fail() && i.r().getChecksum() == refcrc(0, want), "long line: read back", in + fmt(" room %d", room)); } } } }
// ---- sequences of writes in one stream, read back in order
struct Item { std::string name, bytes; std::function<void(BinaryWriter&)> put; std::function<bool(BinaryReader&)> get; };
template<class T> Item item(const std::string& n, const T& v, const T& over) { Item i; i.name = n; i.bytes = image(v); i.put = [v](BinaryWriter& w) { write(w, v); }; i.get = [v, over](BinaryReader& r) { T o(over); read(r, o); return eqv(o, v); }; return i; }
static std::vector<Item> items() { std::vector<Item> r;
  r.push_back(item<char>("char", 'x', 0)); r.push_back(item<int>("int", -2, 0)); r.push_back(item<unsigned int>("unsigned", 0x80000001u, 0)); r.push_back(item<short>("short", 0x0102, 0)); r.push_back(item<unsigned short>("ushort", 0xff00, 0)); r.push_back(item<long>("long", 0x0102030405060708l, 0)); r.push_back(item<unsigned long>("ulong", 0xf102030405060708ul, 0)); r.push_back(item<long long>("llong", -3, 0)); r.push_back(item<float>("float", 1.5f, 0)); r.push_back(item<double>("double", -2.25, 0)); r.push_back(item<bool>("bool", true, false));
  r.push_back(item("complex", std::complex<float>(1, 2), std::complex<float>())); r.push_back(item("Real", mk<RealF>(), mk<RealF>())); r.push_back(item("ColorMatrix", mk<ColorMatrixD>(), mk<ColorMatrixD>())); r.push_back(item("array", a1<short>(2), a1<short>(1))); r.push_back(item("empty array", a1<double>(0), a1<double>(1))); r.push_back(item("2d array", a2<float>(1, 2), a2<float>(1, 1))); r.push_back(item("map", std::map<int, double>{{1, 2.}, {-1, 3.}}, std::map<int, double>()));
  { Item i; i.name = "line"; i.bytes = "ab c\n"; i.put = [](BinaryWriter& w) { write(w, std::string("ab c")); }; i.get = [](BinaryReader& b) { std::string s = "z"; read(b, s, 20); return s == "ab c"; }; r.push_back(i); }
  { Item i; i.name = "empty line"; i.bytes = "\n"; i.put = [](BinaryWriter& w) { w << ""; }; i.get = [](BinaryReader& b) { std::string s = "z"; read(b, s, 20); return s.empty(); }; r.push_back(i); }
  { Item i; i.name = "described"; i.bytes = be(3) + std::string("a\0\n", 3); i.put = [](BinaryWriter& w) { writeDesc(w, std::string("a\0\n", 3)); }; i.get = [](BinaryReader& b) { std::string s = "z"; readDesc(b, s); return s == std::string("a\0\n", 3); }; r.push_back(i); }
  { Item i; i.name = "bytes"; i.bytes = "\1\2\3\4\5\6"; i.put = [](BinaryWriter& w) { w.writeArray("\2\1\4\3\6\5", 2, 3); }; i.get = [](BinaryReader& b) { char c[7] = "zzzzzz"; b.readArray(c, 2, 3); return std::string(c) == "\2\1\4\3\6\5"; }; r.push_back(i); }
  return r; }
static void seqs(int first, int depth) {
  auto it = items(); int n = it.size(); long tot = 1; for (int i = 1; i < depth; ++i) tot *= n;
  for (long q = 0; q < tot; ++q) { std::vector<int> s{first}; long r = q; for (int i = 1; i < depth; ++i) { s.push_back(r % n); r /= n; } std::string in, want; for (int i : s) { in += " " + it[i].name; want += it[i].bytes; } cur(in);
    int wk = (q % 16 == 0) ? (q / 16 % 2 ? 1 : 3) : (q % 2 ? 0 : 2), rk = (q % 16 == 0) ? (q / 32 % 2 ? 1 : 3) : (q / 2 % 2 ? 0 : 2);
    Out o(wk, F()); u32 c = 0; std::string at; bool ok = true; for (int i : s) { it[i].put(o.w()); at += it[i].bytes; c = refcrc(c, it[i].bytes); eval(); transition(); ok = ok && check(!o.w().fail() && o.w().getChecksum() == c, std::string("sequence, ") + writerName(wk) + ": running checksum", in); if (wk != 2) ok = ok && check((long)o.w().currentPosition() == (long)at.size(), std::string("sequence, ") + writerName(wk) + ": position", in); }
    ok = ok && check(o.bytes() == want, std::string("sequence, ") + writerName(wk) + ": bytes", in); if (!ok) continue;
    In i(rk, F(), want, wk & 1); c = 0; size_t p = 0; for (int k : s) { ok = ok && check(it[k].get(i.r()) && !i.r().fail(), std::string("sequence, ") + readerName(rk) + ": value", in); c = refcrc(c, it[k].bytes); p += it[k].bytes.size(); eval(); transition(); ok = ok && check(i.r().getChecksum() == c && (long)i.r().currentPosition() == (long)p, std::string("sequence, ") + readerName(rk) + ": checksum and position", in); }
    state(hash(in)); trace(); }
  sample(fmt("all sequences of %d items starting with '%s'", depth, it[first].name.c_str()));
}
int main(int argc, char** argv) {
  init(argc, argv); startup(); Pool pool(700); IV s(Nd, 2); lattice(s);
#define P1(t) pool.run("prim", [] { prim<t>(#t); });
  P1(char) P1(int) P1(unsigned int) P1(short) P1(unsigned short) P1(long) P1(unsigned long) P1(long long) P1(float) P1(double) P1(bool)
  pool.run("containers", [] { containers<short>("short"); }); pool.run("containers", [] { containers<double>("double"); }); pool.run("containers", [] { containers<char>("char"); }); pool.run("containers", [] { containers<ComplexF>("ComplexF"); }); pool.run("containers", [] { containers<std::complex<double>>("std::complex<double>"); }); pool.run("containers", [] { containers<int>("int"); });
  pool.run("large", [] { large<short>("short"); }); pool.run("large", [] { large<double>("double"); }); pool.run("large", [] { large<char>("char"); }); pool.run("large", [] { large<ColorMatrixF>("ColorMatrixF"); }); pool.run("large", [] { large<DiracFermionD>("DiracFermionD"); }); pool.run("large", [] { large<std::complex<float>>("std::complex<float>"); }); pool.run("large", [] { large<Integer>("Integer"); }); pool.run("large", [] { largeStrings(); });
  pool.run("large", [] { largeArray<char>("char"); largeArray<short>("short"); }); pool.run("large", [] { largeArray<int>("int"); largeArray<double>("double"); });
  pool.run("strings", strings); pool.run("tensors", tensors);
  int n = items().size(); for (int i = 0; i < n; ++i) pool.run("seq", [=] { seqs(i, thorough() ? 5 : 4); });
  pool.drain(); unlink(F().c_str()); return finish();
}
