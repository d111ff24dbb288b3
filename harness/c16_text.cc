// C16: text written and read back, by value, by program of items, by history of the stream object; and the standard-stream replacements against plain streams.
#include "bio.h"
#include <iomanip>
using namespace QDP; using namespace vf;
static std::string F() { return scratch() + fmt("/c16.%d", (int)getpid()); }
// ---- reference: the text of a value, and the value of a text
template<class T> std::string txt(const T& v) { if (std::is_floating_point<T>::value) return fmt("%g", (double)v); return std::is_signed<T>::value ? fmt("%lld", (long long)v) : fmt("%llu", (unsigned long long)v); }
template<> std::string txt<bool>(const bool& v) { return v ? "1" : "0"; }
template<> std::string txt<char>(const char& v) { return std::string(1, v); }
template<> std::string txt<std::string>(const std::string& v) { return v; }
struct TOut { int k; std::unique_ptr<TextBufferWriter> b; std::unique_ptr<TextFileWriter> f; TOut(int kind) : k(kind) { if (k) f.reset(new TextFileWriter(F())); else b.reset(new TextBufferWriter); } TextWriter& w() { if (k) return *f; return *b; } std::string str() { if (!k) return b->str(); f->close(); return slurp(F()); } };
struct TIn { int k; std::unique_ptr<TextBufferReader> b; std::unique_ptr<TextFileReader> f; TIn(int kind, const std::string& s) : k(kind) { if (k) { spew(F(), s); f.reset(new TextFileReader(F())); } else b.reset(new TextBufferReader(s)); } TextReader& r() { if (k) return *f; return *b; } };
static const char* KN[] = {"buffer", "file"};
// ---- one type, many values, in one stream
template<class T> void values(const char* name, const std::vector<T>& vs, const T& over, bool exact = true) {
  cur(name); for (int wk = 0; wk < 2; ++wk) for (int form = 0; form < 2; ++form) { TOut o(wk); std::string want; for (const T& v : vs) { if (form) o.w().write(v); else o.w() << v; o.w() << "\n"; want += txt<T>(v) + "\n"; }
    bool f = o.w().fail(); std::string got = o.str(); eval(vs.size()); std::string key = std::string(name) + " via text " + KN[wk] + " writer"; check(!f, key + ": writer fails"); if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; violation(key + ": text", "near " + esc(want.substr(i > 20 ? i - 20 : 0, 40)) + " got " + esc(got.substr(i > 20 ? i - 20 : 0, 40))); continue; }
    for (int rk = 0; rk < 2; ++rk) { TIn in(rk, got); std::string k2 = std::string(name) + " via text " + KN[rk] + " reader"; size_t p = 0; for (const T& v : vs) { T x = over; if (form) in.r().read(x); else in.r() >> x; transition(); size_t e = want.find('\n', p); std::string t = want.substr(p, e - p); p = e + 1; T y = v; if constexpr (std::is_same<T, float>::value) y = strtof(t.c_str(), 0); else if constexpr (std::is_same<T, double>::value) y = strtod(t.c_str(), 0); if (in.r().fail() || !(x == y)) { violation(k2 + ": value read back", t + " reads as " + txt<T>(x)); break; } } eval(vs.size()); trace(); } }
  for (const T& v : vs) state(hash(txt<T>(v), name[0] * 31 + name[strlen(name) - 1]));
}
template<class T> std::vector<T> ints() { std::vector<T> v; typedef std::numeric_limits<T> L; if (sizeof(T) == 2) { for (long i = L::min(); i <= L::max(); ++i) v.push_back((T)i); return v; } unsigned long long m = 1; std::set<T> s; for (int d = 0; d < 20; ++d, m *= 10) for (long long k : {1, 2, 5, 9}) for (long long o : {-1, 0, 1}) { s.insert((T)(m * k + o)); s.insert((T)(0 - (m * k + o))); } for (int b = 0; b < (int)sizeof(T) * 8; ++b) for (long long o : {-1, 0, 1}) { s.insert((T)((1ull << b) + o)); s.insert((T)(0 - ((1ull << b) + o))); } s.insert(L::min()); s.insert(L::max()); v.assign(s.begin(), s.end()); return v; }
// six significant digits: mantissas at every digit boundary, every exponent
template<class T> std::vector<T> floats(int lo, int hi) { std::vector<T> v{0}; std::vector<long> ms; for (int d = 1; d <= 6; ++d) { long p = 1; for (int i = 1; i < d; ++i) p *= 10; for (long k = 1; k < 10; ++k) { ms.push_back(k * p); if (d > 1) { ms.push_back(k * p + 1); ms.push_back(k * p + p - 1); ms.push_back(k * p + p / 2); ms.push_back(k * p + p / 10 * 3 + 7 % p); } } } std::sort(ms.begin(), ms.end()); ms.erase(std::unique(ms.begin(), ms.end()), ms.end());
  for (int e = lo; e <= hi; ++e) for (long m : ms) for (int s = 0; s < 2; ++s) { std::string t = fmt("%s%lde%d", s ? "-" : "", m, e); double d = std::is_same<T, float>::value ? strtof(t.c_str(), 0) : strtod(t.c_str(), 0); if (d == d && d - d == 0 && fabs(d) >= (std::is_same<T, float>::value ? 1.18e-38 : 2.3e-308)) v.push_back((T)d); } return v; }
// ---- programs of items of every kind
struct Item { std::string name; std::function<void(TextWriter&)> put; std::function<bool(TextReader&)> get; std::function<void(TextReader&)> poison; int words; };
static std::vector<Item> items; static int tk = 0;
template<class T> void item(const std::string& n, const T& v, const T& over) { std::shared_ptr<T> p(new T(v)), o(new T(over)); items.push_back({n, [p](TextWriter& w) { w << *p; }, [p, o](TextReader& r) { T x(*o); r >> x; return !r.fail() && eqv(x, *p); }, nullptr, 1}); }
template<class O> void tensor(const char* n) { O v, o; memset((void*)&v.elem(), 0, sizeof v.elem()); memset((void*)&o.elem(), 0, sizeof o.elem()); int nw = 0; words(v.elem(), [&](auto& w) { typedef typename std::decay<decltype(w)>::type W; ++tk; w = std::is_same<W, bool>::value ? tk & 1 : (W)((tk * 37 % 1999 - 999) / (std::is_integral<W>::value ? 1 : 8.0)); ++nw; }); words(o.elem(), [&](auto& w) { w = 1; }); std::shared_ptr<O> p(new O(v)), q(new O(o)); items.push_back({n, [p](TextWriter& w) { w << *p; }, [p, q](TextReader& r) { O x(*q); r >> x; return !r.fail() && bitsEqual(x.elem(), p->elem()); }, nullptr, nw}); }
static void makeItems() {
  item<int>("int", -1234567, 0); item<unsigned>("unsigned", 4000000000u, 0); item<short>("short", -32768, 0); item<unsigned short>("unsigned short", 65535, 0); item<long>("long", -9007199254740993L, 0); item<unsigned long>("unsigned long", 18446744073709551615ul, 0); item<long long>("long long", 9223372036854775807ll, 0);
  item<float>("float", -1.5e-20f, 0); item<double>("double", 1.25e300, 0); item<bool>("bool", true, false); item<bool>("false", false, true); item<char>("char", '7', 'x'); item<char>("dash", '-', 'x'); items.push_back({"string", [](TextWriter& w) { w << std::string("word+.3"); }, [](TextReader& r) { std::string s = "old"; r >> s; return !r.fail() && s == "word+.3"; }, nullptr, 1}); items.push_back({"C string", [](TextWriter& w) { w << "x"; }, [](TextReader& r) { std::string s = "old"; r >> s; return !r.fail() && s == "x"; }, nullptr, 1});
  tensor<Real>("real"); tensor<Complex>("complex"); tensor<Integer>("integer"); tensor<Boolean>("boolean"); tensor<Seed>("seed"); tensor<ColorVector>("colour vector"); tensor<ColorMatrix>("colour matrix"); tensor<SpinVector>("spin vector"); tensor<HalfFermion>("half fermion"); tensor<Fermion>("Dirac fermion"); tensor<SpinMatrix>("spin matrix"); tensor<Propagator>("propagator"); tensor<DComplex>("double complex"); tensor<RealF>("single real"); tensor<RealD>("double real"); tensor<StaggeredFermion>("staggered fermion"); tensor<StaggeredPropagator>("staggered propagator");
}
static void prog(const std::vector<int>& p, const std::string& sep, int wk, int rk, bool last) {
  std::string in; for (int i : p) in += (in.empty() ? "" : ", ") + items[i].name; in += fmt(" separated by %s, written to %s, read from %s, last separator %d", esc(sep).c_str(), KN[wk], KN[rk], last); cur(in); eval(p.size() + 1); transition(2 * p.size()); trace();
  TOut o(wk); for (size_t i = 0; i < p.size(); ++i) { items[p[i]].put(o.w()); if (i + 1 < p.size() || last) o.w() << sep; } bool f = o.w().fail(); std::string s = o.str(); state(hash(s)); if (!check(!f, "program of items: writer fails", in)) return;
  TIn r(rk, s); for (int i : p) if (!check(items[i].get(r.r()), items[i].name + ": does not read back from text", in)) return;
  int x = 5; r.r() >> x; check(r.r().fail(), "program of items: something is left over", in);
}
// ---- the same objects reused: open, read part or all, open again
static void histories() {
  const int D = thorough() ? 6 : 5; // ops: 0 open A, 1 open B, 2 read int, 3 read string, 4 read rest
  const std::string A = "12 34", B = "x7\n8 9\n";
  for (int k = 0; k < 2; ++k) { long tot = 1; for (int i = 0; i < D; ++i) tot *= 4; for (long q = 0; q < tot; ++q) { std::string in = std::string("text ") + KN[k] + " reader:"; std::vector<int> h; long r = q; for (int i = 0; i < D; ++i) { h.push_back(r % 4); r /= 4; } static const char* ON[] = {" openA", " openB", " int", " string"}; for (int o : h) in += ON[o]; cur(in); trace();
      TextBufferReader b; TextFileReader f; TextReader& t = k ? (TextReader&)f : (TextReader&)b; std::istringstream m; bool opened = false;
      for (int i = 0; i < D; ++i) { transition(); eval(); if (h[i] < 2) { const std::string& s = h[i] ? B : A; m.clear(); m.str(s); opened = true; if (k) { f.close(); spew(F(), s); f.open(F()); } else b.open(s); if (!check(!t.fail(), std::string("text ") + KN[k] + " reader: not good after open", in + fmt(" step %d", i))) break; if (!k && !check(b.str() == s, "text buffer reader: contents", in)) break; continue; }
        if (!opened) continue; if (h[i] == 2) { int x = 0, y = 0; t >> x; m >> y; if (!check(t.fail() == m.fail() && (m.fail() || x == y), std::string("text ") + KN[k] + " reader: history", in + fmt(" step %d", i))) break; } else { std::string x, y; t >> x; m >> y; if (!check(t.fail() == m.fail() && (m.fail() || x == y), std::string("text ") + KN[k] + " reader: history", in + fmt(" step %d", i))) break; }
        state(hash(fmt("%d %d %d", k, (int)m.tellg(), (int)m.fail()), hash(m.str()))); } } }
  // writers: 0 open anew, 1 write 5, 2 write abc, 3 flush or look, 4 close and open again
  for (int k = 0; k < 2; ++k) { long tot = 1; for (int i = 0; i < D; ++i) tot *= 4; for (long q = 0; q < tot; ++q) { std::string in = std::string("text ") + KN[k] + " writer:"; std::vector<int> h; long r = q; for (int i = 0; i < D; ++i) { h.push_back(r % 4); r /= 4; } static const char* ON[] = {" open", " 57", " abc", " flush"}; for (int o : h) in += ON[o]; cur(in); trace();
      TextBufferWriter b; TextFileWriter f; TextWriter& t = k ? (TextWriter&)f : (TextWriter&)b; if (k) f.open(F()); std::string m; bool ok = true;
      for (int i = 0; i < D && ok; ++i) { transition(); eval(); switch (h[i]) { case 0: if (k) { f.close(); ok = check(slurp(F()) == m, "text file writer: file after close", in); f.open(F()); } else b.open(""); m = ""; break; case 1: t << 57; m += "57"; break; case 2: t << std::string("abc") << '\n'; m += "abc\n"; break; case 3: if (k) { f.flush(); ok = check(slurp(F()) == m, "text file writer: file after flush", in); } else ok = check(b.str() == m, "text buffer writer: contents", in); break; } ok = ok && check(!t.fail(), std::string("text ") + KN[k] + " writer: fails", in); state(hash(m, k)); }
      if (ok) { if (k) f.close(); check((k ? slurp(F()) : b.str()) == m, std::string("text ") + KN[k] + " writer: final contents", in); } } }
}
// ---- standard streams against plain ones: every program of outputs under every setting of the underlying stream
static void stdOut(int first, int depth) {
  static const int N = 18; long tot = 1; for (int i = 1; i < depth; ++i) tot *= N; const double D = 0.1234567890123456789; const float G = 3.14159274f;
  Complex z = cmplx(Real(1.5), Real(-2.25)); ColorVector cv; { int n = 0; words(cv.elem(), [&](auto& w) { w = ++n / 4.0; }); } Integer I = -7; Seed sd; { int n = 0; words(sd.elem(), [&](auto& w) { w = 1000 + ++n; }); } SpinVector sv; { int n = 0; words(sv.elem(), [&](auto& w) { w = ++n / 8.0; }); }
  for (long q = 0; q < tot; ++q) for (int set = 0; set < 6; ++set) { std::string in = fmt("output program %d,%ld under setting %d", first, q, set); cur(in); trace(); std::ostringstream a, b; StandardOutputStream s; s.init(&a);
    for (std::ostringstream* o : {&a, &b}) switch (set) { case 1: *o << std::hex << std::showbase; break; case 2: *o << std::boolalpha << std::scientific; break; case 3: *o << std::setfill('*') << std::left; break; case 4: o->precision(3); break; case 5: *o << std::fixed << std::showpos; break; }
    auto F = [&](double v, int p) { auto o = b.precision(p); b << v; b.precision(o); }; auto FF = [&](float v) { auto o = b.precision(7); b << v; b.precision(o); }; auto R = [&](auto v) { typedef decltype(v) T; sizeof(T) == 4 ? FF(v) : F(v, 15); };
    long r = q; for (int i = 0; i < depth; ++i) { int op = i ? r % N : first; if (i) r /= N; transition(); if (set == 3) { a << std::setw(9); b << std::setw(9); }
      switch (op) { case 0: s << 42; b << 42; break; case 1: s << 42u; b << 42u; break; case 2: s << (short)-3; b << (short)-3; break; case 3: s << (unsigned short)65535; b << (unsigned short)65535; break; case 4: s << -9007199254740993L; b << -9007199254740993L; break; case 5: s << 18446744073709551615ul; b << 18446744073709551615ul; break; case 6: s << 5ll; b << 5ll; break; case 7: s << G; FF(G); break; case 8: s << D; F(D, 15); break; case 9: s << (long double)D; b << (long double)D; break; case 10: s << true << false; b << true << false; break; case 11: s << 'c'; b << 'c'; break; case 12: s << "text " << std::string("str"); b << "text " << std::string("str"); break; case 13: s << std::endl << std::flush; b << std::endl << std::flush; break; case 14: s << z; b << "( "; R(z.elem().elem().elem().real()); b << " , "; R(z.elem().elem().elem().imag()); b << " )"; break; case 15: s << I; b << -7; break; case 16: s << cv; for (int c = 0; c < Nc; ++c) { b << "( "; R(cv.elem().elem().elem(c).real()); b << " , "; R(cv.elem().elem().elem(c).imag()); b << " )"; } break; case 17: s << sd; b << 1001 << " " << 1002 << " " << 1003 << " " << 1004 << "\n"; break; } }
    eval(); state(hash(b.str(), set)); if (!check(a.str() == b.str() && a.precision() == b.precision() && a.flags() == b.flags() && s.fail() == b.fail(), "standard output", in + " got " + esc(a.str()) + " want " + esc(b.str()))) return; s.flush(); }
}
static void stdIn() {
  const std::string al = "ihulLqfdDbcsOCR"; const std::vector<std::string> texts{"1 0 1 1 0 1", "12 -7 3.5 x 4", "65536 1e3 2 3 4 5 6", " 8\n\t9\n", "", "1 abc", "nan 1"};
  for (auto& t : texts) for (char x : al) for (char y : al) for (char z : al) { std::string p{x, y, z}, in = "standard input " + esc(t) + " as " + p; cur(in); trace(); std::istringstream a(t), b(t); StandardInputStream s; s.init(&a);
    for (char c : p) { transition(); eval(); std::string u = "-", v = "-"; 
#define RD(C, T) case C: { typedef T TT; TT m = TT(), n = TT(); s >> m; b >> n; u = again2(m); v = again2(n); break; }
      auto again2 = [](auto w) { std::ostringstream o; o << std::setprecision(20) << w; return o.str(); };
      switch (c) { RD('i', int) RD('h', short) RD('u', unsigned) RD('l', long) RD('L', unsigned long) RD('q', long long) RD('f', float) RD('d', double) RD('D', long double) RD('b', bool) RD('c', char) RD('s', std::string) case 'O': { Integer m; m = zero; int n = 0; s >> m; b >> n; u = again2(toInt(m)); v = again2(n); break; } case 'C': { unsigned short m = 0, n = 0; s >> m; b >> n; u = again2(m); v = again2(n); break; } case 'R': { Real m; m = zero; REAL n = 0; s >> m; b >> n; u = again2(toDouble(m)); v = again2((double)n); break; } }
      state(hash(in)); if (!check(s.fail() == b.fail() && u == v, "standard input", in + " got " + u + " want " + v)) return; } }
}
int main(int argc, char** argv) {
  init(argc, argv); startup(); IV ls(Nd, 2); lattice(ls); makeItems(); Pool pool(600); const int n = items.size();
  auto task = [&](const char* l, std::function<void()> fn) { pool.run(l, [=] { fn(); unlink(F().c_str()); }); };
  task("ints", [] { values<int>("int", ints<int>(), 7); values<unsigned>("unsigned", ints<unsigned>(), 7); values<short>("short", ints<short>(), 7); values<unsigned short>("unsigned short", ints<unsigned short>(), 7); values<long>("long", ints<long>(), 7); values<unsigned long>("unsigned long", ints<unsigned long>(), 7); values<long long>("long long", ints<long long>(), 7); values<bool>("bool", {true, false, false, true}, true); values<bool>("bool", {true, false, false, true}, false);
    std::vector<char> cs; for (int c = 0; c < 256; ++c) if (c != ' ' && !(c >= 9 && c <= 13)) cs.push_back((char)c); values<char>("char", cs, 'q');
    std::vector<std::string> ss; const std::string al = "a0-.\"\xff"; for (char a : al) { ss.push_back({a}); for (char b : al) { ss.push_back({a, b}); for (char c : al) ss.push_back({a, b, c}); } } for (int l : {10, 100, 1023, 1024, 8191, 8192, 20000}) ss.push_back(std::string(l, 'w')); values<std::string>("string", ss, "old"); });
  task("float", [] { values<float>("float", floats<float>(-44, 38), 7); }); for (int h = 0; h < 4; ++h) task("double", [=] { values<double>("double", floats<double>(-308 + h * 154, -308 + h * 154 + 153), 7); });
  const char* seps[] = {" ", "\n", "\t", "\r\n", "  \n \n"};
  for (int i = 0; i < n; ++i) task("prog", [=] { for (int s = 0; s < 5; ++s) for (int wk = 0; wk < 2; ++wk) for (int rk = 0; rk < 2; ++rk) for (int l = 0; l < 2; ++l) { prog({i}, seps[s], wk, rk, l); for (int j = 0; j < n; ++j) { prog({i, j}, seps[s], wk, rk, l); if (s < 1 && (wk + rk == 0 || thorough())) for (int k = 0; k < n; ++k) prog({i, j, k}, seps[s], wk, rk, l); } } });
  task("hist", [] { histories(); }); for (int f = 0; f < 18; ++f) task("stdout", [=] { stdOut(f, thorough() ? 4 : 3); }); task("stdin", [] { stdIn(); });
  pool.drain(); return finish();
}
