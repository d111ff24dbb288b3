// C24: files and values of a distributed run are those of the single-node run.
#include "par.h"
#include "qdp_map_obj_disk.h"
#include "qdp_disk_map_slice.h"
#include "qdp_iogauge.h"
using namespace vf; using namespace par; typedef std::ios_base IB;
struct Slices : public SetFunc { int mu; Slices(int m) : mu(m) {} int operator()(const multi1d<int>& c) const { return c[mu]; } int numSubsets() const { return Layout::lattSize()[mu]; } };
struct Odd : public SetFunc { int k; Odd(int a) : k(a) {} int operator()(const multi1d<int>& c) const { int l = c2lex(v1(c), v1(Layout::lattSize())); return k == 0 ? l % 3 : k == 1 ? (l * l + l / 2) % 5 == 1 : l == Layout::vol() - 1; } int numSubsets() const { return 4; } };
static IV ext() { return v1(Layout::lattSize()); }
static void look(BinaryReader& r, const std::string& l) { num(l + " fails", r.fail()); num(l + " checksum", r.getChecksum()); num(l + " position", (double)(long long)r.currentPosition()); }
static void look(BinaryWriter& w, const std::string& l) { num(l + " fails", w.fail()); num(l + " checksum", w.getChecksum()); num(l + " position", (double)(long long)w.currentPosition()); }
// a transfer through every stream class, between two other items, and once more at another place of the file
template<class W, class R> static void both(const std::string& n, const W& wr, const R& rd, bool every = true) {
  { BinaryFileWriter w(file("f")); write(w, 'a'); wr(w); look(w, n + " fw"); write(w, 7); num("open", w.is_open()); w.close(); num("closed", w.is_open()); }
  { BinaryFileReader r(file("f")); char a = 0; int k = 0; read(r, a); rd(r, n + " fr"); look(r, n + " fr"); read(r, k); num("a", a); num("k", k); look(r, n + " end"); char more; read(r, more); num("past the end", r.fail()); }
  if (!every) return;
  std::string s; { BinaryBufferWriter w; write(w, 'a'); wr(w); look(w, n + " bw"); write(w, 7); s = w.str(); scalar(n + " buffer", s); std::string p = w.strPrimaryNode(); expect(p == (Layout::primaryNode() ? s : ""), n + ": text of the buffer on the primary node"); }
  { BinaryBufferReader r(Layout::primaryNode() ? s : std::string("not the text")); char a = 0; int k = 0; read(r, a); rd(r, n + " br"); look(r, n + " br"); read(r, k); num("a", a); num("k", k); scalar("reader text", r.str()); }
  { BinaryFileReaderWriter w(file("g"), IB::in | IB::out | IB::trunc); write(w, 3.5); wr(w); look((BinaryReader&)w, n + " rw"); w.seek(8); rd(w, n + " rw"); w.seekBegin(0); w.seekRelative(8); wr(w); w.rewind(); double d = 0; read(w, d); num("d", d); w.close(); }
  { BinaryBufferReaderWriter w; wr(w); w.rewind(); rd(w, n + " brw"); scalar(n + " rw buffer", w.str()); }
}
template<class L> static void whole(const char* nm) { both(nm, [](BinaryWriter& w) { L f; fill(f, 1); write(w, f); }, [](BinaryReader& r, const std::string& l) { L f; fill(f, 2); read(r, f); par::field(l, f); }); }
template<class L> static void eachSite(const char* nm) { int V = Layout::vol(); { BinaryFileWriter w(file("s")); L f; fill(f, 1); for (int i = V - 1; i >= 0; --i) write(w, f, m1(lex2c(i, ext()))); look(w, "all sites"); } BinaryFileReader r(file("s")); L f; fill(f, 2); for (int i = V - 1; i >= 0; i -= 2) { read(r, f, m1(lex2c(i, ext()))); read(r, f, m1(lex2c(0, ext()))); par::field(fmt("%s site", nm), f); } look(r, "all sites"); }
template<class L> static void subsets(const char* nm, const Set& s, bool every = false) { typedef typename std::decay<decltype(std::declval<L&>().elem(0))>::type E;
  for (int k = 0; k < s.numSubsets(); ++k) both(fmt("%s %d", nm, k), [&](BinaryWriter& w) { L f; fill(f, 1 + k); write(w, f[s[k]]); OSubLattice<E> o(s[k], f); write(w, o); }, [&](BinaryReader& r, const std::string& l) { L f; fill(f, 9); read(r, f[s[k]]); par::field(l + " view", f); OSubLattice<E> o(s[k], f); read(r, o); fill(f, 5); f = o; par::field(l + " owned", f); }, every); }
template<class L> static void subsets(const char* nm, int sel) { Set a; if (sel == 3) { subsets<L>(nm, rb); a.make(Slices(Nd - 1)); subsets<L>(nm, a); } else { a.make(Odd(sel)); subsets<L>(nm, a, sel == 1); } }
template<class L> static void slices(const char* nm) { int T = ext()[Nd - 1]; for (int t = 0; t < T; ++t) both(fmt("%s slice %d", nm, t), [&](BinaryWriter& w) { L f; fill(f, t); TimeSliceIO<L> o(f, t); write(w, o); }, [&](BinaryReader& r, const std::string& l) { L f; fill(f, 9); TimeSliceIO<L> o(f, T - 1 - t); read(r, o); par::field(l, f); }); }
template<class T> static void item(const T& v, const T& old) { both("item", [&](BinaryWriter& w) { write(w, v); }, [&](BinaryReader& r, const std::string& l) { T x = Layout::primaryNode() ? v : old; x = old; read(r, x); BinaryBufferWriter b; write(b, x); scalar(l + " value", b.str()); }); }
static void items() {
  item<char>('q', 0); item<int>(-77, 1); item<unsigned>(4000000000u, 1); item<short>(-3, 1); item<unsigned short>(65000, 1); item<long>(-1L << 40, 1); item<unsigned long>(~0ul - 5, 1); item<long long>(1ll << 50, 1); item<float>(1.5f, 0); item<double>(-2.25, 0); item<bool>(true, false); item<bool>(false, true); item<std::complex<double>>(std::complex<double>(1, 2), 0.0);
  multi1d<int> a(3), e(0), big(40); for (int i = 0; i < 3; ++i) a[i] = i * 11; for (int i = 0; i < 40; ++i) big[i] = i; item(a, big); item(a, e); item(e, a); multi2d<double> d(2, 3), d0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) d(i, j) = i + j * 0.5; item(d, d0); multi3d<int> t(2, 1, 2), t0; t = 4; item(t, t0); std::vector<float> v(3, 2.5f); item(v, std::vector<float>()); std::list<int> l(2, 9); item(l, std::list<int>()); std::map<int, double> m; m[3] = 1; m[1] = 2; item(m, std::map<int, double>()); item(std::make_pair(3, 1.5), std::make_pair(0, 0.0)); multi1d<multi1d<int>> q(2); q[0] = a; q[1] = e; item(q, multi1d<multi1d<int>>());
  Real r(2.5); item(r, Real(0)); Complex z = cmplx(Real(1.0), Real(-2)); item(z, Complex(zero)); ColorMatrix c, c0; c = 3; c0 = zero; pokeColor(c, z, 1, 2); item(c, c0); Fermion f, f0; f0 = zero; f = zero; ColorVector cv; cv = zero; pokeColor(cv, z, 2); pokeSpin(f, cv, 1); item(f, f0); Seed s, s0; s = 11; s0 = 5; item(s, s0); Integer n = 5; item(n, Integer(6)); multi1d<Complex> zz(4); for (int i = 0; i < 4; ++i) zz[i] = z * Real(i); item(zz, multi1d<Complex>());
}
static void strings() { for (int n : {0, 1, 2, 3, 15, 16, 200}) { std::string s(n, 'w'); if (n > 2) s[1] = ' '; std::string d = s; if (n > 2) d[2] = '\n'; if (n > 15) d[7] = 0;
    both(fmt("string %d", n), [&](BinaryWriter& w) { write(w, s); writeDesc(w, d); write(w, s.c_str()); }, [&](BinaryReader& r, const std::string& l) { std::string a = Layout::primaryNode() ? "old" : "a much longer old value on the other nodes", b = a, c = a; read(r, a, n + 2); readDesc(r, b); read(r, c, 300); scalar(l + " line", a); scalar(l + " counted", b); scalar(l + " last", c); }); } }
static void arrays() { both("raw", [](BinaryWriter& w) { int v[4] = {1, 2, 3, 4}; w.writeArray((char*)v, 4, 4); w.writeArrayPrimaryNode((char*)v, 4, 2); w.writeArray((char*)v, 2, 3); w.writeArray((char*)v, 4, 0); }, [](BinaryReader& r, const std::string& l) { int v[4] = {0, 0, 0, 0}; r.readArray((char*)v, 4, 4); scalar(l + " all", std::string((char*)v, 16)); v[0] = v[1] = 9; r.readArrayPrimaryNode((char*)v, 4, 2); if (!Layout::primaryNode()) expect(v[0] == 9 && v[1] == 9, "a primary-node read changes another node's memory"); else expect(v[0] == 1 && v[1] == 2, "primary-node read"); short h[3] = {0, 0, 0}; r.readArray((char*)h, 2, 3); scalar(l + " short", std::string((char*)h, 6)); r.readArray((char*)v, 4, 0); });
  for (int k = 0; k < 2; ++k) { { BinaryFileWriter w(file("le")); char b[] = "\1\2\3\4\5\6\7\10"; w.writeArray(b, 1, 8); } BinaryFileReader r(file("le")); int v[2] = {7, 7}; if (k) r.readArrayPrimaryNodeLittleEndian((char*)v, 4, 2); else r.readArrayLittleEndian((char*)v, 4, 2); if (!k) scalar("little endian", std::string((char*)v, 8)); else expect(v[0] == (Layout::primaryNode() ? 0x04030201 : 7), "primary-node little-endian read"); } }
static void text() { std::string out; { TextFileWriter w(file("t")); w << 5 << " " << std::string("word") << " " << 2.5 << '\n' << "c" << '\n' << true << ' ' << (short)-4 << ' ' << 1.5f << ' ' << 9000000000ll << ' '; w << Real(4.5) << ' '; Complex z = cmplx(Real(1), Real(2)); w << z << '\n'; num("fails", w.fail()); w.flush(); num("open", w.is_open()); }
  auto rd = [](TextReader& r, const char* l) { int i = 0; std::string s = Layout::primaryNode() ? "" : "old"; double d = 0; char c = 0; bool b = false; short h = 0; float f = 0; long long q = 0; r >> i >> s >> d >> c >> b; r.read(h); r >> f >> q; num(l, i); scalar(l, s); num(l, d); num(l, c); num(l, b); num(l, h); num(l, f); num(l, q); Real x; Complex z; r >> x >> z; scalar(l, x); scalar(l, z); num("fails", r.fail()); r >> i; num("end", r.fail()); };
  { TextFileReader r(file("t")); rd(r, "text file"); num("open", r.is_open()); r.close(); num("open", r.is_open()); }
  std::string s; { TextBufferWriter w; w << 5 << " word 2.5\nc\n1 -4 1.5 9000000000 " << Real(4.5) << " "; Complex z = cmplx(Real(1), Real(2)); w << z << "\n"; s = w.str(); scalar("text buffer", s); expect(w.strPrimaryNode() == (Layout::primaryNode() ? s : ""), "text of the buffer on the primary node"); }
  { TextBufferReader r(Layout::primaryNode() ? s : std::string("other text")); scalar("str", r.str()); rd(r, "text buffer"); } }
// standard streams: only the primary node reads and writes
static void standard() { std::ostringstream o, e; std::istringstream i(Layout::primaryNode() ? "17 word x 2.5 1 -3 9000000000 1.25 rest" : "99 wrong y 9.5 0 9 9 9 other"); { auto* a = std::cout.rdbuf(o.rdbuf()); auto* b = std::cerr.rdbuf(e.rdbuf()); auto* c = std::cin.rdbuf(i.rdbuf()); std::cin.clear();
    QDPIO::cout << "text " << 5 << ' ' << 2.5 << " " << true << std::endl << std::string("more") << '\n' << Real(1.5) << 7ul << (short)3 << 1.5f << "\n"; QDPIO::cerr << "error " << 6 << std::endl; QDPIO::cout.flush(); num("fails", QDPIO::cout.fail());
    int k = 0; std::string w = "old"; char ch = 0; double d = 0; bool f = false; short h = 0; long long q = 0; float g = 0; QDPIO::cin >> k >> w >> ch >> d >> f >> h >> q >> g; num("k", k); scalar("w", w); num("ch", ch); num("d", d); num("f", f); num("h", h); num("q", q); num("g", g); num("in fails", QDPIO::cin.fail()); QDPIO::cin >> k; num("in fails", QDPIO::cin.fail());
    std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cin.rdbuf(c); }
  if (Layout::primaryNode()) { spew(file("stdout"), o.str()); spew(file("stderr"), e.str()); } else { expect(o.str().empty(), "a node other than the primary writes to the output"); expect(e.str().empty(), "a node other than the primary writes to the error output"); } }
// every cut of a short file: all nodes hear of the failure, and what was read is the same everywhere
template<class L> static void cuts(const char* nm, int kind) { std::string img; { BinaryBufferWriter w; L f; fill(f, 1); if (kind == 0) write(w, f); else if (kind == 1) write(w, f[rb[1]]); else if (kind == 2) write(w, f, m1(lex2c(Layout::vol() - 1, ext()))); else { TimeSliceIO<L> o(f, ext()[Nd - 1] - 1); write(w, o); } img = w.str(); } size_t per = img.size() / (kind == 2 ? 1 : kind == 1 ? rb[1].numSiteTable() * Layout::numNodes() : Layout::vol() / (kind == 3 ? ext()[Nd - 1] : 1)); for (size_t n = 0; n < img.size(); n += per > 4 ? per / 2 : 3) { BinaryBufferReader r(img.substr(0, n)); L f; f = zero; if (kind == 0) read(r, f); else if (kind == 1) read(r, f[rb[1]]); else if (kind == 2) read(r, f, m1(lex2c(Layout::vol() - 1, ext()))); else { TimeSliceIO<L> o(f, ext()[Nd - 1] - 1); read(r, o); } num(fmt("%s cut at %d fails", nm, (int)n), r.fail()); } }
static void scalarCuts() { std::string img; { BinaryBufferWriter w; write(w, 5); writeDesc(w, std::string("word")); write(w, std::string("line")); ColorMatrix c; c = 2; write(w, c); multi1d<int> a(3); a = 4; write(w, a); img = w.str(); } for (size_t n = 0; n < img.size(); ++n) { BinaryBufferReader r(img.substr(0, n)); int i = 0; std::string s = "s", t = "t"; read(r, i); bool f = r.fail(); num(fmt("cut %d int", (int)n), f); if (f) continue; num("i", i); if (n < 12) continue; readDesc(r, s); f = r.fail(); num("desc", f); if (f) continue; scalar("s", s); read(r, t, 100); f = r.fail(); num("line", f); if (f) continue; scalar("t", t); ColorMatrix c; c = zero; read(r, c); f = r.fail(); num("matrix", f); if (f) continue; scalar("c", c); if (n < img.size() - 12) continue; multi1d<int> a; read(r, a); num("array", r.fail()); } }
template<class V> static std::string im(const V& v) { return fmt("%.17g", (double)v); }
static std::string im(const multi1d<int>& v) { std::string s; for (int i = 0; i < v.size(); ++i) s += fmt("%d,", v[i]); return s; }
// a session with a disk map; mode: what is done between the insertions
static void mapSession(int mode) { typedef MapObjectDisk<int, LatticeColorVector> M; { M m; m.insertUserdata(Layout::primaryNode() ? "user data" : "user data"); m.open(file("map"), IB::in | IB::out | IB::trunc); for (int k = 0; k < 4; ++k) { LatticeColorVector f; fill(f, k); num("insert", m.insert(k * 3, f)); if (mode == 1) m.flush(); if (mode == 2 && k == 1) { m.close(); m.open(file("map"), IB::in | IB::out); } if (mode == 3) { LatticeColorVector g; fill(g, 20 + k); num("update", m.insert(0, g)); } num("size", m.size()); for (int q = 0; q < 12; q += 3) num("exist", m.exist(q)); } std::vector<int> ks; m.keys(ks); for (int q : ks) num("key", q); LatticeColorVector g; g = zero; num("get", m.get(6, g)); par::field("got", g); num("absent", m.get(7, g)); }
  M m; num("there", m.fileExists(file("map"))); num("not there", m.fileExists(file("other"))); m.open(file("map"), IB::in); std::string u = "old"; num("user", m.getUserdata(u)); scalar("user", u); for (int k = 0; k < 12; k += 3) { LatticeColorVector f; f = zero; num("get", m.get(k, f)); par::field(fmt("read %d", k), f); } num("refuse", m.insert(1, LatticeColorVector())); scalar("meta", MapObjDiskEnv::getMetaData(file("map"))); }
static void mapItems() { typedef MapObjectDisk<int, multi1d<int>> M; { M m; m.open(file("map"), IB::in | IB::out | IB::trunc); for (int k = 0; k < 9; ++k) { multi1d<int> v(k % 4); v = k; num("insert", m.insert(k % 5, v)); } } M m; m.open(file("map"), IB::in); for (int k = 0; k < 6; ++k) { multi1d<int> v; num("get", m.get(k, v)); scalar("value", im(v)); } }
static void mapSlices() { typedef MapObjectDisk<int, TimeSliceIO<LatticeColorVector>> M; int T = ext()[Nd - 1]; LatticeColorVector f; fill(f, 1); { M m; m.open(file("map"), IB::in | IB::out | IB::trunc); for (int t = T - 1; t >= 0; --t) num("insert", m.insert(t, TimeSliceIO<LatticeColorVector>(f, t))); } M m; m.open(file("map"), IB::in); LatticeColorVector g; fill(g, 4); for (int t = 0; t < T; ++t) { TimeSliceIO<LatticeColorVector> o(g, t); num("get", m.get(t, o)); par::field(fmt("slice %d", t), g); } }
static void links(multi1d<LatticeColorMatrix>& u) { u.resize(Nd); for (int d = 0; d < Nd; ++d) for (int i = 0; i < Layout::sitesOnNode(); ++i) { int l = lexOf(i), k = (l + d) % 3; auto& m = u[d].elem(i).elem(); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { m.elem(r, c).real() = (r + k) % 3 == c ? ((l + d) % 4 == 0 || r == (l + d) % 4 - 1 ? 1 : -1) : 0; m.elem(r, c).imag() = 0; } } }
static void archive(int mat) { multi1d<LatticeColorMatrix> u; links(u); ArchivGauge_t h; h.mat_size = mat; h.sequence_number = 12; h.ensemble_id = "id"; num("sum", computeChecksum(u, mat)); writeArchiv(h, u, file("cfg")); if (Layout::primaryNode()) { std::string t = slurp(file("cfg")); for (const char* k : {"CREATION_DATE = ", "ARCHIVE_DATE = "}) { size_t q = t.find(k); if (q == std::string::npos) continue; q += strlen(k); t.erase(q, t.find('\n', q) - q); } spew(file("stripped"), t); } ArchivGauge_t g; multi1d<LatticeColorMatrix> v(Nd); for (int d = 0; d < Nd; ++d) v[d] = zero; readArchiv(g, v, file("cfg")); for (int d = 0; d < Nd; ++d) par::field("link", v[d]); num("checksum", g.checksum); num("number", g.sequence_number); num("size", g.mat_size); num("float", g.float_size); scalar("plaq", g.w_plaq); scalar("trace", g.link); scalar("id", g.ensemble_id); for (int d = 0; d < Nd; ++d) num("n", g.nrow[d]);
  multi1d<LatticeColorMatrix> x(Nd); readArchiv(x, file("cfg")); for (int d = 0; d < Nd; ++d) par::field("again", x[d]); if (Layout::primaryNode()) unlink(file("cfg").c_str()); }
// damaged configurations are refused on every node
static void badArchive(int k) { multi1d<LatticeColorMatrix> u; links(u); ArchivGauge_t h; writeArchiv(h, u, file("cfg")); if (Layout::primaryNode()) { std::string s = slurp(file("cfg")); if (k == 0) s.pop_back(); else if (k == 1) s.back() ^= 1; else if (k == 2) { size_t p = s.find("CHECKSUM = "); s[p + 11] = s[p + 11] == '1' ? '2' : '1'; } else { size_t p = s.find("DIMENSION_1 = "); s[p + 14] = '9'; } spew(file("cfg"), s); } int dummy = 1; QDPInternal::broadcast(dummy); readArchiv(u, file("cfg")); num("read", 1); if (Layout::primaryNode()) unlink(file("cfg").c_str()); }
static void reopen() { for (int k = 0; k < 3; ++k) { BinaryFileWriter w; w.open(file(fmt("r%d", k % 2))); write(w, k); w.flush(); w.seek(0); write(w, k + 10); num("sum", w.getChecksum()); w.resetChecksum(); num("sum", w.getChecksum()); w.close(); BinaryFileReader r; r.open(file(fmt("r%d", k % 2))); int i = 0; read(r, i); num("i", i); r.seekEnd(4); read(r, i); num("i", i); r.seekRelative(-4); num("pos", (double)(long long)r.currentPosition()); r.rewind(); r.resetChecksum(); num("sum", r.getChecksum()); r.close(); r.close(); num("open", r.is_open()); } }
static void missing(int k) { if (k == 0) { BinaryFileReader r(file("nothing")); } else if (k == 1) { BinaryFileWriter w(file("no/dir")); } else if (k == 2) { TextFileReader r(file("nothing")); } else if (k == 3) { MapObjectDisk<int, int> m; m.open(file("nothing"), IB::in); } else { multi1d<LatticeColorMatrix> u(Nd); readArchiv(u, file("nothing")); } num("went on", 1); }
#define F(T) r.push_back({"field " #T, 0, [] { whole<T>(#T); }})
// time slices under CB3D are a recorded defect (C14) and left out here
static bool slicesOk() {
#if QDP_USE_CB3D_LAYOUT == 1
  return false;
#else
  return true;
#endif
}
namespace par { std::vector<Prog> programs() { std::vector<Prog> r; F(LatticeInteger); F(LatticeBoolean); F(LatticeReal); F(LatticeDouble); F(LatticeComplex); F(LatticeColorMatrix); F(LatticeFermion); F(LatticePropagator); F(LatticeSeed);
  r.push_back({"sites LatticeBoolean", 0, [] { eachSite<LatticeBoolean>("b"); }}); r.push_back({"sites LatticeColorMatrix", 0, [] { eachSite<LatticeColorMatrix>("m"); }}); r.push_back({"subsets LatticeBoolean", 0, [] { subsets<LatticeBoolean>("b", 0); subsets<LatticeBoolean>("b", 3); }}); r.push_back({"subsets LatticeInteger", 0, [] { subsets<LatticeInteger>("i", 1); }}); r.push_back({"subsets LatticeColorVector", 0, [] { subsets<LatticeColorVector>("v", 2); }});
  if (slicesOk()) r.push_back({"slices LatticeBoolean", 0, [] { slices<LatticeBoolean>("b"); }}); if (slicesOk()) r.push_back({"slices LatticeFermion", 0, [] { slices<LatticeFermion>("f"); }}); r.push_back({"items", 0, items, nullptr, 1}); r.push_back({"strings", 0, strings}); r.push_back({"arrays", 0, arrays}); r.push_back({"text", 0, text}); r.push_back({"standard streams", 0, standard});
  for (int k = 0; k < 3 + slicesOk(); ++k) r.push_back({fmt("cuts %d", k), 0, [k] { cuts<LatticeInteger>("i", k); if (k < 2) cuts<LatticeColorMatrix>("m", k); }}); r.push_back({"scalar cuts", 0, scalarCuts}); for (int k = 0; k < 4; ++k) r.push_back({fmt("map session %d", k), 0, [k] { mapSession(k); }}); r.push_back({"map items", 0, mapItems}); if (slicesOk()) r.push_back({"map slices", 0, mapSlices});
  for (int m : {12, 18}) r.push_back({fmt("archive %d", m), 0, [m] { archive(m); }}); for (int k = 0; k < 4; ++k) r.push_back({fmt("bad archive %d", k), 0, [k] { badArchive(k); }}); r.push_back({"reopen", 0, reopen}); for (int k = 0; k < 5; ++k) r.push_back({fmt("missing %d", k), 0, [k] { missing(k); }});
  // short transfers whose message timings are explored
  struct A { const char* n; std::function<void()> f; }; std::vector<A> a = {
    {"write field", [] { LatticeInteger f; fill(f, 1); BinaryFileWriter w(file("x")); write(w, f); num("sum", w.getChecksum()); }},
    {"write odd", [] { LatticeInteger f; fill(f, 2); BinaryFileWriter w(file("y")); write(w, f[rb[1]]); num("sum", w.getChecksum()); }},
    {"write last site", [] { LatticeInteger f; fill(f, 3); BinaryFileWriter w(file("z")); write(w, f, m1(lex2c(Layout::vol() - 1, ext()))); num("sum", w.getChecksum()); }},
    {"read field", [] { if (Layout::primaryNode()) { std::string s; for (int i = 0; i < Layout::vol() * 4; ++i) s += (char)i; spew(file("in"), s); } LatticeInteger f; f = zero; BinaryFileReader r(file("in")); read(r, f); par::field("in", f); num("sum", r.getChecksum()); }},
    {"read odd", [] { if (Layout::primaryNode()) { std::string s; for (int i = 0; i < Layout::vol() * 4; ++i) s += (char)i; spew(file("in"), s); } LatticeInteger f; f = zero; BinaryFileReader r(file("in")); read(r, f[rb[1]]); par::field("in", f); num("sum", r.getChecksum()); }},
    {"read last site", [] { if (Layout::primaryNode()) spew(file("in"), "abcdefgh"); LatticeInteger f; f = zero; BinaryFileReader r(file("in")); read(r, f, m1(lex2c(Layout::vol() - 1, ext()))); par::field("in", f); }},
    {"write slice", [] { LatticeInteger f; fill(f, 4); BinaryFileWriter w(file("t")); TimeSliceIO<LatticeInteger> o(f, ext()[Nd - 1] - 1); write(w, o); num("sum", w.getChecksum()); }}};
  if (!slicesOk()) a.pop_back(); for (auto& x : a) r.push_back({x.n, 1, x.f}); for (auto& x : a) for (auto& y : a) r.push_back({std::string(x.n) + " then " + y.n, 0, [x, y] { x.f(); y.f(); }, nullptr, 1});
  return r; } }
int main(int c, char** v) {
  init(c, v);
#ifdef ARCH_SCALAR
  return emitMain();
#else
  bool T = thorough(); std::vector<Plan> P = {{IV{4, 2, 2, 2}, {1, 2, 4}}, {IV{8, 2, 2, 2}, {4}}, {IV{2, 2, 2, 4}, {4}}, {IV{6, 3, 1, 2}, {3}}};
  if (T) { P.push_back({IV{4, 2, 2, 2}, {8}}); P.push_back({IV{4, 4, 4, 2}, {4, 8}}); P.push_back({IV{2, 3, 2, 6}, {6, 3}}); P.push_back({IV{2, 6, 1, 5}, {5, 2}}); }
  parMain(P); return finish();
#endif
}
