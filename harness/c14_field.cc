// C14: the file image of lattice fields, subsets, sites and time slices, against the lexicographic word list.
#include "bio.h"
#include "qdp_disk_map_slice.h"
using namespace QDP; using namespace vf;
static IV S; static int V; static std::vector<int> lin, ord;       // linear index of a lexicographic site; lexicographic sites in file order
static std::string file() { return scratch() + fmt("/c14.%d", (int)getpid()); }
template<class L> struct El { typedef typename std::decay<decltype(std::declval<L&>().elem(0))>::type T; };
template<class W> static W tokv(int s, int w, int salt) { return std::is_same<W, bool>::value ? W((s * 7 + w * 3 + salt + (s >> 2)) & 1) : W(s * 300 + w + salt * 100003); }
template<class E> static void setSite(E& e, int s, int salt) { int w = 0; words(e, [&](auto& x) { typedef typename std::decay<decltype(x)>::type W; x = tokv<W>(s, w++, salt); }); }
template<class L> static void fill(L& d, int salt) { for (int s = 0; s < V; ++s) setSite(d.elem(lin[s]), s, salt); }
template<class L> static std::string siteImg(int s, int salt) { typename El<L>::T e; setSite(e, s, salt); std::string o; words(e, [&](auto& x) { o += be(x); }); return o; }
template<class L> static std::string img(const std::vector<int>& sites, int salt) { std::string o; for (int s : sites) o += siteImg<L>(s, salt); return o; }
// field holds the tokens of salt a at the listed sites and of salt b elsewhere
template<class L> static bool holds(const L& d, const std::vector<int>& in, int a, int b, std::string& why) { std::vector<char> m(V, 0); for (int s : in) m[s] = 1; for (int s = 0; s < V; ++s) { typename El<L>::T e; setSite(e, s, m[s] ? a : b); if (!bitsEqual(e, d.elem(lin[s]))) { why = fmt(" wrong at lexicographic site %d (%s)", s, m[s] ? "addressed" : "not addressed"); return false; } } return true; }
static bool cb3d() {
#if QDP_USE_CB3D_LAYOUT == 1
  return true;
#else
  return false;
#endif
}
static std::vector<int> wholeLattice() { return ord; }
static std::vector<int> among(const std::vector<char>& in) { std::vector<int> r; for (int s : ord) if (in[s]) r.push_back(s); return r; }
// one transfer: its name, the sites it addresses in file order, how to write it and how to read it
template<class L> struct Xfer { std::string n; std::vector<int> sites; std::function<void(BinaryWriter&, L&)> wr; std::function<void(BinaryReader&, L&)> rd; };
struct Mask : SetFunc { unsigned m; Mask(unsigned m_) : m(m_) {} int operator()(const multi1d<int>& x) const override { return m >> c2lex(v1(x), S) & 1; } int numSubsets() const override { return 2; } };
struct Third : SetFunc { int operator()(const multi1d<int>& x) const override { return c2lex(v1(x), S) % 3; } int numSubsets() const override { return 4; } };    // the last one is empty
struct Time : SetFunc { int operator()(const multi1d<int>& x) const override { return x[Nd - 1]; } int numSubsets() const override { return S[Nd - 1]; } };
template<class L> static void viaSubset(std::vector<Xfer<L>>& r, const Subset& s, const std::string& n) { std::vector<char> in(V, 0); std::vector<int> lexOf(V); for (int l = 0; l < V; ++l) lexOf[lin[l]] = l; for (int j = 0; j < s.numSiteTable(); ++j) in[lexOf[s.siteTable()[j]]] = 1; typedef typename El<L>::T E; const Subset* p = &s;
  r.push_back({n + " view", among(in), [p](BinaryWriter& w, L& d) { write(w, d[*p]); }, [p](BinaryReader& b, L& d) { read(b, d[*p]); }});
  r.push_back({n + " owning", among(in), [p](BinaryWriter& w, L& d) { OSubLattice<E> o(*p, d); write(w, o); }, [p](BinaryReader& b, L& d) { OSubLattice<E> o(*p, d); read(b, o); d = o; }}); }
template<class L> static void viaSite(std::vector<Xfer<L>>& r, int s) { multi1d<int> c = m1(lex2c(s, S)); r.push_back({fmt("site %d", s), {s}, [c](BinaryWriter& w, L& d) { write(w, d, c); }, [c](BinaryReader& b, L& d) { read(b, d, c); }}); }
template<class L> static void viaSlice(std::vector<Xfer<L>>& r, int t) { std::vector<char> in(V); for (int s = 0; s < V; ++s) in[s] = lex2c(s, S)[Nd - 1] == t; r.push_back({fmt("time slice %d", t), among(in), [t](BinaryWriter& w, L& d) { TimeSliceIO<L> o(d, t); write(w, o); }, [t](BinaryReader& b, L& d) { TimeSliceIO<L> o(d, (t + 1) % S[Nd - 1]); o.setTimeSlice(t); if (o.getTimeSlice() != t || &o.getObject() != &d) violation("time slice object", fmt("%d", t)); read(b, o); }}); }
template<class L> static void viaAll(std::vector<Xfer<L>>& r) { r.push_back({"whole field", wholeLattice(), [](BinaryWriter& w, L& d) { write(w, d); }, [](BinaryReader& b, L& d) { read(b, d); }}); }
// write and read a transfer through every stream class, between other items
template<class L> static bool one(const Xfer<L>& x, const std::string& in, bool every) { const std::string want = img<L>(x.sites, 1); bool ok = true; std::string why;
  for (int k = 0; k < 4 && ok; ++k) { if (!every && k != 0) break; L d; fill(d, 1); vf::cur(in + " " + x.n + " " + writerName(k)); transition(); eval(); std::string got; { Out o(k, file()); write(o.w(), (char)'<'); x.wr(o.w(), d); u32 c = o.w().getChecksum(); write(o.w(), (char)'>'); got = o.bytes(); ok = check(c == refcrc(0, "<" + want), "checksum of a field transfer", in + " " + x.n); } state(hash(got, hash(in))); ok = check(got == "<" + want + ">", "file image: " + x.n.substr(0, x.n.find_first_of("0123456789")), in + " " + x.n + " " + writerName(k)) && check(holds(d, wholeLattice(), 1, 1, why), "writing changes the field", in + " " + x.n + why) && ok; }
  for (int k = 0; k < 4 && ok; ++k) { if (!every && k != 0) break; L d; fill(d, 2); vf::cur(in + " " + x.n + " " + readerName(k)); transition(); eval(); In i(k, file(), "<" + want + ">"); char a = 0, b = 0; read(i.r(), a); x.rd(i.r(), d); read(i.r(), b); ok = check(a == '<' && b == '>' && !i.r().fail(), "position after a field read", in + " " + x.n) && check(holds(d, x.sites, 1, 2, why), "field read: " + x.n.substr(0, x.n.find_first_of("0123456789")), in + " " + x.n + " " + readerName(k) + why); }
  trace(); return ok; }
// the file cut short inside a transfer: failure reported, sites read before it right, sites not addressed untouched
template<class L> static void cuts(const Xfer<L>& x, const std::string& in) { const std::string full = img<L>(x.sites, 1); const size_t per = x.sites.empty() ? 1 : full.size() / x.sites.size(); for (size_t n = 0; n < full.size(); ++n) { if (full.size() > 600 && n % 7 && n % per > 1) continue; vf::cur(in + " " + x.n + fmt(" cut at %zu", n)); eval(); L d; fill(d, 2); BinaryBufferReader b(full.substr(0, n)); x.rd(b, d); transition(); bool ok = check(b.fail(), "a short file is not reported", in + " " + x.n + fmt(" cut at %zu", n)); std::vector<char> m(V, 0); for (int s : x.sites) m[s] = 1; for (int s = 0; s < V && ok; ++s) if (!m[s]) { typename El<L>::T e; setSite(e, s, 2); ok = check(bitsEqual(e, d.elem(lin[s])), "a short file changes a site not addressed", in + " " + x.n); } for (size_t q = 0; q < n / per && ok; ++q) { typename El<L>::T e; setSite(e, x.sites[q], 1); ok = check(x.n.find("owning") != std::string::npos || bitsEqual(e, d.elem(lin[x.sites[q]])), "a site read before the end of a short file", in + " " + x.n + fmt(" cut at %zu", n)); } } trace(); }
// programs of transfers on one stream, and overwriting in the middle of a file
template<class L> static void programs(const std::vector<Xfer<L>>& xs, const std::string& in, int depth) { int n = xs.size(); std::vector<int> p; bool ok = true; std::function<void()> go = [&]() { if (!ok) return; if (!p.empty()) { std::string want, nm = in; for (size_t i = 0; i < p.size(); ++i) { want += img<L>(xs[p[i]].sites, i + 1); nm += " + " + xs[p[i]].n; } vf::cur(nm); eval(); trace(); BinaryBufferWriter w; for (size_t i = 0; i < p.size(); ++i) { L d; fill(d, i + 1); transition(); xs[p[i]].wr(w, d); } state(hash(want)); ok = check(w.str() == want, "image of a program of transfers", nm); L d; fill(d, 9); std::vector<int> salt(V, 9); BinaryBufferReader r(want); for (size_t i = 0; i < p.size(); ++i) { xs[p[i]].rd(r, d); for (int s : xs[p[i]].sites) salt[s] = i + 1; } for (int s = 0; s < V && ok; ++s) { typename El<L>::T e; setSite(e, s, salt[s]); ok = check(bitsEqual(e, d.elem(lin[s])), "fields read by a program of transfers", nm); }
      if (p.size() == 2) for (int k = 2; k < 4 && ok; ++k) { std::string a = "(" + img<L>(xs[p[0]].sites, 1) + ")"; std::string b = img<L>(xs[p[1]].sites, 2); if (b.size() > a.size() - 2) continue; size_t at = 1 + (a.size() - 2 - b.size()) / 2; L f; fill(f, 2); std::string got; { In i(k, file(), a); BinaryReaderWriter& rw = k == 2 ? (BinaryReaderWriter&)*i.brw : (BinaryReaderWriter&)*i.frw; rw.seek(at); xs[p[1]].wr(rw, f); if (k == 2) got = i.brw->str(); else { i.frw->close(); got = slurp(file()); } } eval(); std::string w2 = a; w2.replace(at, b.size(), b); ok = check(got == w2, "overwriting part of a file", nm + fmt(" at %zu through a %s", at, readerName(k))); } }
    if ((int)p.size() < depth) for (int i = 0; i < n; ++i) { p.push_back(i); go(); p.pop_back(); } }; go(); sample(in + fmt(": all programs of up to %d transfers", depth)); }
static Set *third, *tset;
template<class L> static void type(const char* nm, bool rich) { std::string in = std::string(nm) + " lattice"; for (int e : S) in += fmt(" %d", e); std::vector<Xfer<L>> x, few; viaAll(x); for (int s = 0; s < V; ++s) viaSite(x, s); for (int t = 0; t < S[Nd - 1]; ++t) viaSlice(x, t); viaSubset(x, ::QDP::all, "all"); for (int c = 0; c < 2; ++c) viaSubset(x, rb[c], fmt("checkerboard %d", c)); if (Nd == 4) for (int c = 0; c < rb3.numSubsets(); ++c) viaSubset(x, rb3[c], fmt("3d checkerboard %d", c)); for (int c = 0; c < 4; ++c) viaSubset(x, (*third)[c], fmt("every third site %d", c)); for (int c = 0; c < S[Nd - 1]; ++c) viaSubset(x, (*tset)[c], fmt("time set %d", c));
  for (auto& q : x) if (q.n.compare(0, 10, "time slice") || !cb3d()) if (!one(q, in, rich)) return; if (!rich) return; viaAll(few); viaSite(few, V - 1); viaSite(few, V / 2); if (!cb3d()) viaSlice(few, S[Nd - 1] - 1); viaSubset(few, rb[1], "odd"); viaSubset(few, (*third)[3], "empty"); for (auto& q : few) cuts(q, in); programs(few, in, 2 + (sizeof(typename El<L>::T) < 9)); }
template<class L> static void subsets(const char* nm) { std::string in = std::string(nm) + " every subset"; for (unsigned m = 0; m < 1u << V; ++m) { Set s; s.make(Mask(m)); std::vector<Xfer<L>> x; viaSubset(x, s[1], fmt("subset %x", m)); for (auto& q : x) if (!one(q, in, false)) return; } sample(in); }
static void slices() { LatticeInteger d; fill(d, 1); for (int t : {-1, S[Nd - 1], S[Nd - 1] + 1, -1000, 1 << 30}) { eval(); bool threw = false; try { TimeSliceIO<LatticeInteger> o(d, t); } catch (const std::string&) { threw = true; } check(threw, "a time outside the lattice is not refused", fmt("time %d of %d", t, S[Nd - 1])); } 
  if (cb3d()) for (int t = 0; t < S[Nd - 1]; ++t) { std::vector<Xfer<LatticeInteger>> x; viaSlice(x, t); BinaryBufferWriter w; fill(d, 1); x[0].wr(w, d); eval(); std::string right = img<LatticeInteger>(x[0].sites, 1); if (w.str() == right) continue; /* the numbers from t to the next slice's first (or to the end) */ std::vector<int> run(ord.begin() + t, t + 1 == S[Nd - 1] ? ord.end() : ord.begin() + t + 1); std::string in; for (int e : S) in += fmt(" %d", e); check(w.str() == img<LatticeInteger>(run, 1), "a time slice is neither the slice nor the run of CB3D numbers", in); if (w.str() == img<LatticeInteger>(run, 1)) violation("a time slice is the run of CB3D site numbers", in + fmt(" time %d", t)); } }
// under CB3D the library numbers sites with the last direction fastest, and fields follow: the recorded deviation, judged exactly
static void order() { ord.resize(V); for (int i = 0; i < V; ++i) ord[i] = i; if (!cb3d()) return; IV q(S); std::vector<int> alt(V); for (int i = 0; i < V; ++i) { IV c(Nd); int p = i; c[Nd - 1] = p % S[Nd - 1]; p /= S[Nd - 1]; for (int m = 0; m < Nd - 1; ++m) { c[m] = p % S[m]; p /= S[m]; } alt[i] = c2lex(c, S); } LatticeInteger d; fill(d, 1); BinaryBufferWriter w; write(w, d); eval(); if (w.str() == img<LatticeInteger>(ord, 1)) return; if (w.str() == img<LatticeInteger>(alt, 1)) { violation("fields are stored with the last direction fastest", fmt("volume %d", V)); ord = alt; } }
static void shape(const IV& s) { S = s; V = volume(s); lattice(s); lin.resize(V); for (int i = 0; i < V; ++i) lin[i] = Layout::linearSiteIndex(m1(lex2c(i, s))); order(); third = new Set; third->make(Third()); tset = new Set; tset->make(Time()); const bool small = V <= 8 * (1 + thorough());
  slices(); type<LatticeInteger>("integer", true); type<LatticeBoolean>("boolean", small); type<LatticeRealF>("single real", false); type<LatticeRealD>("double real", false); type<LatticeComplexF>("single complex", small); type<LatticeComplexD>("double complex", false); type<LatticeSeed>("seed", false); type<LatticeColorMatrixF>("single colour matrix", small); type<LatticeColorMatrixD>("double colour matrix", false); type<LatticeStaggeredFermionD>("double staggered fermion", false); 
#if QDP_NS == 4
  if (Nd == 4) { type<LatticeFermionF>("single fermion", false); type<LatticeFermionD>("double fermion", false); type<LatticeHalfFermionF>("single half fermion", false); type<LatticeHalfFermionD>("double half fermion", false); type<LatticeSpinMatrixF>("single spin matrix", false); if (small) { type<LatticePropagatorF>("single propagator", false); type<LatticePropagatorD>("double propagator", false); } }
#endif
  std::string in; for (int e : S) in += fmt(" %d", e); sample("lattice" + in + ": every type, site, slice and set"); if (V <= 8) { subsets<LatticeInteger>("integer"); subsets<LatticeColorMatrixF>("single colour matrix"); } unlink(file().c_str()); }
// listed larger lattices
template<class L> static void largeType(const char* nm) { std::string in = std::string(nm) + " lattice"; for (int e : S) in += fmt(" %d", e); std::vector<Xfer<L>> x; viaAll(x); for (int s : {0, 1, V / 2, V - 2, V - 1}) viaSite(x, s); viaSubset(x, ::QDP::all, "all"); viaSubset(x, rb[1], "checkerboard"); viaSubset(x, (*third)[2], "every third site"); const int T = S[Nd - 1]; for (int t : {0, T / 2, T - 1}) { if (!cb3d()) viaSlice(x, t); viaSubset(x, (*tset)[t], fmt("time set %d", t)); } for (auto& q : x) if (!one(q, in, q.n == "whole field" || q.n[0] == 't')) return; sample(in); }
static void large(const IV& s) { S = s; V = volume(s); lattice(s); lin.resize(V); for (int i = 0; i < V; ++i) lin[i] = Layout::linearSiteIndex(m1(lex2c(i, s))); order(); third = new Set; third->make(Third()); tset = new Set; tset->make(Time()); largeType<LatticeInteger>("integer"); largeType<LatticeComplexD>("double complex"); if (V < 7000) { largeType<LatticeColorMatrixF>("single colour matrix"); largeType<LatticeBoolean>("boolean"); } unlink(file().c_str()); }
int main(int argc, char** argv) { init(argc, argv); startup(); Pool pool(800); const int most = thorough() ? 48 : 16; int n = 0;
  std::function<void(IV)> go = [&](IV s) { if ((int)s.size() == Nd) { if (!acceptable(s)) return; ++n; pool.run("shape", [=] { shape(s); }); return; } for (int e = 1; e <= 8; ++e) { IV q = s; q.push_back(e); if (volume(q) <= most) go(q); } };
#if QDP_USE_CB32_LAYOUT == 1
  for (IV s : std::vector<IV>{{4, 2, 2, 2}, {4, 4, 2, 2}, {4, 2, 4, 2}, {4, 2, 2, 4}, {8, 2, 2, 2}}) { ++n; pool.run("shape", [=] { shape(s); }); }
#else
  go(IV());
#endif
  for (auto& s : largeShapes(80000)) { ++n; pool.run("large", [=] { large(s); }); }
  pool.drain(); return finish(); }
