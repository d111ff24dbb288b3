// C25: archive gauge configurations, against the documented word order, checksum and header.
#include "bio.h"
#include "qdp_iogauge.h"
#include <complex>
using namespace QDP; using namespace vf; typedef std::complex<double> Z; typedef multi1d<LatticeColorMatrix> U;
static IV S; static int V; static std::vector<int> lin, ord; static std::string tag;
static std::string file() { return scratch() + fmt("/c25.%d", (int)getpid()); }
static bool dbl() { return sizeof(REAL) == 8; }
// word (site, direction, row, column, part) of a pattern: a signed permutation matrix with unit determinant, its ones and zeros carrying their own number
struct Pat { int kind; int at; double operator()(int s, int d, int r, int c, int p) const { bool dense = kind == 1 || (kind == 0 && s * 4 + d == at); if (kind == 2) { static const int perm[3] = {1, 2, 0}; (void)perm; }
  int rot = dense || kind == 2 ? (s + 2 * d + 1) % 3 : 0; bool one = (r + rot) % 3 == c && p == 0; double sg = 1; if (rot || dense) { int z = (s + d) % 4; sg = z == 0 ? 1 : r == z - 1 ? 1 : -1; } int tok = (((s * 4 + d) * 3 + r) * 3 + c) * 2 + p; double v = one ? sg : 0; if (kind == 2) v = one ? sg * (1 + (tok % 8) * std::ldexp(1.0, -23)) : (tok % 5 == 0 ? -0.0 : std::ldexp(tok % 2 ? tok + 1.0 : -tok - 1.0, -149)); if (kind == 3) { int k = s % 2 ? 3 : 4, o = 7 - k; static const int ax[3][2] = {{0, 1}, {1, 2}, {0, 2}}; int a = ax[d % 3][0], b = ax[d % 3][1]; double m = p ? 0 : (r == c ? (r == a || r == b ? k / 5.0 : 1) : (r == a && c == b) ? o / 5.0 : (r == b && c == a) ? -o / 5.0 : 0); v = m; } return v; } };
static double asReal(double v) { return dbl() ? v : (double)(float)v; }
static void fill(U& u, const Pat& f) { u.resize(Nd); for (int d = 0; d < Nd; ++d) for (int s = 0; s < V; ++s) { auto& m = u[d].elem(lin[s]).elem(); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { m.elem(r, c).real() = f(s, d, r, c, 0); m.elem(r, c).imag() = f(s, d, r, c, 1); } } }
typedef std::function<double(int, int, int, int, int)> Words;
static std::string data(const Words& f, int mat, int fs, u32& sum) { std::string o; sum = 0; for (int s : ord) for (int d = 0; d < 4; ++d) for (int w = 0; w < mat; ++w) { double v = f(s, d, w / 6, w / 2 % 3, w % 2); if (fs == 4) { float x = v; u32 b; memcpy(&b, &x, 4); sum += b; o += be(x); } else { u64 b; memcpy(&b, &v, 8); sum += (u32)b + (u32)(b >> 32); o += be(v); } } return o; }
// what the links read must be: stored rows, and for two rows the conjugate cross product
static Z want(const Words& f, int mat, int s, int d, int r, int c) { auto e = [&](int i, int j) { return Z(asReal(f(s, d, i, j, 0)), asReal(f(s, d, i, j, 1))); }; if (r < 2 || mat == 18) return e(r, c); int a = (c + 1) % 3, b = (c + 2) % 3; return std::conj(e(0, a) * e(1, b) - e(0, b) * e(1, a)); }
static void meas(const Words& f, int mat, double& plaq, double& link) { auto M = [&](int s, int d) { std::vector<Z> m(9); for (int i = 0; i < 9; ++i) m[i] = want(f, mat, s, d, i / 3, i % 3); return m; }; auto mul = [](const std::vector<Z>& a, const std::vector<Z>& b) { std::vector<Z> r(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i * 3 + j] += a[i * 3 + k] * b[k * 3 + j]; return r; }; auto adj = [](const std::vector<Z>& a) { std::vector<Z> r(9); for (int i = 0; i < 9; ++i) r[i] = std::conj(a[i % 3 * 3 + i / 3]); return r; }; auto up = [&](int s, int d) { IV c = lex2c(s, S); c[d] = (c[d] + 1) % S[d]; return c2lex(c, S); };
  plaq = link = 0; for (int s = 0; s < V; ++s) for (int m = 0; m < 4; ++m) { auto u = M(s, m); link += (u[0] + u[4] + u[8]).real(); for (int n = 0; n < m; ++n) { auto p = mul(mul(M(s, m), M(up(s, m), n)), mul(adj(M(up(s, n), m)), adj(M(s, n)))); plaq += (p[0] + p[4] + p[8]).real(); } } plaq *= 2.0 / (V * 4 * 3 * 3); link /= V * 4 * 3; }
typedef std::vector<std::pair<std::string, std::string>> Head;
static Head head(const Words& f, int mat, int fs, u32 sum) { double p, l; meas(f, mat, p, l); Head h; h.push_back({"CHECKSUM", fmt("%x", sum)}); h.push_back({"LINK_TRACE", fmt("%.9g", l)}); h.push_back({"PLAQUETTE", fmt("%.9g", p)}); h.push_back({"DATATYPE", mat == 18 ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE"}); h.push_back({"HDR_VERSION", "1.0"}); h.push_back({"STORAGE_FORMAT", "1.0"}); for (int i = 0; i < 4; ++i) h.push_back({fmt("DIMENSION_%d", i + 1), fmt("%d", S[i])}); h.push_back({"FLOATING_POINT", fs == 8 ? "IEEE64BIG" : "IEEE32BIG"}); h.push_back({"SEQUENCE_NUMBER", "17"}); return h; }
static std::string text(const Head& h) { std::string o = "BEGIN_HEADER\n"; for (auto& e : h) o += e.first + " = " + e.second + "\n"; return o + "END_HEADER\n"; }
static bool linksAre(const U& u, const Words& f, int mat, const std::string& in) { for (int d = 0; d < 4; ++d) for (int s = 0; s < V; ++s) for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { auto& e = u[d].elem(lin[s]).elem().elem(r, c); double re = e.real(), im = e.imag(); Z w = want(f, mat, s, d, r, c); bool stored = r < 2 || mat == 18; eval(); bool ok = stored ? memcmp(&re, &reinterpret_cast<double(&)[2]>(w)[0], 8) == 0 && memcmp(&im, &reinterpret_cast<double(&)[2]>(w)[1], 8) == 0 : std::abs(Z(re, im) - w) <= 4e-7 * (dbl() ? 1e-8 : 1); if (!check(ok, stored ? "a link read differs from the stored one" : "a third row is not the conjugate cross product", in + fmt(" site %d direction %d row %d column %d: %.9g %.9g want %.9g %.9g", s, d, r, c, re, im, w.real(), w.imag()))) return false; } return true; }
static bool refusedBy(const ChildResult& r) { return r.out.empty() && ((r.exited && r.code) || (!r.exited && r.sig == SIGABRT)); }
static bool refuses(const std::string& bytes) { const std::string f = file(); spew(f, bytes); eval(); transition(); ChildResult r = child([&](int fd) { U u(4); ArchivGauge_t h; readArchiv(h, u, f); put(fd, "read"); _exit(0); }, 20); return refusedBy(r); }
static void quietly(const std::function<void()>& f) { std::cout.flush(); f(); }
// ---- a configuration written by the library and read back, and one written by hand
static bool roundTrip(const Pat& pat, int mat) { std::string in = tag + fmt(" pattern %d/%d, %d numbers", pat.kind, pat.at, mat); vf::cur(in); trace(); Words stored = [&](int s, int d, int r, int c, int p) { return (double)(float)asReal(pat(s, d, r, c, p)); }; U u; fill(u, pat); u32 sum; std::string want = data(stored, mat, 4, sum); eval(); if (!check(computeChecksum(u, mat) == sum, "checksum of a field", in)) return false;
  ArchivGauge_t h; h.mat_size = mat; h.boundary[3] = pat.kind % 2 ? -1 : 1; h.boundary[1] = pat.kind == 2 ? -1 : 1; h.sequence_number = 4711 + pat.at; h.ensemble_id = "id of it"; h.ensemble_label = "label"; h.creator = "a b c"; h.creator_hardware = "hw"; h.creation_date = "today"; h.archive_date = "to morrow"; transition(); writeArchiv(h, u, file()); std::string got = slurp(file()); size_t at = got.find("END_HEADER\n"); if (!check(at != std::string::npos && got.compare(0, 13, "BEGIN_HEADER\n") == 0, "header of a file", in)) return false; at += 11; state(hash(got.substr(at)));
  std::map<std::string, std::string> kv; std::istringstream hs(got.substr(13, at - 24)); for (std::string l; std::getline(hs, l);) { size_t e = l.find(" = "); if (e != std::string::npos) kv[l.substr(0, e)] = l.substr(e + 3); }
  bool ok = check(got.substr(at) == want, "image of the links", in) && check(kv["CHECKSUM"] == fmt("%x", sum), "checksum in the header", in + " " + kv["CHECKSUM"]) && check(kv["DATATYPE"] == (mat == 18 ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE") && kv["FLOATING_POINT"] == "IEEE32BIG", "kind of data in the header", in + " " + kv["DATATYPE"]); for (int i = 0; i < 4; ++i) ok = ok && check(kv[fmt("DIMENSION_%d", i + 1)] == fmt("%d", S[i]), "extent in the header", in); double p, l; meas([&](int s, int d, int r, int c, int q) { return asReal(pat(s, d, r, c, q)); }, 18, p, l); ok = ok && check(std::fabs(atof(kv["PLAQUETTE"].c_str()) - p) < 1e-5 && std::fabs(atof(kv["LINK_TRACE"].c_str()) - l) < 1e-5, "plaquette or link trace in the header", in + " " + kv["PLAQUETTE"] + " " + kv["LINK_TRACE"] + fmt(" want %g %g", p, l)); if (!ok) return false;
  U same; fill(same, pat); for (int d = 0; d < 4; ++d) for (int s = 0; s < V; ++s) ok = ok && bitsEqual(u[d].elem(s), same[d].elem(s)); if (!check(ok, "writing changes the links", in)) return false;
  ArchivGauge_t g; U v(4); for (int d = 0; d < 4; ++d) v[d] = Real(7); vf::cur(in + " read back"); transition(); readArchiv(g, v, file()); ok = linksAre(v, stored, mat, in) && check(g.checksum == sum && (int)g.mat_size == mat && g.float_size == 4, "checksum or sizes read", in) && check(g.boundary[0] == 1 && g.boundary[1] == h.boundary[1] && g.boundary[2] == 1 && g.boundary[3] == h.boundary[3], "boundary conditions read", in) && check(g.sequence_number == h.sequence_number && g.ensemble_id == h.ensemble_id && g.ensemble_label == h.ensemble_label && g.creator == h.creator && g.creator_hardware == h.creator_hardware && g.creation_date == h.creation_date && g.archive_date == h.archive_date, "header fields read", in); for (int i = 0; i < 4; ++i) ok = ok && check(g.nrow[i] == S[i], "extents read", in); if (ok && mat == 18) ok = check(computeChecksum(v, 18) == sum, "checksum of the links read", in); if (ok && mat == 12) ok = check(computeChecksum(v, 12) == sum, "checksum of the links read", in);
  if (ok) { U w(4); transition(); readArchiv(w, file()); ok = linksAre(w, stored, mat, in + " without header"); } return ok; }
static bool byHand(const Pat& pat, int mat, int fs, int variant) { std::string in = tag + fmt(" by hand: pattern %d/%d, %d numbers of %d bytes, header %d", pat.kind, pat.at, mat, fs, variant); vf::cur(in); trace(); Words st = [&](int s, int d, int r, int c, int p) { double v = pat(s, d, r, c, p); return fs == 4 ? (double)(float)v : v; }; u32 sum; std::string b = data(st, mat, fs, sum); Head h = head(st, mat, fs, sum); if (variant == 1) std::reverse(h.begin(), h.end()); if (variant == 2) { h.insert(h.begin(), {"SOMETHING", "else"}); h.push_back({"EMPTY", ""}); h.push_back({"BOUNDARY_1", "PERIODIC"}); } if (variant == 3 && fs == 4) for (auto& e : h) if (e.first == "FLOATING_POINT") e.second = "IEEE32"; if (variant == 4) for (auto& e : h) if (e.first == "CHECKSUM") for (auto& q : e.second) q = toupper(q); std::string all = text(h) + b; spew(file(), all); state(hash(all)); U v(4); ArchivGauge_t g; transition(); readArchiv(g, v, file()); return linksAre(v, st, mat, in) && check(g.checksum == sum && (int)g.mat_size == mat && (int)g.float_size == fs && g.sequence_number == 17, "header of a file by hand", in) && check(slurp(file()) == all, "reading changes the file", in); }
static void damage(int mat, int fs, bool everyByte) { Pat pat{3, 0}; Words st = [&](int s, int d, int r, int c, int p) { double v = pat(s, d, r, c, p); return fs == 4 ? (double)(float)v : v; }; u32 sum; const std::string b = data(st, mat, fs, sum); const Head h = head(st, mat, fs, sum); const std::string t = text(h); std::string in = tag + fmt(" %d numbers of %d bytes", mat, fs); trace();
  if (refuses(t + b)) { violation("a good file is refused", in); return; } for (size_t n = 0; n < t.size() + b.size(); n += n < t.size() || everyByte ? 1 : 37) { vf::cur(in + fmt(" cut at %zu", n)); state(hash(in) + n); if (!check(refuses((t + b).substr(0, n)), "a short file is not refused", in + fmt(" cut at %zu of %zu", n, t.size() + b.size()))) return; }
  for (size_t n = 0; n < b.size(); n += everyByte ? 1 : 29) { std::string q = b; q[n] ^= 1 << n % 8; vf::cur(in + fmt(" byte %zu", n)); if (!check(refuses(t + q), "changed links do not fail the checksum", in + fmt(" byte %zu", n))) return; }
  auto change = [&](const std::string& k, const std::string& v) { Head q = h; for (auto& e : q) if (e.first == k) e.second = v; vf::cur(in + " " + k); check(refuses(text(q) + b), "not refused: header with a wrong " + k, in + " " + v); }; change("CHECKSUM", fmt("%x", sum + 1)); change("CHECKSUM", fmt("%x", sum ^ 0x80000000u)); change("LINK_TRACE", "3"); change("PLAQUETTE", "-0.25"); change("DATATYPE", "4D_SU2_GAUGE"); change("DATATYPE", mat == 12 ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE"); change("FLOATING_POINT", "IEEE32LITTLE"); change("FLOATING_POINT", fs == 4 ? "IEEE64BIG" : "IEEE32BIG"); for (int i = 0; i < 4; ++i) { change(fmt("DIMENSION_%d", i + 1), fmt("%d", S[i] * 2)); Head q; for (auto& e : h) if (e.first != fmt("DIMENSION_%d", i + 1)) q.push_back(e); check(refuses(text(q) + b), "not refused: header without an extent", in); } check(refuses(t.substr(13) + b), "not refused: header without a beginning", in); check(refuses(b + t), "not refused: no header", in); sample(in + ": every cut, every changed byte"); }
static void order() { ord.resize(V); for (int i = 0; i < V; ++i) ord[i] = i;
#if QDP_USE_CB3D_LAYOUT == 1
  std::vector<int> alt(V); for (int i = 0; i < V; ++i) { IV c(4); int p = i; c[3] = p % S[3]; p /= S[3]; for (int m = 0; m < 3; ++m) { c[m] = p % S[m]; p /= S[m]; } alt[i] = c2lex(c, S); } Pat pat{2, 0}; U u; fill(u, pat); ArchivGauge_t h; h.mat_size = 12; writeArchiv(h, u, file()); std::string got = slurp(file()); got = got.substr(got.find("END_HEADER\n") + 11); u32 x; Words w = [&](int s, int d, int r, int c, int p) { return (double)(float)asReal(pat(s, d, r, c, p)); }; std::string a = data(w, 12, 4, x); ord = alt; std::string b = data(w, 12, 4, x); if (got == b && got != a) violation("links are stored with the last direction fastest", fmt("volume %d", V)); else for (int i = 0; i < V; ++i) ord[i] = i;
#endif
}
static void shape(const IV& s) { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); S = s; V = volume(s); lattice(s); lin.resize(V); for (int i = 0; i < V; ++i) lin[i] = Layout::linearSiteIndex(m1(lex2c(i, s))); tag = "lattice"; for (int e : s) tag += fmt(" %d", e); order(); const int t = thorough();
  for (int mat : {12, 18}) { for (int k = 1; k < 4; ++k) if (!roundTrip(Pat{k, 0}, mat)) return; for (int at = 0; at < V * 4; ++at) { if (!roundTrip(Pat{0, at}, mat)) return; if (V > 8 && !t) at += 6; } for (int fs : {4, 8}) for (int k = 1; k < 4; ++k) for (int v = 0; v < 5; ++v) if (!byHand(Pat{k, 0}, mat, fs, v)) return; }
  sample(tag + ": every pattern, size and header"); if (V <= 2 || (V == 4 && t) || (V == 32 && t)) for (int mat : {12, 18}) for (int fs : {4, 8}) damage(mat, fs, V <= 2); unlink(file().c_str()); }
// every value a header line can hold: each text in each field, long lines up to the limit, sequence numbers, boundary conditions
static void headers(const IV& s) { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); S = s; V = volume(s); lattice(s); lin.resize(V); for (int i = 0; i < V; ++i) lin[i] = Layout::linearSiteIndex(m1(lex2c(i, s))); order(); tag = "headers"; Pat pat{3, 0}; U u; fill(u, pat); Words st = [&](int s, int d, int r, int c, int p) { return (double)(float)asReal(pat(s, d, r, c, p)); };
  static const char* nm[] = {"ENSEMBLE_ID", "ENSEMBLE_LABEL", "CREATOR", "CREATOR_HARDWARE", "CREATION_DATE", "ARCHIVE_DATE"}; std::string ArchivGauge_t::*fld[] = {&ArchivGauge_t::ensemble_id, &ArchivGauge_t::ensemble_label, &ArchivGauge_t::creator, &ArchivGauge_t::creator_hardware, &ArchivGauge_t::creation_date, &ArchivGauge_t::archive_date}; static const char* base[] = {"some id", "some label", "some body", "some machine", "some day", "some other day"};
  auto one = [&](const std::string (&v)[6], int seq, const int (&bc)[4], const std::string& what) { ArchivGauge_t h; h.mat_size = 12; for (int i = 0; i < 6; ++i) h.*fld[i] = v[i]; h.sequence_number = seq; for (int i = 0; i < 4; ++i) h.boundary[i] = bc[i]; std::string in = tag + " " + what; vf::cur(in); trace(); transition(2); writeArchiv(h, u, file()); std::string got = slurp(file()); size_t at = got.find("\nEND_HEADER\n"); state(hash(got)); eval(3); std::map<std::string, std::string> kv; std::istringstream hs(got.substr(0, at == std::string::npos ? 0 : at + 1)); for (std::string l; std::getline(hs, l);) { size_t e = l.find(" = "); if (e != std::string::npos) kv[l.substr(0, e)] = l.substr(e + 3); }
    bool ok = true; for (int i = 0; i < 6; ++i) ok = ok && check(kv.count(nm[i]) && kv[nm[i]] == v[i], "field of the header written", in + " " + nm[i]); ok = ok && check(kv["SEQUENCE_NUMBER"] == fmt("%d", seq), "sequence number written", in); for (int i = 0; i < 4; ++i) ok = ok && check(kv[fmt("BOUNDARY_%d", i + 1)] == (bc[i] == 1 ? "PERIODIC" : "ANTIPERIODIC"), "boundary condition written", in); if (!ok) return false;
    ArchivGauge_t g; U w(4); const std::string nmf = file(); ChildResult r = child([&](int fd) { readArchiv(g, w, nmf); std::string bad; for (int i = 0; i < 6; ++i) if (g.*fld[i] != v[i]) bad += std::string(" ") + nm[i] + " is " + g.*fld[i]; if (g.sequence_number != (unsigned long)(long)seq && (int)g.sequence_number != seq) bad += " sequence number"; for (int i = 0; i < 4; ++i) if (g.boundary[i] != bc[i]) bad += fmt(" boundary %d", i + 1); for (int i = 0; i < 4; ++i) if (g.nrow[i] != S[i]) bad += fmt(" extent %d", i + 1); if (!linksAre(w, st, 12, in)) bad += " links"; put(fd, bad.empty() ? "same" : bad); _exit(0); }, 30); return check(r.exited && !r.code && r.out.find("same") != std::string::npos, "header read is not the one written", in + " " + esc(r.out).substr(0, 200)); };
  const int p4[4] = {1, 1, 1, 1}; const std::vector<std::string> odd = {"", "x", "a = b", "x=y", "=", "= =", "==x", "\"quoted\"", "tab\tinside", "two  blanks", "# note", "PERIODIC", "4D_SU3_GAUGE_3x3", "IEEE64BIG", "END_HEADER", "BEGIN_HEADER", "CHECKSUM = 0", "DIMENSION_1 = 77", "BOUNDARY_1 = ANTIPERIODIC", "%s %d %n", "\xc3\xa9t\xc3\xa9", "trailing  "};
  for (int f = 0; f < 6; ++f) { std::vector<std::string> vs = odd; const int room = 127 - (int)strlen(nm[f]) - 3; for (int l : {31, 32, 33, 63, 64, 65, 80, 100, room - 2, room - 1, room}) { vs.push_back(std::string(l, 'w')); std::string t; for (int i = 0; i < l; ++i) t += i % 9 == 8 && i + 1 < l ? ' ' : (char)('a' + i % 26); vs.push_back(t); } for (auto& x : vs) { std::string v[6]; for (int i = 0; i < 6; ++i) v[i] = i == f ? x : base[i]; if (!one(v, 3, p4, std::string(nm[f]) + " " + esc(x))) return; } }
  for (size_t a = 0; a < odd.size(); ++a) { std::string v[6]; for (int i = 0; i < 6; ++i) v[i] = odd[(a + i * 5) % odd.size()]; if (!one(v, 3, p4, fmt("mixture %zu", a))) return; }
  std::string v[6]; for (int i = 0; i < 6; ++i) v[i] = base[i]; for (int q : {0, 1, 9, 10, 99, 4096, 65535, 65536, 1000000, 2147483647}) if (!one(v, q, p4, fmt("sequence number %d", q))) return; for (int m = 0; m < 16; ++m) { int b[4]; for (int i = 0; i < 4; ++i) b[i] = m >> i & 1 ? -1 : 1; if (!one(v, 3, b, fmt("boundaries %d", m))) return; } unlink(file().c_str()); sample("every header text, number and boundary condition"); }
// listed larger lattices
static void large(const IV& s) { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); S = s; V = volume(s); lattice(s); lin.resize(V); for (int i = 0; i < V; ++i) lin[i] = Layout::linearSiteIndex(m1(lex2c(i, s))); tag = "lattice"; for (int e : s) tag += fmt(" %d", e); order();
  for (int mat : {12, 18}) { for (int k = 2; k < 4; ++k) if (!roundTrip(Pat{k, 0}, mat)) return; for (int at : {V * 4 - 1, V * 2, V * 4 / 3}) if (!roundTrip(Pat{0, at}, mat)) return; for (int fs : {4, 8}) { if (!byHand(Pat{3, 0}, mat, fs, 0)) return; Pat pat{3, 0}; Words st = [&](int s, int d, int r, int c, int p) { double v = pat(s, d, r, c, p); return fs == 4 ? (double)(float)v : v; }; u32 sum; const std::string b = data(st, mat, fs, sum), t = text(head(st, mat, fs, sum)); trace(); for (size_t cut : {(size_t)1, (size_t)fs, (size_t)fs * mat, b.size() / 2}) if (!check(refuses(t + b.substr(0, b.size() - cut)), "a short file is not refused", tag + fmt(" cut by %zu", cut))) return; for (size_t at : {(size_t)0, b.size() / 2, b.size() - 1}) { std::string q = b; q[at] ^= 4; if (!check(refuses(t + q), "changed links do not fail the checksum", tag + fmt(" byte %zu", at))) return; } } } sample(tag + " as a listed larger lattice"); unlink(file().c_str()); }
int main(int argc, char** argv) { init(argc, argv); startup(); Pool pool(800); const int most = thorough() ? 32 : 16;
  std::function<void(IV)> go = [&](IV s) { if ((int)s.size() == Nd) { if (acceptable(s)) pool.run("shape", [=] { shape(s); }); return; } for (int e = 1; e <= 6; ++e) { IV q = s; q.push_back(e); if (volume(q) <= most) go(q); } };
#if QDP_USE_CB32_LAYOUT == 1
  for (IV s : std::vector<IV>{{4, 2, 2, 2}, {4, 4, 2, 2}, {4, 2, 2, 4}}) pool.run("shape", [=] { shape(s); });
#else
  go(IV());
#endif
  pool.run("headers", [] { headers(IV{4, 2, 2, 2}); }); for (IV s : std::vector<IV>{{32, 2, 2, 2}, {2, 2, 2, 64}, {2, 34, 2, 2}, {4, 2, 20, 2}, {8, 8, 8, 8}}) if (acceptable(s)) pool.run("large", [=] { large(s); });
  pool.drain(); return finish(); }
