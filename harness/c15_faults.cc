// C15: every truncation point, device-full point, read error and short delivery, under every program of reads or writes.
// The read, write and writev calls of the stream library come to this file first, and it decides how much of the test file moves.
#include "bio.h"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <errno.h>
#include <alloca.h>
using namespace QDP; using namespace vf;
struct Fault { bool on = false; dev_t dev; ino_t ino; long budget = -1; int err = 0; long shots = 0; long chunk = 0; int intr = 0; long moved = 0, calls = 0, refused = 0; };
static Fault RF, WF;      // budget: bytes moved before err (0: end of file); shots: how many times the fault strikes, 0 = always; chunk: most bytes per call; intr: every intr-th call is interrupted
static bool mine(Fault& f, int fd) { if (!f.on) return false; struct stat s; return fstat(fd, &s) == 0 && s.st_dev == f.dev && s.st_ino == f.ino; }
static ssize_t limit(Fault& f, size_t n, bool& stop) {
  stop = false; f.calls++; if (f.intr && f.calls % f.intr == 0) { errno = EINTR; stop = true; return -1; }
  if (f.chunk && n > (size_t)f.chunk) n = f.chunk; if (f.budget < 0 || n == 0) return n;
  if (f.moved >= f.budget && !(f.shots && f.refused >= f.shots)) { f.refused++; stop = true; if (!f.err) return 0; errno = f.err; return -1; }
  if (f.moved < f.budget && f.moved + (long)n > f.budget) n = f.budget - f.moved; return n;
}
extern "C" ssize_t read(int fd, void* b, size_t n) { if (!mine(RF, fd)) return syscall(SYS_read, fd, b, n); bool stop; ssize_t k = limit(RF, n, stop); if (stop) return k; k = syscall(SYS_read, fd, b, k); if (k > 0) RF.moved += k; return k; }
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (!mine(WF, fd)) return syscall(SYS_write, fd, b, n); bool stop; ssize_t k = limit(WF, n, stop); if (stop) return k; k = syscall(SYS_write, fd, b, k); if (k > 0) WF.moved += k; return k; }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { if (!mine(WF, fd)) return syscall(SYS_writev, fd, v, c); std::string all; for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len); return write(fd, all.data(), all.size()); }
static void arm(Fault& f, const std::string& file, long budget, int err, long shots, long chunk, int intr) { struct stat s; if (stat(file.c_str(), &s)) abort(); f = Fault(); f.dev = s.st_dev; f.ino = s.st_ino; f.budget = budget; f.err = err; f.shots = shots; f.chunk = chunk; f.intr = intr; f.on = true; }
static std::string F() { return scratch() + fmt("/c15.%d", (int)getpid()); }
__attribute__((noinline)) static void poison(int v) { volatile char* p = (volatile char*)alloca(6000); for (int i = 0; i < 6000; ++i) p[i] = (char)v; }

// ---- items
struct Item { std::string name; std::function<void(BinaryWriter&)> put; std::function<std::string(BinaryReader&)> get; std::string bytes; };
template<class T> std::string again(const T& v) { BinaryBufferWriter w; write(w, v); return w.str(); }
static std::vector<Item> items;
template<class T> void item(const std::string& n, const T& v) { std::shared_ptr<T> p(new T(v)); items.push_back({n, [p](BinaryWriter& w) { write(w, *p); }, [](BinaryReader& r) { T x; read(r, x); return r.fail() ? std::string() : again(x); }, again(v)}); }
static int tk = 0;
template<class T> void fill(T& v) { words(v, [](auto& w) { w = ++tk % 119 + 1; }); }
static const size_t BIG = 20000;
static void makeItems() {
  item<char>("char", 'q'); item<short>("short", 0x1234); item<int>("int", 0x01020304); item<long long>("long long", 0x0102030405060708ll); item<float>("float", 1.5f); item<double>("double", -2.25); item<bool>("bool", true); item<std::complex<double>>("complex", {1.5, 2.5});
  items.push_back({"described string", [](BinaryWriter& w) { writeDesc(w, "some text"); }, [](BinaryReader& r) { std::string s; readDesc(r, s); return be((int)s.size()) + s; }, be(9) + "some text"});
  items.push_back({"line", [](BinaryWriter& w) { write(w, std::string("a line")); }, [](BinaryReader& r) { std::string s; read(r, s, 20); return s + "\n"; }, "a line\n"});
  items.push_back({"raw array", [](BinaryWriter& w) { int a[3] = {1, 2, 3}; w.writeArray((char*)a, 4, 3); }, [](BinaryReader& r) { int a[3]; r.readArray((char*)a, 4, 3); return be(a[0]) + be(a[1]) + be(a[2]); }, be(1) + be(2) + be(3)});
  multi1d<int> a(3); a[0] = 5; a[1] = 6; a[2] = 7; item("array", a); { multi1d<multi1d<int>> n(2); n[0] = a; n[1] = a; item("array of arrays", n); }
  { multi2d<int> m(2, 3); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) m(i, j) = 10 * i + j; item("2d array", m); }
  { multi3d<short> m(2, 1, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) m(i, 0, j) = 10 * i + j; item("3d array", m); }
  { multi4d<short> m(1, 2, 1, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) m(0, i, 0, j) = 10 * i + j; item("4d array", m); }
  { multi5d<char> m(1, 2, 1, 2, 1); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) m(0, i, 0, j, 0) = 10 * i + j; item("5d array", m); }
  { multi1d<int> sz(2); sz[0] = 2; sz[1] = 2; multiNd<int> m(sz); for (int i = 0; i < 4; ++i) m.getElem(i) = i; item("n-dimensional array", m); }
  item("std::vector", std::vector<double>{1, 2}); item("std::list", std::list<int>{4, 5, 6}); { std::vector<int> v{8, 9}; Array1dO<int> o(v); item("1-based array", o); }
  { std::map<int, std::vector<int>> m; m[3] = {1, 2}; m[1] = {7}; item("std::map", m); } item("std::pair", std::make_pair((short)4, 2.5));
  { ColorMatrix m; fill(m.elem()); item("colour matrix", m); } { DiracFermion d; fill(d.elem()); item("Dirac fermion", d); } { Integer i = 77; item("integer", i); }
  { LatticeInteger l; for (int i = 0; i < Layout::sitesOnNode(); ++i) fill(l.elem(i)); item("integer field", l); } { LatticeComplex l; for (int i = 0; i < Layout::sitesOnNode(); ++i) fill(l.elem(i)); item("complex field", l); }
  std::string b(BIG, 0); for (size_t i = 0; i < BIG; ++i) b[i] = (char)(i * 31 + (i >> 8));
  items.push_back({"block", [b](BinaryWriter& w) { w.writeArray(b.data(), 1, b.size()); }, [](BinaryReader& r) { std::string g(BIG, 0); r.readArray(&g[0], 1, BIG); return g; }, b});
}
static int NS() { return (int)items.size() - 1; }      // small items; the last one is the block
typedef std::vector<int> Prog;
static std::string pname(const Prog& p) { std::string s; for (int i : p) s += (s.empty() ? "" : ", ") + items[i].name; return s; }
static std::string whole(const Prog& p) { std::string s; for (int i : p) s += items[i].bytes; return s; }
static bool judge(ChildResult c, const std::string& key, const std::string& in) { if (!c.exited || c.code) { violation(key + ": the process died", in + fmt(" exit %d signal %d", c.code, c.sig)); return false; } bool ok = true; size_t p = 0; while (p < c.out.size()) { size_t e = c.out.find('\n', p); std::string l = c.out.substr(p, e - p); size_t t = l.find('\t'); violation(l.substr(0, t), l.substr(t + 1)); ok = false; p = e + 1; } return ok; }
// ---- reading a file of which only part arrives
static BinaryReader* openR(int k, std::unique_ptr<BinaryFileReader>& fr, std::unique_ptr<BinaryFileReaderWriter>& rw) { if (k == 0) { fr.reset(new BinaryFileReader(F())); return fr.get(); } rw.reset(new BinaryFileReaderWriter(F())); return rw.get(); }
static const char* RN[] = {"file reader", "file reader-writer"};
static bool readCase(int k, const Prog& p, const std::string& data, long t, int how, int err, const std::string& in) {     // how: 0 truncated file, 1 error at t, 2 error at t once
  if (how == 0) spew(F(), data.substr(0, t)); RF.on = false; if (how) arm(RF, F(), t, err, how == 2 ? 1 : 0, 0, 0);
  std::unique_ptr<BinaryFileReader> fr; std::unique_ptr<BinaryFileReaderWriter> rw; BinaryReader* r = openR(k, fr, rw); bool ok = true, bad = false; long at = 0; std::string key = RN[k]; eval(p.size() + 2);
  for (size_t i = 0; i < p.size() && ok; ++i) { const Item& it = items[p[i]]; transition(); poison(i & 1 ? 0xff : 0x7f); std::string got = it.get(*r); at += it.bytes.size(); bad = at > t;
    ok = check(r->fail() == bad, key + (bad ? ": a read of bytes that never arrived is not reported" : ": a read of bytes that arrived fails"), in + " at " + it.name); if (ok && !bad) ok = check(got == it.bytes, key + ": value read before the fault", in + " at " + it.name + " got " + hex(got)); }
  if (ok) { char c = 'x'; read(*r, c); ok = check(r->fail() || how == 2, key + ": reading on past the end is not reported", in); if (bad) ok = check(r->fail(), key + ": a failure is forgotten by a later read", in) && ok; r->resetChecksum(); r->rewind(); int z; read(*r, z); if (bad) ok = check(r->fail(), key + ": a failure is forgotten after rewind", in) && ok; }
  if (ok && bad && how != 1) { RF.on = false; if (fr) fr->close(); else rw->close(); spew(F(), data); if (fr) fr->open(F()); else rw->open(F()); std::string got = items[p[0]].get(*r); ok = check(!r->fail() && got == items[p[0]].bytes, key + ": a freshly opened file is still refused", in); }
  RF.on = false; u64 s[4] = {(u64)k, (u64)t, (u64)how * 1000 + err, hash(data)}; state(hash(s, sizeof s)); trace(); return ok;
}
static void readAll(int k, const Prog& p, const std::vector<long>& cuts, int modes) {
  std::string data = whole(p), base = std::string(RN[k]) + " on " + pname(p); cur(base);
  for (int how = 0; how < 3; ++how) { if (!(modes >> how & 1)) continue; if (how) spew(F(), data); for (long t : cuts) { std::string in = base + fmt(" cut at %ld of %zu, kind %d", t, data.size(), how); cur(in); if (!readCase(k, p, data, t, how, how ? EIO : 0, in)) return; } }
}
static void shortReads(int k, const Prog& p) { std::string data = whole(p); spew(F(), data); for (int chunk : {1, 3, 7}) for (int intr : {0, 2, 3}) { std::string in = std::string(RN[k]) + " on " + pname(p) + fmt(" in pieces of %d, every %d interrupted", chunk, intr); cur(in); eval(p.size()); trace(); arm(RF, F(), -1, 0, 0, chunk, intr); std::unique_ptr<BinaryFileReader> fr; std::unique_ptr<BinaryFileReaderWriter> rw; BinaryReader* r = openR(k, fr, rw);
    for (size_t i = 0; i < p.size(); ++i) { std::string got = items[p[i]].get(*r); transition(); if (!check(!r->fail() && got == items[p[i]].bytes, std::string(RN[k]) + ": data arriving in pieces", in + " at " + items[p[i]].name)) break; } RF.on = false; } }
// ---- writing to a device that takes only part
static const char* WN[] = {"file writer", "file reader-writer", "text file writer"};
struct W { int k; std::unique_ptr<BinaryFileWriter> fw; std::unique_ptr<BinaryFileReaderWriter> rw; std::unique_ptr<TextFileWriter> tw;
  W(int kind) : k(kind) { if (k == 0) fw.reset(new BinaryFileWriter(F())); else if (k == 1) rw.reset(new BinaryFileReaderWriter(F(), std::ios_base::in | std::ios_base::out | std::ios_base::trunc)); else tw.reset(new TextFileWriter(F())); }
  void put(int i) { if (k == 2) *tw << i * 1000003 << "\n"; else items[i].put(k == 0 ? (BinaryWriter&)*fw : (BinaryWriter&)*rw); }
  std::string bytes(int i) { return k == 2 ? fmt("%d\n", i * 1000003) : items[i].bytes; }
  bool fail() { return k == 0 ? fw->fail() : k == 1 ? rw->fail() : tw->fail(); } void flush() { k == 0 ? fw->flush() : k == 1 ? rw->flush() : tw->flush(); } void close() { k == 0 ? fw->close() : k == 1 ? rw->close() : tw->close(); } };
// fl: bit mask of items followed by a flush; end: 0 flush then close, 1 close only
static bool writeCase(int k, const Prog& p, long b, int err, int shots, int fl, int end) {
  std::string in = std::string(WN[k]) + " on " + pname(p) + fmt(" accepting %ld bytes, errno %d, shots %d, flush after %x, end %d", b, err, shots, fl, end), key = WN[k]; cur(in); eval(p.size() + 2); trace();
  W w(k); arm(WF, F(), b, err, shots, 0, 0); std::string all; bool ok = true;
  for (size_t i = 0; i < p.size() && ok; ++i) { transition(); w.put(p[i]); all += w.bytes(p[i]); if (fl >> i & 1) { w.flush(); bool bad = (long)all.size() > b; ok = check(w.fail() == bad, key + (bad ? ": bytes the device refused are not reported after flush" : ": a flush fails although all bytes were accepted"), in + fmt(" item %zu", i)); if (ok && !bad) { WF.on = false; ok = check(slurp(F()) == all, key + ": file after flush", in); WF.on = true; } } else if (WF.refused) ok = check(w.fail() || (long)all.size() <= b, key + ": a refused transfer is not reported", in + fmt(" item %zu", i)); }
  bool bad = (long)all.size() > b;
  if (ok && end == 0) { w.flush(); ok = check(w.fail() == bad, key + (bad ? ": bytes the device refused are not reported after flush" : ": a flush fails although all bytes were accepted"), in); }
  if (ok && bad && end == 0) { w.put(p[0]); w.flush(); ok = check(w.fail(), key + ": a failure is forgotten by a later write", in); }
  if (ok) { w.close(); ok = check(w.fail() == bad, key + (bad ? ": bytes the device refused are not reported after close" : ": close fails although all bytes were accepted"), in); }
  WF.on = false; if (ok && !bad) ok = check(slurp(F()) == all, key + ": file contents", in); if (ok && bad && !shots) ok = check(slurp(F()) == all.substr(0, b), key + ": the accepted bytes are not the first ones written", in);
  u64 s[6] = {(u64)k, (u64)b, (u64)err, (u64)shots, (u64)fl << 4 | end, hash(all)}; state(hash(s, sizeof s)); return ok;
}
static void shortWrites(int k, const Prog& p) { for (int chunk : {1, 3, 7}) for (int intr : {0, 2, 3}) for (int fl = 0; fl < 2; ++fl) { std::string in = std::string(WN[k]) + " on " + pname(p) + fmt(" in pieces of %d, every %d interrupted", chunk, intr); cur(in); W w(k); arm(WF, F(), -1, 0, 0, chunk, intr); std::string all; for (int i : p) { w.put(i); all += w.bytes(i); if (fl) w.flush(); transition(); } bool f1 = w.fail(); w.close(); WF.on = false; eval(2); trace(); check(!f1 && !w.fail(), std::string(WN[k]) + ": bytes accepted in pieces are reported as failed", in); check(slurp(F()) == all, std::string(WN[k]) + ": bytes accepted in pieces", in); } }
// seeks and reads between writes on a reader-writer whose device fills up
static bool rwCase(const Prog& p, long b, int mid) {
  std::string in = "file reader-writer on " + pname(p) + fmt(" accepting %ld bytes, then %d", b, mid), key = "file reader-writer"; cur(in); W w(1); arm(WF, F(), b, ENOSPC, 1, 0, 0); std::string all; for (int i : p) { w.put(i); all += items[i].bytes; } bool bad = (long)all.size() > b; eval(2); trace(); std::string got;
  switch (mid) { case 0: w.rw->rewind(); got = items[p[0]].get(*w.rw); break; case 1: w.rw->seekEnd(0); break; case 2: w.rw->currentPosition(); w.rw->seek(0); w.rw->seekEnd(0); break; case 3: w.rw->seekRelative(-1); { char c; read(*w.rw, c); } break; }
  bool ok = true; if (bad) { ok = check(w.fail(), key + ": bytes the device refused are not reported after a seek", in); w.put(0); w.flush(); ok = check(w.fail(), key + ": a failure is forgotten by a later write", in) && ok; } else ok = check(!w.fail(), key + ": fails although all bytes were accepted", in) && (mid || check(got == items[p[0]].bytes, key + ": value read back", in)); w.close(); WF.on = false; transition(3); return ok;
}
// ---- text files: what is good is what the delivered bytes say, by a plain stream over the delivered bytes
static void textRead(const std::string& data, long t, int how, const std::string& prog) {
  std::string in = "text file " + esc(data) + fmt(" cut at %ld kind %d reading ", t, how) + prog; cur(in); eval(prog.size() + 1); trace(); spew(F(), how ? data : data.substr(0, t)); if (how) arm(RF, F(), t, EIO, how == 2, 0, 0);
  TextFileReader r(F()); std::istringstream s(data.substr(0, t)); bool gone = false;
  for (char c : prog) { transition(); std::string a, b; switch (c) { case 'i': { int x = 0, y = 0; r >> x; s >> y; a = fmt("%d", x); b = fmt("%d", y); break; } case 'd': { double x = 0, y = 0; r >> x; s >> y; a = fmt("%a", x); b = fmt("%a", y); break; } case 's': { std::string x, y; r >> x; s >> y; a = x; b = y; break; } case 'c': { char x = 0, y = 0; r >> x; s >> y; a = x; b = y; break; } case 'b': { bool x = 0, y = 0; r >> x; s >> y; a = x ? "1" : "0"; b = y ? "1" : "0"; break; } }
    if (how && (s.fail() || s.eof())) gone = gone || s.fail() || c != 'c';      // the error was met while looking for more
    if (gone && how) { if (!check(r.fail() || (!s.fail() && a == b), "text file reader: a read error is not reported", in)) break; if (r.fail()) break; }
    else if (!check(r.fail() == s.fail(), "text file reader: failure reported", in + fmt(" want %d", s.fail()))) break; else if (!s.fail() && !check(a == b, "text file reader: value read", in + " got " + a + " want " + b)) break; }
  if (s.fail()) { int x; r >> x; check(r.fail(), "text file reader: a failure is forgotten", in); } RF.on = false; state(hash(in));
}
// ---- files that cannot be opened
static void unopenable() {
  std::string d = scratch() + fmt("/c15d.%d", (int)getpid()), ro = d + "/f"; mkdir(d.c_str(), 0755); spew(ro, std::string(64, 'x'));
  struct Case { const char* n; std::string path; int lim; bool dir; } cs[] = {{"missing file", d + "/none", 0, false}, {"missing directory", d + "/no/f", 0, false}, {"directory", d, 0, true}, {"file as directory", ro + "/f", 0, false}, {"empty name", "", 0, false}, {"too many open files", ro, 1, false}, {"over-long name", d + "/" + std::string(300, 'n'), 0, false}};
  for (auto& c : cs) for (int k = 0; k < 6; ++k) for (int late = 0; late < 2; ++late) { bool writer = k == 3 || k == 4; if (writer && !strcmp(c.n, "missing file")) continue; static const char* KN[] = {"binary file reader", "file reader-writer", "text file reader", "binary file writer", "text file writer", "file reader-writer (two-step)"}; std::string in = std::string(KN[k]) + " on " + c.n + fmt(" late %d", late); cur(in); eval(); trace(); transition(); state(hash(in));
    ChildResult r = child([&](int fd) { if (c.lim) { int f = dup(0); close(f); struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = f; setrlimit(RLIMIT_NOFILE, &l); }
      bool bad = false; switch (k) {
        case 0: { BinaryFileReader b; if (late) { b.open(c.path); } else { BinaryFileReader q(c.path); int x; read(q, x); bad = q.fail(); break; } int x; read(b, x); bad = b.fail(); break; }
        case 1: { BinaryFileReaderWriter q(c.path); int x; read(q, x); bad = q.fail(); break; }
        case 2: { TextFileReader b; b.open(c.path); std::string x; b >> x; bad = b.fail(); break; }
        case 3: { BinaryFileWriter b; if (late) b.open(c.path); else { BinaryFileWriter q(c.path); write(q, 1); q.flush(); bad = q.fail(); break; } write(b, 1); b.flush(); bad = b.fail(); break; }
        case 4: { TextFileWriter b; b.open(c.path); b << 1; b.flush(); bad = b.fail(); break; }
        case 5: { BinaryFileReaderWriter b; b.open(c.path); int x; read(b, x); bad = b.fail(); break; } }
      const char* m = bad ? "bad" : "good"; syscall(SYS_write, fd, m, strlen(m)); _exit(0); });
    check((r.exited && r.code != 0) || r.sig == SIGABRT || r.out == "bad", std::string(KN[k]) + ": " + c.n + " passes as good", in + fmt(" exit %d signal %d says %s", r.code, r.sig, r.out.c_str())); }
  unlink(ro.c_str()); rmdir(d.c_str());
}
static void closed() {      // streams never opened, or closed
  spew(F(), std::string(64, 'x')); for (int late = 0; late < 2; ++late) { std::string in = late ? "closed" : "never opened"; eval(5); trace(); transition(5); state(hash(in));
    { BinaryFileReader r; if (late) { r.open(F()); r.close(); } int x; read(r, x); check(r.fail(), "binary file reader: " + in + " stream reads as good"); } { TextFileReader r; if (late) { r.open(F()); r.close(); } std::string x; r >> x; check(r.fail(), "text file reader: " + in + " stream reads as good"); }
    { BinaryFileReaderWriter r; if (late) { r.open(F()); r.close(); } int x; read(r, x); check(r.fail(), "file reader-writer: " + in + " stream reads as good"); } { BinaryFileReaderWriter r; if (late) { r.open(F()); r.close(); } write(r, 3); check(r.fail(), "file reader-writer: " + in + " stream writes as good"); }
    { BinaryFileWriter w; if (late) { w.open(F()); w.close(); } write(w, 3); check(w.fail(), "binary file writer: " + in + " stream writes as good"); } { TextFileWriter w; if (late) { w.open(F()); w.close(); } w << 3; check(w.fail(), "text file writer: " + in + " stream writes as good"); } }
}
static std::vector<long> every(long n) { std::vector<long> v; for (long i = 0; i <= n; ++i) v.push_back(i); return v; }
template<class Fn> void task(Pool& pool, const char* l, Fn fn) { pool.run(l, [=] { fn(); RF.on = WF.on = false; unlink(F().c_str()); }); }
int main(int argc, char** argv) {
  struct rlimit lim = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &lim);
  init(argc, argv); startup(); IV ls(Nd, 2); lattice(ls); makeItems(); const int n = NS(), blk = n; Pool pool(600);
  for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) task(pool, "read", [=] { for (int j = -1; j < n; ++j) { Prog p{i}; if (j >= 0) p.push_back(j); std::string d = whole(p); readAll(k, p, every(d.size()), 7); shortReads(k, p); if (thorough() && j >= 0) for (int q = 0; q < n; ++q) { Prog p3{i, j, q}; readAll(k, p3, every(whole(p3).size()), 1); } } sample(pname({i}) + ": every cut of every pair"); });
  for (int k = 0; k < 2; ++k) for (int part = 0; part < 8; ++part) task(pool, "block", [=] { Prog p{2, blk, 8, blk}; long tot = whole(p).size(); std::vector<long> c; for (long t = 0; t <= tot; ++t) if (t % 8 == part && (thorough() || t % 16 < 8 || t % 8191 < 24 || t % 8192 < 24 || t < 64 || t > tot - 64 || (t > 20000 && t < 20080))) c.push_back(t); readAll(k, p, c, thorough() ? 7 : 3); if (!part) shortReads(k, p); });
  for (int k = 0; k < 3; ++k) for (int i = 0; i < n; ++i) task(pool, "write", [=] { for (int j = -1; j < n; ++j) { if (k == 2 && (j > 8 || i > 8)) continue; Prog p{i}; if (j >= 0) p.push_back(j); long tot = 0; { W w(k); for (int q : p) tot += w.bytes(q).size(); } shortWrites(k, p); if (tot > 300 && !thorough() && (i + j) % 4) continue; for (long b = 0; b <= tot; ++b) for (int err : {ENOSPC, EIO}) for (int shots = 0; shots < 2; ++shots) for (int fl = 0; fl < 1 << p.size(); ++fl) for (int end = 0; end < 2; ++end) { if (err == EIO && (fl || end)) continue; if (!writeCase(k, p, b, err, shots, fl, end)) return; } } });
  for (int k = 0; k < 2; ++k) for (int part = 0; part < 8; ++part) task(pool, "wblock", [=] { Prog p{2, blk, 8, blk}; long tot = whole(p).size(); for (long b = part; b <= tot; b += 8) { if (!thorough() && b % 8191 > 24 && b % 8192 > 24 && b % 20004 > 40 && b % 48 >= 8) continue; for (int fl : {0, 2, 6}) for (int shots = 0; shots < 2; ++shots) for (int end = 0; end < 2; ++end) if (!writeCase(k, p, b, ENOSPC, shots, fl, end)) return; } if (!part) shortWrites(k, p); });
  task(pool, "wtext", [=] { Prog p; for (int i = 0; i < 2600; ++i) p.push_back(i % 9 + 1); W w0(2); long tot = 0; for (int i : p) tot += w0.bytes(i).size(); for (long b = 0; b <= tot; b += thorough() ? 7 : 61) for (int end = 0; end < 2; ++end) for (int shots = 0; shots < 2; ++shots) if (!writeCase(2, p, b, ENOSPC, shots, 0, end)) return; });
  for (int i = 0; i < n; ++i) task(pool, "rw", [=] { for (int j = 0; j < n; ++j) { Prog p{i, j}; long tot = whole(p).size(); for (long b = 0; b <= tot; ++b) for (int mid = 0; mid < 4; ++mid) if (!rwCase(p, b, mid)) return; } });
  task(pool, "text", [=] { const std::string al = "idscb"; std::vector<std::string> progs; for (char a : al) for (char b : al) for (char c : al) progs.push_back({a, b, c}); for (std::string d : {"12 34 56\n", "1 0 1\n", "1.5e3 -2 abc\n", "ab cd ef", "  7\n\n8\n 9 "}) for (long t = 0; t <= (long)d.size(); ++t) for (int how = 0; how < 3; ++how) { if (how && t == (long)d.size()) continue; for (auto& p : progs) textRead(d, t, how, p); }
    std::string big; std::string pr; for (int i = 0; i < 2600; ++i) { big += fmt("%d\n", i * 1003); pr += 'i'; } for (long t = 0; t <= (long)big.size(); t += thorough() ? 3 : 37) for (int how = 0; how < 3; ++how) textRead(big, t, how, pr); });
  task(pool, "open", [=] { unopenable(); }); task(pool, "closed", [=] { closed(); });
  pool.drain(); return finish();
}
