// C13: operation histories of every binary stream class against one byte array with a cursor.
#include "bio.h"
#include <fcntl.h>
using namespace QDP; using namespace vf;
// which: 0 buffer reader, 1 file reader, 2 buffer writer, 3 file writer, 4 buffer reader-writer, 5 file reader-writer on an existing file, 6 the same, created
static const char* NAME[] = {"buffer reader", "file reader", "buffer writer", "file writer", "buffer reader-writer", "file reader-writer", "new file reader-writer"};
struct Model { std::string d; long g = 0, p = 0; bool fail = false, crcKnown = true; u32 crc = 0; };
static std::string F() { return scratch() + fmt("/c13.%d", (int)getpid()); }
static std::string pattern(size_t n, int q) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(q * 53 + i * 7 + (i >> 8) + 1); return s; }
struct Sys { int which; long sc; std::unique_ptr<BinaryBufferReader> br; std::unique_ptr<BinaryFileReader> fr; std::unique_ptr<BinaryBufferWriter> bw; std::unique_ptr<BinaryFileWriter> fw; std::unique_ptr<BinaryBufferReaderWriter> brw; std::unique_ptr<BinaryFileReaderWriter> frw;
  BinaryReader* r() { return which == 0 ? (BinaryReader*)br.get() : which == 1 ? (BinaryReader*)fr.get() : which == 4 ? (BinaryReader*)brw.get() : which >= 5 ? (BinaryReader*)frw.get() : nullptr; }
  BinaryWriter* w() { return which == 2 ? (BinaryWriter*)bw.get() : which == 3 ? (BinaryWriter*)fw.get() : which == 4 ? (BinaryWriter*)brw.get() : which >= 5 ? (BinaryWriter*)frw.get() : nullptr; }
  BinaryReaderWriter* rw() { return which == 4 ? (BinaryReaderWriter*)brw.get() : which >= 5 ? (BinaryReaderWriter*)frw.get() : nullptr; }
  bool isFile() const { return which & 1 || which == 6; }
  std::string init() const { return pattern(7 * sc, 9); }
  void start(Model& m) { std::string f = F(), i = init(); m = Model(); if (which == 1 || which == 5) spew(f, i); else if (isFile()) unlink(f.c_str());
    switch (which) { case 0: br.reset(new BinaryBufferReader(i)); m.d = i; break; case 1: fr.reset(new BinaryFileReader(f)); m.d = i; break; case 2: bw.reset(new BinaryBufferWriter); break; case 3: fw.reset(new BinaryFileWriter(f)); break; case 4: brw.reset(new BinaryBufferReaderWriter(i)); m.d = i; break; case 5: frw.reset(new BinaryFileReaderWriter(f)); m.d = i; break; case 6: frw.reset(new BinaryFileReaderWriter(f, std::ios_base::in | std::ios_base::out | std::ios_base::trunc)); break; } }
  long pos() { return rw() ? (long)rw()->currentPosition() : r() ? (long)r()->currentPosition() : (long)w()->currentPosition(); }
  bool failed() { return rw() ? rw()->fail() : r() ? r()->fail() : w()->fail(); }
  u32 crc() { return rw() ? rw()->getChecksum() : r() ? r()->getChecksum() : w()->getChecksum(); }
};
enum { W1, W4, W3, R1, R4, R3, LINE, S0, S2, S9, B1, RM, RP, E0, E1, REW, RESET, FLUSH, REOPEN, CLEAR, NOPS };
static bool applies(int which, int op) { bool rd = which != 2 && which != 3, wr = which > 1, buf = which == 0 || which == 2 || which == 4; if (op == W1 || op == W4 || op == W3 || op == FLUSH) return wr; if (op == R1 || op == R4 || op == R3 || op == LINE) return rd; if (op == CLEAR) return buf; return true; }
static void adv(Model& m, const std::string& s) { m.crc = refcrc(m.crc, s); }
static bool step(Sys& s, Model& m, int op, int n, const std::string& key, const std::string& in) {
  const long sc = s.sc; const bool buf = !s.isFile(), joint = !buf; BinaryReader* r = s.r(); BinaryWriter* w = s.w(); BinaryReaderWriter* b = s.rw(); transition();
  auto put = [&](const std::string& x) { if (m.fail) { m.crcKnown = false; return; } if ((long)m.d.size() < m.p) m.d.resize(m.p, 0); m.d.replace(m.p, x.size(), x); m.p += x.size(); if (joint) m.g = m.p; adv(m, x); };
  auto get = [&](size_t k, const std::string& got) -> bool { if (m.fail) { m.crcKnown = false; return true; } if (m.g + (long)k > (long)m.d.size()) { m.g = std::max(m.g, (long)m.d.size()); m.fail = true; m.crcKnown = false; return true; } std::string want = m.d.substr(m.g, k); m.g += k; if (joint) m.p = m.g; adv(m, want); eval(); return check(got == want, key + ": bytes read", in + " got " + hex(got) + " want " + hex(want)); };
  auto seek = [&](long to) { m.crc = 0; m.crcKnown = true; if (m.fail) return; long& c = r ? m.g : m.p; if (to < 0 || (buf && to > (long)m.d.size())) { m.fail = true; return; } c = to; if (r && w) m.p = m.g = to; };
  long here = r ? m.g : m.p;
  switch (op) {
    case W1: { std::string x = pattern(sc, n); if (sc == 1) write(*w, x[0]); else w->writeArray(x.data(), 1, sc); put(x); break; }
    case W4: { int v = 0x01020304 * (n + 1); write(*w, v); put(be(v)); break; }
    case W3: { std::string x = pattern(3 * sc, n + 20); w->writeArray(x.data(), 1, x.size()); put(x); break; }
    case R1: { std::string x(sc, '?'); if (sc == 1) read(*r, x[0]); else r->readArray(&x[0], 1, sc); return get(sc, x); }
    case R4: { int v = -1; read(*r, v); return get(4, be(v)); }
    case R3: { std::string x(3 * sc, '?'); r->readArray(&x[0], 1, x.size()); return get(x.size(), x); }
    case LINE: break;
    case S0: if (b) b->seek(0); else if (r) r->seek(0); else w->seek(0); seek(0); break;
    case S2: if (b) b->seek(2 * sc); else if (r) r->seek(2 * sc); else w->seek(2 * sc); seek(2 * sc); break;
    case S9: if (b) b->seek(9 * sc); else if (r) r->seek(9 * sc); else w->seek(9 * sc); seek(9 * sc); break;
    case B1: if (b) b->seekBegin(sc); else if (r) r->seekBegin(sc); else w->seekBegin(sc); seek(sc); break;
    case RM: if (b) b->seekRelative(-sc); else if (r) r->seekRelative(-sc); else w->seekRelative(-sc); seek(here - sc); break;
    case RP: if (b) b->seekRelative(sc); else if (r) r->seekRelative(sc); else w->seekRelative(sc); seek(here + sc); break;
    case E0: if (b) b->seekEnd(0); else if (r) r->seekEnd(0); else w->seekEnd(0); seek(m.d.size()); break;
    case E1: if (b) b->seekEnd(sc); else if (r) r->seekEnd(sc); else w->seekEnd(sc); seek((long)m.d.size() - sc); break;
    case REW: if (b) b->rewind(); else if (r) r->rewind(); else w->rewind(); seek(0); break;
    case RESET: if (b) b->resetChecksum(); else if (r) r->resetChecksum(); else w->resetChecksum(); m.crc = 0; m.crcKnown = true; break;
    case FLUSH: w->flush(); if (!m.fail && s.isFile()) { eval(); return check(slurp(F()) == m.d, key + ": file after flush", in); } break;
    case REOPEN: { std::string keep = m.d; m = Model(); m.d = keep; std::string nw = pattern(4 * sc, 40 + n); switch (s.which) { case 0: s.br->open(nw); m.d = nw; break; case 1: s.fr->close(); s.fr->open(F()); break; case 2: s.bw->open(nw); m.d = nw; break; case 3: s.fw->close(); eval(); if (!check(slurp(F()) == keep, key + ": file after close", in)) return false; s.fw->open(F()); m.d.clear(); break; case 4: s.brw->open(nw); m.d = nw; break; default: s.frw->close(); eval(); if (!check(slurp(F()) == keep, key + ": file after close", in)) return false; s.frw->open(F()); } break; }
    case CLEAR: if (s.which == 0) s.br->clear(); else if (s.which == 2) s.bw->clear(); else s.brw->clear(); m.fail = false; m.crc = 0; m.crcKnown = true; break;
  }
  return true;
}
static bool observe(Sys& s, Model& m, const std::string& key, const std::string& in) {
  eval(3); bool ok = check(s.failed() == m.fail, key + ": failure reported", in + fmt(" want %d", m.fail)); if (m.crcKnown) ok = check(s.crc() == m.crc, key + ": checksum", in + fmt(" got %x want %x", s.crc(), m.crc)) && ok;
  if (!m.fail) { long p = s.pos(), want = s.r() ? m.g : m.p; ok = check(p == want, key + ": position", in + fmt(" got %ld want %ld", p, want)) && ok; } return ok;
}
static void run(int which, long sc, int first, int depth) {
  static const char* ON[] = {"W1", "W4", "W3", "R1", "R4", "R3", "LINE", "seek0", "seek2", "seek9", "begin1", "rel-1", "rel+1", "end0", "end1", "rewind", "reset", "flush", "reopen", "clear"};
  std::vector<int> ops; for (int o = 0; o < NOPS; ++o) if (o != LINE && applies(which, o)) ops.push_back(o);
  int n = ops.size(); long tot = 1; for (int i = 1; i < depth; ++i) tot *= n; Sys s; s.which = which; s.sc = sc; std::string base = NAME[which];
  for (long q = 0; q < tot; ++q) for (int mode = 0; mode < 2; ++mode) { Model m; std::string in = base + fmt(" scale %ld mode %d:", sc, mode); std::vector<int> h{ops[first]}; long r = q; for (int i = 1; i < depth; ++i) { h.push_back(ops[r % n]); r /= n; } for (int o : h) in += std::string(" ") + ON[o]; cur(in);
    s.start(m); bool ok = true; for (int i = 0; i < depth && ok; ++i) { ok = step(s, m, h[i], i, base, in); if (ok && mode == 0) { ok = observe(s, m, base, in + fmt(" (after %d)", i + 1)); } u64 k[4] = {(u64)m.g, (u64)m.p, (u64)m.fail | (u64)m.crc << 8, (u64)which << 32 | (u64)sc}; state(hash(m.d.data(), m.d.size(), hash(k, sizeof k))); }
    if (ok) { ok = observe(s, m, base, in); std::string got; eval(); switch (which) { case 0: got = s.br->str(); break; case 1: s.fr->close(); got = slurp(F()); break; case 2: got = s.bw->str(); break; case 3: s.fw->close(); got = slurp(F()); break; case 4: got = s.brw->str(); break; default: s.frw->close(); got = slurp(F()); } check(got == m.d, base + ": final contents", in); }
    trace(); }
  sample(base + fmt(": all histories of %d operations starting with %s", depth, ON[ops[first]])); unlink(F().c_str());
}
// positions beyond the range of 32-bit integers, in files with holes
static void far(int which) {
  std::string f = F(), base = std::string("large ") + NAME[which]; const long SIZE = (5L << 30) + 100, G2 = 1L << 31, G4 = 1L << 32; std::vector<long> P{0, 5, 70000, G2 - 4, G2 - 1, G2, G2 + 7, G4 - 2, G4, G4 + 9, SIZE - 4, SIZE - 50}; const int NP = P.size(), N = 4 * NP * 2;
  int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, SIZE)) { extra("large files skipped"); return; } auto mark = [&](long p, const std::string& b) { return pwrite(fd, b.data(), b.size(), p) == (long)b.size(); }; auto at = [&](long p) { std::string b(4, 0); return pread(fd, &b[0], 4, p) == 4 ? b : std::string("?"); };
  for (int q = 0; q < N * N; ++q) { Sys s; s.which = which; s.sc = 1; std::string in = base + ":"; long cur = 0, len = SIZE; bool ok = true; if (which != 3) for (int i = 0; i < NP; ++i) ok = ok && mark(P[i] + (i == 0 ? 0 : 0), be(1000 + i)); if (!ok) { extra("large files skipped"); break; }
    switch (which) { case 1: s.fr.reset(new BinaryFileReader(f)); break; case 3: s.fw.reset(new BinaryFileWriter(f)); len = 0; break; default: s.frw.reset(new BinaryFileReaderWriter(f)); } BinaryReader* r = s.r(); BinaryWriter* w = s.w(); BinaryReaderWriter* b = s.rw(); trace();
    for (int d = 0; d < 2 && ok; ++d) { int c = d ? q / N : q % N, kind = c % 4, p = c / 4 % NP, wr = c / 4 / NP; if ((wr && !w) || (!wr && !r)) continue; if (kind == 3 && len < P[p]) continue; long to = P[p]; in += fmt(" %s %ld %s", kind == 0 ? "seek" : kind == 1 ? "begin" : kind == 2 ? "relative" : "end", to, wr ? "write" : "read"); vf::cur(in);
      switch (kind) { case 0: if (b) b->seek(to); else if (r) r->seek(to); else w->seek(to); break; case 1: if (b) b->seekBegin(to); else if (r) r->seekBegin(to); else w->seekBegin(to); break; case 2: if (b) b->seekRelative(to - cur); else if (r) r->seekRelative(to - cur); else w->seekRelative(to - cur); break; default: if (b) b->seekEnd(len - to); else if (r) r->seekEnd(len - to); else w->seekEnd(len - to); }
      eval(2); transition(2); ok = check(s.pos() == to && !s.failed(), base + ": position", in + fmt(" got %ld", s.pos())); if (!ok) break; int v = -7; std::string was = at(to); if (wr) { write(*w, 0x31000000 + c); w->flush(); cur = to + 4; len = std::max(len, cur); ok = check(!s.failed() && at(to) == be(0x31000000 + c), base + ": bytes written", in); } else { read(*r, v); cur = to + 4; ok = check(!s.failed() && be(v) == was, base + ": bytes read", in + fmt(" got %x", v)); }
      ok = ok && check(s.pos() == cur, base + ": position after", in) && check(s.crc() == refcrc(0, wr ? be(0x31000000 + c) : was), base + ": checksum", in); struct stat sb; ok = ok && (which != 3 || check(fstat(fd, &sb) == 0 && sb.st_size == len, base + ": length of the file", in)); state(hash(&cur, 8, c)); }
    if (!ok) break; }
  close(fd); unlink(f.c_str()); sample(base + ": every pair of moves to 12 positions up to 5 GB, each followed by a transfer");
}
int main(int argc, char** argv) {
  init(argc, argv); startup(); IV ls(Nd, 2); lattice(ls); Pool pool(800);
  for (int which : {1, 3, 5}) pool.run("far", [=] { far(which); });
  for (int which = 0; which < 7; ++which) { int n = 0; for (int o = 0; o < NOPS; ++o) n += o != LINE && applies(which, o); bool file = which & 1 || which == 6;
    for (int f = 0; f < n; ++f) { int d = file ? 4 : 5; if (thorough()) d++; pool.run("hist", [=] { run(which, 1, f, d); }); pool.run("hist", [=] { run(which, 3000, f, thorough() ? 4 : 3); }); pool.run("hist", [=] { run(which, 70000, f, 2); }); } }
  pool.drain(); return finish();
}
