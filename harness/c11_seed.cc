// C11: histories of setting, saving, restoring and drawing, for both generators.
#include "rng.h"
#include "qdp_rannyu.h"
using namespace QDP; using namespace vf;
static int V;
struct Half : SetFunc { int operator()(const multi1d<int>& x) const override { return x[0] + x[1] > 0; } int numSubsets() const override { return 3; } };
static Set* HS;
static const u64 SA[] = {11, M47, 0x1000ull, 0x400000000001ull};
struct St { Ref R; u64 slot[2]; };
enum { SETA, SETB, SAVE0, SAVE1, REST0, REST1, SC, LAT, SUB, EMPTY, GAUSS, INIT, NOPS };
static Seed slots[2];
static bool step(int op, St& s, const std::string& in) {
  auto cmpSeed = [&](const char* w) { Seed t; RNG::savern(t); eval(); return check(wellFormed(t) && seedVal(t) == s.R.seed, std::string("lattice generator: ") + w, in + fmt(" got %llx want %llx", seedVal(t), s.R.seed)); };
  transition();
  switch (op) {
    case SETA: RNG::setrn(mkSeed(SA[0] + 4096)); s.R.seed = SA[0] + 4096; break; case SETB: RNG::setrn(mkSeed(SA[1])); s.R.seed = SA[1]; break;
    case SAVE0: case SAVE1: RNG::savern(slots[op - SAVE0]); s.slot[op - SAVE0] = s.R.seed; eval(); return check(seedVal(slots[op - SAVE0]) == s.R.seed, "lattice generator: saved seed", in);
    case REST0: case REST1: RNG::setrn(slots[op - REST0]); s.R.seed = s.slot[op - REST0]; break;
    case SC: { Real r; random(r); auto w = s.R.scalar(1); eval(); if (!check(closeU(toDouble(r), w[0]), "lattice generator: scalar draw", in)) return false; break; }
    case LAT: { LatticeReal r; random(r); for (int i = 0; i < V; ++i) { auto w = s.R.site(c2lex(v1(Layout::siteCoords(0, i)), v1(Layout::lattSize())), 1); eval(); if (!check(closeU(wordsOf(r.elem(i))[0], w[0]), "lattice generator: lattice draw", in)) return false; } s.R.advance(1); break; }
    case SUB: { LatticeComplex r; random(r, (*HS)[1]); s.R.advance(2); break; } case EMPTY: { LatticeComplex r; random(r, (*HS)[2]); s.R.advance(2); break; }
    case GAUSS: { LatticeComplex r; gaussian(r); s.R.advance(4); break; }
    case INIT: RNG::setrn(mkSeed(0)); RNG::initDefaultRNG(); s.R.seed = 11; break;
  }
  return cmpSeed("seed in force");
}
static void lattice_hist(int a, int b, int depth) {
  std::vector<int> ops(depth); long n = 1; for (int i = 2; i < depth; ++i) n *= NOPS;
  for (long q = 0; q < n; ++q) { RNG::initDefaultRNG(); St s; s.R.lattice(V); s.R.seed = 11; for (int i = 0; i < 2; ++i) { slots[i] = mkSeed(SA[2 + i]); s.slot[i] = SA[2 + i]; }
    ops[0] = a; ops[1] = b; long r = q; for (int i = 2; i < depth; ++i) { ops[i] = r % NOPS; r /= NOPS; }
    std::string in = "ops"; for (int o : ops) in += fmt(" %d", o); cur(in); for (int o : ops) if (!step(o, s, in)) break;
    uint64_t key[3] = {s.R.seed, s.slot[0], s.slot[1]}; state(hash(key, sizeof key)); trace(); }
}
// ---- the stand-alone generator: x -> 31167285 x + 1 mod 2^48
static const u64 M48 = (1ull << 48) - 1;
static u64 ynext(u64 x) { return (x * 31167285ull + 1) & M48; }
static double yval(u64 x) { return (double)x / 281474976710656.0; }
static multi1d<int> yseed(u64 x) { multi1d<int> s(4); for (int i = 0; i < 4; ++i) s[i] = x >> (12 * (3 - i)) & 4095; return s; }
static bool yget(const multi1d<int>& s, u64& x) { if (s.size() != 4) return false; x = 0; for (int i = 0; i < 4; ++i) { if (s[i] < 0 || s[i] > 4095) return false; x = x << 12 | (u64)s[i]; } return true; }
static const u64 YDEF = (13ull << 36) + (15ull << 24) + (1ull << 12) + 17;
// histories start in a process that never used the generator; a branch of the tree is a forked process
struct YSt { u64 seed, slot, own; multi1d<int> saved; RANNYU::RNGState_t st; };
enum { YDRAW, YSETA, YSETB, YSAVE, YREST, YOWN, YOPS };
static void ystep(int op, YSt& s, const std::string& in) {
  transition();
  switch (op) {
    case YDRAW: { double g = RANNYU::random(); s.seed = ynext(s.seed); eval(); check(g == yval(s.seed), "stand-alone: drawn value", in + fmt(" got %.17g want %.17g", g, yval(s.seed))); break; }
    case YSETA: case YSETB: s.seed = op == YSETA ? 0x00f0ff001fffull : M48; RANNYU::setrn(yseed(s.seed)); break;
    case YSAVE: { s.saved = RANNYU::savern(); u64 x = 0; eval(); check(yget(s.saved, x) && x == s.seed, "stand-alone: saved seed", in); s.slot = s.seed; s.saved = yseed(s.seed); break; }
    case YREST: RANNYU::setrn(s.saved); s.seed = s.slot; break;
    case YOWN: { RANNYU::random(s.st); s.own = ynext(s.own); u64 x = 0; eval(); check(s.st.ran == yval(s.own) && yget(s.st.seed, x) && x == s.own, "stand-alone: packaged state", in); break; }
  }
}
static void ytree(YSt s, std::string in, int left) {
  state(hash(in)); trace(); if (!left) return;
  for (int op = 0; op < YOPS; ++op) {
    flush(); pid_t p = fork();
    if (p == 0) { st() = Stats(); std::string i2 = in + fmt(" %d", op); cur("stand-alone" + i2); YSt t = s; ystep(op, t, i2); ytree(t, i2, left - 1); flush(); _exit(0); }
    int w; waitpid(p, &w, 0); if (!(WIFEXITED(w) && WEXITSTATUS(w) == 0)) violation("stand-alone: process died", in + fmt(" %d status %x", op, w));
  }
}
static void yseeds(int part) {
  int ws[] = {0, 1, 2, 821, 2048, 4094, 4095}; int k = 0;
  for (int a : ws) for (int b : ws) for (int c : ws) for (int d : ws) { if (k++ % 4 != part) continue; u64 x = (u64)a << 36 | (u64)b << 24 | (u64)c << 12 | (u64)d; std::string in = fmt("seed %llx", x); cur(in);
    RANNYU::setrn(yseed(x)); RANNYU::RNGState_t st; st.seed = yseed(x); u64 y = x;
    for (int i = 0; i < 40; ++i) { double g = RANNYU::random(); RANNYU::random(st); y = ynext(y); eval(2); transition(2); if (!check(g == yval(y) && st.ran == yval(y) && g >= 0 && g < 1, "stand-alone: recurrence", in + fmt(" step %d got %.17g want %.17g", i, g, yval(y)))) break; u64 z = 0; if (!check(yget(RANNYU::savern(), z) && z == y && yget(st.seed, z) && z == y, "stand-alone: state", in)) break; }
    state(hash(in)); } trace(); }
static void yrefuse() { for (int n : {0, 1, 3, 5}) { for (int w = 0; w < 2; ++w) { auto r = child([&](int fd) { multi1d<int> s(n); for (int i = 0; i < n; ++i) s[i] = i; if (w) { RANNYU::RNGState_t t; t.seed = s; RANNYU::random(t); } else RANNYU::setrn(s); put(fd, "returned"); }); eval(); check(r.out.empty() && !(r.exited && r.code == 0), "stand-alone: seed of wrong length accepted", fmt("length %d", n)); } } trace(); }
int main(int argc, char** argv) {
  init(argc, argv); startup(); Pool pool(700); IV s(Nd, 1); s[0] = s[1] = 2; V = 4; lattice(s); HS = new Set; HS->make(Half());
  for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) pool.run("hist", [=] { lattice_hist(a, b, thorough() ? 6 : 5); });
  pool.run("tree", [] { YSt s; s.seed = YDEF; s.own = 0x123456789abcull; s.st.seed = yseed(s.own); s.slot = 77; s.saved = yseed(77); ytree(s, "", thorough() ? 6 : 5); });
  for (int p = 0; p < 4; ++p) pool.run("seeds", [=] { yseeds(p); });
  pool.run("refuse", yrefuse);
  pool.drain(); return finish();
}
