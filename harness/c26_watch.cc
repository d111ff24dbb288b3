// C26: every history of stopwatch calls over an alphabet of clock readings; the clock the library reads is the harness's.
#include "lat.h"
#include <sys/time.h>
using namespace QDP; using namespace vf;
static struct timeval now; static bool broken, ours;
extern "C" int gettimeofday(struct timeval* t, void*) { if (!ours) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; } if (broken) { errno = EFAULT; return -1; } *t = now; return 0; }
static const struct timeval CLK[] = {{0, 0}, {0, 1}, {0, 999999}, {1, 0}, {1, 500000}, {2, 499999}, {1000000, 7}, {2147483647, 999999}, {2147483648l, 0}};
static const int NC_ = sizeof CLK / sizeof *CLK;
struct Ref { bool running = false, badStart = false; struct timeval s = {0, 0}; long long us = 0; };
static void burn(int v) { volatile char b[2048]; for (int i = 0; i < 2048; ++i) b[i] = v; }
static void run(int part, int depth, int nclk, bool faults) {
  const int N = 2 * nclk + 2 + (faults ? 2 : 0); long tot = 1; for (int i = 0; i < depth; ++i) tot *= N; std::ostringstream err; QDPIO::cerr.init(&err); ours = true;
  for (long q = part; q < tot; q += 8) { StopWatch w; Ref m; long r = q; trace(); std::string in = fmt("code %ld depth %d clocks %d:", q, depth, nclk); { long x = q; for (int i = 0; i < depth; ++i) { int o = x % N; x /= N; if (o < 2 * nclk) in += fmt(" %s@%ld.%06ld", o & 1 ? "stop" : "start", (long)CLK[o / 2].tv_sec, (long)CLK[o / 2].tv_usec); else { static const char* n[] = {" reset", " read", " start@fault", " stop@fault"}; in += n[o - 2 * nclk]; } } } cur(in);
    bool readEach = q / N % 2; 
    for (int i = 0; i < depth; ++i) { int o = r % N; r /= N; transition(); err.str(""); broken = false; bool wantMsg = false, judgeMsg = true; burn(0x5a);
      if (o < 2 * nclk) { now = CLK[o / 2]; if (!(o & 1)) { w.start(); m.running = true; m.badStart = false; m.s = now; } else { w.stop(); if (!m.running) wantMsg = true; else { long long d = ((long long)now.tv_sec - m.s.tv_sec) * 1000000ll + now.tv_usec - m.s.tv_usec; if (m.badStart) wantMsg = true; else if (d < 0) wantMsg = true; else m.us += d; m.running = false; } } }
      else if (o == 2 * nclk) { w.reset(); m = Ref(); } else if (o == 2 * nclk + 1) judgeMsg = false; else if (o == 2 * nclk + 2) { broken = true; w.start(); m.running = true; m.badStart = true; wantMsg = true; } else { broken = true; w.stop(); m.running = false; wantMsg = true; }
      if (judgeMsg) { eval(); if (!check(err.str().empty() != wantMsg, wantMsg ? "misuse or a clock that cannot be used is not reported" : "a message although nothing is wrong", in + fmt(" at step %d: ", i) + esc(err.str()))) break; }
      state(hash(fmt("%lld %d %d %ld %ld", m.us, m.running, m.badStart, (long)m.s.tv_sec, (long)m.s.tv_usec)));
      if (readEach || i + 1 == depth || o == 2 * nclk + 1) { burn(0xff); eval(2); double us = w.getTimeInMicroseconds(), s = w.getTimeInSeconds(); bool ok = us == (double)m.us && fabs(s - m.us / 1e6) <= 1e-15 * fabs(m.us / 1e6); if (!check(ok, "accumulated time", in + fmt(" at step %d: %.17g us, %.17g s, want %lld us", i, us, s, m.us))) break; } } }
  ours = false; sample(fmt("all histories of %d calls over %d clock readings", depth, nclk));
}
static void two() { ours = true; for (int a = 0; a < NC_; ++a) for (int b = a; b < NC_; ++b) for (int c = b; c < NC_; ++c) for (int d = c; d < NC_; ++d) { StopWatch x, y; auto us = [](int p, int q) { return (CLK[q].tv_sec - CLK[p].tv_sec) * 1000000ll + CLK[q].tv_usec - CLK[p].tv_usec; }; now = CLK[a]; x.start(); now = CLK[b]; y.start(); StopWatch z(x); now = CLK[c]; x.stop(); now = CLK[d]; y.stop(); z.stop(); eval(3); transition(6); trace(); std::string in = fmt("two watches %d %d %d %d", a, b, c, d); cur(in); state(hash(in)); check(x.getTimeInMicroseconds() == us(a, c) && y.getTimeInMicroseconds() == us(b, d) && z.getTimeInMicroseconds() == us(a, d), "two watches are independent", in); } ours = false; }
// many intervals on one watch: the sum of microsecond parts passes every power of two up to 2^32
static void many() { ours = true; std::ostringstream err; QDPIO::cerr.init(&err); struct Cfg { long len, n, s0, u0, s1, u1; }; const long N = thorough() ? 40000 : 9000;
  for (int k = 0; k < 4; ++k) { StopWatch w; long long us = 0; trace(); std::string in = fmt("many intervals, kind %d", k); cur(in); long t = 1000; bool ok = true; for (long i = 0; i < N && ok; ++i) { long u0 = k == 0 ? 0 : k == 1 ? 999999 : k == 2 ? i * 7919 % 1000000 : 500000, d = k == 0 ? 999999 : k == 1 ? 1999998 : k == 2 ? i * 104729 % 3000000 : 86400000000l + 999999; now.tv_sec = t; now.tv_usec = u0; transition(2); w.start(); long e = u0 + d; now.tv_sec = t + e / 1000000; now.tv_usec = e % 1000000; w.stop(); us += d; t = now.tv_sec + 1; if (t < 0) break; if (i % 64 == 0 || i + 1 == N) { eval(); state(hash(fmt("%d %lld", k, us))); double g = w.getTimeInMicroseconds(), q = w.getTimeInSeconds(); ok = check(fabs(g - (double)us) <= 1e-15 * us && fabs(q - us / 1e6) <= 1e-12 * (us / 1e6), "accumulated time", in + fmt(" after %ld: %.17g us %.17g s want %lld us", i + 1, g, q, us)); } } check(err.str().empty(), "a message although nothing is wrong", in + " " + esc(err.str())); } ours = false; sample("thousands of intervals on one watch"); }
int main(int argc, char** argv) {
  init(argc, argv); startup(); Pool pool(600);
  for (int p = 0; p < 8; ++p) { pool.run("watch", [=] { run(p, thorough() ? 6 : 5, NC_, true); }); pool.run("watch", [=] { run(p, thorough() ? 8 : 6, 3, true); }); } pool.run("two", [] { two(); }); pool.run("many", [] { many(); });
  pool.drain(); return finish();
}
