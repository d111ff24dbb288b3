// Ranks and controller of the distributed checks.  Every rank is a process whose message-passing calls are requests to
// the controller; the controller owns all messages and decides, at every choice, which rank goes on and how each message
// moves.  Exactly one execution follows from one list of choices.
#ifndef VF_MP_H
#define VF_MP_H
#include "vf.h"
#include "qmp.h"
#include <poll.h>
#include <sys/socket.h>
#include <algorithm>
namespace mp {
typedef std::vector<int> IV;
struct Cfg { IV dims; bool grid = false, lastfast = false, revsum = false; int n() const { int r = 1; for (int d : dims) r *= d; return r; } };
enum Op { START = 1, WAIT, COLL, OBS, FINAL, ABORT, MISUSE };
enum Coll { BCAST = 1, SUMI, SUMF, SUMD, MAXF, MAXD, MINF, MIND, BINRED, BARR };

// ---------------------------------------------------------------- wire
struct Buf { std::string s; size_t at = 0; void i(int v) { s.append((const char*)&v, 4); } void b(const void* p, size_t n) { i((int)n); s.append((const char*)p, n); } void b(const std::string& t) { b(t.data(), t.size()); }
  int gi() { int v; if (at + 4 > s.size()) abort(); memcpy(&v, s.data() + at, 4); at += 4; return v; } std::string gb() { int n = gi(); if (at + n > s.size()) abort(); std::string r = s.substr(at, n); at += n; return r; } };
inline bool sendAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true; }
inline bool recvAll(int fd, char* p, size_t n) { while (n) { ssize_t k = ::recv(fd, p, n, 0); if (k <= 0) return false; p += k; n -= k; } return true; }
inline bool put(int fd, int op, const std::string& b) { Buf h; h.i(op); h.i((int)b.size()); return sendAll(fd, h.s + b); }
inline bool get(int fd, int& op, Buf& b) { int h[2]; if (!recvAll(fd, (char*)h, 8)) return false; op = h[0]; b.s.resize(h[1]); b.at = 0; return h[1] == 0 || recvAll(fd, &b.s[0], h[1]); }

// ---------------------------------------------------------------- rank side
struct Rank { int fd = -1, me = 0; Cfg cfg; IV coord; bool inited = false; int live = 0; };
inline Rank& R() { static Rank r; return r; }
inline Buf rpc(int op, const Buf& q) { int o; Buf r; if (!put(R().fd, op, q.s) || !get(R().fd, o, r)) _exit(77); return r; }
inline void misuse(const std::string& s) { Buf q; q.b(s); rpc(MISUSE, q); }
inline IV coordOf(const Cfg& c, int node) { IV r(c.dims.size()); int n = (int)r.size(); for (int k = 0; k < n; ++k) { int i = c.lastfast ? n - 1 - k : k; r[i] = node % c.dims[i]; node /= c.dims[i]; } return r; }
inline int nodeOf(const Cfg& c, const int* x) { int r = 0, n = (int)c.dims.size(); for (int k = n - 1; k >= 0; --k) { int i = c.lastfast ? n - 1 - k : k; r = r * c.dims[i] + x[i]; } return r; }
inline void obs(const std::string& label, char kind, const std::string& data) { Buf q; q.b(label); q.i(kind); q.b(data); rpc(OBS, q); }
} // namespace mp
#ifndef ARCH_SCALAR
// every block knows its size, and what follows it is watched
struct BlockHead { size_t n; uint64_t magic; }; static const uint64_t BLOCK = 0x5cafe10c0ffee5adull, AFTER = 0xa17e2fe9c6b3d845ull;
static void* blockNew(size_t n) { char* p = (char*)malloc(n + sizeof(BlockHead) + 8); if (!p) return 0; BlockHead* h = (BlockHead*)p; h->n = n; h->magic = BLOCK; p += sizeof(BlockHead); memcpy(p + n, &AFTER, 8); return p; }
static void blockFree(void* v) { if (!v) return; char* p = (char*)v; BlockHead* h = (BlockHead*)(p - sizeof(BlockHead)); if (h->magic != BLOCK) abort(); if (memcmp(p + h->n, &AFTER, 8) && mp::R().fd >= 0) mp::misuse(vf::fmt("memory past the end of a block of %d bytes was written", (int)h->n)); h->magic = 0; free(h); }
static size_t blockSize(const void* p) { if (((uintptr_t)p & 15) || ((uintptr_t)p & 4095) < sizeof(BlockHead)) return ~size_t(0); const BlockHead* h = (const BlockHead*)((const char*)p - sizeof(BlockHead)); return h->magic == BLOCK ? h->n : ~size_t(0); }
void* operator new(size_t n) { void* p = blockNew(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = blockNew(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return blockNew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return blockNew(n); }
void operator delete(void* p) noexcept { blockFree(p); }
void operator delete[](void* p) noexcept { blockFree(p); }
void operator delete(void* p, size_t) noexcept { blockFree(p); }
void operator delete[](void* p, size_t) noexcept { blockFree(p); }
struct QMP_mem_s { void* p; };
struct QMP_msgmem_s { char* p; size_t n; int users; };
struct Part { bool send; int peer; QMP_msgmem_t m; bool filled; };
struct QMP_msghandle_s { std::vector<Part> parts; bool started, given; };
extern "C" {
using namespace mp;
QMP_status_t QMP_init_msg_passing(int*, char***, QMP_thread_level_t r, QMP_thread_level_t* p) { *p = r; R().inited = true; return QMP_SUCCESS; }
void QMP_finalize_msg_passing(void) { R().inited = false; }
QMP_bool_t QMP_is_initialized(void) { return R().inited ? QMP_TRUE : QMP_FALSE; }
void QMP_abort(int code) { Buf q; q.i(code); put(R().fd, ABORT, q.s); _exit(70); }
const char* QMP_error_string(QMP_status_t) { return "message passing error"; }
int QMP_get_node_number(void) { return R().me; }
int QMP_get_number_of_nodes(void) { return R().cfg.n(); }
QMP_ictype_t QMP_get_msg_passing_type(void) { return R().cfg.grid ? QMP_GRID : QMP_SWITCH; }
QMP_status_t QMP_declare_logical_topology(const int* d, int n) { for (int i = 0; i < n; ++i) if (d[i] != R().cfg.dims[i]) return QMP_ERROR; return QMP_SUCCESS; }
QMP_status_t QMP_layout_grid(int* d, int n) { for (int i = 0; i < n; ++i) if (d[i] % R().cfg.dims[i]) QMP_abort(3); return QMP_SUCCESS; }
int QMP_get_logical_number_of_dimensions(void) { return (int)R().cfg.dims.size(); }
const int* QMP_get_logical_dimensions(void) { return R().cfg.dims.data(); }
const int* QMP_get_logical_coordinates(void) { return R().coord.data(); }
int* QMP_get_logical_coordinates_from(int node) { IV c = coordOf(R().cfg, node); int* p = (int*)malloc(c.size() * sizeof(int)); for (size_t i = 0; i < c.size(); ++i) p[i] = c[i]; return p; }
int QMP_get_node_number_from(const int* x) { return nodeOf(R().cfg, x); }
QMP_mem_t* QMP_allocate_aligned_memory(size_t n, size_t al, int) { QMP_mem_t* m = new QMP_mem_t; if (al < sizeof(void*)) al = sizeof(void*); if (posix_memalign(&m->p, al, n ? n : 1)) { delete m; return 0; } memset(m->p, 0xA7, n); R().live++; return m; }
void* QMP_get_memory_pointer(QMP_mem_t* m) { return m->p; }
void QMP_free_memory(QMP_mem_t* m) { free(m->p); delete m; R().live--; }
QMP_msgmem_t QMP_declare_msgmem(const void* p, size_t n) { size_t k = blockSize(p); if (k < n) misuse(vf::fmt("a message of %d bytes in a block of %d", (int)n, (int)k)); R().live++; return new QMP_msgmem_s{(char*)p, n, 0}; }
void QMP_free_msgmem(QMP_msgmem_t m) { if (m->users) misuse("message memory freed while a handle uses it"); R().live--; delete m; }
static QMP_msghandle_t one(bool s, QMP_msgmem_t m, int node) { if (node < 0 || node >= R().cfg.n()) misuse("message to a node that does not exist"); m->users++; R().live++; return new QMP_msghandle_s{{Part{s, node, m, false}}, false, false}; }
QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int node, int) { return one(true, m, node); }
QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int node, int) { return one(false, m, node); }
static int rel(int axis, int dir) { IV c = R().coord; int n = R().cfg.dims[axis]; c[axis] = (c[axis] + (dir > 0 ? 1 : n - 1)) % n; return nodeOf(R().cfg, c.data()); }
QMP_msghandle_t QMP_declare_send_relative(QMP_msgmem_t m, int axis, int dir, int) { return one(true, m, rel(axis, dir)); }
QMP_msghandle_t QMP_declare_receive_relative(QMP_msgmem_t m, int axis, int dir, int) { return one(false, m, rel(axis, dir)); }
QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* h, int n) { QMP_msghandle_t r = new QMP_msghandle_s{{}, false, false}; R().live++; for (int i = 0; i < n; ++i) { r->parts.insert(r->parts.end(), h[i]->parts.begin(), h[i]->parts.end()); R().live--; delete h[i]; } return r; }
void QMP_free_msghandle(QMP_msghandle_t h) { if (h->started) misuse("handle freed while its message is under way"); for (auto& p : h->parts) p.m->users--; R().live--; delete h; }
QMP_status_t QMP_start(QMP_msghandle_t h) {
  if (h->started) misuse("handle started twice"); h->started = true;
  Buf q; q.i((int)h->parts.size());
  for (auto& p : h->parts) { q.i(p.send); q.i(p.peer); q.i((int)p.m->n); if (p.send) q.b(p.m->p, p.m->n); else memset(p.m->p, 0xA5, p.m->n); p.filled = false; }
  Buf r = rpc(START, q);
  for (auto& p : h->parts) if (!p.send && r.gi()) { std::string d = r.gb(); memcpy(p.m->p, d.data(), d.size()); p.filled = true; }
  return QMP_SUCCESS;
}
QMP_status_t QMP_wait(QMP_msghandle_t h) {
  if (!h->started) { misuse("wait on a handle that was not started"); return QMP_ERROR; } h->started = false;
  Buf q; q.i((int)h->parts.size()); for (auto& p : h->parts) { q.i(p.send); q.i(p.peer); if (p.send) q.b(p.m->p, p.m->n); }
  Buf r = rpc(WAIT, q);
  for (auto& p : h->parts) if (!p.send) { std::string d = r.gb(); if (!p.filled) memcpy(p.m->p, d.data(), d.size()); }
  return QMP_SUCCESS;
}
static std::vector<std::string> coll(int kind, const void* v, size_t n) { Buf q; q.i(kind); q.b(v, n); Buf r = rpc(COLL, q); int k = r.gi(); std::vector<std::string> o; for (int i = 0; i < k; ++i) o.push_back(r.gb()); return o; }
QMP_status_t QMP_broadcast(void* b, size_t n) { auto o = coll(BCAST, b, n); if (R().me) memcpy(b, o[0].data(), std::min(n, o[0].size())); return QMP_SUCCESS; }
}
template<class T, class F> static QMP_status_t reduceT(int kind, T* v, int n, F f) { auto o = coll(kind, v, n * sizeof(T)); std::vector<T> a(n), b(n); for (size_t i = 0; i < o.size(); ++i) { if (n) memcpy(b.data(), o[i].data(), n * sizeof(T)); if (!i) a = b; else for (int k = 0; k < n; ++k) a[k] = f(a[k], b[k]); } if (n) memcpy(v, a.data(), n * sizeof(T)); return QMP_SUCCESS; }
#define VF_ADD [](auto x, auto y) { return x + y; }
#define VF_MAX [](auto x, auto y) { return x > y ? x : y; }
#define VF_MIN [](auto x, auto y) { return x < y ? x : y; }
extern "C" {
QMP_status_t QMP_sum_int(int* v) { return reduceT(SUMI, v, 1, VF_ADD); }
QMP_status_t QMP_sum_float(float* v) { return reduceT(SUMF, v, 1, VF_ADD); }
QMP_status_t QMP_sum_double(double* v) { return reduceT(SUMD, v, 1, VF_ADD); }
QMP_status_t QMP_sum_float_array(float* v, int n) { return reduceT(SUMF, v, n, VF_ADD); }
QMP_status_t QMP_sum_double_array(double* v, int n) { return reduceT(SUMD, v, n, VF_ADD); }
QMP_status_t QMP_max_float(float* v) { return reduceT(MAXF, v, 1, VF_MAX); }
QMP_status_t QMP_max_double(double* v) { return reduceT(MAXD, v, 1, VF_MAX); }
QMP_status_t QMP_min_float(float* v) { return reduceT(MINF, v, 1, VF_MIN); }
QMP_status_t QMP_min_double(double* v) { return reduceT(MIND, v, 1, VF_MIN); }
// operands lie against the end of their own page so that an access past them cannot pass unnoticed
struct Guard { char* base; char* p; size_t n; Guard(size_t k) : n(k) { base = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + 4096, 4096, PROT_NONE); p = base + 4096 - k; } ~Guard() { munmap(base, 8192); } };
QMP_status_t QMP_binary_reduction(void* v, size_t n, QMP_binary_func f) { auto o = coll(BINRED, v, n); Guard a(n), b(n); for (size_t i = 0; i < o.size(); ++i) { memcpy(i ? b.p : a.p, o[i].data(), n); if (i) f(a.p, b.p); } memcpy(v, a.p, n); return QMP_SUCCESS; }
QMP_status_t QMP_barrier(void) { char c = 0; coll(BARR, &c, 0); return QMP_SUCCESS; }
int DML_route_bytes(char* b, size_t n, int from, int to) {
  if (from == to) return 0;
  if (R().me != from && R().me != to) return 0;
  QMP_msgmem_t m = QMP_declare_msgmem(b, n); QMP_msghandle_t h = R().me == from ? QMP_declare_send_to(m, to, 0) : QMP_declare_receive_from(m, from, 0);
  QMP_start(h); QMP_wait(h); QMP_free_msghandle(h); QMP_free_msgmem(m); return 0;
}
}
#endif
namespace mp {
// ---------------------------------------------------------------- controller
struct Ob { std::string label; int kind; std::vector<std::string> data; };
struct Result { bool aborted = false, bad = false; std::string why; std::vector<Ob> obs; int steps = 0, msgs = 0; };
struct Choices { int base; std::vector<std::pair<int, int>> dev; std::vector<int> width; int choose(int n) { if (n <= 1) return 0; int p = (int)width.size(); width.push_back(n); for (auto& d : dev) if (d.first == p) return d.second; return base ? n - 1 : 0; }
  std::string str() const { std::string s = base ? "lax" : "strict"; for (auto& d : dev) s += vf::fmt(" %d:%d", d.first, d.second); return s; } };
struct Send { int size; bool late, rdv, ready; std::string data; };
struct Recv { int cap; bool early; bool given; };
struct Chan { std::vector<Send> s; std::vector<Recv> r; size_t sw = 0, rw = 0; };     // sw, rw: waits already finished
struct CollRec { int kind = 0, size = 0, arrived = 0; bool sync = true, rev = false; std::vector<bool> in; std::vector<std::string> data; };

class Controller {
  const Cfg& cfg; Choices& ch; int n; std::vector<int> fd; std::vector<pid_t> pid; Result res; unsigned limit;
  std::map<std::pair<int, int>, Chan> chan; std::vector<CollRec> colls; std::vector<int> nc;
  struct Req { int op = 0; Buf b; bool have = false, done = false; }; std::vector<Req> rq;
  std::vector<std::map<std::string, int>> seen;
  void bad(const std::string& s) { if (!res.bad) { res.bad = true; res.why = s; } }
  Chan& c(int a, int b) { return chan[std::make_pair(a, b)]; }
  bool fetch(int r) {       // waits for the next request of a running rank
    while (true) {
      struct pollfd p = {fd[r], POLLIN, 0}; int k = poll(&p, 1, (int)limit * 1000);
      if (k == 0) { bad(vf::fmt("node %d does not come back (hang)", r)); return false; }
      Req& q = rq[r]; q.b = Buf();
      if (!get(fd[r], q.op, q.b)) { int st = 0; waitpid(pid[r], &st, 0); pid[r] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { res.aborted = true; res.why = vf::fmt("node %d exits %d", r, WEXITSTATUS(st)); }
        else bad(WIFSIGNALED(st) ? vf::fmt("node %d dies of signal %d", r, WTERMSIG(st)) : vf::fmt("node %d exits early", r)); return false; }
      if (q.op == OBS) { std::string l = q.b.gb(); int kind = q.b.gi(); std::string d = q.b.gb(); l += vf::fmt("#%d", seen[r][l]++);
        Ob* o = 0; for (auto& x : res.obs) if (x.label == l) o = &x; if (!o) { res.obs.push_back(Ob{l, kind, std::vector<std::string>(n)}); o = &res.obs.back(); }
        o->data[r] = d + "."; put(fd[r], OBS, ""); continue; }
      if (q.op == MISUSE) { bad(vf::fmt("node %d: ", r) + q.b.gb()); return false; }
      if (q.op == ABORT) { res.aborted = true; res.why = vf::fmt("node %d aborts", r); return false; }
      if (q.op == FINAL) { int live = q.b.gi(); if (live) bad(vf::fmt("node %d ends with %d message objects not freed", r, live)); q.done = true; return true; }
      q.have = true; if (q.op == WAIT) waitArrives(r); if (q.op == COLL) collArrives(r); return !res.bad;
    }
  }
  void waitArrives(int r) { Buf b = rq[r].b; int k = b.gi(); std::map<int, size_t> ss; for (int i = 0; i < k; ++i) { int snd = b.gi(), peer = b.gi(); if (!snd) continue; std::string d = b.gb(); Chan& x = c(r, peer); Send& m = x.s[x.sw + ss[peer]++]; if (m.late) { m.data = d; m.ready = true; } } }
  bool waitEnabled(int r) { Buf b = rq[r].b; int k = b.gi(); std::map<int, size_t> ss, rr; for (int i = 0; i < k; ++i) { int snd = b.gi(), peer = b.gi(); if (snd) { b.gb(); Chan& x = c(r, peer); size_t id = x.sw + ss[peer]++; if (x.s[id].rdv && id >= x.r.size()) return false; } else { Chan& x = c(peer, r); size_t id = x.rw + rr[peer]++; if (id >= x.s.size() || !x.s[id].ready) return false; } } return true; }
  void doWait(int r) { Buf b = rq[r].b, o; int k = b.gi(); for (int i = 0; i < k; ++i) { int snd = b.gi(), peer = b.gi(); if (snd) { b.gb(); c(r, peer).sw++; } else { Chan& x = c(peer, r); Send& m = x.s[x.rw]; if (m.size > x.r[x.rw].cap) { bad(vf::fmt("a message of %d bytes from node %d to node %d meets a receive of %d bytes", m.size, peer, r, x.r[x.rw].cap)); m.data.resize(x.r[x.rw].cap); } o.b(m.data); x.rw++; } } resume(r, o.s); }
  void doStart(int r) { Buf b = rq[r].b, o; int k = b.gi(); for (int i = 0; i < k; ++i) { int snd = b.gi(), peer = b.gi(), sz = b.gi();
      if (snd) { Send m; m.size = sz; m.data = b.gb(); int t = ch.choose(4); m.late = !(t & 1); m.rdv = !(t & 2); m.ready = !m.late; c(r, peer).s.push_back(m); res.msgs++; }
      else { Chan& x = c(peer, r); size_t id = x.r.size(); bool av = id < x.s.size() && x.s[id].ready && x.s[id].size <= sz; bool e = av && ch.choose(2); x.r.push_back(Recv{sz, e, e}); o.i(e); if (e) o.b(x.s[id].data); } }
    resume(r, o.s); }
  void collArrives(int r) { Buf b = rq[r].b; int kind = b.gi(); std::string d = b.gb(); size_t k = nc[r]; if (k == colls.size()) { CollRec x; x.kind = kind; x.size = (int)d.size(); x.in.assign(n, false); x.data.resize(n); colls.push_back(x); colls.back().sync = true; if (kind == BCAST) colls.back().sync = !ch.choose(2); else if (cfg.revsum) colls.back().rev = true; }
    CollRec& x = colls[k]; if (x.kind != kind || x.size != (int)d.size()) { bad(vf::fmt("node %d joins collective %d as kind %d with %d bytes where others have kind %d with %d bytes", r, (int)k, kind, (int)d.size(), x.kind, x.size)); return; } x.in[r] = true; x.data[r] = d; x.arrived++; }
  bool collEnabled(int r) { CollRec& x = colls[nc[r]]; if (x.arrived == n) return true; return x.kind == BCAST && !x.sync && x.in[0]; }
  void doColl(int r) { CollRec& x = colls[nc[r]++]; Buf o; if (x.kind == BCAST) { o.i(1); o.b(x.data[0]); } else { o.i(n); for (int i = 0; i < n; ++i) o.b(x.data[x.rev ? n - 1 - i : i]); } resume(r, o.s); }
  void resume(int r, const std::string& s) { rq[r].have = false; res.steps++; put(fd[r], 0, s); if (!res.bad) fetch(r); }
public:
  Controller(const Cfg& g, Choices& k, unsigned lim = 20) : cfg(g), ch(k), n(g.n()), fd(n), pid(n), limit(lim), nc(n, 0), rq(n), seen(n) {}
  // body(rank) runs in each rank's process with R() set up
  Result run(const std::function<void(int)>& body) {
    for (int r = 0; r < n; ++r) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort(); pid_t p = fork();
      if (p == 0) { for (int i = 0; i < r; ++i) close(fd[i]); close(sv[0]); vf::quiet(); alarm(120); Rank& k = R(); k.fd = sv[1]; k.me = r; k.cfg = cfg; k.coord = coordOf(cfg, r); body(r); Buf q; q.i(k.live); put(sv[1], FINAL, q.s); _exit(0); }
      close(sv[1]); fd[r] = sv[0]; pid[r] = p; }
    for (int r = 0; r < n && !res.bad && !res.aborted; ++r) fetch(r);
    while (!res.bad && !res.aborted) {
      bool moved = false, alldone = true; std::vector<int> starts;
      for (int k = 0; k < n && !res.bad && !res.aborted; ++k) { int r = ch.base ? n - 1 - k : k; Req& q = rq[r]; if (q.done) continue; alldone = false; if (!q.have) continue;
        if (q.op == WAIT && waitEnabled(r)) { doWait(r); moved = true; } else if (q.op == COLL && collEnabled(r)) { doColl(r); moved = true; } }
      if (alldone) break; if (moved) continue;
      for (int r = 0; r < n; ++r) if (rq[r].have && rq[r].op == START) starts.push_back(r);
      if (starts.empty()) { std::string w; for (int r = 0; r < n; ++r) if (!rq[r].done) { Buf b = rq[r].b; w += vf::fmt(" node %d ", r); if (rq[r].op == COLL) w += vf::fmt("in collective %d of kind %d", nc[r], b.gi()); else { w += "waits for"; int k = b.gi(); for (int i = 0; i < k; ++i) { int s = b.gi(), p = b.gi(); if (s) b.gb(); w += vf::fmt(s ? " its send to %d" : " a message from %d", p); } } w += ";"; } bad("deadlock:" + w); break; }
      doStart(starts[ch.choose((int)starts.size())]);
    }
    if (!res.bad && !res.aborted) for (auto& x : chan) if (x.second.sw != x.second.s.size() || x.second.rw != x.second.r.size() || x.second.s.size() != x.second.r.size()) bad(vf::fmt("messages from node %d to node %d: %d sent, %d received", x.first.first, x.first.second, (int)x.second.s.size(), (int)x.second.r.size()));
    for (int r = 0; r < n; ++r) { if (pid[r]) { if (res.bad || res.aborted) kill(pid[r], SIGKILL); int st; waitpid(pid[r], &st, 0); if (!res.bad && !res.aborted && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad(vf::fmt("node %d ends with status %d", r, st)); } close(fd[r]); }
    return res;
  }
};
// all executions with at most `dev` choices different from each base policy; returns whether every execution was covered
inline bool explore(const Cfg& cfg, int dev, uint64_t cap, const std::function<void(Choices&)>& one) {
  bool complete = true; uint64_t runs = 0;
  for (int base = 0; base < 2; ++base) {
    std::vector<std::vector<std::pair<int, int>>> todo(1);
    while (!todo.empty()) { auto d = todo.back(); todo.pop_back(); Choices c; c.base = base; c.dev = d; if (++runs > cap) return false; one(c);
      size_t from = d.empty() ? 0 : d.back().first + 1;
      if ((int)d.size() >= dev) { if (from < c.width.size()) complete = false; continue; }
      for (size_t p = from; p < c.width.size(); ++p) for (int v = 0; v < c.width[p]; ++v) if (v != (base ? c.width[p] - 1 : 0)) { auto e = d; e.push_back(std::make_pair((int)p, v)); todo.push_back(e); } }
  }
  return complete;
}
} // namespace mp
#endif
