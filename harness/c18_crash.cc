// C18: every crash point of every short session that writes a disk map: the writes reaching the file are logged, and every prefix, with every torn
// prefix of the last write, is laid out as a file and opened by the real code.
#include "kv.h"
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace QDP; using namespace vf; typedef std::ios_base IB;
struct Op { long off; std::string data; long cut; };      // cut >= 0: the file is truncated to that length
static std::vector<Op>* logto = nullptr; static dev_t ldev; static ino_t lino; static std::string lpath;
static bool mine(int fd) { if (!logto || fd < 3) return false; struct stat s, p; return fstat(fd, &s) == 0 && stat(lpath.c_str(), &p) == 0 && s.st_ino == p.st_ino && s.st_dev == p.st_dev; }
static void note(int fd, const void* b, size_t n, long off = -1) { if (n && mine(fd)) { bool app = fcntl(fd, F_GETFL) & O_APPEND; struct stat s; fstat(fd, &s); logto->push_back({off >= 0 ? off : app ? (long)s.st_size : (long)syscall(SYS_lseek, fd, 0, SEEK_CUR), std::string((const char*)b, n), -1}); } }
extern "C" ssize_t write(int fd, const void* b, size_t n) { note(fd, b, n); return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { note(fd, b, n, o); return syscall(SYS_pwrite64, fd, b, n, o); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { std::string all; for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len); return write(fd, all.data(), all.size()); }
extern "C" int ftruncate(int fd, off_t n) { if (mine(fd)) logto->push_back({0, "", (long)n}); return syscall(SYS_ftruncate, fd, n); }
static std::string file() { return scratch() + fmt("/c18.%d", (int)getpid()); }
static void apply(std::string& img, const Op& o, size_t n) { if (o.cut >= 0) { img.resize(o.cut, 0); return; } if (!n) return; if (img.size() < o.off + n) img.resize(o.off + n, 0); img.replace(o.off, n, o.data, 0, n); }
// what a session does to the keys: values by key, before and after each commit point
typedef std::map<std::string, std::string> KV;
struct Mark { size_t at; KV kv; std::string hdr; };      // log position of a finished commit, with its contents and the header of the file then
template<class K, class V> struct Run { std::vector<Op> log; std::vector<Mark> marks; std::map<std::string, std::vector<std::pair<size_t, std::string>>> put; std::string start; };
static const int NK = 3;
template<class K, class V> static void explore(int depth, int pre, int part, int parts) { typedef MapObjectDisk<K, V> M; const int C = Val<V>::classes; const size_t H = 4 + MapObjDiskEnv::getFileMagic().size() + 4 + 4 + 3 + 16; Tree t(part, parts); std::string key = std::string(Key<K>::nm()) + " to " + Val<V>::nm() + fmt(", start %d", pre); bool ok = true; std::unordered_set<uint64_t> seen; lpath = file();
  do { if (!t.live()) break; t.begin(); unlink(lpath.c_str()); std::vector<Op> log; std::vector<Mark> marks; std::map<std::string, std::vector<std::pair<size_t, std::string>>> puts; std::string start, in = key + ":"; KV now; int tok = 1; trace();
    auto ins = [&](M& m, int k, int c) { K kk = Key<K>::mk(k); V v = Val<V>::mk(tok++, c); std::string id = Key<K>::id(kk); puts[id].push_back({logto ? log.size() : 0, im(v)}); m.insert(kk, v); now[id] = im(v); }; auto mark = [&] { marks.push_back({log.size(), now, slurp(lpath).substr(0, H)}); };
    M* m = new M; m->insertUserdata("xyz");
    if (pre == 0) { spew(lpath, ""); logto = &log; m->open(lpath, IB::in | IB::out | IB::trunc); in += " create"; }      // the very first session
    else { m->open(lpath, IB::in | IB::out | IB::trunc); ins(*m, 0, C > 1 ? 2 : 0); if (pre >= 2) ins(*m, 1, 0); m->close(); if (pre == 3) { m->open(lpath, IB::in | IB::out); ins(*m, 0, C > 1 ? 1 : 0); m->close(); } start = slurp(lpath); mark(); logto = &log; m->open(lpath, IB::in | IB::out); in += " update"; }
    bool live = true; for (int d = 0; d < depth; ++d) { const int N = 3 * C + 6; int c = t.choose(N); transition(); if (c < 3 * C) { in += fmt(" insert %d class %d", c / C, c % C); vf::cur(in); ins(*m, c / C, c % C); } else if (c < 3 * C + 3) { int k = c - 3 * C; in += fmt(" get %d", k); vf::cur(in); V v = Val<V>::mk(0, 0); m->get(Key<K>::mk(k), v); } else if (c == 3 * C + 3) { in += " flush"; vf::cur(in); m->flush(); mark(); } else if (c == 3 * C + 4) { in += " reopen"; vf::cur(in); m->close(); mark(); m->open(lpath, IB::in | IB::out); } else { in += " list"; std::vector<K> k; m->keys(k); m->exist(Key<K>::mk(0)); } }
    m->close(); mark(); delete m; logto = nullptr;
    { std::string fin = start; for (auto& o : log) apply(fin, o, o.data.size()); ok = check(fin == slurp(lpath), "harness: the write log does not reproduce the file", in); if (now == (marks.empty() ? KV() : marks[0].kv) && pre) { bool wrote = false; for (auto& p : puts) for (auto& q : p.second) (void)q; bool only = in.find("insert") == std::string::npos; if (only) { eval(); ok = ok && check(fin == start, "a session that only reads changes the file", in); (void)wrote; } } }
    std::string base = start; for (size_t i = 0; i <= log.size() && ok; ++i) { size_t tear = i < log.size() ? log[i].cut >= 0 ? 1 : log[i].data.size() : 1; if (i > 0) apply(base, log[i - 1], log[i - 1].data.size()); size_t n = 0;
      for (; n < tear && ok; ++n) { if (tear > 400 && n > 150 && n + 150 < tear && n % 97) continue; std::string img = base; if (i < log.size() && log[i].cut < 0) apply(img, log[i], n);
        // last commit whose writes are all in, the next one (its header may be in already), and the values each key may have
        KV done, next; std::string hdr, nhdr; bool any = false; size_t from = 0; std::set<std::string> touched; for (auto& mk : marks) if (mk.at <= i) { done = mk.kv; hdr = mk.hdr; any = true; from = mk.at; } bool haveNext = false; for (auto& mk : marks) if (mk.at > i && !haveNext) { next = mk.kv; nhdr = mk.hdr; haveNext = true; }
        std::map<std::string, std::set<std::string>> may; for (auto& p : puts) for (auto& q : p.second) { may[p.first].insert(q.second); if (q.first >= from && marks.size()) { } } for (auto& p : puts) for (auto& q : p.second) if (any && done.count(p.first) && haveNext && next[p.first] != done[p.first]) touched.insert(p.first);
        uint64_t h = hash(img); for (auto& e : done) h = hash(e.second, hash(e.first, h)); for (auto& e : touched) h = hash(e, h + 1); h = hash(nhdr, hash(hdr, h + any)); for (auto& e : next) h = hash(e.second, hash(e.first, h)); for (auto& e : may) for (auto& q : e.second) h = hash(q, hash(e.first, h)); if (!seen.insert(h).second) continue; state(h); transition(); eval();
        std::string ctx = in + fmt(", crash after %zu of %zu writes and %zu bytes of the next", i, log.size(), n); vf::cur(ctx); std::string f = lpath + ".img"; spew(f, img);
        ChildResult r = child([&](int fd) { logto = nullptr; M q; q.open(f, IB::in); put(fd, "opened;"); std::vector<std::string> order; for (int pass = 0; pass < 2; ++pass) for (int k = 0; k < NK; ++k) { K kk = Key<K>::mk(k); bool tch = touched.count(Key<K>::id(kk)); if (tch != (pass == 1)) continue; V v = Val<V>::mk(0, 0); bool e = q.exist(kk); int g = q.get(kk, v); put(fd, Key<K>::id(kk) + "=" + (g == 0 ? im(v) : std::string(e ? "!" : "-")) + ";"); } std::vector<K> ks; q.keys(ks); for (auto& k : ks) put(fd, "k" + Key<K>::id(k) + ";"); put(fd, "end"); _exit(0); }, 20);
        if (!check(r.exited ? r.code != 99 : r.sig == SIGABRT, "reopening after a crash dies or hangs", ctx + fmt(" exit %d signal %d", r.code, r.sig))) { ok = false; break; }
        const bool refused = !r.exited || r.code != 0; const bool opened = r.out.compare(0, 7, "opened;") == 0; std::map<std::string, std::string> got; { size_t p = opened ? 7 : 0; while (p < r.out.size()) { size_t q = r.out.find(';', p); if (q == std::string::npos) break; std::string w = r.out.substr(p, q - p); size_t e = w.rfind('='); if (e != std::string::npos) got[w.substr(0, e)] = w.substr(e + 1); p = q + 1; } }
        for (auto& g : got) { if (done.count(g.first) && !touched.count(g.first) && any && img.substr(0, H) == hdr) ok = ok && check(g.second == done[g.first], "a committed value is lost or changed by a crash", ctx + " key " + g.first + " gives " + g.second + " want " + done[g.first]); else ok = ok && check(g.second == "-" || may[g.first].count(g.second), "a value that was never inserted is returned", ctx + " key " + g.first + " gives " + g.second); ok = ok && check(!(done.count(g.first) && !touched.count(g.first)) || g.second == done[g.first], "a committed value is lost or changed by a crash", ctx + " key " + g.first + " gives " + g.second); }
        outcome(hash(r.out, refused)); if (any && img.substr(0, H) == hdr) ok = ok && check(!refused, "a crash before the link is rewritten destroys the committed map", ctx);
        if (haveNext && nhdr != hdr && img.substr(0, H) == nhdr) { ok = ok && check(!refused, "a crash after the link is rewritten destroys the map", ctx); for (auto& g : got) ok = ok && check(g.second == (next.count(g.first) ? next[g.first] : std::string("-")), "the link is rewritten before the values it leads to", ctx + " key " + g.first); } } }
  } while (ok && t.next()); unlink(lpath.c_str()); unlink((lpath + ".img").c_str()); sample(key + fmt(": every crash point of all sessions of %d operations", depth)); extra("distinct crash images", seen.size()); }
int main(int argc, char** argv) { init(argc, argv); startup(); lattice(IV(Nd, 2)); Pool pool(800); const int t = thorough();
  for (int pre = 0; pre < 4; ++pre) for (int p = 0; p < 8; ++p) { pool.run("crash", [=] { explore<int, double>(3 + t, pre, p, 8); }); pool.run("crash", [=] { explore<int, multi1d<int>>(2 + t, pre, p, 8); }); pool.run("crash", [=] { explore<SKey, multi1d<int>>(2, pre, p, 8); }); }
  pool.drain(); return finish(); }
