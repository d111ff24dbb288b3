// Support code of the exploration harnesses: reporting, counters, fork pool.
#ifndef VF_H
#define VF_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace vf {

inline int& outfd() { static int fd = -1; return fd; }
inline bool& thorough() { static bool t = false; return t; }
inline char*& slot() { static char* p = nullptr; return p; }   // current-case label, shared with the parent
enum { SLOT = 1024 };

struct Stats {
  uint64_t evals = 0, transitions = 0, traces = 0, viols = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> extra;
  std::set<std::string> reported;
};
inline Stats& st() { static Stats s; return s; }

inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline void emit(const std::string& line) {
  std::string l = line + "\n";
  if (outfd() >= 0) { if (::write(outfd(), l.data(), l.size()) < 0) abort(); }
  else { fputs(l.c_str(), stderr); }
}

inline void cur(const std::string& s) {
  if (!slot()) return;
  size_t n = s.size() < SLOT - 1 ? s.size() : SLOT - 1;
  memcpy(slot(), s.data(), n); slot()[n] = 0;
}
inline std::string curcase() { return slot() ? slot() : ""; }

inline void violation(const std::string& key, const std::string& msg) {
  st().viols++;
  if (st().reported.size() > 400 || !st().reported.insert(key).second) return;
  emit("{\"viol\":\"" + esc(key) + "\",\"msg\":\"" + esc(msg) + "\"}");
}
inline bool check(bool ok, const std::string& key, const std::string& msg = "") {
  if (!ok) violation(key, msg);
  return ok;
}
inline void state(uint64_t h) { if (st().states.size() < 20000000) st().states.insert(h); }
inline void outcome(uint64_t h) { if (st().outcomes.size() < 20000000) st().outcomes.insert(h); }
inline void eval(uint64_t n = 1) { st().evals += n; }
inline void transition(uint64_t n = 1) { st().transitions += n; }
inline void trace(uint64_t n = 1) { st().traces += n; }
inline void extra(const std::string& k, uint64_t n = 1) { st().extra[k] += n; }
inline void sample(const std::string& s) { if (st().samples.size() < 3) st().samples.push_back(s); }

inline void flush() {
  Stats& s = st();
  std::string l = fmt("{\"stat\":1,\"evals\":%llu,\"transitions\":%llu,\"traces\":%llu,\"states\":%llu,\"outcomes\":%llu,\"viols\":%llu,\"extra\":{",
    (unsigned long long)s.evals, (unsigned long long)s.transitions, (unsigned long long)s.traces,
    (unsigned long long)s.states.size(), (unsigned long long)s.outcomes.size(), (unsigned long long)s.viols);
  bool first = true;
  for (auto& e : s.extra) { l += fmt("%s\"%s\":%llu", first ? "" : ",", e.first.c_str(), (unsigned long long)e.second); first = false; }
  l += "},\"samples\":[";
  first = true;
  for (auto& e : s.samples) { l += (first ? "\"" : ",\"") + esc(e) + "\""; first = false; }
  l += "]}";
  emit(l);
  s = Stats();
}

inline void init(int, char**) {
  const char* o = getenv("VF_OUT");
  if (o) outfd() = open(o, O_WRONLY | O_CREAT | O_APPEND, 0644);
  const char* t = getenv("VERIF_TIER");
  thorough() = t && std::string(t) == "thorough";
  slot() = (char*)mmap(0, SLOT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  signal(SIGPIPE, SIG_IGN);
}
inline int finish() { flush(); emit("{\"done\":1}"); return 0; }

inline void quiet() {   // children: library chatter is not part of any check
  if (getenv("VF_VERBOSE")) return;
  int n = open("/dev/null", O_RDWR);
  dup2(n, 1); dup2(n, 2); close(n);
}

// Runs tasks in forked children, several at a time.  A child that dies or
// hangs is a violation carrying the case it was executing.
class Pool {
  struct Job { std::string label; char* slot; };
  std::map<pid_t, Job> live; size_t maxp; unsigned limit;
  void reap() {
    int stt; pid_t p = waitpid(-1, &stt, 0);
    if (p < 0) return;
    auto it = live.find(p);
    if (it == live.end()) return;
    if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
      std::string how = WIFSIGNALED(stt) ? fmt(WTERMSIG(stt) == SIGALRM ? "hang (signal %d)" : "signal %d", WTERMSIG(stt)) : fmt("exit %d", WEXITSTATUS(stt));
      violation("died:" + it->second.label + ":" + std::string(it->second.slot), "process died: " + how);
    }
    munmap(it->second.slot, SLOT);
    live.erase(it);
  }
public:
  Pool(unsigned limit_s = 600, size_t n = 8) : maxp(n), limit(limit_s) { if (getenv("VF_JOBS")) maxp = atoi(getenv("VF_JOBS")); }
  void run(const std::string& label, const std::function<void()>& fn) {
    const char* only = getenv("VF_ONLY_TASK");
    if (only && label.find(only) == std::string::npos) return;
    while (live.size() >= maxp) reap();
    Job j; j.label = label;
    j.slot = (char*)mmap(0, SLOT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      st() = Stats(); slot() = j.slot; quiet(); alarm(limit);
      fn();
      flush();
      _exit(0);
    }
    live[p] = j;
  }
  void drain() { while (!live.empty()) reap(); }
  ~Pool() { drain(); }
};

// Runs fn in a child and returns its wait status; the child's bytes written
// through the returned pipe end up in `out`.
struct ChildResult { bool exited; int code; int sig; std::string out; };
inline ChildResult child(const std::function<void(int)>& fn, unsigned limit = 60, bool silence = true) {
  int pfd[2]; if (pipe(pfd)) abort();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    close(pfd[0]); if (silence) quiet(); alarm(limit);
    fn(pfd[1]);
    _exit(0);
  }
  close(pfd[1]);
  ChildResult r; char b[65536]; ssize_t n;
  while ((n = read(pfd[0], b, sizeof b)) > 0) r.out.append(b, n);
  close(pfd[0]);
  int stt; waitpid(p, &stt, 0);
  r.exited = WIFEXITED(stt); r.code = r.exited ? WEXITSTATUS(stt) : -1; r.sig = WIFSIGNALED(stt) ? WTERMSIG(stt) : 0;
  return r;
}
inline void put(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = ::write(fd, s.data() + o, s.size() - o); if (n <= 0) _exit(99); o += n; } }

// Scratch directory of this run (created by the driver).
inline std::string scratch() { const char* s = getenv("VF_SCRATCH"); return s ? s : "/tmp"; }
inline std::string slurp(const std::string& f) {
  std::string r; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return r;
  char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r;
}
inline void spew(const std::string& f, const std::string& s) {
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) abort();
  size_t o = 0; while (o < s.size()) { ssize_t n = ::write(fd, s.data() + o, s.size() - o); if (n <= 0) abort(); o += n; } close(fd);
}
inline std::string hex(const std::string& s, size_t max = 64) { std::string o; for (size_t i = 0; i < s.size() && i < max; ++i) o += fmt("%02x", (unsigned char)s[i]); if (s.size() > max) o += ".."; return o; }

template<class T> std::string str(const std::vector<T>& v) { std::ostringstream o; for (size_t i = 0; i < v.size(); ++i) o << (i ? "x" : "") << v[i]; return o.str(); }

// all shapes of dimension nd with volume <= maxvol and extents in `ext`
inline void shapes(int nd, int maxvol, const std::vector<int>& ext, const std::function<void(const std::vector<int>&)>& fn) {
  std::vector<int> s(nd, 0);
  std::function<void(int, int)> rec = [&](int d, int v) {
    if (d == nd) { fn(s); return; }
    for (int e : ext) if (v * e <= maxvol) { s[d] = e; rec(d + 1, v * e); }
  };
  rec(0, 1);
}
} // namespace vf
#endif
