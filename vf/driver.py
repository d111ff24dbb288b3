"""Runs the exploration of one property, judges the reports, writes evidence."""
import fnmatch, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from . import build as B

KNOWN = os.path.join(B.VERIF, "known_findings.txt")

def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.+?) what=(.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.stats = {"evals": 0, "transitions": 0, "traces": 0, "states": 0, "outcomes": 0, "viols": 0}
        self.extra, self.viol, self.pool = {}, [], {}
        os.makedirs(os.path.join(B.VERIF, "scratch"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(B.VERIF, "scratch"))
        self.lock = threading.Lock()
    def job(self, binary, args=(), limit=700, env=None, tag=""):
        """One harness process; its reports go to a file of its own."""
        stats, viols = self._exec(binary, args, limit, env, tag)
        with self.lock:
            for r in stats:
                for k in self.stats: self.stats[k] += r[k]
                for k, v in r["extra"].items(): self.extra[k] = self.extra.get(k, 0) + v
                self.pool.setdefault(tag or binary, []).extend(r["samples"])
            self.viol += [(k, m, binary, list(args), env, limit, tag) for k, m in viols]
    def _exec(self, binary, args, limit, env, tag):
        out = os.path.join(self.scratch, "out-%s-%d" % (os.path.basename(binary), abs(hash((tag, tuple(args)))) % 10**8))
        sdir = out + ".d"; os.makedirs(sdir, exist_ok=True)
        e = dict(os.environ); e.update({"VF_OUT": out, "VF_SCRATCH": sdir, "VERIF_TIER": self.tier,
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
             "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=0"})
        e.update(env or {})
        lp = out + ".log"
        with open(lp, "wb") as lf:
            p = subprocess.Popen([binary] + list(args), stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=sdir, start_new_session=True)
            try: rc = p.wait(limit); hang = False
            except subprocess.TimeoutExpired:
                hang = True; rc = None
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        done = False; viols = []; stats = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try: r = json.loads(l)
                except ValueError: continue
                if "viol" in r: viols.append((tag + r["viol"], r.get("msg", "")))
                elif "stat" in r: stats.append(r)
                elif "done" in r: done = True
        if not done:
            tail = open(lp, "rb").read()[-600:].decode(errors="replace")
            viols.append((tag + "harness-died:" + os.path.basename(binary), ("did not finish in time" if hang else "exit status %s" % rc) + "; " + tail))
        shutil.rmtree(sdir, ignore_errors=True)
        for f in (out, lp):
            if os.path.exists(f): os.unlink(f)
        return stats, viols
    def confirm(self, new):
        """Replays every job that reported something: only what it reports again counts."""
        runs, keep = {}, []
        for v in new:
            k, m, b, a, env, limit, tag = v
            jk = (b, tuple(a), repr(env))
            if jk not in runs:
                left = 860 - (time.time() - self.t0)
                if left < 20: runs[jk] = None       # no time for a replay: report as it is
                else: runs[jk] = set(x for x, _ in self._exec(b, a, min(limit * 1.5, left), env, tag)[1])
            if runs[jk] is None or k in runs[jk]: keep.append(v)
            else: print("  not reproduced (dropped): %s %s" % (k, m[:200]))
        # a job whose first report does not repeat but which reports something else is still a failure
        if not keep:
            for v in new:
                jk = (v[2], tuple(v[3]), repr(v[4]))
                if runs[jk]: keep.append(v)
        return keep
    def finish(self, level, rule, assumptions, exhaustive=True, more=None):
        known = known_for(self.pid)
        new, seen = [], {}
        for v in self.viol:
            k, m = v[:2]
            for pat, what in known:
                if re.fullmatch(pat, k): seen.setdefault((pat, what), 0); seen[(pat, what)] += 1; break
            else: new.append(v)
        if new: new = self.confirm(new)
        s = self.stats
        samples = []
        while any(self.pool.values()) and len(samples) < 10:
            for l in self.pool.values():
                if l and len(samples) < 10: samples.append(l.pop(0))
        if level == "model_checking":
            cov = {"states": s["states"], "transitions": s["transitions"], "traces_validated_against_impl": s["traces"],
                   "samples": samples, "exhaustive": exhaustive, "rule": rule}
        else:
            cov = {"evaluations": s["evals"], "distinct_nontrivial": s["outcomes"], "rule": rule, "samples": samples, "exhaustive": exhaustive}
        if level == "model_checking" and s["outcomes"]: cov["distinct_outcomes"] = s["outcomes"]
        if level != "model_checking" and s["states"]: cov["distinct_states"] = s["states"]
        cov["counters"] = self.extra
        if more: cov.update(more)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(B.VERIF, "evidence", self.pid + ".json")
        open(p + ".tmp", "w").write(json.dumps(ev, indent=1)); os.rename(p + ".tmp", p)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: states=%d transitions=%d traces=%d evals=%d outcomes=%d wall=%.1fs %s" % (self.pid, self.tier, s["states"],
              s["transitions"], s["traces"], s["evals"], s["outcomes"], time.time() - self.t0, json.dumps(self.extra, sort_keys=True)))
        for (pat, what), n in seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if not new: return 0
        rd = os.path.join(B.VERIF, "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, self.pid + ".json")
        json.dump([{"key": k, "msg": m, "binary": b, "args": a, "env": env, "tier": self.tier} for k, m, b, a, env, *_ in new], open(rp, "w"), indent=1)
        for k, m, *_ in new[:15]: print("  %s: %s" % (k, m[:400].replace("\n", " | ")))
        if len(new) > 15: print("  ... %d more" % (len(new) - 15))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1
