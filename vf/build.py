"""Builds qdpxx sources and harnesses from /repo's current working tree, out of tree."""
import hashlib, os, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VF_BUILD_JOBS", "8"))

COMMON = ["qdp_map", "qdp_subset", "qdp_random", "qdp_layout", "qdp_io", "qdp_byteorder", "qdp_util",
          "qdp_stdio", "qdp_profile", "qdp_strnlen", "qdp_crc32", "qdp_stopwatch", "qdp_rannyu",
          "qdp_default_allocator", "qdp_generic_threadbind"]
SCALAR = ["qdp_scalar_init", "qdp_scalar_layout", "qdp_scalar_specific", "qdp_scalarsite_specific"]
PARSCALAR = ["qdp_parscalar_init", "qdp_parscalar_layout", "qdp_parscalar_specific",
             "qdp_parscalar_global_sum", "qdp_qmp_extensions", "qdp_scalarsite_specific"]

# files of other architectures and optional parts; a file the library did not have is taken into every full build
OTHER = ["qdp_bgq_threadbind", "qdp_hdf5", "qdp_iogauge", "qdp_map_obj_disk", "qdp_parscalarvec_init", "qdp_parscalarvec_layout",
         "qdp_parscalarvec_specific", "qdp_pool_allocator", "qdp_qdpio", "qdp_qio_strings", "qdp_scalarvec_init", "qdp_scalarvec_layout",
         "qdp_scalarvec_specific", "qdp_scalarvecsite_specific", "qdp_scalarvecsite_sse", "qdp_xmlio"]

class Config:
    """One way of configuring the library."""
    def __init__(self, name, layout="CB2", nd=4, nc=3, opts="generic", prec=32, arch="scalar", omp=False,
                 san=None, opt="-O1", extra=(), cxx="g++", only=None, skip=(), defs=(), more=(), sched=None):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.extra = list(extra)
    def header(self):
        d = {"BASE_PRECISION": self.prec, "HAVE_GETHOSTNAME": 1, "PACKAGE": '"qdp--"', "PACKAGE_BUGREPORT": '"x"',
             "PACKAGE_NAME": '"qdp++"', "PACKAGE_STRING": '"qdp++ 1.46.0"', "PACKAGE_TARNAME": '"qdp--"',
             "PACKAGE_VERSION": '"1.46.0"', "VERSION": '"1.46.0"', "QDP_AC_ALIGNMENT_SIZE": 16, "QDP_NC": self.nc,
             "QDP_ND": self.nd, "QDP_NS": 4, "QDP_USE_BAGEL_QDP": 0, "QDP_USE_BLUEGENEL": 1,
             "QDP_USE_%s_LAYOUT" % self.layout: 1}
        d["ARCH_" + self.arch.upper()] = 1
        if self.opts in ("generic", "sse"): d["QDP_USE_GENERIC_OPTS"] = 1
        if self.opts == "sse": d["QDP_USE_SSE"] = 1; d["QDP_USE_SSE2"] = 1
        if self.omp or self.sched == "omp": d["QDP_USE_OMP_THREADS"] = 1
        if self.sched == "qmt": d["QDP_USE_QMT_THREADS"] = 1
        for k, v in self.defs: d[k] = v
        return "".join("#define %s %s\n" % kv for kv in sorted(d.items()))
    def flags(self):
        f = [self.opt, "-msse2", "-include", "cstring", "-include", "cstdint", "-w"]
        if self.omp: f.append("-fopenmp")
        if self.opts == "sse": f.append("-I" + os.path.join(HARN, "libintrin"))    # stands in for the absent submodule
        if self.san: f += ["-fsanitize=" + self.san, "-fno-omit-frame-pointer"]
        if self.sched:       # threads under omprt.cc: the compiler's calls are kept, its run-time libraries are not linked
            f += ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]
            if self.sched == "omp": f.append("-fopenmp")
        return f + self.extra
    def lflags(self):
        if not self.sched: return self.flags()
        return [self.opt, "-rdynamic"] + ["-Wl,--wrap=" + w for w in
            ("memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "posix_memalign", "free",
             "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")] + self.extra
    def plain(self): return ["-O2", "-w"]
    def sources(self):
        if self.only is not None: names = list(self.only)
        else:
            names = COMMON + (PARSCALAR if self.arch == "parscalar" else SCALAR)
            names += list(self.more)
            known = set(COMMON + SCALAR + PARSCALAR + OTHER)
            names += [f[:-3] for f in sorted(os.listdir(os.path.join(REPO, "lib"))) if f.endswith(".cc") and f[:-3] not in known]
            if self.opts == "sse":
                d = os.path.join(REPO, "lib", "scalarsite_sse")
                names += ["scalarsite_sse/" + f[:-3] for f in sorted(os.listdir(d))
                          if f.endswith(".cc")]
        return [os.path.join(REPO, "lib", n + ".cc") for n in names if n not in self.skip]

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for top in ("include", "lib"):
            for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".cc", ".c", ".hpp")):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _repo_hash = h.hexdigest()
    return _repo_hash

class BuildError(Exception): pass

def _run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])

def file_hash(paths):
    h = hashlib.sha256()
    for p in paths: h.update(open(p, "rb").read())
    return h.hexdigest()

def build(targets):
    """targets: list of (binary name, Config, [harness sources], [extra compile flags], [link flags]).
    Returns {binary name: path}.  Objects are shared per Config."""
    os.makedirs(BUILD, exist_ok=True)
    hdrs = sorted(os.path.join(d, f) for d, _, fs in os.walk(HARN) for f in fs if f.endswith((".h", ".hh")))
    hh = file_hash(hdrs)
    jobs, links, out = [], [], {}
    seen = {}
    for name, cfg, srcs, cflags, lflags in targets:
        key = hashlib.sha256((repo_hash() + cfg.header() + repr(cfg.flags()) + repr(cfg.sources())).encode()).hexdigest()[:12]
        cdir = os.path.join(BUILD, "lib-%s-%s" % (cfg.name, key))
        inc = ["-I" + os.path.join(cdir, "conf"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "other_libs"),
               "-I" + os.path.join(HARN, "stub"), "-I" + HARN]
        if cdir not in seen:
            for d in os.listdir(BUILD):
                if d.startswith("lib-%s-" % cfg.name) and os.path.join(BUILD, d) != cdir and len(d) == len("lib-%s-" % cfg.name) + 12:
                    shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            os.makedirs(os.path.join(cdir, "conf"), exist_ok=True)
            hp = os.path.join(cdir, "conf", "qdp_config_internal.h")
            if not os.path.exists(hp): open(hp, "w").write(cfg.header())
            objs = []
            for s in cfg.sources():
                o = os.path.join(cdir, os.path.basename(s)[:-3] + ".o"); objs.append(o)
                if not os.path.exists(o):
                    jobs.append(([cfg.cxx] + cfg.flags() + inc + ["-c", s, "-o", o + ".tmp.o"], o))
            seen[cdir] = objs
        objs = seen[cdir]
        hobjs = []
        hkey = hashlib.sha256((hh + repr(cflags)).encode()).hexdigest()[:8]
        for s in list(srcs) + (["plain:omprt.cc"] if cfg.sched else []):
            how = cfg.plain() if s.startswith("plain:") else cfg.flags()
            s = s[6:] if s.startswith("plain:") else s
            sp = s if os.path.isabs(s) else os.path.join(HARN, s)
            o = os.path.join(cdir, "h-%s-%s-%s.o" % (os.path.basename(sp).replace(".", "_"), file_hash([sp])[:8], hkey)); hobjs.append(o)
            if not os.path.exists(o) and not any(j[1] == o for j in jobs):
                jobs.append(([cfg.cxx] + how + inc + list(cflags) + ["-c", sp, "-o", o + ".tmp.o"], o))
        b = os.path.join(cdir, name)
        links.append(([cfg.cxx] + cfg.lflags() + hobjs + objs + list(lflags) + ["-o", b], b))
        out[name] = b
    def comp(j):
        cmd, o = j
        _run(cmd, None); os.rename(o + ".tmp.o", o)
    # big harness sources first
    jobs.sort(key=lambda j: 0 if "/h-" in j[1] else 1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for _ in ex.map(comp, jobs): pass
        def link(l): _run(l[0], None)
        for _ in ex.map(link, links): pass
    return out
