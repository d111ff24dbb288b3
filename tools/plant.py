"""plant(id, property, [(file, old, new)], demo C++ text, needs, what): writes seeded/<id>/ from the scratch copy /tmp/sw."""
import json, os, subprocess
V = "/verif"; W = os.environ.get("SW", "/tmp/sw")
DEMO = """#!/bin/bash
# exit 0: the property holds; run in the repository's directory after its build
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=$R/_build/%(conf)s
g++ -O1 -w -msse2 -include cstring -include cstdint %(flags)s -I$B/include -I$R/include -I$R/other_libs "$D/demo.cc" %(srcs)s %(lib)s -o $T/demo || exit 2
cd $T && timeout 120 ./demo
"""
HEAD = """#include "qdp.h"
#include <cstdio>
#include <cstdlib>
using namespace QDP;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\\n", #c, __LINE__); bad = 1; } } while (0)
static void start(int argc, char** argv, int a, int b, int c, int d) { QDP_initialize(&argc, &argv); multi1d<int> n(Nd); n[0] = a; n[1] = b; n[2] = c; n[3] = d; Layout::setLattSize(n); Layout::create(); }
"""
def plant(id, prop, edits, demo, needs, what, conf="generic", flags="", srcs="", lib="$B/lib/libqdp.a"):
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    subprocess.call(["git", "-C", W, "pull", "-q"])
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p, newline="").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w", newline="").write(subprocess.check_output(["git", "-C", W, "diff"]).decode())
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    if demo: open(os.path.join(d, "demo.cc"), "w").write(HEAD + demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(conf=conf, flags=flags, srcs=srcs, lib=lib))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("planted", id)
