"""What each check builds and runs."""
import concurrent.futures as cf
import os
from .build import Config, HARN, build

PROPS = {}
def prop(pid, level, technique, rule, assume, note, **kw):
    def deco(fn):
        PROPS[pid] = dict(run=fn, level=level, technique=technique, rule=rule, assume=assume, note=note, **kw)
        return fn
    return deco

def jobs(run, lst, par=1):
    """lst: dicts of Run.job arguments; par: how many harness processes at once."""
    with cf.ThreadPoolExecutor(par) as ex:
        for f in [ex.submit(run.job, **j) for j in lst]: f.result()

GCC = ["g++ 13 code generation at -O1/-O2 stands for the user's build"]

@prop("C01", "model_checking", "explicit enumeration of all lattice shapes and sites on the implementation",
      "one state per (shape, coordinate, linear index); every shape with extents 1..8 up to the volume bound plus long extents and listed large shapes of up to some 80000 sites, each selectable ordering, Nd=3,4 (and 2); transitions are coordinate->index->coordinate steps; an outcome is a shape fully verified",
      GCC + ["volumes not listed behave like those listed (index arithmetic is the same code)", "32-bit overflow of the volume is out of scope"],
      "Exhaustive over the listed shapes, orderings and dimensions against an independent odometer; every shape is judged on the real code, so each trace is an implementation trace.")
def c01(run):
    q = run.tier == "quick"
    T, J = [], []
    for lay in ("CB2", "LEXICO", "CB3D", "CB32"):
        for nd in (2, 3, 4):
            if lay == "CB3D" and nd == 2: continue
            n = "c01_%s_%d" % (lay, nd)
            T.append((n, Config("%s-nd%d" % (lay, nd), layout=lay, nd=nd, opt="-O1"), ["c01_layout.cc"], [], []))
            J.append((n, dict(env={"C01_MAXVOL": str({2: 64, 3: 64, 4: 48}[nd] * (1 if q else 8))}, tag="%s.nd%d." % (lay, nd))))
    b = build(T)
    jobs(run, [dict(binary=b[n], **k) for n, k in J])

@prop("C02", "model_checking", "explicit enumeration of colouring functions and of histories of set objects on the implementation",
      "a state is a (shape, colouring) pair or the contents of the three set objects after a history; every colouring with k colours of every small lattice, every history of 30 operations (make over four colourings, two of them with subsets of equal sizes, assign, copy, destroy) on three sets up to the depth bound under AddressSanitizer, and every acceptable shape up to a volume bound and the listed large ones for the predefined sets",
      GCC + ["colourings of larger lattices behave like those of lattices with at most 12 sites"],
      "Complete for the listed lattices, colours and history depth; each state is reached and judged on the real objects, by their accessors and by an assignment under the subset.")
def c02(run):
    q = run.tier == "quick"
    T, J = [], []
    for lay in ("CB2", "LEXICO", "CB3D", "CB32"):
        cfg = Config("%s-nd4" % lay, layout=lay, nd=4, opt="-O1")
        n = "c02_%s" % lay
        T.append((n, cfg, ["c02_sets.cc"], [], []))
        if lay in ("CB2", "LEXICO"): J.append((n, dict(args=["funcs"], tag=lay + ".funcs.")))
        J.append((n, dict(args=["predef", str((96 if q else 512) * (4 if lay == "CB32" else 1))], tag=lay + ".predef.")))
    for nd in (2, 3):
        n = "c02_nd%d" % nd
        T.append((n, Config("CB2-nd%d" % nd, nd=nd, opt="-O1"), ["c02_sets.cc"], [], []))
        J.append((n, dict(args=["predef", "96" if q else "512"], tag="nd%d.predef." % nd)))
    T.append(("c02_asan", Config("CB2-nd4-asan", nd=4, opt="-O1", san="address"), ["c02_sets.cc"], [], []))
    J.append(("c02_asan", dict(args=["hist"], tag="hist.")))
    b = build(T)
    jobs(run, [dict(binary=b[n], **k) for n, k in J])

@prop("C03", "model_checking", "explicit enumeration of map functions, map compositions and lattice shapes on the implementation",
      "a state is a (shape, map function), (shape, outer map, inner map) or (shape, sign, direction); all V^V functions for V<=6, all permutations for V=8, ordered pairs of all functions on 4 sites, all acceptable shapes up to the volume bound and the listed large ones for the shifts; transitions are evaluated map expressions",
      GCC + ["arbitrary maps of lattices larger than 8 sites behave like those of the small ones and like the listed ones on large lattices", "multi-node maps are C23"],
      "Complete for the listed lattices: every destination site's value is compared with the value the table names, for several element types, subsets and nestings.")
def c03(run):
    q = run.tier == "quick"
    T, J = [], []
    for lay in ("CB2", "LEXICO", "CB3D", "CB32"):
        n = "c03_%s" % lay
        T.append((n, Config("%s-nd4" % lay, layout=lay, nd=4, opt="-O1"), ["c03_maps.cc"], [], []))
        if lay in ("CB2", "LEXICO"): J.append((n, dict(args=["maps"], tag=lay + ".maps.")))
        J.append((n, dict(args=["shifts", str((48 if q else 256) * (4 if lay == "CB32" else 1))], tag=lay + ".shifts.")))
    for nd in (2, 3):
        T.append(("c03_nd%d" % nd, Config("CB2-nd%d" % nd, nd=nd, opt="-O1"), ["c03_maps.cc"], [], []))
        J.append(("c03_nd%d" % nd, dict(args=["shifts", "64" if q else "256"], tag="nd%d.shifts." % nd)))
    b = build(T)
    jobs(run, [dict(binary=b[n], **k) for n, k in J])

@prop("C04", "model_checking", "explicit enumeration of subsets x operation forms on the implementation",
      "a state is a (lattice, subset, element type, operation form) reached and judged; all 256 subsets of an 8-site lattice , all 4096 of a 12-site one (and, thorough, all 65536 of a 16-site one), all assignment operators from field/expression/site object/literal/zero, copymask with several masks, random and gaussian fills, zero fill, extract/insert, and owning sub-lattices with their copies; six subsets of each listed large lattice; single-site reads and writes at every site of small lattices and in strides on the large ones",
      GCC + ["operand values are small exact numbers, so single-site arithmetic is exact", "the single-site operation itself is judged by C05"],
      "Complete over the subsets of the listed lattices; sites inside must carry the single-site result, sites outside must be bit-identical; run with and without the specialised kernels.")
def c04(run):
    T = [("c04_generic", Config("CB2-nd4", nd=4, opt="-O1"), ["c04_subset.cc"], [], []),
         ("c04_lexico", Config("LEXICO-nd4", layout="LEXICO", nd=4, opt="-O1"), ["c04_subset.cc"], [], []),
         ("c04_sse_dbl", Config("CB2-nd4-sse-dbl", nd=4, prec=64, opts="sse", opt="-O1"), ["c04_subset.cc"], [], [])]
    b = build(T)
    jobs(run, [dict(binary=b[n], tag=n[4:] + ".") for n, *_ in T])

@prop("C05", "model_checking", "explicit enumeration of operator x element-type x operand-kind cases and of operator compositions on the implementation",
      "a state is an (operator or operator composition, element types) pair judged on all its operand cases; for forms linear over the reals in each operand all pairs of unit components are enumerated (which determines the form completely), plus dense small-integer operands; lattice and single-site operands in all four arrangements; every operator applied to every operator's result, and three-level products under traces",
      GCC + ["operands are exactly representable, so results are exact; transcendental functions within 2e-6 of the C library in double precision"],
      "Complete for the listed operators, element types and nesting depth; an independent spin x colour x complex component algebra is the oracle; element combinations the library does not compile are outside the property.")
def c05(run):
    cfg = Config("CB2-nd4", nd=4, opt="-O1")
    T = [("c05_%d" % p, cfg, ["c05_expr.cc"], ["-DPART=%d" % p], []) for p in range(10)]
    if run.tier != "quick":
        c2 = Config("nc2-dbl", nd=4, nc=2, prec=64, opt="-O1"); c3 = Config("nc3-sse", nd=4, opts="sse", opt="-O2"); c4 = Config("nc3-none", nd=3, opts="none", opt="-O2")
        for c in (c2, c3, c4):
            T += [("c05_%s_%d" % (c.name, p), c, ["c05_expr.cc"], ["-DPART=%d" % p], []) for p in range(10)]
    b = build(T)
    jobs(run, [dict(binary=b[n], tag=n[4:] + ".") for n, *_ in T], par=2)

@prop("C06", "model_checking", "explicit enumeration of gamma/projector forms x unit spinors on the implementation",
      "a state is a (form, gamma number or direction and sign, element type) triple judged on all its operand cases: every unit component, every pair of unit components, dense small integers; run-time and compile-time gamma, both bases, all 16x16 products; fused forms assigned under whole, ordered and scattered subsets",
      GCC + ["operands are exactly representable small numbers, and each form is linear over the reals in each operand, so unit components determine it"],
      "Complete for all 16 gamma matrices, all 8 projectors and both chiral projections on the listed element types; the oracle is the explicit matrices of the manual (and, for the Dirac-Pauli basis, of the code's documentation) multiplied by an independent component algebra; run with the general forms and with the fused kernels included.")
def c06(run):
    q = run.tier == "quick"
    cfg = Config("CB2-nd4", nd=4, opt="-O1")
    T = [("c06_%d" % p, cfg, ["c06_gamma.cc"], ["-DPART=%d" % p], []) for p in range(4)]
    T += [("c06_agg_%d" % p, cfg, ["c06_gamma.cc"], ["-DPART=%d" % p, "-DAGG=1"], []) for p in ([3] if q else [0, 2, 3])]
    T.append(("c06_sseagg_3", Config("nc3-sse1", nd=4, opts="sse", opt="-O1"), ["c06_gamma.cc"], ["-DPART=3", "-DAGG=2"], []))
    if not q:
        for c in (Config("nc2-dbl", nd=4, nc=2, prec=64, opt="-O1"), Config("nc3-sse", nd=4, opts="sse", opt="-O2"), Config("nc3-none", nd=3, opts="none", opt="-O2"), Config("nc3-dbl", nd=4, prec=64, opts="sse", opt="-O2")):
            T += [("c06_%s_%d" % (c.name, p), c, ["c06_gamma.cc"], ["-DPART=%d" % p], []) for p in range(4)]
            if c.name == "nc3-dbl": T.append(("c06_agg_dbl_3", c, ["c06_gamma.cc"], ["-DPART=3", "-DAGG=1"], []))
    b = build(T)
    jobs(run, [dict(binary=b[n], tag=n[4:] + ".") for n, *_ in T], par=2)

@prop("C07", "model_checking", "explicit enumeration of statement forms x targets x scalars x aliasing patterns on every kernel build of the implementation",
      "a state is a (statement form, target, aliasing pattern, scalar tuple) tuple executed and judged site by site; targets are the whole lattice and all 256 subsets of an 8-site lattice, and every contiguous range, every range with a hole and every pair of sites of a 16-site one; the whole, a range and a range with holes of lattices of 33600 and 70400 sites; every aliasing of destination and operands; scalar values include 0, 1, -1",
      GCC + ["operands and scalars are small exact numbers", "the intrinsics submodule absent from the tree is replaced by plain C, so the arithmetic inside it is not judged; its callers are"],
      "Complete over the listed statement forms, targets, aliasings and scalars, for generic, SSE (single, double, SSE3) and kernel-free builds, against the component formula in exact small integers; builds agree because each agrees with the formula.")
def c07(run):
    q = run.tier == "quick"
    C = {n: Config("c07-" + n, nd=4, opts=o, prec=p, opt=op, extra=ex, defs=df) for n, o, p, op, ex, df in (
        ("gen32", "generic", 32, "-O1", (), ()), ("gen64", "generic", 64, "-O1", (), ()), ("sse32", "sse", 32, "-O1", (), ()), ("sse64", "sse", 64, "-O1", (), ()),
        ("none32", "none", 32, "-O1", (), ()), ("sse3", "sse", 64, "-O2", ("-msse3",), (("QDP_USE_SSE3", 1),)))}
    parts = {"none32": [0, 4], "sse3": [0, 4], "gen64": [0, 1, 2, 3, 4, 5]} if q else {}
    T, J = [], []
    for n in C:
        for p in parts.get(n, range(10)):
            nm = "c07_%s_%d" % (n, p)
            T.append((nm, C[n], ["c07_kernels.cc"], ["-DPART=%d" % p], []))
            J.append((nm, {}, nm[4:] + ".")); J.append((nm, {"C07_BIG": "1"}, nm[4:] + ".v16."))
            if n in ("gen32", "sse32", "sse64") or not q: J.append((nm, {"C07_LARGE": "4200" if p in (4, 5, 8) else "8800"}, nm[4:] + ".large."))
    b = build(T)
    jobs(run, [dict(binary=b[n], env=e, tag=t) for n, e, t in J], par=2)

@prop("C08", "model_checking", "explicit enumeration of colourings, masks, value arrangements and special-value positions on the implementation",
      "a state is a (colouring, element type), (mask, operand form), (arrangement of values over sites) or (special values, positions) case judged; all 2- and 3-colourings of an 8-site lattice, all orderings of 8 values and all arrangements of 3 values for the extrema, one and two special values in every site and component, and sums that encode the set of sites counted on every acceptable shape up to a volume bound and the listed large ones, and arrays of up to 300 fields",
      GCC + ["values are exactly representable, so the order of summation does not matter", "larger lattices behave like those listed"],
      "Complete over the listed cases, judged against explicit loops over sites in exact arithmetic; orderings CB2, LEXICO, CB3D and CB32, dimensions 3 and 4, builds with and without the specialised kernels.")
def c08(run):
    q = run.tier == "quick"
    T = []
    def add(cfg, parts, tag): 
        for p in parts: T.append(("c08_%s_%d" % (tag, p), cfg, ["c08_reduce.cc"], ["-DPART=%d" % p], []))
    add(Config("CB2-nd4", nd=4, opt="-O1"), [0, 1, 2, 3, 4, 9], "cb2")
    add(Config("LEXICO-nd4", layout="LEXICO", nd=4, opt="-O1"), [0, 9], "lex")
    for l in ("CB3D", "CB32"): add(Config("%s-nd4" % l, layout=l, nd=4, opt="-O1"), [9], l.lower())
    add(Config("c07-none32", nd=4, opts="none", opt="-O1"), [2] if q else [0, 1, 2, 3, 4], "none")
    add(Config("c07-sse64", nd=4, prec=64, opts="sse", opt="-O1"), [2] if q else [0, 1, 2, 3, 4], "sse64")
    if not q:
        add(Config("CB2-nd3", nd=3, opt="-O1"), [0, 9], "nd3")
        add(Config("nc2-dbl", nd=4, nc=2, prec=64, opt="-O1"), [0, 1, 2, 3, 4], "nc2dbl")
    b = build(T)
    jobs(run, [dict(binary=b[n], tag=n[4:] + ".") for n, *_ in T], par=2)

@prop("C10", "model_checking", "explicit enumeration of subsets, seeds, shapes and draw sequences on the implementation",
      "a state is a (seed, draw) case, a (subset, form) case, a lattice shape with a seed, or the generator state after a sequence of draws; all 256 subsets of an 8-site lattice in all fill forms, all draw sequences over 13 kinds of draw up to the depth bound, all acceptable shapes up to a volume bound and the listed large ones, seed words at the carry boundaries in every combination, and products and shifts of all their pairs",
      GCC + ["seeds between the listed word values behave like them (each 12-bit word takes its extreme and carry values in all combinations)"],
      "Complete over the listed seeds, subsets, sequences and shapes, against a 47-bit integer recurrence applied at the global lexicographic position of each site; orderings CB2, LEXICO, CB3D and CB32, single and double precision.")
def c10(run):
    q = run.tier == "quick"
    T, J = [], []
    def add(n, cfg, args):
        if not any(t[0] == n for t in T): T.append((n, cfg, ["c10_random.cc"], [], []))
        J.append(dict(n=n, args=args, tag=n[4:] + "." + "".join(args) + "."))
    for lay in ("CB2", "LEXICO", "CB3D", "CB32"):
        cfg = Config("%s-nd4" % lay, layout=lay, nd=4, opt="-O1")
        add("c10_" + lay, cfg, ["shapes"])
        if lay in ("CB2", "LEXICO"): add("c10_" + lay, cfg, [])
    add("c10_nd3", Config("CB2-nd3", nd=3, opt="-O1"), ["shapes"])
    add("c10_dbl", Config("CB2-nd4-sse-dbl", nd=4, prec=64, opts="sse", opt="-O1"), ["shapes"] if q else [])
    b = build(T)
    jobs(run, [dict(binary=b[j["n"]], args=j["args"], tag=j["tag"]) for j in J], par=2)

@prop("C11", "model_checking", "explicit enumeration of set/save/restore/draw histories on the implementation",
      "a state is the generator state (and the saved seeds) after a history; every history over the operation alphabet up to the depth bound for the lattice generator, in a fresh process each for the stand-alone one, and one-step transitions from every seed of a grid over the word boundaries",
      GCC + ["seeds between the listed word values behave like them"],
      "Complete over the listed alphabet and depth; after each operation the state and the drawn values are compared with a big-integer reference, so a replay after a restore is judged too.")
def c11(run):
    T = [("c11", Config("CB2-nd4", nd=4, opt="-O1"), ["c11_seed.cc"], [], [])]
    b = build(T)
    jobs(run, [dict(binary=b["c11"])])

@prop("C12", "model_checking", "explicit enumeration of values, container shapes and write/read programs on the implementation",
      "a state is a value with its type, a container shape (new over old content), or a program of writes; all patterns of boundary bytes for each built-in type (all patterns at all up to two bytes), all container extents 0..3, all strings up to length 3 over a 7-character alphabet, listed strings, lines and arrays beyond the stream buffers, all programs over 22 kinds of item up to the depth bound; every pairing of the four writer and four reader classes",
      GCC + ["values between the boundary-byte patterns behave like them"],
      "Complete over the listed values, shapes and programs, judged against an independent big-endian serialiser and an independent bitwise CRC-32; image, checksum, position, untouched source and value read back are all compared.")
def c12(run):
    b = build([("c12", Config("CB2-nd4", nd=4, opt="-O1"), ["c12_binary.cc"], [], [])])
    jobs(run, [dict(binary=b["c12"])])

@prop("C13", "model_checking", "explicit enumeration of operation histories of every binary stream class on the implementation",
      "a state is the byte array with its cursors, status and running checksum after a history; every history over up to 18 operations (writes, reads, absolute, relative and end-relative seeks inside and past the contents, rewind, checksum reset, flush, close and reopen, clear) up to the depth bound, at two scales (bytes, and blocks larger than the stream buffers), observed after every operation and, separately, only at the end",
      GCC + ["libstdc++ streams; an in-memory stream cannot be positioned past its end, a file can"],
      "Complete over the listed operations and depth; bytes, positions, failure flags, checksums and final contents are compared with a byte-array model stepped alongside the real object.")
def c13(run):
    b = build([("c13", Config("CB2-nd4", nd=4, opt="-O1"), ["c13_stream.cc"], [], [])])
    jobs(run, [dict(binary=b["c13"])])

@prop("C15", "model_checking", "exhaustive fault injection: every cut, error and short-transfer point of every program of reads or writes, on the implementation",
      "a state is a (stream class, program of items, fault kind, byte position, flush points) case; every program of one or two of 26 kinds of item (thorough: three) with the file cut, the device erring (always or once) or the device full at every byte, plus blocks larger than the stream buffers, transfers in pieces of 1, 3 and 7 bytes with interruptions, and every way of failing to open",
      GCC + ["the C++ stream library reaches the file through read, write and writev, which the harness interposes", "runs as root: permission failures are represented by the other ways an open fails"],
      "Complete over the listed programs and fault points: items wholly delivered before the fault must read right, every later one must be reported, a flush or close must report iff bytes were refused, and the report must persist until the file is opened anew.")
def c15(run):
    b = build([("c15", Config("CB2-nd4", nd=4, opt="-O1"), ["c15_faults.cc"], [], [])])
    jobs(run, [dict(binary=b["c15"])])

@prop("C16", "model_checking", "explicit enumeration of values, programs of items and histories of stream objects on the implementation",
      "a state is a value with its type, a program of items with separators and stream classes, a reader or writer history, or an output program under a setting of the underlying stream; all 16-bit integers, every integer at a power of two or digit boundary, every decimal exponent with mantissas at the digit boundaries up to six digits, all characters, all strings up to length 3 over 6 characters, all programs of up to three of 31 kinds of item, all reader/writer histories and all output programs up to the depth bound",
      GCC + ["floating values are finite, normal and have at most the six significant digits text output prints; strings and characters hold no white space; the user separates items by white space"],
      "Complete over the listed values, programs and histories, judged against printf/strtod and plain standard streams.")
def c16(run):
    T = [("c16", Config("CB2-nd4", nd=4, opt="-O1"), ["c16_text.cc"], [], [])]
    if run.tier != "quick": T.append(("c16d", Config("CB2-nd4-sse-dbl", nd=4, prec=64, opts="sse", opt="-O1"), ["c16_text.cc"], [], []))
    b = build(T)
    jobs(run, [dict(binary=b[t[0]], tag=t[0] + ".") for t in T])

@prop("C22", "model_checking", "exhaustive enumeration of bounded input spaces on the implementation",
      "a state is an input: element size, count and alignment, byte values, string, initial value, split; every count to 70 at every alignment, every value of every byte, counts beyond 2^32, all strings up to 2 bytes (thorough: 3) from up to 38 initial values, every single-bit string up to 200 bytes, all two- and three-way splits, all zero patterns of up to 12 bytes at the end of a page, all lists of up to 8 small integers",
      GCC + ["bytes of longer inputs are treated alike (every position, alignment and single bit is covered)"],
      "Complete over the listed inputs, against byte reversal and a bitwise CRC-32.")
def c22(run):
    T = [("c22", Config("CB2-nd4", nd=4, opt="-O1"), ["c22_bytes.cc"], [], []), ("c22o2", Config("CB2-nd4-O3", nd=4, opt="-O3"), ["c22_bytes.cc"], [], [])]
    b = build(T)
    jobs(run, [dict(binary=b["c22"], tag="c22."), dict(binary=b["c22o2"], args=["small"], tag="c22o2.")])

@prop("C26", "model_checking", "explicit enumeration of call histories over an alphabet of clock readings on the implementation",
      "a state is (accumulated time, running, start reading) after a history; every history of up to 5 calls over 9 clock readings (thorough 6) and of 6 over 3 readings (thorough 8), with failing clocks and with the clock stepping back, read after every call or at the end",
      GCC + ["the library reads the clock through gettimeofday, which the harness interposes", "clock readings between those listed behave like them"],
      "Complete over the listed histories, against exact integer arithmetic.")
def c26(run):
    b = build([("c26", Config("CB2-nd4", nd=4, opt="-O1"), ["c26_watch.cc"], [], [])])
    jobs(run, [dict(binary=b["c26"])])

@prop("C20", "model_checking", "explicit enumeration of operation histories of every array container on the implementation, under the address sanitizer with counted elements",
      "a state is the sizes, contents and ownership of two variables after a history; every history of three or four operations over construction, copy, assignment (self included), resize, element writes, fills, arithmetic, placement on outside memory and slices; all pairs of integer arrays up to size 3 for comparison; all extents 1..3 at ranks 1..5 for packed indices; every refused use",
      GCC + ["element types without members that alias the container; an operand that is an element of the array being changed is not used"],
      "Complete over the listed shapes and depth, against plain value vectors; addresses, element counts and invalid memory accesses are judged after every operation.")
def c20(run):
    b = build([("c20", Config("CB2-nd4-asan", nd=4, opt="-O1", san="address"), ["c20_arrays.cc"], [], [])])
    jobs(run, [dict(binary=b["c20"])])

@prop("C21", "model_checking", "explicit enumeration of request and field-lifetime histories with failure injection on the implementation, raw memory supplied by an adversarial arena",
      "a state is the multiset of live blocks (or fields with their contents) after a history; every history of requests (8 sizes, each raw request failing in turn) and releases up to the depth bound at every misalignment of the raw memory, every history of three lifetime operations (28 kinds) on three variables, every impossible request and every release of something not live",
      GCC + ["the allocators obtain memory through operator new or the TBB fixed pool, which the harness supplies"],
      "Complete over the listed sizes, offsets and depth, for the default allocator at alignments 16, 64 and 128 and with memory debugging, and for the pool allocator over a stand-in pool and the real one.")
def c21(run):
    pool = dict(defs=[("QDP_USE_TBBPOOL_ALLOCATOR", 1)], opt="-O1")
    T = [("c21", Config("CB2-nd4", nd=4, opt="-O1"), ["c21_memory.cc"], [], [])]
    for al in (64, 128): T.append(("c21a%d" % al, Config("CB2-nd4-al%d" % al, nd=4, opt="-O1", defs=[("QDP_AC_ALIGNMENT_SIZE", al)]), ["c21_memory.cc"], [], []))
    T.append(("c21dbg", Config("CB2-nd4-dbgmem", nd=4, opt="-O1", defs=[("QDP_DEBUG_MEMORY", 1)]), ["c21_memory.cc"], [], []))
    T.append(("c21pool", Config("CB2-nd4-pool", nd=4, extra=["-I" + os.path.join(HARN, "stubtbb"), "-I" + HARN], more=["qdp_pool_allocator"], **pool), ["c21_memory.cc"], [], []))
    T.append(("c21tbb", Config("CB2-nd4-tbb", nd=4, more=["qdp_pool_allocator"], **pool), ["c21_memory.cc"], ["-DREAL_TBB"], ["-ltbbmalloc"]))
    b = build(T)
    jobs(run, [dict(binary=b[t[0]], tag=t[0] + ".") for t in T], par=2)

MAP = dict(nd=4, opt="-O1", more=["qdp_map_obj_disk"])
@prop("C17", "model_checking", "explicit enumeration of operation histories of the disk map on the implementation",
      "a state is the contents of two files, the open file and its mode after a history; every history over 15 to 18 operations (create, open for update or reading, inserts of values of three sizes, lookups, flush, close, renewal of the object, user data) up to the depth bound, observed after every operation and, separately, only at the end; every number of keys up to the bound in three orders; every cut and every changed byte of a file",
      GCC + ["the program that uses the map is the only one that touches the file"],
      "Complete over the listed operations and depth for keys and values of fixed and varying length, against ordinary maps; every history ends with a fresh reader over both files.")
def c17(run):
    b = build([("c17", Config("CB2-nd4-map", **MAP), ["c17_map.cc"], [], [])])
    jobs(run, [dict(binary=b["c17"])])

@prop("C18", "model_checking", "exhaustive crash-point enumeration: every prefix of the write log of every short session, with every torn prefix of the last write, replayed through the implementation",
      "a state is a (crash image, committed contents, touched keys) triple; every session of up to three operations (thorough four) over inserts, overwrites of other sizes, lookups, flush, close and reopen, listing, from a new file and from three committed ones; every crash image is opened by the real code in a process of its own",
      GCC + ["the process dies but the system does not: writes reach the file in the order they are issued", "the C++ stream library reaches the file through write, writev and pwrite, which the harness records; every log is replayed and compared with the file"],
      "Complete over the listed sessions and every byte of their writes: keys committed and untouched keep their values or the file is refused, and it may be refused only while its header is neither the one of the last commit nor the one of the next; a header of the next leads to exactly the contents of the next.")
def c18(run):
    b = build([("c18", Config("CB2-nd4-map", **MAP), ["c18_crash.cc"], [], [])])
    jobs(run, [dict(binary=b["c18"])])

@prop("C19", "model_checking", "explicit enumeration of operation histories of the in-memory, null and multi-file maps on the implementation",
      "a state is the contents of two in-memory maps after a history, a history of the null map, or a (distribution of the keys over files, list of files) case; every history of up to four of 18 operations (thorough five) over inserts, range inserts, erasure, clearing, access in place, copies; every one of the 512 distributions of three keys over three files with every list of files",
      GCC + ["the program that uses the maps is the only one that touches the files", "reading a map from XML is not checked: the library is built without XML"],
      "Complete over the listed operations, depth and distributions, against ordinary maps; for a key held by several files of a list any of their values is accepted.")
def c19(run):
    b = build([("c19", Config("CB2-nd4-map", **MAP), ["c19_maps.cc"], [], [])])
    jobs(run, [dict(binary=b["c19"])])

@prop("C14", "model_checking", "explicit enumeration of shapes, subsets, sites, slices and transfer programs on the implementation",
      "a state is a file image of one transfer (whole field, site, subset held as a view or owned, time slice) for an element type on a lattice shape under an ordering, a program of two or three transfers, or a cut file; all shapes up to the volume bound, every site, every slice, all predefined and several user sets, every subset of lattices of up to eight sites, every stream class",
      GCC + ["single-precision staggered fermions are left to C12, where their padding is a known finding"],
      "Complete over the listed shapes and transfers, each site carrying its own values; images, checksums, positions, sites not addressed and short files are judged against the lexicographic word list, the same for every ordering.")
def c14(run):
    T = []
    for lay in ("CB2", "LEXICO", "CB3D", "CB32"):
        for nd in ((2, 3, 4) if lay in ("CB2", "LEXICO") else (4,)): T.append(("c14_%s%d" % (lay, nd), Config("%s-nd%d" % (lay, nd), layout=lay, nd=nd, opt="-O1"), ["c14_field.cc"], [], []))
    b = build(T)
    jobs(run, [dict(binary=b[t[0]], tag=t[0][4:] + ".") for t in T], par=2)

@prop("C25", "model_checking", "explicit enumeration of shapes, link patterns, formats and damaged files on the implementation",
      "a state is the byte image of a configuration file: every shape up to the volume bound, a marked link at every site and direction and patterns in which every stored number is its own, two-row and full form, 4- and 8-byte reals, five header spellings; every cut and every changed byte of the smallest files, and every header field made wrong",
      GCC + ["reading and writing the header as XML is not checked: the library is built without XML", "links are close enough to SU(3) for the plaquette test of the reader"],
      "Complete over the listed shapes, patterns and damage, against the documented order of words, an independent word sum, plaquette and conjugate cross product.")
def c25(run):
    x = ["-include", os.path.join(HARN, "stubxml.h")]
    T = []
    for lay, prec in (("CB2", 32), ("LEXICO", 32), ("CB3D", 32), ("CB32", 32), ("CB2", 64)):
        o = dict(layout=lay, nd=4, opt="-O1", more=["qdp_iogauge"], extra=x, prec=prec)
        if prec == 64: o["opts"] = "sse"
        T.append(("c25_%s%d" % (lay, prec), Config("%s-nd4-%d-gauge" % (lay, prec), **o), ["c25_archive.cc"], [], []))
    b = build(T)
    jobs(run, [dict(binary=b[t[0]], tag=t[0][4:] + ".") for t in T], par=2)

def c09_build(q):
    x = ["-include", os.path.join(HARN, "stubxml.h")]
    T, J = [], []
    def one(tag, kern=(), **kw):
        kw = dict(dict(nd=4, opt="-O1", extra=x), **kw); s = kw.pop("sched", "omp"); C = Config("t-" + tag, sched=s, **kw)
        T.append(("c09ref_" + tag, Config("tref-" + tag, **dict(kw, arch="scalar")), ["c09_threads.cc"], ["-DVF_REFERENCE"], []))
        T.append(("c09_" + tag, C, ["c09_threads.cc"], [], ["-ldl"]))
        J.append(("c09_" + tag, {"ref": "c09ref_" + tag}, tag + "."))
        for p in kern:
            n = "c09k_%s_%d" % (tag, p)
            T.append((n, C, ["c07_kernels.cc"], ["-DPART=%d" % p, "-DVF_THREADED"], ["-ldl"])); J.append((n, {}, "%s.%d." % (tag, p)))
    one("par", layout="CB2", arch="parscalar")
    one("omp", layout="CB2", kern=[0, 1, 2, 3, 5, 6] if q else range(10))
    one("sse64", layout="CB2", opts="sse", prec=64, kern=[0, 1, 2, 3, 4, 5, 7, 8] if q else range(10))
    one("sse", layout="LEXICO", opts="sse", kern=[0, 1, 2, 3, 4, 5] if q else range(10))
    one("none", layout="CB3D", opts="none")
    one("qmt", layout="CB2", sched="qmt", kern=[0, 2] if q else range(7))
    b = build(T)
    return [dict(binary=b[n], env={"VF_SCALAR": b[e["ref"]]} if e else {}, tag=t) for n, e, t in J]

@prop("C09", "model_checking", "exhaustive exploration of the thread schedules of the implementation under a controlled thread runtime, with a happens-before check of every access",
      "a state is the memory written by one parallel region at its end, and the observations of one program under one thread policy; two lattice shapes (thorough five), 1 to 5 threads (thorough 6), full and smaller teams (thorough every team size), ascending and descending orders, and for up to 4 threads (thorough 5) every order of the synchronisation steps of each region up to 6 departures; also 2 nodes with 2, 3 and 8 threads; OpenMP and QMT, generic, single and double precision SSE, three site orderings; every statement form of C07 under five thread policies (thorough eight)",
      GCC + ["libgomp and the QMT library are replaced by a runtime whose threads, team sizes and orders are decided by the checker (QMT ranges: even split)",
             "the accesses of a thread are those the compiler's thread instrumentation reports; the SSE intrinsics stand-in is plain C, so its accesses are reported too",
             "a byte-wide atomic load that finds a non-zero guard is taken as the guard of an initialised static"],
      "Complete for the listed shapes, programs, team sizes and orders within the stated departures; a data race (two accesses to a byte, one a write, not ordered by happens-before) is a violation whether or not it changes a result, so that absence of races carries the result of the explored orders over to every interleaving; the reference is the library built without threads.")
def c09(run):
    jobs(run, c09_build(run.tier == "quick"), par=2)

def par_build(name, src, layouts, more=(), ring=None):
    """The same harness for the parallel and for the scalar library, per ordering."""
    x = ["-include", os.path.join(HARN, "stubxml.h")]
    T = []
    for lay in layouts:
        T.append(("%s_par_%s" % (name, lay), Config("par-%s" % lay, layout=lay, arch="parscalar", opt="-O1", extra=x, more=list(more)), [src], [], []))
        T.append(("%s_ref_%s" % (name, lay), Config("ref-%s" % lay, layout=lay, opt="-O1", extra=x, more=list(more)), [src], [], []))
    if ring: T.append((name + "_ring", Config("par-ring", layout=layouts[0], arch="parscalar", opt="-O1", extra=x, defs=[("USE_QDP_QMP_GLOBAL_SUM", 1)], more=list(more)), [src], [], []))
    b = build(T)
    return ([dict(binary=b[name + "_ring"], env={"VF_SCALAR": b["%s_ref_%s" % (name, layouts[0])], "VF_PROG": ring}, tag="ring.")] if ring else []) + [dict(binary=b["%s_par_%s" % (name, lay)], env=dict([("VF_SCALAR", b["%s_ref_%s" % (name, lay)])] + ([("VF_OTHER_ORDER", "1")] if lay != layouts[0] else [])), tag=lay + ".") for lay in layouts]

TIMING = "exhaustive and deviation-bounded exploration of message timings of the implementation under a controlled message-passing layer"
MP = ["the message-passing library is replaced by one whose messages, collectives and waits are decided by the checker: a send may be taken at start or at wait, may complete with or without its receive, a receive may be filled at start or at wait, a broadcast may or may not synchronise; messages between two nodes keep their order; what a send buffer holds between start and wait is not assumed",
      "the operating system's copy of a node is a process: nodes share no memory", "the QIO, XML and threaded parts of the parallel library are not built"]
@prop("C23", "model_checking", TIMING,
      "a state is the observations of one execution (per-node field contents, scalars, seeds, site lists); every decomposition of five lattice shapes (thorough nine) over 1 to 8 nodes that the ordering accepts, three node numberings/networks, three site orderings, a lattice of 1088 sites cut in two, and the library's own ring sums; 120 programs, each under the strict and the lax timing policy, and short programs under every execution with a bounded number of departures from either (pairs of them with up to two)",
      GCC + MP + ["a map for which a node needs sites of more than one other node may be refused, as the library does"],
      "Complete for the listed shapes and programs within the stated departures; the reference is the same program on the single-node library; deadlock, unmatched or mis-sized messages, unfreed message objects, memory written past its end and differing collectives are violations.")
def c23(run):
    jobs(run, par_build("c23", "c23_nodes.cc", ["CB2", "LEXICO", "CB3D"], ring="reduce|sum"), par=1)

@prop("C24", "model_checking", TIMING,
      "a state is the observations and file images of one execution; every decomposition of four lattice shapes (thorough eight) over 1 to 8 nodes that the ordering accepts, three node numberings/networks, three site orderings; some 50 programs over fields, sites, subsets, slices, scalars, containers, strings, text, standard streams, disk maps, archives, cut and damaged files through every stream class under the strict and the lax policy, and short transfers and all their pairs with bounded departures",
      GCC + MP + ["dates in archive headers are left out of the comparison", "time slices under the CB3D ordering are left out: see the known finding of C14"],
      "Complete for the listed shapes and programs within the stated departures; the reference is the same program on the single-node library: files byte for byte, every value on every node; nodes other than the first may not touch a file.")
def c24(run):
    jobs(run, par_build("c24", "c24_pario.cc", ["CB2", "LEXICO", "CB3D"], more=["qdp_iogauge", "qdp_map_obj_disk"]), par=1)
