#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (edit here, then run)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Site numbering is a bijection between coordinates and storage",
  "For every lattice size the library accepts and every selectable site ordering, mapping a lattice coordinate to (node, linear index) and mapping (node, linear index) back to a coordinate are mutually inverse, cover every site exactly once, and stay inside [0, sites on node). The coordinate field returned for direction mu holds at every site that site's mu-th coordinate, lexicographic numbers decompose into coordinates with the first direction fastest (and back), and reported volumes agree with the lattice size.",
  ["configurations", "inputs"], "all lattice shapes up to the bound x all site orderings (lexicographic, 2-, 2^(Nd+1)- and 3d-checkerboard) x number of dimensions x all sites",
  "The suite builds one ordering and runs one or two lattice shapes; an index formula that collides or leaves a hole for another shape is never executed.",
  ["lib/qdp_scalar_layout.cc", "lib/qdp_layout.cc", "lib/qdp_util.cc", "lib/qdp_parscalar_layout.cc", "include/qdp_layout.h"],
  [("linearSiteIndex / siteCoords per layout", "lib/qdp_scalar_layout.cc"), ("crtesn / local_site", "lib/qdp_layout.cc, lib/qdp_util.cc"), ("latticeCoordinate", "lib/qdp_scalarsite_specific.cc")],
  observe=["Layout::siteCoords", "Layout::linearSiteIndex", "Layout::nodeNumber", "Layout::latticeCoordinate", "Layout::vol", "crtesn", "local_site"])

prop("C02", "A set partitions the lattice exactly as its colouring function says",
  "For every colouring function, the subsets of the set built from it are pairwise disjoint, together contain every site exactly once, and contain exactly the sites whose coordinate the function gives that colour; a subset reports an ordered (contiguous) range only if its sites are exactly that range. The predefined sets (all, even/odd, 2-colour, 3d 2-colour, 2^(Nd+1)-colour) follow their documented colour rule, a set copied, assigned or rebuilt behaves as a set of its own, valid whatever happens to the original, and a colour out of range is refused.",
  ["inputs", "configurations", "histories"], "all colouring functions of a small lattice into up to 3 colours, all default sets on all small shapes, all short histories of make / copy / assign / destroy",
  "The examples use the predefined checkerboards on one shape only; nothing copies or destroys sets, and no arbitrary (non-contiguous, empty-colour) colouring is built.",
  ["lib/qdp_subset.cc", "lib/qdp_scalarsite_specific.cc", "include/qdp_subset.h"],
  [("Set::make", "lib/qdp_scalarsite_specific.cc"), ("Set::operator=, Subset::make", "lib/qdp_subset.cc")],
  state=[("sitetables / lat_color", "sites of each colour, colour of each site", "include/qdp_subset.h")],
  observe=["Subset::siteTable", "Subset::start/end/hasOrderedRep", "Set::latticeColoring", "assignments under the subset"])

prop("C03", "Maps and shifts move every site's data exactly as their function says",
  "Applying a map to a field gives at each destination site the source value at the coordinate the map function returns for that site, for every map function, element type and nesting of maps inside expressions; under a target subset only the subset's sites are written. The predefined shift by sign and direction reads the neighbour at +sign in that direction with periodic wrap-around, shift forward then backward is the identity, and array and bidirectional maps agree with the plain map of the corresponding function, sign and direction.",
  ["inputs", "configurations", "programs"], "all site functions (including non-bijective ones) on a small lattice, all shapes up to the bound for shifts, all sign/direction words up to a length, all target subsets",
  "Tests only shift on one lattice shape and look at the exit status; an offset table wrong for extent 1, 2 or odd-wrapping shapes or for a nested map is not noticed.",
  ["lib/qdp_map.cc", "lib/qdp_scalar_specific.cc", "include/qdp_scalar_specific.h", "include/qdp_map.h"],
  [("offset table", "lib/qdp_scalar_specific.cc Map::make"), ("map leaf evaluation", "include/qdp_scalar_specific.h ForEach<UnaryNode<FnMap>>"), ("NearestNeighbourMapFunc", "lib/qdp_map.cc")],
  observe=["shift", "Map::operator()", "ArrayMap", "BiDirectionalMap", "ArrayBiDirectionalMap"])

prop("C04", "An operation under a subset changes exactly the sites of that subset",
  "Every assignment form (=, +=, -=, *=, /=, %=, |=, &=, ^=, <<=, >>=, from fields, expressions, scalars, zero), copymask, random and gaussian fills, zero fill and value extraction/insertion, when directed at a subset, gives each site of the subset the value that operation yields on that site alone and leaves all other sites bit-for-bit unchanged. A stand-alone sub-lattice (one that owns its storage) holds in site-table order exactly the values of its subset, and copies of it are independent.",
  ["inputs", "programs"], "all subsets of a small lattice x all assignment operators x element types x right-hand side kinds, and operation sequences",
  "No existing test inspects the sites outside the target subset; only even/odd on one lattice are used.",
  ["include/qdp_scalar_specific.h", "include/qdp_qdpsubtype.h", "include/qdp_outersubtype.h", "include/qdp_outer.h", "include/qdp_qdptype.h", "include/qdp_globalfuncs_subtype.h"],
  [("evaluate / evaluate_F", "include/qdp_scalar_specific.h"), ("OSubLattice", "include/qdp_outersubtype.h"), ("QDPSubType operators", "include/qdp_qdpsubtype.h")],
  observe=["OLattice::elem after the operation", "OSubLattice::getF", "QDP_extract / QDP_insert"])

prop("C05", "Lattice expressions equal the site-wise tensor algebra",
  "At every site an expression gives what the component formula of the complex / colour / spin tensor product gives: sums, products, adjoint, conjugate, transpose, trace (full, colour, spin), real/imaginary parts, i-multiplication, outer products, comparisons, where, integer and logical operations, colour contractions, component peeks and pokes, and their compositions, for lattice and single-site operands in every supported combination of element types. Assigning an expression is equivalent to evaluating it term by term through named temporaries.",
  ["programs", "inputs"], "all operator x operand-type combinations of the catalogue, all pairs of basis (unit-component) operands plus dense operands, lattice/lattice, lattice/scalar, scalar/lattice, and depth-2 compositions",
  "Tests compare a handful of kernels on random operands; most operator/type combinations are never instantiated.",
  ["include/qdp_reality.h", "include/qdp_primmatrix.h", "include/qdp_primcolormat.h", "include/qdp_primcolorvec.h", "include/qdp_primspinmat.h", "include/qdp_primspinvec.h", "include/qdp_primvector.h", "include/qdp_primscalar.h", "include/qdp_simpleword.h", "include/qdp_globalfuncs.h", "include/qdp_specializations.h", "include/qdp_newops.h", "include/qdp_optops.h", "include/qdp_outer.h"],
  [("PETE expression templates", "include/qdp_qdpexpr.h, include/QDPOperators.h"), ("tensor primitives", "include/qdp_prim*.h"), ("fused operators", "include/qdp_optops.h")],
  observe=["field contents after assignment"])

prop("C06", "Gamma matrices and spin projectors obey the Dirac algebra in every form",
  "Left and right multiplication by Gamma(n), for each n in 0..15, for run-time and compile-time n and for vectors, matrices and propagators, equals multiplication by the product of the documented basis matrices selected by the bits of n; these square to +-1 and anticommute. Spin projection, reconstruction, their fused adjoint-multiply variants and the chiral projections equal (1 +- gamma) acting in the same basis, for every direction and sign.",
  ["inputs", "programs"], "all 16 matrices x left/right x run-time/compile-time x all element types x all unit components; all 8 projector/direction pairs and fused variants",
  "t_clov_force/t_mesplq touch a few gamma indices and never look at numbers; each of the 16x several hand-written component tables can be wrong independently.",
  ["include/qdp_primgamma.h", "include/qdp_primspinmat.h", "include/qdp_primspinvec.h", "include/qdp_primmatrix.h", "include/scalarsite_generic", "include/qdp_specializations.h"],
  [("GammaType / GammaConst multiply", "include/qdp_primspinvec.h, include/qdp_primspinmat.h"), ("spinProjectDir*/spinReconstructDir*", "include/qdp_primspinvec.h, include/scalarsite_generic")],
  observe=["Gamma(n)*v, v*Gamma(n), spinProject/spinReconstruct"])

prop("C07", "Optimised kernels give the result of the generic definition",
  "Every specialised evaluation (vector scale-and-add families, complex and gamma-5 variants, norms and inner products, small-matrix multiplies with all adjoint combinations, spin-project fused multiplies, double-precision vector code) stores the value of the plain component formula at exactly the sites of its target, for every target (whole lattice, contiguous or scattered subset, a few sites), scalar value, and admissible overlap of destination with operands. Builds with and without these specialisations agree.",
  ["inputs", "configurations"], "all kernel entry points x lengths/offsets x subsets x scalar alphabet x aliasing patterns x {SSE, generic, un-optimised} builds",
  "The three unit tests run each kernel once on a full lattice with random data; remainder loops, unordered subsets, aliasing and special scalars are not reached.",
  ["include/qdp_scalarsite_generic.h", "include/scalarsite_generic", "include/scalarsite_sse", "lib/scalarsite_sse", "include/qdp_scalarsite_sse.h", "include/qdp_scalarsite_defs.h"],
  [("generic blas/cblas/g5/linalg kernels", "include/scalarsite_generic"), ("SSE double kernels", "lib/scalarsite_sse")],
  observe=["field contents and norms after assignment"])

prop("C08", "Global reductions equal the exact combination over their sites",
  "sum, norm2, innerProduct and innerProductReal (of a field, an array of fields, or an expression, on all sites or on a subset) and sumMulti over a set return exactly the combination of the per-site values over the requested sites, each site counted once; globalMax and globalMin return the largest and smallest site value wherever it sits; isnan/isinf/isfinite/isnormal report a special value wherever it sits. Reductions over the parts of a partition add up to the reduction over the whole, and an empty subset contributes zero.",
  ["inputs", "configurations"], "all subsets / colourings of a small lattice x element types x exactly representable values; every position of the extremum or special value",
  "Examples print sums but compare nothing; double counting on an irregular subset or missing the last site would not fail a test.",
  ["include/qdp_scalar_specific.h", "include/qdp_globalfuncs.h", "include/scalarsite_generic", "include/qdp_specializations.h"],
  [("sum/sumMulti/norm2/innerProduct/globalMax loops", "include/qdp_scalar_specific.h"), ("fast norm kernels", "include/scalarsite_generic")],
  observe=["returned scalars"])

prop("C09", "Threaded execution gives the sequential result under every schedule",
  "With any number of threads and any interleaving of them, each lattice operation that is split over threads (assignment, subset assignment, reductions, per-set reductions, random fills, copies in and out, map construction) performs each site exactly once, has no conflicting unsynchronised accesses, and leaves the same field contents, the same (exactly representable) reduction values and the same random-number state as the single-threaded run.",
  ["schedules", "configurations"], "thread counts 1..5, more threads than sites, empty subsets, all orders of the critical sections and all site-range splits, with a happens-before check over all memory accesses",
  "No threaded build is tested at all, and a test samples one schedule.",
  ["include/qdp_dispatch.h", "include/qdp_scalar_specific.h", "include/scalarsite_generic", "lib/qdp_scalar_specific.cc", "lib/qdp_scalarsite_specific.cc"],
  [("dispatch_to_threads", "include/qdp_dispatch.h"), ("omp parallel / critical regions", "include/qdp_scalar_specific.h")],
  observe=["field contents, reduction values, RNG seed"])

prop("C10", "Lattice random numbers depend only on seed and global site position",
  "For every seed, the value drawn at a lattice site depends only on the seed, the global lexicographic position of the site, and how many numbers were drawn before: not on the storage ordering, the subset drawn, or other sites. Every draw of the same type advances the global seed by the same amount whichever subset (even an empty one) it fills; uniform deviates are the documented 47-bit multiplicative congruential sequence scaled into the interval from 0 to 1 (rounded to the working precision), and gaussian fills are the documented function of two uniform fills.",
  ["inputs", "histories", "configurations"], "all subsets of a small lattice, all short sequences of scalar and lattice draws, all site orderings and shapes, seed alphabet at word-carry boundaries, against a big-integer reference",
  "Tests use random fields only as opaque input; no expected value, ordering independence or seed advance is checked.",
  ["lib/qdp_random.cc", "include/qdp_random.h", "include/qdp_primseed.h", "include/qdp_scalar_specific.h", "include/qdp_newops.h"],
  [("skip-ahead multipliers per site", "lib/qdp_random.cc initDefaultRNG"), ("four-word seed multiply", "include/qdp_primseed.h"), ("random(lattice, subset)", "include/qdp_scalar_specific.h")],
  state=[("RNG::ran_seed", "global seed", "lib/qdp_random.cc")],
  observe=["field contents", "RNG::savern"])

prop("C11", "Saving and restoring a random seed replays the same stream",
  "At any point of any history of draws, saving the generator state and later restoring it makes the following draws repeat exactly those that followed the save, for the lattice generator and for the stand-alone congruential generator; setting a seed takes effect from the very next draw, also when it is the first call ever made, and saving returns the seed in force. The stand-alone generator follows its documented 48-bit recurrence for every seed.",
  ["histories", "inputs"], "all operation sequences (set, save, restore, draw scalar, draw lattice, default-initialise) up to a depth, seed alphabet including word boundaries, against a big-integer reference",
  "No test ever saves or restores a seed.",
  ["lib/qdp_random.cc", "lib/qdp_rannyu.cc", "include/qdp_random.h", "include/qdp_rannyu.h"],
  [("RNG::setrn / savern / initDefaultRNG", "lib/qdp_random.cc"), ("RANNYU::setrn / savern / random", "lib/qdp_rannyu.cc")],
  state=[("seed words", "generator state", "lib/qdp_rannyu.cc")], observe=["drawn values", "saved seeds"])

prop("C12", "Binary values round-trip in the portable big-endian format",
  "Every value written through a binary writer (built-in integer and floating types of each size, booleans, characters, strings, arrays, complex and tensor site types, containers) is stored as its big-endian byte image with the documented length and padding rules, and reading it back with the matching call yields a bit-identical value and consumes exactly the bytes written. File and in-memory buffer writers produce identical bytes, and the running checksum of both writer and reader is the CRC-32 of the bytes transferred since it was last reset.",
  ["inputs", "programs"], "all types x value alphabets (all byte patterns at the boundaries) x all write/read sequences up to a depth x {file, buffer, reader-writer}",
  "The stable tests perform no binary I/O at all.",
  ["lib/qdp_io.cc", "include/qdp_io.h", "lib/qdp_byteorder.cc", "lib/qdp_crc32.cc"],
  [("readArray / writeArray with byte swap", "lib/qdp_io.cc"), ("crc32", "lib/qdp_crc32.cc"), ("byte_swap", "lib/qdp_byteorder.cc")],
  observe=["file bytes", "values read", "getChecksum"])

prop("C13", "Binary streams act as one byte sequence under any operation history",
  "For any sequence of reads, writes, seeks (absolute, relative, to end), rewinds, position queries, reopenings, flushes and checksum resets, binary files and in-memory buffers return the bytes, positions and checksums of a single byte array with a cursor (an in-memory reader-writer has separate read and write cursors that every seek brings together): overwriting changes exactly the addressed bytes, writing at the end extends the array, and the contents handed out as a string are the whole array.",
  ["histories"], "all operation sequences up to a depth over file reader, writer, updater and buffer classes, against a byte-array reference",
  "Existing tests never seek or mix reads with writes.",
  ["lib/qdp_io.cc", "include/qdp_io.h"],
  [("seek/rewind/currentPosition", "lib/qdp_io.cc"), ("buffer classes", "lib/qdp_io.cc")],
  state=[("stream cursor and checksum", "position, running CRC", "lib/qdp_io.cc")], observe=["bytes read, positions, checksums, final contents"])

prop("C14", "Lattice fields are stored in lexicographic site order whatever the layout",
  "Writing a lattice field produces each site's components in lexicographic site order (first direction fastest), independent of the storage ordering in use; reading it back on any ordering restores every site. Subset, single-site and time-slice reads and writes transfer exactly the addressed sites in the same order, leaving other sites and file bytes untouched.",
  ["configurations", "inputs", "histories"], "all small shapes x all site orderings (write under one, read under another) x element types x all subsets / sites / slices",
  "No stable test writes a lattice field.",
  ["include/qdp_scalar_specific.h", "include/qdp_io.h", "include/qdp_disk_map_slice.h", "lib/qdp_layout.cc"],
  [("write/read(OLattice)", "include/qdp_scalar_specific.h"), ("TimeSliceIO", "include/qdp_disk_map_slice.h")],
  observe=["file bytes", "field contents"])

prop("C15", "No truncated, unreadable or unwritable file passes silently",
  "When the operating system delivers fewer bytes than asked for (file truncated at any byte, missing, unreadable) or accepts fewer bytes than given (device full at any byte), the binary and text readers and writers involved report failure, and no later operation on them reports success for data that was not transferred. Data flagged as good is exactly what the file held.",
  ["fault_sequences", "crash_points"], "every truncation point of every file of the catalogue and every failing byte position of every write, for each reader/writer class",
  "Tests never inject an I/O fault.",
  ["lib/qdp_io.cc", "include/qdp_io.h"],
  [("fail() and stream state propagation", "lib/qdp_io.cc")], observe=["fail(), is_open(), values read, process exit"])

prop("C16", "Text output reads back to the same values",
  "Every value written by a text writer (integers, booleans, characters, strings without white space, finite floating values to the digits printed, site tensors) and separated by white space reads back equal through the matching text reader, in the order written, from files and from in-memory text buffers alike, and what the standard-stream replacements print is what the plain streams would print.",
  ["inputs", "programs"], "all types x value alphabets x write sequences up to a depth x {file, buffer}",
  "No stable test reads back text.",
  ["lib/qdp_io.cc", "lib/qdp_stdio.cc", "include/qdp_io.h", "include/qdp_stdio.h", "include/qdp_outer.h"],
  [("TextReader/TextWriter", "lib/qdp_io.cc"), ("StandardOutputStream", "lib/qdp_stdio.cc")], observe=["text produced, values read"])

prop("C17", "The disk map behaves as a key-value map over any operation history",
  "After any sequence of open, insert, overwrite, lookup, existence test, key listing, flush, close and reopen (in the same or another object), the disk map answers exactly as an in-memory map given the same insertions: each key yields the last value inserted, absent keys are reported absent, the key list is exact and user data persists. Lookups never change what later operations return, and calls in a state that does not allow them are refused without damage.",
  ["histories"], "all operation sequences up to a depth over a small key set and values of several sizes, with close/reopen at every position",
  "The map-object example is not among the stable tests; it inserts in order and reads once.",
  ["include/qdp_map_obj_disk.h", "lib/qdp_map_obj_disk.cc", "include/qdp_map_obj.h"],
  [("insert/get/closeWrite/readMapBinary", "include/qdp_map_obj_disk.h")],
  state=[("src_map", "key to file offset", "include/qdp_map_obj_disk.h"), ("state", "INIT/UNCHANGED/MODIFIED", "include/qdp_map_obj_disk.h")],
  observe=["get/exist/keys/getUserdata return values"])

prop("C18", "A crash while writing a disk map never yields wrong data",
  "If the process dies after any prefix of the file operations of a session that appends to a disk map, reopening the file either gives, for every key committed by an earlier close or flush and not touched since, its committed value, or (only if the process died while rewriting the link in the file header) is refused as corrupt; it never returns a value that was not inserted under that key. A session that only reads leaves the file unchanged byte for byte.",
  ["crash_points"], "every prefix of the write log (and every torn prefix of each write) of all short sessions, replayed to a file and reopened by the real code",
  "Tests never interrupt a writer.",
  ["include/qdp_map_obj_disk.h", "lib/qdp_io.cc"],
  [("metadata appended at end, header link rewritten last", "include/qdp_map_obj_disk.h closeWrite"), ("checksums on values and metadata", "include/qdp_map_obj_disk.h")],
  observe=["get/keys after reopening the crashed image", "abort"])

prop("C19", "Memory, null and multi-file map objects honour the map contract",
  "After any operation sequence the in-memory map object answers as an ordinary key-value map (last value wins, exact key list, absent keys refused, in-place access to stored values); the null map object stores nothing and reports every key absent; a map object spanning several files answers lookups, existence and key lists as the union of those files.",
  ["histories"], "all operation sequences up to a depth over small key/value sets; all distributions of keys over up to three files",
  "No stable test uses these classes.",
  ["include/qdp_map_obj_memory.h", "include/qdp_map_obj_null.h", "include/qdp_map_obj_disk_multiple.h", "include/qdp_map_obj.h"],
  [("std::map wrappers", "include/qdp_map_obj_memory.h, include/qdp_map_obj_disk_multiple.h")], observe=["return values"])

prop("C20", "Array containers have value semantics under any operation history",
  "One- to multi-dimensional array containers behave as values under any sequence of construction, copy, assignment (including self-assignment), resize, element write and compound arithmetic: a copy never shares storage with its source, sizes are as requested, element (i,j,...) addresses one distinct element in the documented order (last index fastest), and no history leaks, double-frees or touches memory outside the array.",
  ["histories", "inputs"], "all operation sequences up to a depth over several live containers, all extents 0..3 per dimension, under an address checker",
  "Tests only construct and index fixed small arrays.",
  ["include/qdp_multi.h", "include/qdp_arrays.h"],
  [("copymem ownership flag, resize", "include/qdp_multi.h")], observe=["element values, sizes, sanitizer"])

prop("C21", "Field memory is aligned, disjoint, and returned exactly once",
  "Under any history of creating, copying, assigning and destroying fields or of allocate/free requests, every live block is suitably aligned, does not overlap any other live block, keeps its contents, and each release returns memory exactly once; exhausting the pool or the system is reported as an allocation failure and leaves live blocks intact. Two lattice fields never share storage.",
  ["histories", "fault_sequences"], "all allocate/free sequences up to a depth over a size alphabet for both allocators, with allocation failure injected at each request, and all field lifetime sequences",
  "Tests allocate a few fields and exit; free order, reuse and exhaustion are not exercised.",
  ["lib/qdp_default_allocator.cc", "lib/qdp_pool_allocator.cc", "include/qdp_default_allocator.h", "include/qdp_pool_allocator.h", "include/qdp_outer.h"],
  [("allocation map and alignment slack", "lib/qdp_default_allocator.cc"), ("pool stack", "lib/qdp_pool_allocator.cc"), ("OLattice alloc/free", "include/qdp_outer.h")],
  observe=["returned addresses, contents, bad_alloc"])

prop("C22", "Byte swapping and CRC-32 match their definitions for all inputs",
  "Byte-order conversion reverses the bytes of every element and nothing else, is its own inverse, and handles every element size and count; the CRC-32 of a byte string equals the standard (IEEE 802.3) value for every input and every initial value, and computing it piecewise over any split equals computing it at once. The bounded string length and the list-of-distinct-entries utility agree with their definitions.",
  ["inputs"], "all element sizes 1..16 x counts x alignments; all strings up to length 2 and all single-bit/single-byte patterns at each position up to a length crossing the unrolled loop, all splits",
  "No stable test calls these functions directly.",
  ["lib/qdp_byteorder.cc", "lib/qdp_crc32.cc", "lib/qdp_strnlen.cc", "lib/qdp_util.cc"],
  [("byte_swap", "lib/qdp_byteorder.cc"), ("crc32 table", "lib/qdp_crc32.cc")], observe=["returned values, surrounding bytes"])

prop("C23", "A run distributed over nodes gives the single-node result",
  "For every decomposition of the lattice over nodes and every timing of message delivery permitted by the message-passing layer, shifts, maps, reductions, site peeks and pokes, lattice random numbers and their seed, and broadcasts give on every node the values of the single-node run, and the run neither deadlocks nor leaves an unmatched message. Reported node numbers and per-node site lists cover each global site exactly once; a map for which some node needs sites of more than one other node may be refused instead.",
  ["schedules", "configurations"], "2-, 4- and 8-node decompositions of small lattices x all eager/late delivery choices of each message in flight x program alphabet",
  "No stable test builds the parallel architecture.",
  ["include/qdp_parscalar_specific.h", "lib/qdp_parscalar_specific.cc", "lib/qdp_parscalar_layout.cc", "lib/qdp_parscalar_init.cc"],
  [("Map gather/scatter with QMP", "include/qdp_parscalar_specific.h"), ("Layout node decomposition", "lib/qdp_parscalar_layout.cc")],
  observe=["per-node field contents and scalars, message log"])

prop("C24", "Parallel I/O is independent of the decomposition",
  "For every decomposition over nodes, files written by a distributed run (lattice fields, subsets, single sites, time slices, scalars, archive configurations) are byte-identical to those of the single-node run; reading gives every node its own sites and identical scalars and strings; only the primary node touches the file, and checksums agree on all nodes.",
  ["configurations", "schedules"], "all 1-, 2- and 4-node decompositions of small lattices x I/O operation alphabet x message timing choices",
  "No stable test builds the parallel architecture.",
  ["lib/qdp_parscalar_specific.cc", "include/qdp_parscalar_specific.h", "lib/qdp_io.cc"],
  [("writeOLattice/readOLattice routing", "lib/qdp_parscalar_specific.cc"), ("primary-node I/O and broadcast", "lib/qdp_io.cc")],
  observe=["file bytes, per-node values"])

prop("C25", "Archive gauge configurations round-trip with the correct checksum",
  "Writing gauge links in the archive format and reading them back restores every link exactly at single precision for the full 3x3 form, and for the two-row form restores the stored rows exactly and the third row as the conjugate cross product; site, direction, row and column order are the documented ones, and the checksum reported on reading equals the 32-bit word sum of the stored links and the checksum computed from the field. Short files are refused, and header fields (lattice size, boundary conditions, labels, counters) read back as written.",
  ["inputs", "configurations"], "all small shapes x site orderings x {12,18} numbers x {4,8}-byte reals x unit-link and dense patterns at each site/direction; every truncation",
  "The configuration readers are compiled but never run by the stable tests.",
  ["lib/qdp_scalar_specific.cc", "lib/qdp_iogauge.cc", "include/qdp_iogauge.h"],
  [("readArchiv/writeArchiv/computeChecksum", "lib/qdp_scalar_specific.cc")], observe=["file bytes, field contents, checksum"])

prop("C26", "The stopwatch reports accumulated running time only",
  "After any sequence of start, stop and reset at any clock readings, the reported time is the sum of the elapsed times between each stop and the latest start before it since the last reset, in seconds and microseconds consistently, and a read before the stop does not include the running interval. Stopping a stopped watch, and an interval that cannot be measured (the clock fails or steps back), is reported and adds nothing.",
  ["histories", "inputs"], "all operation sequences up to a depth with the clock replaced by an enumerated one including second/microsecond carries",
  "Timing is printed but never checked.",
  ["lib/qdp_stopwatch.cc", "include/qdp_stopwatch.h"],
  [("StopWatch::start/stop", "lib/qdp_stopwatch.cc")], observe=["getTimeInSeconds, getTimeInMicroseconds, abort"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
