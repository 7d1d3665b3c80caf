"""What each check builds and runs."""
ALLQD = ["lib", "modules", "qdlib", "fft", "linalg", "math", "slatec", "tools"]
CHECKS = {}
def H(name, src, comps, mode="base", **k):
    return dict(kind="harness", name=name, src=src if isinstance(src, list) else [src], comps=comps, mode=mode, **k)
def P(name, mode="base"): return dict(kind="prog", name=name, mode=mode)
def check(pid, parts, rule, title, note, bounds="", assumptions=(), level="model_checking"):
    CHECKS[pid] = dict(parts=parts, rule=rule, technique=title, note=note, bounds=bounds, assumptions=list(assumptions), level=level)
def part(name, *build, **k): return dict(part=name, build=list(build), **k)

check("C01", [part("clock", H("c01", "c01_clock.cpp", ["tools"]))],
      rule="every sequence of clock operations (9 kinds with argument alphabets, two clocks) of the bounded length; non-trivial: a clock left step 0",
      title="exhaustive enumeration of operation sequences on the real clock against a reference clock",
      note="All histories of 4 (thorough 6) operations on two clocks; step lengths from 6 rational values. Trusts the reference clock in the harness.",
      bounds="4/6 operations, 2 clocks, 6 step lengths")

check("M01", [part("debug", H("m01", "m01_memory.cpp", ["tools"])),
              part("release", H("m01r", ["m01_memory.cpp", "m01_release.cpp"], ["tools"], cflags="-DNDEBUG")),
              part("limits", H("m01", "m01_memory.cpp", ["tools"]), args=["--text"])],
      rule="every sequence of allocations (4 sizes), frees of any live block, cleanups and limit changes; every limit text up to the length; non-trivial: memory was handed out / the text is a valid size",
      title="exhaustive enumeration of operation sequences on the real memory manager with accounting oracle",
      note="All histories of 6 (8) operations in both build configurations, contents of all live blocks verified after every operation.",
      bounds="6/8 operations, 4 sizes, 3 limits; limit texts up to 4/6 characters")
check("M03", [part("file", H("m03", "m03_tmpfile.cpp", ["tools"], mode="asan")), part("large", H("m03", "m03_tmpfile.cpp", ["tools"], mode="asan"), args=["--big"])],
      rule="every sequence of open/resize/store/flush/seek/read/write/close, mapped and unmapped; non-trivial: data was written",
      title="exhaustive enumeration of operation sequences on the real class against an array",
      note="All histories of 4 (5) operations, sparse files to reach offsets beyond 2^32.", bounds="4/5 operations, sizes {0,1,3,6,600}, 6 large sizes")
check("X03", [part("argv", H("x03", "x03_getopt.cpp", ["tools"], mode="asan"))],
      rule="every argument vector over 17 tokens x 3 declarations x query order; non-trivial: non-empty vector accepted by the reference",
      title="exhaustive enumeration of argument vectors on the real parser against a reference parser",
      note="All argument vectors up to 4 (5) arguments under the address sanitizer.", bounds="4/5 arguments, 17 tokens")
check("F06", [part("ops", H("f06", "f06_params.cpp", ["tools"])), part("text", H("f06", "f06_params.cpp", ["tools"]), args=["--text"]), part("typed", H("f06", "f06_params.cpp", ["tools"]), args=["--typed"])],
      rule="every sequence of set/erase/merge/clear/copy operations over 3 keys x 20 values followed by every kind of text round trip; every token sequence as text; every short text read as every type; non-trivial: non-empty set",
      title="exhaustive enumeration of operation sequences and texts on the real parameter set against a reference map and parser",
      note="Histories of 3 operations, texts of up to 5 (6) tokens including a line longer than 2048 characters.", bounds="3 operations, 20 values; texts of 5/6 tokens")
STORE = ["lib", "modules", "qdlib", "fft", "linalg", "math", "slatec", "tools"]
check("F01", [part("wf", H("f01", "f01_roundtrip.cpp", STORE)), part("other", H("f01", "f01_roundtrip.cpp", STORE), args=["--other"])],
      rule="every combination of object, value pattern, format, compression, sequence mode, name, known/unknown type and re-writing of what was read; non-trivial: non-zero content",
      title="exhaustive enumeration of write/read histories on the real file classes against the written values",
      note="14 wave function shapes (levels, 1-4 dimensional grids, 1-12 states), lasers, grid operators and matrices; values include arbitrary bit patterns. Grid wave functions under compression are compared to rounding (they are stored in k-space).",
      bounds="14+13 objects, 4 value patterns, 3 formats, 3 compressions, sequences of 3")
check("F02", [part("prefix", H("f02", "f02_truncate.cpp", STORE))],
      rule="every proper prefix (every byte count) of every file of every stored object, read with known and unknown type; non-trivial: every execution truncates a file",
      title="exhaustive enumeration of truncation points on the real readers",
      note="Crash points of the writer are all prefix lengths; a cut meta file may only be accepted if what is read is still identical.",
      bounds="11 objects (levels, grids, multistates, laser, grid operator, matrix), 2 formats, 3 compressions, 3 value patterns, all prefixes")
check("F03", [part("save", H("f03", "f03_writefault.cpp", STORE))],
      rule="every open/write/flush operation of every kind of save fails once or for good, completely or after half of the data, with fresh or existing files; non-trivial: a fault was injected",
      title="exhaustive fault injection into every I/O operation of the real writers",
      note="A save that returns normally must have left files that read back identical; after a reported failure the same writer must be able to save.",
      bounds="11 objects, 3 formats, 3 compressions, every operation")
check("F04", [part("wf", H("f04", "f04_reader.cpp", STORE)), part("laser", H("f04", "f04_reader.cpp", STORE), args=["--laser"])],
      rule="every history of reads (9 files of different class, format and damage x 6 ways to read, counter changes, rewriting) by one reader, each compared with a fresh reader; every interleaving of a writer and a reader of lasers; non-trivial: more than one read",
      title="exhaustive enumeration of read histories on the real reader, compared step by step with a fresh reader",
      note="Histories of 3 (4) reads, 2 (3) in sequences; laser histories of 4 (5) operations.", bounds="3/4 reads, 9 files, 6 ways to read")
check("F05", [part("level", H("f05", "f05_lossy.cpp", STORE)), part("grid", H("f05", "f05_lossy.cpp", STORE), args=["--grid"])],
      rule="every vector (level) or momentum spectrum (grid) over a value alphabet x tolerance x format x method x single/multistate; non-trivial: non-zero tolerance",
      title="exhaustive enumeration of small wave functions on the real writer/reader against the documented cut-off rule",
      note="Every component must be kept or be small compared to the tolerance and dropped; memory content unchanged.", bounds="sizes 1-3 (level), grids of 1, 4 and 3x2 points, 7 values, 6 tolerances")
check("M02", [part("buffer", H("m02", "m02_wfbuffer.cpp", STORE, mode="asan"))],
      rule="every history of set/get/modify in place/lock/unlock/autolock/resize/add/save+load/clear over budgets of 1-3 wave functions, 4 auto-lock depths, 3 fill levels and 3 wave function types; non-trivial: something was moved to disk",
      title="exhaustive enumeration of operation histories on the real buffer against a plain array",
      note="Histories of 3 (4) operations after up to 4 stored elements, under the address sanitizer; pointers obtained are verified and written through as long as they are locked or recent.",
      bounds="3/4 operations, budgets 1-3, auto-lock 0-3")
check("M04", [part("ops", H("m04", "m04_vector.cpp", ["math", "tools"], mode="asan"))],
      rule="every history of resize/copy/assign/swap/retire/reacquire/lock/reference/stride copy/part copy/delete over three vectors and three initial arrangements; non-trivial: a copy, swap, reference or reacquisition took place",
      title="exhaustive enumeration of operation histories on the real vector class against shared element stores",
      note="Histories of 3 (4) operations with visited reference states merged, contents, shapes, overlap of all strides and the bytes held in the memory manager are compared after every operation under the address sanitizer.",
      bounds="3/4 operations from 4 arrangements, 3 vectors, up to 3 strides of up to 4 elements")
check("G02", [part("kernels", H("g02", "g02_kernels.cpp", ["math", "tools"], mode="asan")),
              part("kernels-sse2", H("g02s2", "g02_kernels.cpp", ["math", "tools"], mode="asan", cflags="-DHAVE_SSE2=1")),
              part("kernels-sse3", H("g02s3", "g02_kernels.cpp", ["math", "tools"], mode="asan", cflags="-DHAVE_SSE2=1 -DHAVE_SSE3=1 -msse3"))],
      rule="every kernel x number of strides x size x aliasing of its vector arguments x scalar x value pattern; every complex function on a 7-value alphabet; every matrix shape and product mode; non-trivial: every execution computes",
      title="exhaustive enumeration of kernels, shapes, aliasing and small values on the real code against the defining formulas",
      note="Runs for the scalar build and the SSE2 and SSE3 builds of the kernels, each under the address sanitizer; inputs are compared bit by bit afterwards. (The AVX variant of the kernels does not compile.)",
      bounds="49 kernels, 1-3 (4) strides, sizes 1,2,3,5,8 (..17), all aliasing patterns")
check("G03", [part("ops", H("g03", "g03_fft.cpp", STORE)), part("optimize", H("g03", "g03_fft.cpp", STORE), args=["--optimize"]), part("wisdom", H("g03", "g03_fft.cpp", STORE), args=["--wisdom"]),
              part("multi", H("g03", "g03_fft.cpp", STORE), args=["--multi"]), part("sums", H("g03", "g03_fft.cpp", STORE), args=["--sums"])],
      rule="every history of full and single-dimension transforms, representation switches, copies, new instances, retire/reacquire, re-shaping and planning over two wave functions (also multistate, also with measured and optimised plans); every shape, dimension, direction and unit vector; non-trivial: an operation was executed",
      title="exhaustive enumeration of operation histories and of all unit vectors on the real transforms against the defining sums",
      note="Histories of 4 (5) operations, the live and the hidden buffer are modelled; linear maps are decided on all unit vectors of all shapes within the bounds.",
      bounds="4/5 operations (3/4 with optimised plans), 6 shapes; shapes of up to 4 dimensions for the sums")
check("G01", [part("index", H("g01", "g01_grid.cpp", STORE, mode="asan")), part("view", H("g01", "g01_grid.cpp", STORE, mode="asan"), args=["--view"]), part("equal", H("g01", "g01_grid.cpp", STORE, mode="asan"), args=["--equal"])],
      rule="every shape x way of setting a grid up x second set-up on the same object x active dimensions; every shape x sequence of (dimension, profile operation); every pair of grid descriptions over an alphabet; non-trivial: a grid was walked / descriptions were equal",
      title="exhaustive enumeration of shapes and set-up histories on the real index maps and views against coordinate arithmetic",
      note="All shapes of up to 4 dimensions with extents up to 3 (4), 5 ways to set up a grid, sequences of 3 (4) profile operations, under the address sanitizer.",
      bounds="1-4 dimensions, extents 1-3 (4), 3 (4) view operations")
check("O04", [part("matrix", H("o04", "o04_physics.cpp", STORE, mode="asan"))],
      rule="every operator of a list covering all operator types and parameters x grid shape x form of evaluation, on every unit vector; non-trivial: every execution computes",
      title="exhaustive enumeration of operators, parameters, shapes and basis states on the real code against independently built defining matrices",
      note="Operators are linear, so agreement on all unit vectors decides all states of a shape; defining matrices are built from Fourier sums, exact finite difference coefficients and point values.",
      bounds="5 grid shapes of 1-3 dimensions and levels up to 4")
check("O03", [part(m, H("o03", "o03_algebra.cpp", STORE, mode="asan"), args=[m]) for m in ("flat", "nested", "set", "matrix2", "matrix3", "mixed")],
      rule="every composition of parts (sum, product, block matrix, nesting, replacement) x placement x hermitian/unity x adjoint, in every form of application; non-trivial: every execution applies the composite",
      title="exhaustive enumeration of operator compositions up to a size on the real code against matrix algebra",
      note="All sums and products of up to 3 parts out of 8 (10) operators, all 2x2 block matrices, all placements in 3x3, two level nesting with shared parts; measured on all unit vectors, with the adjoint switch on and off.",
      bounds="lists of 3, block matrices of 3x3, nesting of 2, parts on a 4 point grid")
check("O02", [part("adjoint", H("o02", "o02_adjoint.cpp", STORE, mode="asan"))],
      rule="every operator and composite x grid shape x {hermiticity, all switching sequences, switching before use}; non-trivial: every execution measures",
      title="exhaustive enumeration of operators, shapes and adjoint switching histories on the real code against the measured matrix",
      note="The matrix is measured on all unit vectors, so the verdict covers all states of a shape; adjoint switched in all on/off histories of length 3 (4), evaluated in every form of application.",
      bounds="5 grid shapes, levels up to 4, switching histories of 3 (4)")
check("O01", [part("histories", H("o01", "o01_pure.cpp", STORE, mode="asan"), args=["run"]), part("compat", H("o01", "o01_pure.cpp", STORE, mode="asan"), args=["compat"])],
      rule="every operator and composite x grid shape x every history of 2 (3) applications of a new operator, and every window of 3 (4) applications within one long life; non-trivial: every execution applies",
      title="exhaustive enumeration of application histories of every operator on the real code against its matrix, under the address sanitizer",
      note="11 kinds of use (apply, in place, add, matrix element, expectation value, initialise again, parent, validity, update ...); a de Bruijn sequence covers every window of uses in one operator life.",
      bounds="histories of 2 (3) from new, windows of 3 (4)")
check("O05", [part("histories", H("o05", "o05_laser.cpp", STORE, mode="asan")), part("fit", H("o05", "o05_laser.cpp", STORE, mode="asan"), args=["--fit"])],
      rule="20 time dependent operators and compositions x all histories of (clock movement, use): length 3 from new, every window of 2 (3) within one life; all mismatches of field and clock; non-trivial: every execution applies",
      title="exhaustive enumeration of clock and application histories on the real code against the matrix of the current step, under the address sanitizer",
      note="8 clock movements (including before and past the pulse and exchanging the clock) x 8 kinds of use; a de Bruijn sequence covers every window of them.",
      bounds="pulse of 5 steps, histories of 3 uses, windows of 2 (3)")
check("O06", [part("range", H("o06", "o06_range.cpp", STORE, mode="asan"))],
      rule="every operator and composite with a Hermitian matrix x grid shape x time x adjoint; non-trivial: the matrix is Hermitian and its spectrum was compared",
      title="exhaustive enumeration of operators, shapes and times on the real code against the spectrum of the measured matrix",
      note="The matrix is measured on all unit vectors and diagonalized by Jacobi rotations written for the check.",
      bounds="5 grid shapes, levels up to 4, 4 points in time")
check("U01", [part("series", H("u01", "u01_step.cpp", STORE, mode="asan"), args=["series"]), part("gspo", H("u01", "u01_step.cpp", STORE, mode="asan"), args=["gspo"])],
      rule="every propagator and setting x Hamiltonian x step size x direction and mode, on all unit vectors, sums of them and scaled states, in and out of place; non-trivial: every execution propagates",
      title="exhaustive enumeration of propagators, Hamiltonians, steps, modes and basis states on the real code against the matrix exponential",
      note="A step is linear in the state, so agreement on all unit vectors decides all states; the split operator and Runge-Kutta are compared with their defining product and polynomial, the others with the exponential.",
      bounds="systems of up to 12 dimensions, 4 (5) step sizes")
check("U02", [part("modes", H("u02", "u02_modes.cpp", STORE, mode="asan"), args=["modes"])],
      rule="all sequences of forward, backward, imaginary time, real time, conjugation, clock assignment, time step changes, initialisation and steps up to the depth bound; non-trivial: every execution propagates at its end",
      title="exhaustive enumeration of all setting sequences up to a depth on the real propagators, against a model of the selected direction, mode and clock",
      note="The exponent is compared after every setting, the propagated state at every step and twice at the end.", bounds="5 propagators, 5 systems, sequences of 4 (5) out of 11 settings")
check("U03", [part("histories", H("u02", "u02_modes.cpp", STORE, mode="asan"), args=["histories"])],
      rule="all histories of steps on two states with two propagators, changes of direction and clock moves up to the depth bound, each one undone at the end",
      title="exhaustive enumeration of all step histories up to a depth on the real propagators, against the product of the reference steps",
      note="After every step both states are compared with the product of reference exponentials and the norm with the initial one; at the end all steps are undone one by one.", bounds="5 propagators, 4 systems, histories of 4 (5) out of 8 actions")
APP = ["app"] + STORE
check("R01", [part("files", H("r01", "r01_propa.cpp", APP), args=["files"]), part("report", H("r01", "r01_propa.cpp", APP), args=["report"])],
      rule="every combination of system, number of steps, write cycle, time step, start index, output directory and name, table file, existing files; every combination of the reporting options; non-trivial: every execution is a complete run",
      title="exhaustive enumeration of propagation inputs, each run on the real program modules, against an independent propagation",
      note="4 systems (levels, grid, two electronic states; with and without laser field), all files of the output directory, meta data, tables and spectra are compared with an independent step by step propagation.",
      bounds="1-6 (9) steps, cycles 1-4 and the default, starts 0-3, 4 directories; 3^4 x 8 reporting options")
check("R02", [part("resume", H("r01", "r01_propa.cpp", APP), args=["resume"]), part("crash", H("r01", "r01_propa.cpp", APP), args=["crash"])],
      rule="every snapshot of every run is continued (up to twice, three times), in the same or another directory; every I/O operation of a run fails for good and the run is continued from the last readable snapshot; non-trivial: a continuation was executed",
      title="exhaustive enumeration of continuation points and of crash points (every I/O operation, complete and torn) of the real run",
      note="All later snapshots, their numbers, tables of expectation values and meta data must equal those of the uninterrupted run.",
      bounds="1-7 (10) steps, cycles 1-4, 2 (3) continuations, 4 filter sections; every I/O operation of runs of up to 6 steps")
check("R04", [part(n, H("r04", "r04_inputs.cpp", APP + ["simplexml"], mode="asan"), args=[n]) for n in ("elements", "formats", "files", "faults")],
      rule="every input = one correct input of every program with one change (thorough: two changes), one formatting or one unusable file; non-trivial: every execution is a complete run of the program",
      title="exhaustive enumeration of single changes of correct inputs, each run through the real main() in a process of its own under the address sanitizer",
      note="Elements are renamed, removed, emptied, doubled, mixed with text and comments; every attribute is removed or replaced by 11 values; every prefix of every input; every size around the internal buffers; every file that is read missing, empty or a directory; every output blocked; command lines.",
      bounds="10 inputs covering all programs; all single (thorough: all pairs of) changes")
check("X01", [part(n, H("x01", "x01_simplexml.cpp", APP + ["simplexml"], mode="asan"), args=[n]) for n in ("trees", "values", "sequences")],
      rule="every program up to the size bound over elements, attributes, assignments and loops x layout x variables from the command line; every value expression and every loop range over the alphabets; every sequence of translations up to the bound; non-trivial: the reference interpreter accepts or rejects the text (not unspecified)",
      title="exhaustive enumeration of programs and sequences of translations on the real scanner, parser and interpreter, against an independent interpreter",
      note="The translation is read back with an XML parser and compared with the tree the reference interpreter builds; programs of a sequence fail at different places and must not influence later ones. Duplicate attributes and names that are not XML names are not judged.",
      bounds="up to 4 statements, 3 (6) layouts; expressions of up to 2 (3) of 38 atoms; 23 x 23 x 13 loop ranges; sequences of 3 (4) out of 17 programs")
check("X02", [part(n, H("x01", "x01_simplexml.cpp", APP + ["simplexml"], mode="asan"), args=[n]) for n in ("tokens", "edits")],
      rule="every token sequence up to the length bound over 15 tokens in 7 contexts, open or closed; every prefix, deletion, insertion and replacement of characters of correct programs; non-trivial: the reference parser accepts or rejects the text (not unspecified)",
      title="exhaustive enumeration of token sequences and edits on the real scanner, parser and interpreter under the address sanitizer, against an independent recogniser",
      note="A text that is not a program must be refused; one that still is must be translated to the tree it denotes.",
      bounds="4 (5) tokens after 7 contexts; all single (thorough: double) edits of 3 programs with 26 characters")
check("T01", [part(n, H("t01", "t01_threads.cpp", ALLQD, mode="sched"), args=[n], deadline_thorough=500 if n == "propagators" else 110) for n in ("kernels", "states", "operators", "propagators")],
      rule="every operation x number of threads; for 2 and 3 threads every parallel region in every interleaving of its memory accesses and synchronisations, modulo the order of independent ones; non-trivial: every execution explores the schedules of one operation",
      title="stateless model checking with dynamic partial order reduction: compiler instrumented memory accesses and OpenMP regions under a controlled scheduler, against the result of one thread",
      note="The library is compiled with OpenMP and access instrumentation and linked against an own runtime that provides both interfaces: threads are fibers, every access to memory that is not on the own stack is a scheduling point. Races reverse the order of the two accesses, the results of every schedule are compared with one thread, and two accesses that no synchronisation orders, one of them a write, are a violation by themselves. One region at a time deviates from running its threads one after the other (both orders); at most 2 (6) regions of the same code per operation. Sequential consistency; the threads of the FFT library are not under control.",
      bounds="threads 1-5 (6) one after the other, 2-3 threads in all interleavings; vectors of 1-8 elements x 1-2 strides; all operators of O01 and Hamiltonians of U01")
check("R05", [part("tool", H("r05", "r05_qdz.cpp", APP))],
      rule="every kind of wave function x storage format x series length x data pattern x initial storage x damaged member, followed by every sequence of tool calls (direction, tolerance, level, method) up to the bound; non-trivial: all calls of the sequence were checked",
      title="exhaustive enumeration of stored series and sequences of calls of the real compression tool, every member read back after each call",
      note="The tool's main() runs in a process of its own. Members, class, parameters, the set of files and the bytes of all bystanders are compared after every call; a member that cannot be read must lead to a failure status without losing any other member.",
      bounds="5 (6) kinds, up to 3 (4) members, sequences of 2 (3) calls, 3-4 tolerances, 3 levels, 3 methods")
check("R03", [part("propagation", H("r03", "r03_filters.cpp", APP)), part("program", H("r03", "r03_filters.cpp", APP), args=["--program"])],
      rule="every list of filters (5 kinds x operators x value kinds x accumulation x headers) over the three sections of a propagation and of the filter program; non-trivial: every execution is a complete run with filters",
      title="exhaustive enumeration of filter lists, each run on the real program modules, against an independent simulation",
      note="3 systems; all snapshots and all rows and columns of the tables are compared; the filter program must leave the stored series byte for byte unchanged.",
      bounds="2 (3) filters in total, 3 steps; series of up to 6 steps with cycles 1-3")
check("R06", [part(m, H("r06", "r06_eigen.cpp", APP), args=[m]) for m in ("relax", "ac", "lanczos")],
      rule="every combination of method, system, propagator, time step, convergence, number of states, guess, basis diagonalization, names; every point of resuming (with the same or another guess); every set of spectral lines, source of the correlation; every Krylov size; non-trivial: every execution is a complete run",
      title="exhaustive enumeration of eigenstate inputs and resume points, each run on the real program modules, against the exact eigensystem",
      note="6 Hamiltonians (levels, degenerate, below zero, grid, two states, complex): states must be orthonormal, ordered, satisfy the eigenvalue equation within the bound the convergence criterion implies, and agree with the energy table.",
      bounds="up to 8 dimensions, 4 propagators, 3 convergence criteria; 9 sets of lines, 3 lengths; Krylov sizes 3..dim+4")
check("R08", [part(n, H("r08", "r08_cfun.cpp", APP), args=[n]) for n in ("functions", "definitions")],
      rule="every combination of system, kind of correlation function, operators before, between and after the propagators on both sides, explicit or implied bra, number of steps, write cycle, source of the baseline (propagated, written and read back, from a propagation), propagator, names and restriction; every sequence of operators and propagators up to the length bound is a valid definition or refused; non-trivial: every execution is a complete run",
      title="exhaustive enumeration of correlation function inputs, each run on the real program modules, against the definition evaluated with matrices",
      note="All points of the written function, its meta data and the written baseline are compared. Operators on the bra side are Hermitian; the ket side also has one that is not.",
      bounds="4 systems (2 with a laser field), 3 kinds, up to 2 operators per position, 1-5 (7) steps, cycles 1-3, 2 (3) propagators; definitions of up to 4 + 3 elements")
check("R09", [part(n, H("r09", "r09_oct.cpp", APP), args=[n]) for n in ("runs", "definitions")],
      rule="every combination of system and coupling (one or several fields, labelled, scaled, above or below the diagonal, permanent), method, kind of target, phase, number of targets, steps, iterations, penalty, convergence, written fields and tables; every wrong or missing attribute and section; non-trivial: every execution is a complete run",
      title="exhaustive enumeration of optimal control inputs, each run on the real program modules, against the algorithm evaluated with matrices",
      note="The yields of every row of the table must be those of a propagation in the field written for this row, and the field itself must follow from the preceding one by the chosen algorithm (Krotov, Zhu-Rabitz, feedback); for the frequency restricted method the algorithm is compared with an open mask only.",
      bounds="11 systems, 5 methods, 1-2 targets, 1-6 (16) steps, 1-3 (4) iterations, 2 penalties, 3 convergence criteria")
check("M05", [part(n, H("m05", "m05_registry.cpp", APP, mode="asan"), args=[n]) for n in ("collector", "ops", "wfs", "programs")],
      rule="every history of registry operations up to the depth bound on the reference counting collector, the operator list and the wave function list, and every sequence of programs up to the bound sharing persistent operators by reference; non-trivial: the history ran to its end",
      title="exhaustive enumeration of operation histories on the real registries (objects count their destructions, address sanitizer) against a reference model of ownership",
      note="Operators and states whose destructors are counted; after every operation each lookup, label query and destruction count is compared with the model. Programs refer to shared persistent operators (propagator Hamiltonian, GridSum members, GSPO elements, whole propagators); their results must equal those of inputs with everything written out and the shared operators must still work afterwards.",
      bounds="depth 5-6 (6-8), 3 objects, 2-4 keys; 2 (3) programs out of 8 sharing 8 persistent operators")
check("R07", [part("definitions", H("r07", "r07_wf.cpp", APP))],
      rule="every definition of nested nodes (file, linear combination, multistate, map) up to the depth bound with every option set, every file format and series number; non-trivial: a valid definition was built",
      title="exhaustive enumeration of wave function definitions up to a depth, each one loaded by the real code, against an independent evaluation",
      note="Shape, every component, the norm and the linked multistate storage are compared; inconsistent definitions must be rejected; registered keys must give the same state; a second load must be independent of the first.",
      bounds="nesting depth 2 (3), up to 3 members, 12 option sets, 9 index sets, 13 maps")
