#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- persistence
prop("F01", "Stored wave functions, lasers and operators read back identical",
 "Whatever is written to disk - a level, grid or multi-state wave function (any state count, any grid shape), a laser field, a grid operator or a matrix operator - is read back with the same type, the same dimensions and grid limits and bit-identical values. This holds in both on-disk formats (self-describing stream and raw data plus meta file), with no, zlib or bzip2 compression, for single files and for members of a numbered sequence, and whether the reader knows the type in advance or determines it from the file. Compression without tolerance loss never makes a write or a read fail, whatever the data.",
 ["inputs", "histories", "configurations"], "every object kind x format x compression x size x value pattern x single/sequence placement in the bound, each written and read back by a fresh reader and by a reused one",
 "The unit tests write one small level wave function per format; the multi-state, grid, compressed-raw and sequence paths are not reached (the test that would is excluded because it does not compile).",
 ["src/tools/FileSingle.h", "src/qdlib/FileWF.cpp", "src/qdlib/WFLevel.cpp", "src/qdlib/WFGridSystem.cpp", "src/qdlib/WFMultistate.cpp", "src/qdlib/Laser.cpp", "src/qdlib/OGridsystem.cpp", "src/qdlib/OHermitianMatrix.cpp"],
 [("stream header + per-class serialisation", "src/tools/FileSingle.h"), ("type dispatch from header/meta file", "src/qdlib/FileWF.cpp")],
 state=[("file counter", "position in a numbered sequence", "src/tools/FileSingle.h")], observe=["files on disk", "values of the object read back"])
prop("F02", "A truncated data file is rejected, never accepted as data",
 "If a stored wave function, laser or operator file was cut short at any byte - because the writing process died or the disk filled up - reading it reports an error. No prefix of a file, in any format or compression, is ever accepted as a complete object or returned with missing values filled in.",
 ["crash_points", "inputs"], "every proper prefix length of every file produced for each object kind, format and compression",
 "No test reads a damaged file; the quantifier is over every truncation point of every format.",
 ["src/tools/FileSingle.h", "src/qdlib/FileWF.cpp", "src/qdlib/WFLevel.cpp", "src/qdlib/WFGridSystem.cpp", "src/qdlib/WFMultistate.cpp", "src/qdlib/Laser.cpp"],
 [("size checks against header / stream state", "src/tools/FileSingle.h")], observe=["exception raised by the read"])
prop("F03", "A write that did not reach the file is reported as an error",
 "When the operating system fails an open, a write or the final flush of a data or meta file (disk full, I/O error), the write operation reports an error to its caller. A save that returns normally has left complete, readable files behind.",
 ["fault_sequences"], "every object kind and format x every system write call of the save failing, with an error or after a short write",
 "Tests never run out of disk space; the quantifier is over every failing call.",
 ["src/tools/FileSingle.h", "src/tools/ParamContainer.cpp", "src/qdlib/FileWF.cpp", "src/ProgPropa.cpp"],
 [("stream state checks after writing", "src/tools/FileSingle.h"), ("meta file writer result", "src/tools/ParamContainer.cpp")], observe=["exception raised by the write", "content of the file left behind"])
prop("F04", "What a file reader returns depends only on the file it is pointed at",
 "A reader that is reused - pointed at one file, then another, stepped through a sequence, rewound, after reads that failed because a file was missing or damaged - returns exactly what a fresh reader would return for the current file name and counter. A failed read leaves it usable, and the sequence counter advances by exactly one per successful numbered read or write.",
 ["histories", "fault_sequences"], "every sequence of set-name / set-counter / read / write / remove operations up to the depth bound, over existing, missing and truncated files",
 "Tests use one reader for one successful read each.",
 ["src/tools/FileSingle.h", "src/qdlib/FileWF.cpp"], [("open stream and intro flags kept between calls", "src/tools/FileSingle.h")],
 state=[("input stream", "stream kept open between header and body", "src/tools/FileSingle.h")], observe=["values read", "counter"])
prop("F05", "Lossy compression never alters a wave function beyond its tolerance",
 "Writing a wave function with lossy compression and reading it back changes the wave function by no more than what the tolerance allows: elements that are not small compared to the tolerance keep their value irrespective of their sign or phase, positions and k-space content do not move, and the wave function held in memory is unchanged by the act of writing. A tolerance too small to drop anything is equivalent to lossless storage.",
 ["inputs", "configurations"], "every sign/phase/magnitude pattern over a small value alphabet x tolerance x wave function class x grid shape in the bound",
 "The compression test of the wave function files is not part of the runnable suite and samples one Gaussian.",
 ["src/qdlib/WFLevel.cpp", "src/qdlib/WFGridSystem.cpp", "src/qdlib/FileWF.cpp", "src/qdlib/WFMultistate.cpp"], [("reduce / restore of the element vector", "src/qdlib/WFLevel.cpp"), ("reduce / restore in k-space", "src/qdlib/WFGridSystem.cpp")], observe=["values read back"])
prop("F06", "Parameter sets survive their text form unchanged",
 "A parameter set written to text or to a meta file and parsed again has the same keys in the same order with the same values, including full double precision, declared types and arrays. Merging, overwriting and removing keys follow map semantics, and parsing any text terminates and either yields the set it denotes or reports an error, as does reading as a number an entry that is none.",
 ["inputs", "histories"], "all operation sequences over a small key/value alphabet up to the bound, and all short texts over the lexical alphabet",
 "Tests parse two hand-written texts; precision loss, typed keys and long or malformed lines are not sampled.",
 ["src/tools/ParamContainer.cpp", "src/tools/ParamContainer.h"], [("text parser and writer", "src/tools/ParamContainer.cpp")], observe=["values returned for each key"])

# ---------------------------------------------------------------- memory / buffers
prop("M01", "The memory manager hands out disjoint, aligned, exactly accounted memory",
 "Over any sequence of aligned allocations, frees, cleanups and limit changes, every live block is aligned as requested, does not overlap any other live block and keeps its content until freed. The reported use equals what is live, the configured limit is never exceeded, and an allocation that fits is not refused.",
 ["histories"], "every operation sequence over a small size alphabet up to the depth bound, in debug and release configuration",
 "The unit test runs three fixed scenarios.",
 ["src/tools/Memory.cpp", "src/tools/Memory.h"], [("slot table and free map", "src/tools/Memory.cpp")], state=[("free map", "released slots kept for reuse", "src/tools/Memory.cpp")], observe=["addresses returned", "reported usage"])
prop("M02", "A wave function buffer behaves like a plain array under any memory budget",
 "A wave function series buffer returns for every index the value last stored or modified there, whatever the order of stores, reads, in-place changes, resizes, saves and loads, and however much of it had to be moved to disk. Elements obtained from the buffer stay valid and refer to that element as long as they are locked or among the number of recent accesses the caller asked to be kept.",
 ["histories", "configurations"], "every operation sequence over a few indices up to the depth bound x memory budget x auto-lock setting",
 "The disk-buffer unit test runs one linear fill-and-read scenario.",
 ["src/qdlib/WFBuffer.cpp", "src/qdlib/WFBuffer.h", "src/tools/TmpFile.h"], [("eviction to a temporary file", "src/qdlib/WFBuffer.cpp"), ("auto-lock of recent accesses", "src/qdlib/WFBuffer.cpp")], state=[("entry table", "per element: in memory, on disk, locked", "src/qdlib/WFBuffer.h")], observe=["values read through the buffer"])
prop("M03", "Temporary file storage behaves like the array it replaces",
 "Temporary file storage reads back, at every offset, what was last written there, over any sequence of resizes, seeks, reads and writes; its reported size is the size last requested. The file disappears with the object.",
 ["histories"], "every operation sequence up to the depth bound",
 "The unit test writes and reads once.", ["src/tools/TmpFile.h"], [("mapped temporary file", "src/tools/TmpFile.h")], observe=["values read", "reported size", "directory listing"])
prop("M04", "Vectors keep their contents through copy, reference, resize, swap and retire",
 "A (strided) vector has value semantics: copies are equal and independent, references alias exactly the element range they were made for, swapping exchanges contents, retiring and re-acquiring a buffer never exposes stale or foreign memory as live data, and size, stride count and byte size always agree with the accessible elements. No sequence of such operations touches memory outside the vector.",
 ["histories"], "every operation sequence on up to three vectors up to the depth bound, sizes and strides from a small alphabet, under an address sanitizer",
 "The unit tests check a handful of fixed sequences.", ["src/math/Vector.h", "src/tools/SharedVar.h", "src/tools/Memory.cpp"], [("shared, aligned storage per stride", "src/math/Vector.h")], observe=["element values", "sizes"])
prop("M05", "Registered objects live exactly as long as they are referenced",
 "Operators and wave functions kept under a key are found under that key and label until removed or replaced; looking one up never returns a destroyed object, and clearing releases each non-persistent object exactly once while persistent ones stay usable. Registering the same object or key twice, replacing and clearing in any order neither leaks the lookup nor frees twice.",
 ["histories"], "every sequence of add / lookup / replace / persist / clear / release operations up to the depth bound",
 "No test exercises the registries.", ["src/tools/Collector.h", "src/GlobalOpList.cpp", "src/GlobalWFList.cpp"], [("reference counted collector", "src/tools/Collector.h")], observe=["lookup results", "destructor calls"])

# ---------------------------------------------------------------- grid / numerics
prop("G01", "Grid index maps visit every grid point exactly once",
 "For any number of dimensions and any extents, walking the grid along one dimension for all settings of the others visits every element exactly once and at the coordinate it claims, and applying a one-dimensional profile along a dimension affects each point according to its own coordinate in that dimension only. Grid descriptions compare equal exactly if dimensions, extents and limits are equal.",
 ["inputs"], "all grids up to the bound in dimensions and extents, all active dimensions",
 "Tests use one square 2-D grid, where transposed indices are indistinguishable.", ["src/qdlib/GridSystem.cpp", "src/math/VectorView.h"], [("low/high stride products", "src/qdlib/GridSystem.cpp")], observe=["indices", "view contents"])
prop("G02", "Every element-wise kernel computes its definition on every element",
 "Each vector kernel (add, multiply, multiply-add, complex rotation, conjugation, exponential, scalar products, norms, matrix-vector products) yields, for every element of every stride and any vector length including odd and minimal ones, the value its mathematical definition gives, leaves its inputs unchanged and writes nothing outside the result. Aliasing source and destination where the interface permits it gives the same result.",
 ["inputs"], "all kernels x all lengths and stride counts up to the bound x all value combinations of a small complex alphabet",
 "The unit tests compare a few kernels at one size.", ["src/math/VectorPrimitives.h", "src/math/codelets/MultElementsCC.h", "src/math/math_functions.h", "src/math/Vector.h", "src/math/Matrix.h"], [("generated codelets", "src/math/codelets")], observe=["result vectors"])
prop("G03", "Fourier transforms are exact inverse pairs and never lose the wave function",
 "For every grid shape, a transform to momentum space - of all or any single dimension - followed by its inverse returns the original wave function up to the documented normalisation, and the forward transform equals the discrete Fourier sum. Any sequence of transforms, representation switches, copies and buffer retire/re-acquire operations leaves the wave function in the representation it reports, with the content that representation should have.",
 ["inputs", "histories"], "all grid shapes in the bound, all basis vectors, all operation sequences up to the depth bound",
 "The unit tests transform one Gaussian on one 2-D grid.", ["src/fft/fft.cpp", "src/qdlib/WaveFunction.cpp", "src/qdlib/WFGridSystem.cpp", "src/qdlib/TransformFFT.cpp"], [("position/momentum double buffer", "src/qdlib/WaveFunction.cpp")], state=[("k-space flag", "which buffer is current", "src/qdlib/WaveFunction.h")], observe=["wave function values", "k-space flag"])

# ---------------------------------------------------------------- operators
prop("O01", "Applying an operator is pure and its forms of application agree",
 "For every operator, applying it in place, out of place, added onto a target, and as matrix element gives the same result, whichever application went before. Applying out of place leaves the source wave function unchanged; initialising again with a compatible wave function changes nothing; linear operators are linear; and an operator does not accept as valid a wave function of another kind, grid or number of states.",
 ["inputs", "histories"], "every operator kind x every sequence of application forms up to the depth bound x all basis vectors of small spaces",
 "Unit tests apply single operators in one form to one smooth wave function.", ["src/qdlib/Operator.h", "src/qdlib/OGridPotential.cpp", "src/qdlib/OGridNablaSq.cpp", "src/qdlib/OGridNabla.cpp", "src/qdlib/OGridGMat.cpp", "src/qdlib/OMultistate.cpp", "src/qdlib/OSum.cpp", "src/qdlib/OProduct.cpp", "src/qdlib/OHermitianMatrix.cpp", "src/qdlib/OGridKick.cpp", "src/qdlib/OGobbler.cpp", "src/qdlib/OProjection.cpp", "src/qdlib/OGridSum.cpp", "src/qdlib/OScalar.cpp", "src/qdlib/OMatDipole.cpp", "src/qdlib/OGridDipole.cpp"], [("default in-place / add implementations", "src/qdlib/Operator.h")], observe=["resulting wave function", "source wave function"])
prop("O02", "Operators declared Hermitian are Hermitian; the adjoint switch gives the adjoint",
 "An operator that reports itself as Hermitian satisfies <a|Ob> = conj(<b|Oa>) for all states, and its expectation values are real. An operator switched to its adjoint acts as the adjoint of its original action, and switching back restores it.",
 ["inputs", "histories"], "every operator kind x all pairs of basis states of small spaces x all adjoint switch sequences up to the bound",
 "Tests only compare selected expectation values.", ["src/qdlib/Operator.h", "src/qdlib/OList.cpp", "src/qdlib/OMultistate.cpp", "src/qdlib/OGobbler.cpp", "src/qdlib/OGridNabla.cpp", "src/qdlib/OGridPML.cpp"], [("hermitian and conjugate flags", "src/qdlib/Operator.h")], observe=["matrix elements"])
prop("O03", "Composed operators act as the algebra of their parts",
 "A sum acts as the sum, a product as the ordered product (rightmost first) and a multi-state matrix as the block matrix of its parts - including blocks given only on one side of a Hermitian matrix, missing blocks as zero or unity, arbitrary nesting and repeated use. Being time dependent or non-Hermitian propagates from any part to the whole.",
 ["programs"], "all operator trees up to the node bound over a small set of elementary operators and states",
 "Tests use one fixed sum and one two-state matrix.", ["src/qdlib/OList.cpp", "src/qdlib/OSum.cpp", "src/qdlib/OProduct.cpp", "src/qdlib/OMultistate.cpp", "src/qdlib/OGridSum.cpp"], [("operator list", "src/qdlib/OList.cpp")], observe=["operator matrix in a complete basis"])
prop("O04", "Each operator acts as the physical quantity it is named after",
 "Potential, position, momentum, kinetic energy (with masses), finite-difference kinetic energy, G-matrix kinetic energy, momentum kick, absorber, projector, scalar, level-matrix and non-adiabatic coupling operators act, on every basis state of every grid shape, as the matrix that defines them, with their documented parameters (dimension, scale, offset, factor, mass, sign, gain) taken into account.",
 ["inputs", "configurations"], "every operator kind x all grid shapes and parameter combinations in the bound x all basis states, against independently built reference matrices",
 "Tests compare a few derivatives of Gaussians with a loose tolerance on square grids with equal masses.", ["src/qdlib/OGridPotential.cpp", "src/qdlib/OGridPosition.cpp", "src/qdlib/OGridNabla.cpp", "src/qdlib/OGridNablaSq.cpp", "src/qdlib/Diff.cpp", "src/qdlib/Kspace.cpp", "src/qdlib/HOFD.h", "src/qdlib/OGridHOFD.cpp", "src/qdlib/OGridGMat.cpp", "src/qdlib/OGridKick.cpp", "src/qdlib/OGobbler.cpp", "src/qdlib/OProjection.cpp", "src/qdlib/OGridNAC.cpp"], [("k-space factors", "src/qdlib/Kspace.cpp")], observe=["operator matrix in a complete basis"])
prop("O05", "Time-dependent couplings always use the field of the current time step",
 "An operator coupled to a laser field acts with the field value belonging to the current step of its clock, after any sequence of clock movements, applications and updates, forwards or backwards, alone or inside sums, multi-state matrices and propagators. Nothing remembered from another time step influences the result, and scaling and the field-free steps outside the pulse behave as documented.",
 ["histories"], "all sequences of clock moves, updates and applications up to the depth bound x field values x nesting",
 "Tests propagate once, forward, through a pulse.", ["src/qdlib/OLaser.cpp", "src/qdlib/Laser.cpp", "src/qdlib/OMatDipole.cpp", "src/qdlib/OGridDipole.cpp", "src/qdlib/OGSPO.cpp", "src/tools/QDClock.cpp"], [("cached exponentials keyed by step and exponent", "src/qdlib/OGSPO.cpp")], state=[("last step / last exponent", "validity of cached exponentials", "src/qdlib/OGSPO.h")], observe=["operator result at each step"])

prop("O06", "The energy range an operator reports encloses its spectrum",
 "For every Hermitian operator, elementary or composed, at every time step and field strength of either sign, every eigenvalue lies within the range the operator reports (Emin to Emax). Methods that map the spectrum to an interval, such as the Chebychev propagator, rely on it: outside the interval they diverge.",
 ["inputs", "configurations"], "every operator kind and composition x signs and shifts of potentials, dipoles and couplings x fields x time steps, against the complete spectrum of the measured matrix",
 "Tests compare one range per operator for positive values only, some of them with what the program happened to print.", ["src/qdlib/Operator.h", "src/qdlib/OMultistate.cpp", "src/qdlib/OProduct.cpp", "src/qdlib/OSum.cpp", "src/qdlib/OGridHOFD.cpp", "src/qdlib/OGridRaman.cpp", "src/qdlib/OCheby.cpp"], [("Emin, Emax of every operator", "src/qdlib")], observe=["reported range", "spectrum of the measured matrix"])

# ---------------------------------------------------------------- propagators
prop("U01", "One propagation step equals the exponential of the Hamiltonian",
 "For every propagator, one step applied to any state of a small system equals exp(-i H dt) (or exp(-H dt) normalised, in imaginary time) within the accuracy of the method, whether applied in place or out of place, for every sign and size of the time step the method supports. The result scales with the norm of the input, and eigenstates only acquire a phase.",
 ["inputs", "configurations"], "every propagator x small Hamiltonians x step sizes x direction x complete basis and scaled states, against a reference exponential",
 "Tests compare observables of a long run with stored reference numbers for one system each.", ["src/qdlib/OCheby.cpp", "src/qdlib/OGSPO.cpp", "src/qdlib/OSIL.cpp", "src/qdlib/OArnoldi.cpp", "src/qdlib/ORK4.cpp", "src/linalg/Bessel.cpp", "src/linalg/LapackDiag.cpp"], [("series / Krylov / split propagators", "src/qdlib")], observe=["propagated state"])
prop("U02", "Propagation direction and time mode depend only on the last settings",
 "After any sequence of selecting forward, backward, real time, imaginary time, assigning a clock or changing the time step, the propagator's exponent is the one defined by the currently selected direction, mode and step. The order in which they were selected has no influence.",
 ["histories"], "all sequences of the setters up to the depth bound, for every propagator",
 "Tests select at most one mode.", ["src/qdlib/OPropagator.h"], [("exponent bookkeeping", "src/qdlib/OPropagator.h")], state=[("exponent", "coefficient of H dt", "src/qdlib/OPropagator.h")], observe=["exponent", "propagated state"])
prop("U03", "Propagation is norm conserving and reversible over any history",
 "With a Hermitian Hamiltonian every sequence of forward and backward steps, with the clock moved accordingly and with or without time dependence, conserves the norm and returns to the earlier state when the same steps are undone (the Runge-Kutta propagator, which is not unitary, follows its fourth order polynomial instead). The outcome of a sequence does not depend on what the same propagator object was used for before.",
 ["histories"], "all sequences of forward/backward steps and clock moves up to the depth bound, for every propagator, reused versus fresh",
 "Tests propagate forward only.", ["src/qdlib/OPropagator.h", "src/qdlib/OCheby.cpp", "src/qdlib/OGSPO.cpp", "src/qdlib/OSIL.cpp", "src/qdlib/OArnoldi.cpp", "src/tools/QDClock.cpp"], [("adjoint propagation for the backward direction", "src/qdlib/OPropagator.h")], observe=["propagated state"])
prop("C01", "Time is the step index times the step length, in every clock history",
 "After any sequence of stepping forward and backward, setting the step, rewinding, jumping to the end, copying another clock and changing the step length or the number of steps, the clock reports the step it was moved to, and the time as step times step length. Synchronising with another clock selects the step at which both show the same time, and is refused exactly if there is none.",
 ["histories"], "all operation sequences up to the depth bound",
 "The test steps once in each direction.", ["src/tools/QDClock.cpp", "src/tools/QDClock.h", "src/tools/QDGlobalClock.cpp"], [("step counter", "src/tools/QDClock.cpp")], observe=["step, time, end"])

# ---------------------------------------------------------------- concurrency
prop("T01", "Results do not depend on thread interleaving or thread count",
 "Every parallel computation - vector kernels, norms, scalar products, propagation steps on one or several states - gives the same result (up to the rounding of reordered sums) as sequential execution, for every interleaving of its threads and every thread count. No two threads access the same memory without synchronisation if one of them writes.",
 ["schedules", "configurations"], "all thread interleavings (modulo equivalence of independent accesses) of the parallel regions for 2 and more threads, thread counts up to the bound",
 "The test-suite runs with a single thread; a race needs a particular interleaving.", ["src/math/VectorPrimitives.h", "src/math/codelets/MultElementsCC.h", "src/qdlib/OCheby.cpp", "src/math/Vector.h", "src/math/math_functions.h", "src/math/Matrix.h"], [("reductions and private variables of the parallel loops", "src/math/codelets")], observe=["results of each parallel operation"])

# ---------------------------------------------------------------- front end
prop("X01", "The simple input language expands to the document it denotes",
 "A program in the simple input language is translated to the XML document its statements denote: nesting, attributes in order, substitution of variables set in the text or on the command line, concatenation, loops over all values from begin to end by step, formatted loop values and escaping of special characters. The translation of one program does not depend on previously translated ones.",
 ["programs"], "all programs up to the size bound over a small grammar-covering alphabet, against an independent reference interpreter",
 "No test covers the translator.", ["src/simpleXml/grammar.yy", "src/simpleXml/simpleXml.ll", "src/simpleXml/Simple2Xml.cpp", "src/simpleXml/SyntacticTreeModel.h"], [("parser building a tree that is executed at the end of the outer block", "src/simpleXml/grammar.yy")], observe=["generated XML text"])
prop("X02", "Malformed simple-language input is rejected, not mistranslated",
 "Any text that is not a complete program of the simple input language - unbalanced blocks, missing values, unknown variables, stray characters - is reported as an error; translation always terminates without corrupting memory and never emits a partial or empty document as if it had succeeded.",
 ["inputs"], "all token sequences up to the length bound, under an address sanitizer",
 "No test covers the translator.", ["src/simpleXml/grammar.yy", "src/simpleXml/simpleXml.ll", "src/simpleXml/Simple2Xml.cpp"], [("parser error handling", "src/simpleXml/grammar.yy")], observe=["result or exception"])
prop("X03", "Command line options are interpreted as declared",
 "For every command line, an option that was given returns its value, one that was not given returns its declared default, positional arguments are returned in order, and unknown options, missing required options or missing option values are reported. No command line makes the parser read outside its arguments.",
 ["inputs"], "all argument vectors up to the length bound over a small alphabet x option declarations",
 "The option parser has no running test.", ["src/tools/Getopt.cpp", "src/tools/Getopt.h"], [("option map", "src/tools/Getopt.cpp")], observe=["option values", "errors"])

# ---------------------------------------------------------------- interactive protocol
prop("I01", "The interactive command protocol stays in step in every session",
 "In a command session every command is answered by exactly one well-formed response of the documented kind - an acknowledgement, the requested values or data, or an error - and after it the stream is positioned at the next message. This holds for every sequence of valid, invalid and failing commands; an erroneous command is answered with an error, does not end or crash the session and does not affect later commands, and the end of input ends the session.",
 ["histories", "fault_sequences"], "all command sequences up to the depth bound over an alphabet of valid, incomplete, unknown-name and failing commands and truncated streams",
 "There is no test of the command handler.", ["src/CmdHandler.cpp", "src/CmdHandler.h", "src/IACmds.proto"], [("length-prefixed messages", "src/CmdHandler.cpp")], observe=["byte stream of responses", "process outcome"])
prop("I02", "Session commands act on the objects the session has named",
 "In a command session, wave functions and operators loaded under a name are the ones later commands use; expectation values, matrix elements and operator applications equal the result of the same operation performed directly; global parameters read back as set; and clearing removes the named objects. The outcome of a command depends on the session state only through the commands documented to change it.",
 ["histories"], "all command sequences up to the depth bound over small object and name alphabets, against a model of the session",
 "There is no test of the command handler.", ["src/CmdHandler.cpp", "src/GlobalOpList.cpp", "src/GlobalWFList.cpp", "src/ChainLoader.cpp"], [("global object lists", "src/GlobalOpList.cpp")], observe=["returned values and wave functions"])

# ---------------------------------------------------------------- programs
prop("R01", "A propagation writes exactly the documented snapshots",
 "A propagation run writes, for every number of steps, write cycle and start offset, exactly the snapshots of the steps that are multiples of the write cycle, numbered consecutively, each holding the state at its time; the final state, the meta data and the tabulated observables agree with those snapshots in number, time and value.",
 ["configurations"], "all combinations of steps, write cycle, start and direction in the bound, for several propagators and wave function kinds, against states propagated independently",
 "The propagation tests run one configuration each and compare observable tables.", ["src/ProgPropa.cpp", "src/Reporter.cpp", "src/tools/FileSingle.h"], [("main propagation loop", "src/ProgPropa.cpp")], observe=["files in the output directory", "observable tables"])
prop("R02", "An interrupted propagation continues as if never interrupted",
 "Continuing a propagation from any of its snapshots, with the index of the next snapshot as start, produces the same later snapshots, numbered and valued as in the uninterrupted run, including with time-dependent Hamiltonians and filters. A run that is stopped by a failing file operation says so, leaves a readable beginning of the series with meta data that promise no more than what is there, and can be continued from its last snapshot.",
 ["crash_points", "configurations"], "every interruption point of every run configuration in the bound",
 "No test restarts a run.", ["src/ProgPropa.cpp", "src/tools/QDClock.cpp", "src/qdlib/Laser.cpp"], [("start offset of clock, loop and file counter", "src/ProgPropa.cpp")], observe=["snapshot files"])
prop("R03", "Filters act exactly when, where and in the order they are declared",
 "Filters declared for the initial state, before and after the propagation step are applied in declared order at every step they are declared for and at no other; those that only report an observable leave the state unchanged, and every list that reports adds one row per application with the time and the value at that point. The filter program applies its list to every stored snapshot in order and leaves the stored series unchanged.",
 ["programs"], "all filter lists up to the length bound over a small alphabet of filters and actions x placement x step configuration, against a reference evaluation",
 "The tests use a single reporting filter each.", ["src/FiltersList.cpp", "src/ProgPropa.cpp", "src/ProgFilter.cpp"], [("filter pipeline", "src/FiltersList.cpp")], observe=["snapshots", "observable tables"])
prop("R04", "Runs either succeed completely or report failure",
 "A run that could not do what its input asked for - unknown program, operator or wave function, missing or inconsistent parameters, missing files, unreadable input of any size, incompatible objects - ends with a non-zero exit status and a message, never with a crash, a hang or a success status. A correct input is accepted whatever its length and formatting.",
 ["inputs", "fault_sequences"], "a correct input of every program with every single element or attribute removed, emptied or replaced by an invalid value, and inputs of every size around internal buffer limits",
 "The tests run correct inputs only.", ["src/qdng.cpp", "src/ChainLoader.cpp", "src/ProgPropa.cpp", "src/ProgEigen.cpp", "src/ProgFilter.cpp", "src/tools/XmlParser.cpp", "src/tools/XmlNode.cpp"], [("global exception handler and exit status", "src/qdng.cpp")], observe=["exit status", "signals"])
prop("R05", "Compressing and decompressing stored series preserves every member",
 "Compressing and then decompressing a stored wave function or a whole numbered series with the command line tool leaves every member readable with its values within the tolerance, touches no other file and changes neither numbering nor meta information other than compression.",
 ["configurations", "inputs"], "all combinations of series length, wave function kind, format, tolerance, level and method in the bound",
 "The tool has no test.", ["src/qdz.cpp", "src/qdlib/FileWF.cpp", "src/tools/FileSingle.h"], [("read-modify-write of each file", "src/qdz.cpp")], observe=["files on disk"])
prop("R06", "Eigenstate calculation yields orthonormal, ordered eigenstates",
 "An eigenstate calculation writes the requested number of states, in order of energy, orthonormal and satisfying the eigenvalue equation within the convergence criterion, with energies that agree with the written states; resuming it from already computed states gives the same result as computing them in one go.",
 ["configurations", "crash_points"], "small Hamiltonians x requested number x restart point x propagator x diagonalisation switch, against exact diagonalisation",
 "The eigenstate tests run one Hamiltonian and compare energies.", ["src/ProgEigen.cpp", "src/qdlib/OProjection.cpp"], [("relaxation with projection", "src/ProgEigen.cpp")], observe=["eigenstate files", "energy table"])
prop("R07", "Wave function definitions build the state they describe",
 "Wave function input sections build exactly the described state: files, linear combinations with the given coefficients, assignment to multi-state components, normalisation and phase, under any nesting and order, and naming a state with a key does not change it. Definitions that cannot be built - members of different shape, unknown states - are rejected.",
 ["programs"], "all definition trees up to the size bound over a small set of files, coefficients and state maps, against a reference evaluation",
 "Tests load single files only.", ["src/ChainLoader.cpp", "src/GlobalWFList.cpp", "src/qdlib/WFMultistate.cpp", "src/qdlib/FileWF.cpp"], [("recursive loader", "src/ChainLoader.cpp")], observe=["resulting wave function"])
prop("R08", "Correlation functions equal their definition",
 "Every point of a written one or two point correlation function is the matrix element its definition stands for: the operators of the bra and ket sections in their order, the signal operator, and the propagators between the times of this point, for every length, write cycle and operator sequence, with the bra given or implied, and whether the first propagation is calculated, stored or read back. Definitions that are no correlation function are refused.",
 ["programs", "configurations"], "all definitions up to the length bound x steps x cycles x systems x source of the propagation, against the definition evaluated with matrices",
 "There is no test of correlation functions.", ["src/ProgCfun.cpp", "src/ProgCfun.h", "src/qdlib/WFBuffer.cpp"], [("bra and ket sides", "src/ProgCfun.cpp")], observe=["correlation function file", "meta data", "stored propagation"])
prop("R09", "Optimal control: yields, fields and algorithm belong together",
 "An optimal control run reports, for every iteration, the norm, yield or expectation value and phase a propagation in the field written for that iteration has, and each field follows from the preceding one by the chosen method (Krotov, Zhu-Rabitz, feedback), for every target kind (states, operators, moving targets), number of targets, coupling (several, labelled, scaled, permanent or between states) and convergence criterion; the final file is the last field. Inputs that do not define an optimization are refused.",
 ["programs", "configurations"], "all combinations of system, method, target, steps, iterations and outputs, against the algorithm evaluated with matrices",
 "Tests compare the digits of five runs.", ["src/ProgOCT.cpp", "src/ProgOCT.h", "src/ChainLoader.h", "src/qdlib/Laser.cpp", "src/qdlib/OLaser.cpp", "src/qdlib/WFBuffer.cpp"], [("iteration", "src/ProgOCT.cpp"), ("finding the field", "src/ChainLoader.h")], observe=["iteration table", "laser fields"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
