"""One entry per property: what it says, where it lives, and how the engines decide it."""
EXH = "bounded exhaustive enumeration of program inputs, every one executed on the real program and compared with an exact reference model"
SCH = "stateless exploration of all thread interleavings up to a preemption bound on the real program (controlled scheduler)"
REF_ASSUME = [
    "the exact reference (engine/ref.hpp: rational linear algebra over 128-bit integers with overflow detection, facets and extreme rays by enumeration of candidate hyperplanes) is right; it shares no code with the program",
    "inputs outside the enumerated families (larger dimension, more rows, larger coefficients) behave like those inside",
    "the program is compiled here with g++ -std=c++11 -O2 -DNDEBUG from /repo/src, main() renamed and called in a forked child process",
]
SCHED_ASSUME = [
    "sequential consistency at the granularity of synchronisation operations; code between two of them is atomic, which the data race check (C13) justifies",
    "executions that need more preemptions than the bound are not explored; time-outs and spurious wake-ups cost one preemption each",
    "threads are created, joined, locked and woken through the intercepted pthread / libstdc++ entry points",
]
def P(id, engine, kinds, title, statement, over, text, why, files, mech, state=(), rule="", bounds="", assumptions=None, technique=None, level="model_checking", note="", meaning=None):
    d = dict(id=id, engine=engine, kinds=kinds, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, rule=rule, bounds=bounds,
             assumptions=list(assumptions if assumptions is not None else REF_ASSUME), technique=technique or EXH, level=level, note=note)
    if meaning: d["meaning"] = meaning
    return d

L = []
L.append(P("C01", "facets-ad", ["run"], "Facet enumeration by adjacency decomposition is exact",
  "For every set of points and rays (at least one point), default facet enumeration prints equations that describe exactly the affine hull and exactly one valid inequality for every facet, and nothing else: no facet is missing, none is printed twice, and no printed row is redundant or cuts off an input point.",
  ["inputs"], "every V-description the program accepts, whose coefficients stay in the range of the selected integer type",
  "the unit tests check a handful of helper functions on fixed matrices; no test runs a complete enumeration, and completeness is a statement about all facets of all inputs (the traversal must reach every facet through its ridges)",
  ["src/method_facet_enumeration.cpp", "src/method_adjacency_decomposition_implementation.cpp", "src/algorithm_rotation.cpp", "src/algorithm_fourier_motzkin_elimination.cpp", "src/algorithm_matrix_operations.cpp", "src/list.cpp"],
  [("rotation about every ridge of a processed facet", "src/algorithm_rotation.cpp"), ("initial facets by projection", "src/algorithm_fourier_motzkin_elimination.cpp"), ("duplicate elimination on normalised rows", "src/list.cpp")],
  [("set of known rows and queue of unprocessed ones", "facets found so far and still to be rotated", "src/list.h")],
  rule="one case per V-description; every non-empty subset (up to the stated size) of fixed point and ray grids in dimension 1 to 4 (5 in the thorough tier), fractions and named variables included, plus classical polytopes and stretched grids", bounds="families listed under engines[].families; dimension <= 4 (quick), <= 5 (thorough)"))
L.append(P("C02", "facets-dd", ["run"], "Facet enumeration by double description is exact",
  "For every set of points and rays (at least one point), facet enumeration with the double description method prints equations that describe exactly the affine hull and exactly one valid inequality for every facet, and nothing else.",
  ["inputs"], "every V-description the program accepts, whose coefficients stay in the range of the selected integer type",
  "no test runs the method end to end; the adjacency test between rows must be right for every incidence pattern",
  ["src/method_double_description.cpp", "src/algorithm_fourier_motzkin_elimination.cpp", "src/bitset_variable_size.cpp", "src/bitset_fixed_size.tpp"],
  [("elimination with combinatorial adjacency test on incidence bitsets", "src/algorithm_fourier_motzkin_elimination.cpp"), ("affine hull by Gaussian elimination", "src/algorithm_matrix_operations.cpp")],
  rule="the families of C01, with -m dd", bounds="as C01"))
L.append(P("C03", "vertices-ad", ["run"], "Vertex enumeration by adjacency decomposition is exact",
  "For every system of inequalities and equations whose polyhedron has a vertex, default vertex enumeration prints exactly the vertices and extreme rays of the polyhedron, each exactly once; redundant rows, duplicate rows and unboundedness make no difference.",
  ["inputs"], "every H-description of a polyhedron with at least one vertex, whose coefficients stay in the range of the selected integer type",
  "no test runs a vertex enumeration; the statement ranges over all systems, including degenerate, redundant and unbounded ones",
  ["src/method_vertex_enumeration.cpp", "src/method_adjacency_decomposition_implementation.cpp", "src/algorithm_rotation.cpp", "src/algorithm_fourier_motzkin_elimination.cpp", "src/list.cpp"],
  [("rotation about every edge of a processed vertex", "src/algorithm_rotation.cpp"), ("homogenisation with the face at infinity", "src/method_vertex_enumeration.cpp")],
  rule="one case per H-description; every system of up to the stated number of rows out of fixed grids of normals and right hand sides in dimension 1 to 4, with equations, named variables, fractional vertices and unbounded polyhedra, plus classical polytopes; systems without a vertex are skipped and counted under tags", bounds="families listed under engines[].families; dimension <= 5"))
L.append(P("C04", "vertices-dd", ["run"], "Vertex enumeration by double description is exact",
  "For every system of inequalities and equations whose polyhedron has a vertex, vertex enumeration with the double description method prints exactly the vertices and extreme rays of the polyhedron, each exactly once.",
  ["inputs"], "every H-description of a polyhedron with at least one vertex, whose coefficients stay in the range of the selected integer type",
  "no test runs a vertex enumeration end to end",
  ["src/method_double_description.cpp", "src/method_vertex_enumeration.cpp", "src/algorithm_fourier_motzkin_elimination.cpp"],
  [("elimination with combinatorial adjacency test on incidence bitsets", "src/algorithm_fourier_motzkin_elimination.cpp")],
  rule="the families of C03, with -m dd", bounds="as C03"))
L.append(P("C05", "option-independence", ["run"], "Results do not depend on method, order, integer type or threads",
  "For a given input, every combination of method, row order option, integer type and number of threads, in every documented spelling of these options, prints the same polyhedral description up to the order and scaling of rows (as long as no coefficient overflows).",
  ["configurations", "inputs"], "all option combinations on all inputs",
  "tests select one option value at a time and never compare complete results across option combinations",
  ["src/input_method.cpp", "src/method_facet_enumeration.cpp", "src/method_vertex_enumeration.cpp", "src/integer_type_selection.tpp", "src/integer_type_detection.cpp", "src/concurrency.cpp", "src/algorithm_row_operations.cpp", "src/input_order.h", "src/input.cpp"],
  [("choice of method, order and type from the command line", "src/input_method.cpp"), ("row comparators", "src/input.cpp")],
  rule="representative inputs x full product of option values (2 methods x 10 order spellings x 6 integer types x thread counts), each judged by the reference", bounds="representative inputs of engine/reps.hpp; full option product"))
L.append(P("C06", "row-order", ["run"], "Order and repetition of input rows do not change the result",
  "Permuting the rows of an input, repeating a row, or giving a positive multiple of a ray or inequality does not change the polyhedral description that is printed.",
  ["inputs"], "all permutations and all single repetitions of the rows of all inputs",
  "a test sees one order; correctness for all orders is a quantified statement (elimination order, pivoting and adjacency depend on it)",
  ["src/algorithm_fourier_motzkin_elimination.cpp", "src/algorithm_matrix_operations.cpp", "src/method_double_description.cpp", "src/input.cpp"],
  [("canonical normalisation before comparison", "src/algorithm_row_operations.cpp")],
  rule="every permutation of the rows (up to 6 rows) and every insertion of a repeated or scaled row of the representative inputs, both methods", bounds="representative inputs with up to 6 rows"))
L.append(P("C07", "round-trip", ["run"], "Converting the output back yields the original polyhedron",
  "The output of one conversion is valid input for the other, and converting forth and back yields the vertices (respectively facets) of the original polyhedron.",
  ["inputs", "histories"], "every input with a vertex and every pair of methods",
  "no test feeds output back as input; output format and input grammar must agree for every row that can occur",
  ["src/algorithm_row_operations.cpp", "src/algorithm_inequality_operations.cpp", "src/input.cpp", "src/input_vertex.cpp", "src/input_constraint_named_variables.cpp"],
  [("printing of rows with and without names", "src/algorithm_inequality_operations.cpp"), ("parsing of sections", "src/input.cpp")],
  rule="V->H->V and H->V->H for representative inputs and small grids under all four method combinations; facet output is fed back verbatim", bounds="families listed under engines[].families"))
L.append(P("C08", "lowest-terms", ["run"], "Printed rows are normalised and independent of the method",
  "Every printed inequality, equation, vertex and ray is in lowest terms, and without symmetries both methods print exactly the same rows for the same input, up to order: the form of a row does not depend on how it was found or how the input was scaled.",
  ["inputs", "configurations"], "every input and both methods",
  "tests compare a few rows literally; that a canonical form is reached on every path is a statement about all inputs",
  ["src/algorithm_row_operations.cpp", "src/algorithm_matrix_operations.cpp", "src/algorithm_integer_operations.cpp"],
  [("division by the greatest common divisor", "src/algorithm_row_operations.cpp"), ("reduction by the equations of the affine hull", "src/algorithm_row_operations.cpp")],
  rule="one case per input: both methods are run and their rows compared as sets, each row checked for content 1", bounds="families listed under engines[].families; dimension <= 4"))
L.append(P("C09", "symmetry-facets", ["run"], "With symmetries, exactly one facet per class is printed",
  "If the given maps are symmetries of the input, facet enumeration prints exactly one facet of every class of facets under the group generated by the maps, with either method, in full and in lower dimension.",
  ["inputs"], "every V-description together with every list of affine maps that permute it",
  "tests check single applications of a map; that a unique representative is chosen in every class, for every group and affine hull, cannot be sampled",
  ["src/algorithm_classes.cpp", "src/algorithm_map_operations.cpp", "src/input_map.cpp", "src/method_adjacency_decomposition_implementation.cpp", "src/method_double_description.cpp"],
  [("class representative as lexicographic extreme of the orbit", "src/algorithm_classes.cpp"), ("action of maps on inequalities modulo equations", "src/algorithm_map_operations.cpp")],
  rule="inputs are unions of orbits: every choice of up to 2 (3) seed points of a grid under each of up to 21 affine maps or pairs of maps, rays and lower-dimensional hulls included; the reference computes facets and their orbits", bounds="dimension <= 4 (classical polytopes beyond); orbits up to 12 generators"))
L.append(P("C10", "symmetry-vertices", ["run"], "With symmetries, exactly one vertex per class is printed",
  "If the given maps are symmetries of the system, vertex enumeration prints exactly one vertex or ray of every class under the group generated by the maps, with either method, with and without equations.",
  ["inputs"], "every H-description together with every list of affine maps that leave it invariant",
  "as for facets: uniqueness and completeness of representatives over all groups",
  ["src/algorithm_classes.cpp", "src/algorithm_map_operations.cpp", "src/input.cpp", "src/method_vertex_enumeration.cpp"],
  [("class representative as lexicographic extreme of the orbit", "src/algorithm_classes.cpp")],
  rule="systems are unions of orbits of up to 2 (3) seed rows under each map or pair of maps, with invariant equations in several forms", bounds="dimension <= 4"))
L.append(P("C11", "reduced-input", ["run"], "Reduced input means the union of the classes of its rows",
  "An input that lists one representative per class (reduced vertices, rays or inequalities, together with maps) gives the same result as the input that lists all members of the classes.",
  ["inputs"], "every list of representatives and every list of maps with finite orbits",
  "no test runs a reduced input end to end; expansion interacts with names, equations and normalisation",
  ["src/input.cpp", "src/algorithm_classes.cpp", "src/algorithm_map_operations.cpp"],
  [("expansion of classes after reading", "src/input.cpp")],
  rule="the orbit unions of C09 and C10 given by their seeds under the reduced section headings, in all combinations", bounds="dimension <= 4"))
L.append(P("C12", "known-data", ["run"], "Known data never changes the result",
  "Supplying any non-empty part of the true result in advance, in any order, as positive multiples, or (for facets of lower-dimensional polyhedra) in any equivalent form, changes nothing about the set of rows printed, with any option that names the file, any method and with symmetries.",
  ["inputs", "configurations"], "every subset of every true result",
  "no test uses the option; which facets are known steers the whole traversal",
  ["src/input.cpp", "src/method_adjacency_decomposition_implementation.cpp", "src/list.cpp"],
  [("known rows seed the pool before and during the enumeration", "src/method_adjacency_decomposition_implementation.cpp")],
  rule="every subset (up to 6 rows; pairs, all and all-but-one beyond) of the reference result as known data, plain, multiplied, shifted by equations and reversed", bounds="representative inputs of engine/reps.hpp and symmetric families"))
L.append(P("C13", "data-race", ["sched"], "Threads never access shared data without synchronisation",
  "However the worker threads of an enumeration are scheduled, no two of them access the same memory without an ordering between the accesses (at least one being a write), and none uses memory of an object that no longer exists.",
  ["schedules", "inputs"], "every interleaving of every multi-threaded run",
  "the only concurrent test is a smoke test of the pool; a race needs two threads in one particular window and usually goes unnoticed even then",
  ["src/list.cpp", "src/method_adjacency_decomposition_implementation.cpp", "src/job_manager.cpp", "src/joining_thread.tpp", "src/algorithm_rotation.cpp"],
  [("one mutex around the pool", "src/list.cpp"), ("threads are joined by their owner's destructor", "src/joining_thread.tpp")],
  [("row set, queue, worker count", "shared by all workers", "src/list.h")],
  rule="one case per (program run, schedule): small facet and vertex enumerations with 1 to 4 worker threads plus the thread that adds known data, all schedules up to the per-case preemption bound, happens-before race detection and dead stack/heap detection on every instrumented memory access", bounds="engines[].families[].preemption_bound per case", assumptions=SCHED_ASSUME + ["accesses inside the pre-built C++ library are not seen by the race detector"], technique=SCH + " with vector-clock race detection",
  note="every interleaving up to the stated preemption bound of each listed run; race freedom on those"))
L.append(P("C14", "schedule-result", ["sched"], "Every schedule terminates with the complete result, each row once",
  "However the threads are scheduled, an enumeration terminates normally (no deadlock, no lost wake-up, no premature end, no crash), and its output is well formed and contains every row of the result exactly once.",
  ["schedules", "inputs"], "every interleaving of every multi-threaded run",
  "tests observe whatever schedule the machine happens to produce; termination detection depends on the order of queue operations",
  ["src/list.cpp", "src/method_adjacency_decomposition_implementation.cpp", "src/job_manager.cpp", "src/joining_thread.tpp"],
  [("worker count and end marker in the pool", "src/list.cpp")],
  [("worker count", "number of rows being processed; zero with an empty queue means the end", "src/list.h")],
  rule="the runs and schedules of C13 without race detection; deadlock, livelock (20000 operations), misuse of locks, exit status and the complete output are judged for every schedule", bounds="engines[].families[].preemption_bound per case", assumptions=SCHED_ASSUME, technique=SCH,
  note="every interleaving up to the stated preemption bound of each listed run"))

from checks_more import MORE
L += [P(**m) for m in MORE]
CHECKS = {p["id"]: p for p in L}
NOT_APPLICABLE = []
