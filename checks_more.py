MORE = []
def add(**k): MORE.append(k)
API = "; operation sequences executed on the real number classes and whole conversions executed on the real program"
add(id="C15", engine="big-integer", kinds=["run", "api"], title="Unbounded integers are exact",
  statement="The unbounded integer type (-i inf) computes exactly: sums, differences, products, quotients towards zero, non-negative remainders, comparisons, greatest common divisors and conversions agree with the mathematical integers for operands of any size and sign, also when an object is its own operand; a conversion run with it prints the exact result, or ends with an error when a number of the result is too large to be printed, and never prints a wrong row.",
  over=["inputs", "operation sequences"], text="every sequence of operations on integers of any size; every input of any coefficient size",
  why="the unit tests of the class use a few hundred operand pairs; carries, borrows and quotient digits go wrong for rare operand patterns only, and no test runs a conversion with the type",
  files=["src/big_integer.cpp", "src/big_integer.h", "src/big_integer_arithmetics.cpp", "src/big_integer_comparisons.cpp", "src/big_integer_constructors.cpp", "src/integer_type_selection.tpp"],
  mech=[("sign and magnitude arithmetic on digit vectors with carry propagation", "src/big_integer_arithmetics.cpp"), ("three-way comparison by sign, length and digits", "src/big_integer_comparisons.cpp")],
  rule="API: every unary operation on, every pair of and every short sequence of operations over boundary values (around powers of two at word boundaries, both signs), judged by boost::multiprecision::cpp_int; program: polygons, solids and systems with coefficients up to the int range whose intermediate results leave 64 bit",
  bounds="values up to 2^256 (1000 bits in sequences), sequences of up to 3 (4 thorough) operations; dimension <= 3 for conversions")
add(id="C16", engine="safe-integer", kinds=["run", "api"], title="Checked integers are exact or refuse",
  statement="The overflow checked integer type (-i safe) computes exactly whenever the mathematical result fits into 64 bit and refuses (by an exception, an error exit of the program) exactly when it does not; a conversion run with it never prints a wrong row.",
  over=["inputs", "operation sequences"], text="every sequence of operations and every input",
  why="overflow conditions have many edges (sign combinations, the smallest integer, products next to the limit); tests check a few of them, and none a whole conversion",
  files=["src/safe_integer.cpp", "src/safe_integer.h", "src/safe_integer.tpp", "src/algorithm_integer_operations.cpp", "src/integer_type_selection.tpp"],
  mech=[("overflow test before every operation", "src/safe_integer.cpp")],
  rule="as C15, over boundary values of the 64-bit range including all operands within 3 of the overflow edge; gcd and lcm of all built-in widths as well",
  bounds="sequences of up to 2 (3 thorough) operations over a 26-value boundary set; dimension <= 3 for conversions")
RUN = "; the real program executed on every file"
add(id="C17", engine="input-forms", kinds=["run"], title="All documented spellings of an input mean the same",
  statement="The meaning of an input file does not depend on how it is written: every accepted spelling of the section headings (PANDA and PORTA, with or without colon, END, DIM), any layout (blank lines, indentation, tabs, CRLF, missing final line end), row identifiers, unreduced or signed numbers, integers written as fractions, any names, named or unnamed rows, any of <=, >=, =, any order and spelling of terms, any admissible order of sections and reduced sections lead to exactly the rows the polyhedron has.",
  over=["inputs"], text="every combination of spellings of every input",
  why="the unit tests read a few files per section; wrong readings appear for combinations (a name that is a prefix of another, identifiers with blanks, a term order) and still produce plausible rows",
  files=["src/input.cpp", "src/input_common.cpp", "src/input_keywords.cpp", "src/input_names.cpp", "src/input_map.cpp", "src/input_vertex.cpp", "src/input_constraint.cpp", "src/input_constraint_named_variables.cpp", "src/input_constraint_unnamed_variables.cpp", "src/input_dimension.cpp", "src/input_detection.cpp"],
  mech=[("section dispatch by keyword", "src/input.cpp"), ("terms, relations and signs of named rows", "src/input_constraint_named_variables.cpp"), ("common denominators of coordinates", "src/input_vertex.cpp")],
  rule="10 descriptions with fixed meaning are written in every form that differs from the plain one in at most 2 (thorough: 3) of 21 choices with 2..18 options each; the real program is executed on each and its rows judged by the reference for the fixed meaning",
  bounds="10 descriptions of dimension 2 and 3, at most 2 (3) choices off the default")
add(id="C18", engine="malformed-input", kinds=["run"], title="Malformed input is refused, never misread",
  statement="An input file (or file with known facets / vertices) that breaks the documented format - a token that is not a number or a term, a division by zero, rows, maps, names, equations or DIM of different dimension, a missing or doubled relation, sign or variable, an unknown name, a number out of range, an unfinished identifier, maps without names, reduced sections without maps, both or no description - is refused with an error before any row is printed; the program neither crashes nor runs for ever on it, and a file that is still well-formed gives exactly the rows of what is written.",
  over=["inputs"], text="every file",
  why="every position of every section can be damaged in many ways; the unit tests check a few broken files, and a lenient reader silently computes with other data",
  files=["src/input.cpp", "src/input_common.cpp", "src/input_consistency.cpp", "src/input_keywords.cpp", "src/input_names.cpp", "src/input_map.cpp", "src/input_vertex.cpp", "src/input_constraint_named_variables.cpp", "src/input_constraint_unnamed_variables.cpp", "src/input_dimension.cpp"],
  mech=[("consistency of dimensions", "src/input_consistency.cpp"), ("refusal of malformed tokens", "src/input_constraint_named_variables.cpp"), ("refusal of malformed coordinates", "src/input_vertex.cpp")],
  rule="every single edit of 16 well-formed files and 4 pairs with known data - insertion, replacement, deletion, exchange, repetition of each token (58 tokens), each line (36 lines), each character (20 characters), truncation at every byte - and every combination of row lengths; an independent reader written from input_format.md decides what the file means, that it must be refused, or that the documentation leaves it open (then it may be refused, must not crash or run for ever, and where the text has only one natural reading an accepted file must have that meaning)",
  bounds="single edits of 20 files (thorough: pairs of character edits in 4 small files); files whose meaning the documentation leaves open are not judged")
add(id="C19", engine="validity-check", kinds=["run"], title="Output with --check means the input is valid",
  statement="With --check (also spelled --checked, -c) the program prints rows only if the maps really are symmetries of the input and the rows of --known-data really are facets (or vertices) of it; for every valid input the result is the one computed without the check, and an invalid input is refused with an error before any row is printed.",
  over=["inputs"], text="every set of rows, every set of maps, every set of known rows",
  why="whether a map preserves a set of rows depends on scaling, repetition and equations of the rows, whether a known row is a facet depends on the rank of its incidences; a validity check that is too lenient is invisible until somebody relies on it",
  files=["src/input_validity.cpp", "src/input.cpp", "src/algorithm_map_operations.cpp", "src/input_consistency.cpp"],
  mech=[("images of rows under maps, and rank of the incident rows of a known row", "src/input_validity.cpp")],
  rule="every point set / system of a grid with every map of a family of coordinate maps and with every candidate of a family of known rows (also differently scaled, repeated, with rays, in reversed order of sections); the reference decides whether map and known row are valid; the real program must accept with exactly the right rows, or refuse",
  bounds="dimension <= 3, at most 5 rows, coefficients of maps and known rows in -2..2; maps that preserve the polyhedron but not its listed rows are not judged")
add(id="C20", engine="command-line", kinds=["run"], title="Command line options have their documented effect",
  statement="Every documented spelling of an option (short or long name, argument after a space or an equals sign, before or after the file name, in any combination) is recognised, leads to the documented result (same rows, same number of threads, help text, the chosen order or number type) and nothing that is not documented is accepted: wrong or missing arguments, unknown options, a missing or unreadable file end with an error message and a failure status, without rows and without a crash.",
  over=["inputs"], text="every command line",
  why="options interact through shared parsing of the argument vector (an option taking the next argument as its value, an option hidden by another); tests call single parsers with single options",
  files=["src/main.cpp", "src/input_detection.cpp", "src/input_method.cpp", "src/integer_type_detection.cpp", "src/concurrency.cpp", "src/help.cpp", "src/input.cpp", "src/integer_type_selection.tpp"],
  mech=[("search of the argument vector for an option and its value", "src/input_detection.cpp"), ("number of threads", "src/concurrency.cpp")],
  rule="every option in every documented spelling and position, every pair (thorough: every triple) of options, wrong values, unknown options and missing files; the real program is executed on each command line in its own process with thread creation counted, output judged by the reference",
  bounds="at most 2 (3) options per command line besides the file")
add(id="C21", engine="many-rows", kinds=["run"], title="Results stay exact for many rows, high dimension and large groups",
  statement="The results are complete, irredundant and free of repetitions, for both directions and both methods, no matter how many rows an input has, how high its dimension is, or how large the classes of its symmetry group are: nothing changes when these numbers pass the size of a machine word or of an internal data structure.",
  over=["inputs"], text="every number of rows, every dimension, every size of a group",
  why="the program switches between 18 fixed-size bitset types and a variable one by the number of rows, and handles classes of any size; the tests use a handful of rows, so no test ever leaves the first machine word",
  files=["src/algorithm_fourier_motzkin_elimination.cpp", "src/bitset_fixed_size.tpp", "src/bitset_variable_size.cpp", "src/popcount.tpp", "src/algorithm_classes.cpp", "src/algorithm_matrix_operations.cpp", "src/algorithm_rotation.cpp"],
  mech=[("choice of the bitset type by the number of rows", "src/algorithm_fourier_motzkin_elimination.cpp"), ("word-wise set operations up to the current row", "src/bitset_fixed_size.tpp")],
  rule="every number of rows in an interval and around every size at which the representation changes (up to 6433 rows), every dimension up to 70, for families whose result is known in closed form: polygons, prisms, bipyramids, cyclic polytopes (evenness condition), cubes, cross polytopes, cones over them, permutahedra with their groups, tangent systems, and small polytopes / systems whose essential rows are hidden at the end, the beginning or spread among redundant ones; four row orders each; the real program is executed on each and all rows judged",
  bounds="at most 6433 rows (thorough: 12867), dimension <= 70 (130), results of up to 32768 (65536) rows, groups of up to 10321920 (3715891200) elements and single classes of up to 131072 rows; families listed under engines[].families")
add(id="C22", engine="distributed", kinds=["mpi", "mpi-asan"], title="Distributed runs compute the same result on every schedule",
  statement="Built with MPI support and started on several processes, an enumeration prints on the first process exactly the rows of a single-process run, each once, whatever the order in which threads run and messages arrive, and for every integer type; all processes end normally (no deadlock, no crash, no message left behind), the others print no rows, and the buffers of a message exist until it has been sent.",
  over=["schedules", "inputs"], text="every interleaving of the threads and messages of all processes",
  why="the repository's tests are built without MPI, so nothing of this code is ever executed by them; message order, completion of non-blocking sends and termination across processes depend on timing",
  files=["src/communication.cpp", "src/job_manager.cpp", "src/job_manager_proxy.cpp", "src/message_passing_interface_session.cpp", "src/list.cpp", "src/method_adjacency_decomposition_implementation.cpp", "src/cast.cpp"],
  mech=[("polling for messages under a lock, one request thread per worker of every other process", "src/job_manager.cpp"), ("rows sent as integers of fixed size, completion of sends", "src/communication.cpp"), ("worker count and end marker in the pool", "src/list.cpp")],
  state=[("worker count", "number of rows being processed, also by other processes", "src/list.h")],
  rule="one case per (program run, schedule): the program compiled with MPI_SUPPORT against a stand-in MPI library, 1 to 3 processes under one scheduler; all schedules with at most a bounded number of deviations from a round-robin schedule (delay bounding over threads of all processes), with buffered and with rendezvous sends; deadlock, misuse of MPI, crash, exit status of every process and the complete output are judged for every schedule; repeated under the address sanitizer",
  bounds="engines[].families[].preemption_bound deviations per case; at most 3 processes, 11 threads",
  assumptions=["the MPI library is a stand-in with two legal behaviours (send buffered at once; data taken from the sender's buffer when sender and receiver have both called the library); channels keep message order", "a poll that finds nothing is repeated only after the state it looks at has changed", "all processes read the same input and use the same number of threads", "sequential consistency at the granularity of synchronisation and message operations"],
  technique="stateless model checking of the implementation: delay-bounded enumeration of all thread and message schedules across processes", note="every schedule up to the stated number of deviations of each listed run")
add(id="C23", engine="memory", kinds=["asan"], title="No execution has undefined behaviour",
  statement="Whatever file and command line the program is given - well-formed or not, with either method, any option, symmetries, known data, checks or number type - it never reads or writes memory outside an object or after its end, never uses an invalid iterator, pointer or null reference, and never executes an operation the language leaves undefined.",
  over=["inputs", "command lines"], text="every file and every command line",
  why="an access one past the end of a row, or to an element that was just removed, usually changes nothing that a test can see, until the allocator or the compiler changes; the tests run without sanitizers and on a handful of inputs",
  files=["src/input.cpp", "src/input_common.cpp", "src/input_keywords.cpp", "src/input_vertex.cpp", "src/input_constraint_named_variables.cpp", "src/input_constraint_unnamed_variables.cpp", "src/algorithm_fourier_motzkin_elimination.cpp", "src/algorithm_matrix_operations.cpp", "src/algorithm_rotation.cpp", "src/algorithm_classes.cpp", "src/bitset_fixed_size.tpp", "src/bitset_variable_size.cpp", "src/list.cpp"],
  mech=[("lexing of files by iterators", "src/input_common.cpp"), ("word-wise bitset access", "src/bitset_fixed_size.tpp"), ("index arithmetic on rows", "src/algorithm_matrix_operations.cpp")],
  rule="36 families of the other properties (every single edit of files, every spelling, every option, all small point sets and systems, classical polytopes, symmetries, known data, checks, more than one machine word of rows), each case executed on the real program compiled with address and undefined-behaviour sanitizers and the assertions of the C++ library; any report, crash or endless loop is a violation, and the usual oracle of the case is applied as well",
  bounds="as the families it takes from the other properties; listed under engines[].families",
  technique=None, note="every case of the listed families, under sanitizers")
