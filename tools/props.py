P = []
NA = []
def prop(**k): P.append(k)
RC, UN, SF, SU, PL, FA = "src/core/ekat_rational_constant.hpp", "src/core/ekat_units.hpp", "src/core/ekat_scaling_factor.hpp", "src/core/ekat_string_utils.cpp", "src/core/ekat_parameter_list.hpp", "src/core/ekat_factory.hpp"
prop(id="C01", title="Rational constants do exact arithmetic in lowest terms",
  statement="Building a rational number from any numerator and nonzero denominator keeps its value and stores it in lowest terms with a positive denominator, and a zero denominator is rejected. Sum, difference, product, quotient, negation and integer power of rational numbers equal the exact mathematical result (whenever it fits in the integer type), keep a positive denominator, and only division by zero and zero to a non-positive power are rejected. Two rational numbers compare equal exactly when their values are equal, which is exactly when their stored representations are equal.",
  over=["inputs"], text="all numerators, denominators (either sign) and integer exponents whose results fit in 64 bits",
  why="Tests evaluate a handful of positive fractions; signs, common factors, zero operands and negative exponents combine into cases nobody enumerated.",
  files=[RC], mech=[("gcd reduction and sign normalisation in the constructor", RC), ("arithmetic and comparison operators, pow", RC)], obs=["num", "den", "exceptions"],
  note="64-bit integer semantics; small operand ranges because gcd loops fork per Euclid step.")
prop(id="C02", title="Units form an exact algebra of dimensions and scaling",
  statement="Scaling factors compare, multiply, divide and take integer and half-integer powers and square roots according to the exact real number they denote (sign included), rejecting exactly the even roots of negative numbers and products not representable as a single rational power. Units are equal exactly when all seven base exponents and the scaling are equal, product/quotient/power/root of units add/subtract/multiply exponents and scalings, and multiplying or dividing by a number changes only the scaling. Every predefined unit and metric prefix has its standard SI value and symbol, and renaming never changes the value.",
  over=["inputs"], text="all rational bases and exponents, all seven-tuples of base exponents, all scalings",
  why="Tests check a few equalities of familiar units; sign handling under roots, one wrong base exponent slot, or a wrong table entry survive them.",
  files=[SF, UN], mech=[("operators on scaling factors", SF), ("operators on units, SI table, prefixes", UN)], obs=["==, to_string, exceptions"],
  note="One of the seven exponents is symbolic at a time (every position), the others fixed and distinct.")
prop(id="C03", title="Text of rationals, scaling factors and units is exact",
  statement="The text of a rational number is its numerator's decimal digits, followed by a slash and the denominator unless that is 1, in every output path (in decimal format, the decimal text of their quotient); the text of a scaling factor is its base, followed by a caret and its exponent (parenthesised when fractional) unless that is 1. The symbol of a product, quotient, power or root of units joins the operands' symbols with the operator, parenthesising an operand exactly when it contains an operator; one of the eight named prefixes puts its letter in front of a one-word symbol; and a given or renamed symbol is reported trimmed. The SI text lists exactly the base units with nonzero exponent in order, with exponent unless 1, preceded by the scaling unless it is one. With assertions enabled a symbol too long for the fixed buffer is rejected.",
  over=["inputs"], text="all values whose text fits the fixed-size buffers; all short symbols over letters and operators",
  why="Digit counts, negative values, large exponents and buffer copies matter at boundaries (9/10, 99/100) that sampled strings miss.",
  files=[RC, SF, UN], mech=[("string_repr / to_string", RC), ("symbol composition and get_si_string", UN)], obs=["strings"],
  note="iostream integer formatting is an exact model in the executor shim.")
prop(id="C04", title="Splitting, joining, trimming and case folding of strings",
  statement="Splitting a string at a nonempty delimiter yields pieces that contain no delimiter, number one more than its left-to-right non-overlapping occurrences, and give back the string when joined with it; joining (optionally with a filter or transformation) yields exactly the selected, transformed items in order with the separator between them only. Trimming removes exactly the leading and trailing runs of the given character, stripping removes exactly all its occurrences, and upper-casing changes exactly the lower-case letters. The prefix test is true exactly when the string begins with the prefix, and appending a number to a text gives the text, a blank and the decimal digits.",
  over=["inputs"], text="all strings, delimiters, items and characters",
  why="Edge positions (empty string, delimiter first/last/repeated, all-delimiter input, overlap of delimiter with itself) form a space a few sample strings do not cover.",
  files=[SU, "src/core/ekat_string_utils.hpp"], mech=[("split/trim/strip/starts_with/upper_case", SU), ("join, join_if", "src/core/ekat_string_utils.hpp")], obs=["return values"],
  note="Strings of bounded length with unconstrained bytes.")
prop(id="C05", title="Case-insensitive comparison is a consistent total order",
  statement="For ASCII strings, equality, less-than and less-or-equal ignoring case agree with the lexicographic comparison of the upper-cased strings, for every combination of plain and case-insensitive string arguments. Hence exactly one of less, equal, greater holds, the order is transitive, equal strings are interchangeable, and a string equals its upper case. The original text is kept unchanged.",
  over=["inputs"], text="all pairs and triples of ASCII strings, including different lengths and empty ones",
  why="Ordered containers keyed by these strings break if any pair or triple violates the order laws; tests compare a few literals.",
  files=[SU, "src/core/ekat_string_utils.hpp"], mech=[("caseInsensitive comparison functions and operators", SU)], obs=["comparison results"],
  note="Strings of bounded length over all 128 ASCII codes.")
prop(id="C06", title="Nested-list text is accepted exactly when well formed and parsed exactly",
  statement="A text is accepted as a nested list exactly when it is one bracketed list, of a single bracket kind, of one or more comma-separated entries, each a nonempty word over the allowed characters or again such a list; a malformed text is rejected, never parsed. Parsing an accepted text (blanks ignored) gives the number of entries, the nesting depth, and for every position the entry's word or sublist, in order.",
  over=["inputs"], text="all strings",
  why="The set of almost-valid strings (misplaced commas, text after a closed list, empty entries, mixed brackets) is combinatorial; tests try a dozen.",
  files=[SU, "src/core/ekat_string_utils.hpp"], mech=[("valid_nested_list_format, parse_nested_list", SU)], obs=["accept/reject, parameter list content"],
  note="Every string up to the stated length over a small alphabet containing every character class.")
prop(id="C07", title="String similarity measures and tokenisation match their definitions",
  statement="The Jaro and Jaro-Winkler similarities equal their textbook definitions, lie in [0,1], are 1 exactly for equal strings, and the prefix bonus applies only above the threshold, for at most the given number of characters and never lowers the value. Tokenising a string at delimiters yields exactly its maximal delimiter-free pieces, and an atomic text is kept as one token wherever it occurs delimited on both sides. The Jaccard similarity is the size of the intersection over the size of the union of the two token sets: symmetric, in [0,1], and 1 for identical strings.",
  over=["inputs"], text="all strings, delimiter sets, atomic texts, weights and thresholds",
  why="Match windows, transpositions and repeated tokens are decided by coincidences of positions that a few sample words never show.",
  files=[SU], mech=[("jaro/jaro_winkler/jaccard similarity, gather_tokens", SU)], obs=["return values"],
  note="Texts enumerated by forking on every character; floating point in IEEE double.")
prop(id="C09", title="Parameter lists are faithful typed maps with value semantics",
  statement="After any sequence of sets, a read of a parameter with the type it was last set with returns that value, a read with another type or of a missing name is rejected and changes nothing, and a read with a default stores and returns the default only if the name is absent. Copying or assigning a list reproduces exactly the source's parameters and sublists, independent of later changes to either; importing a list yields the union with the imported entries taking precedence at every nesting level. Parameters and sublists of the same name do not interfere, name listings are complete, an empty sequence reads as an empty vector of any element type, and the printed form shows every entry with consistent indentation.",
  over=["histories", "inputs"], text="all sequences of operations, names, values and nestings",
  why="Wrong-type reads, overwrites by another type, aliasing between copies and merging of nested lists arise from sequences of operations, of which tests run a few.",
  files=[PL, "src/core/ekat_parameter_list.cpp"], mech=[("typed storage and access", PL), ("copy, assignment, import, print", "src/core/ekat_parameter_list.cpp")], obs=["get/isType/names/print"],
  note="Values symbolic, names and operation order forked.")
prop(id="C10", title="Factories create exactly the product registered for a key",
  statement="Registering a key succeeds exactly when it is new or replacement is requested, otherwise the first registration is kept; the number of registered keys and the membership query always agree with the registrations made. Creating a key calls exactly the creator last registered for it with the given arguments, and an unregistered key is rejected. Cleaning up empties the registry, and all users see one shared instance.",
  over=["histories", "inputs"], text="all interleavings of registration, replacement, creation, query and clean-up over all keys",
  why="Tests register a couple of distinct keys once; re-registration, replacement and clean-up combine over histories.",
  files=[FA], mech=[("register_product / create / clean_up", FA)], obs=["return values, created objects"],
  note="Histories of bounded length with symbolic keys.")

PK="src/pack/ekat_pack.hpp"
prop(id="C11", title="Pack and mask operations act lane by lane like the scalar operation",
  statement="For packs of any length and element type, every arithmetic operator and compound assignment (pack with pack, pack with scalar, scalar with pack, mixed element types), negation, comparison, min/max, math function, power and conversion gives in each lane exactly the result of the scalar operation on that lane, has the common element type, and leaves its operands unchanged; this also holds if the scalar operand is an entry of the pack being assigned. Mask logic, any, all, none and equality are the Boolean lane-wise ones. min and max over a NaN-free pack return its smallest and largest entry; shifts move the lanes by one, filling with the neighbouring pack's end entry or the given scalar; range counts up from its start; npack is the least number of packs holding the given number of scalars.",
  over=["inputs"], text="all lane values, including infinities, NaN, zeros of both signs and integer extremes",
  why="Every packed kernel relies on all lanes of every overload; tests compare a few packs of benign values, and a wrong lane, operand order, overload or special value escapes them.",
  files=[PK, "src/pack/ekat_pack_math.hpp", "src/kokkos/ekat_math_utils.hpp"], mech=[("Pack/Mask operators and functions", PK), ("pack math", "src/pack/ekat_pack_math.hpp")], obs=["result lanes"],
  note="Bit-identical results in IEEE arithmetic; libm functions uninterpreted.")
prop(id="C12", title="Masked pack operations and reductions touch exactly the selected lanes",
  statement="Masked set, masked construction, masked update/add (beta*y+alpha*x), and where-expressions with =, +=, -=, *=, /= (scalar, pack, mixed type; right-hand side possibly taken from the pack itself) give in every selected lane exactly the scalar result and leave every other lane bit-identical (or give the alternative value where one is supplied); the same holds for where on scalars. Updating a scalar with a where-expression applies exactly the selected lanes in order. Masked min/max return the extreme of the initial value and the selected lanes; the serialized sum, the default in a BFB build, adds the lanes left to right, the other one adds the same lanes.",
  over=["inputs"], text="all masks, lane values and coefficients",
  why="A lane touched although its mask is false stays invisible unless the test inspects it under that mask and with a value for which it matters.",
  files=[PK, "src/pack/ekat_pack_where.hpp", "src/kokkos/ekat_where.hpp", "src/pack/ekat_pack_math.hpp"], mech=[("set/update/add", PK), ("where expressions", "src/pack/ekat_pack_where.hpp")], obs=["result lanes, scalars"],
  note="Every mask enumerated by forking, values symbolic.")
PKK="src/pack/ekat_pack_kokkos.hpp"
prop(id="C13", title="Packed and scalar views of an array address the same entries",
  statement="For every array length, the number of packs is the least that holds the array, padding is the unused tail of the last pack, the end of each pack is full except for that padding, and entry index and (pack, lane) correspond one to one. For contiguous row-major views of any rank, scalarize multiplies the last extent by the pack length, repack to another pack length (or from scalars) divides it, and both alias the original storage so that scalar i*N+s is lane s of pack i; scalarize undoes repack, plain scalar views are returned as they are, and a pack length that does not divide the last extent is rejected.",
  over=["inputs"], text="all lengths and indices; all extents and positions",
  why="Off-by-one in padding and end computations shows only at particular remainders; aliasing of reinterpreted views is asserted by tests for one shape each.",
  files=["src/pack/ekat_pack_utils.hpp", PKK], mech=[("PackInfo, ScalarizedDataType", "src/pack/ekat_pack_utils.hpp"), ("scalarize, repack", PKK)], obs=["index values, view extents and addresses"],
  note="32-bit index arithmetic exact; view shapes enumerated.")
prop(id="C14", title="Transfers between host arrays and views, and transposition, are exact",
  statement="Copying host arrays into (packed or scalar) 1d, 2d and 3d views puts entry (i,j,k) of the row-major array, or of the column-major array when transposing, at position (i,j,k) of the view (pack k/N, lane k%N), each array with its own extents; a preallocated view is filled in place, one of the wrong shape or a wrong number of sizes is rejected. Copying back restores the original array and writes nothing beyond it. Transposing reverses the index order, the two directions are inverse to each other, and the run-time choice of direction equals the compile-time one.",
  over=["inputs"], text="all extents including sizes that are not multiples of the pack length, all values, both directions",
  why="Wrong strides or pack tails only show for particular combinations of unequal extents, pack length and direction; tests use a couple of shapes.",
  files=[PKK, "src/kokkos/ekat_math_utils.hpp"], mech=[("host_to_device, device_to_host", PKK), ("transpose", "src/kokkos/ekat_math_utils.hpp")], obs=["view entries, host arrays"],
  note="Extents enumerated by forking, entries symbolic, output buffers guarded.")
prop(id="C15", title="Gathers, adjacent differences and upper bound pick the right entries",
  statement="Indexing a view of rank 1 to 5 by packs of indices returns in lane s the entry at the s-th indices. The shifted gather returns the entry at the index and at the shifted index; where only the shifted index is out of range (debug builds) the first is still delivered and the second is invalid. The forward (backward) adjacent difference of a view of packs equals that of the scalarized array, next minus current (current minus previous), with a missing neighbour counting as zero. The upper bound of a key in a sorted range, including the replacement used on devices, is the first entry greater than the key, or the end.",
  over=["inputs"], text="all index packs, positions, array contents, keys",
  why="Interior, first/last and repeated indices in different lanes behave differently; tests index a few positions with monotone data.",
  files=[PKK, "src/kokkos/ekat_upper_bound.hpp", "src/kokkos/ekat_math_utils.hpp"], mech=[("index, index_and_shift, adj_diff", PKK), ("upper_bound", "src/kokkos/ekat_upper_bound.hpp")], obs=["result lanes, positions"],
  note="Index combinations forked, values symbolic.")
prop(id="C16", title="Subviews address the slice of the original array they name",
  statement="For contiguous row-major views of rank 1 to 6 (of scalars or packs), fixing the leading one or more indices, or the second index, gives a view of the remaining dimensions with their extents; restricting one dimension to a range gives a view of the same rank with the range's length in that dimension. Entry for entry the subview aliases the original array at the named indices. The same holds when the source itself has padded rows, such as a subview along the second dimension. With assertions enabled an index or range that leaves the source is rejected.",
  over=["inputs"], text="all ranks, slice indices, ranges and positions",
  why="A wrong stride or extent for one of the many rank/dimension combinations shows only for unequal extents at interior positions; tests use a few.",
  files=["src/kokkos/ekat_subview_utils.hpp"], mech=[("subview, subview_1", "src/kokkos/ekat_subview_utils.hpp")], obs=["extents and entry addresses"],
  note="Shapes enumerated, indices forked; addresses compared exactly.")
prop(id="C17", title="Broadcast, reshaped and mirrored views expose exactly the source entries",
  statement="A broadcast view built from a source view and a list of extents has the requested extents in the added dimensions and the source's extents in the kept ones; its entry at any position is the source's entry at the kept indices, and it sees later changes of the source. A request whose length or number of kept dimensions does not fit is rejected, and so is a source whose entries are not where the layout of the broadcast view expects them; in debug builds so is a query for the extent of a dimension that does not exist. Reshaping a contiguous view keeps the storage and the row-major order of entries; mirroring to the host copies every entry; random filling draws every entry once, in order.",
  over=["inputs"], text="all source extents, choices of broadcast dimensions, positions and values",
  why="The index mapping depends on the choice of dimensions (dozens per pair of ranks); tests try a few.",
  files=["src/kokkos/ekat_view_broadcast.hpp", "src/kokkos/ekat_view_utils.hpp"], mech=[("ViewBroadcast", "src/kokkos/ekat_view_broadcast.hpp"), ("reshape, create_host_mirror_and_copy, genRandArray", "src/kokkos/ekat_view_utils.hpp")], obs=["extents, entry addresses, values"],
  note="Shapes and dimension choices enumerated by forking.")
prop(id="C18", title="Team reductions cover exactly the requested range",
  statement="A reduction over the scalar range [begin,end) of a function or view, of scalars or of packs, takes in every entry of the range exactly once and nothing outside it, in particular no padding lanes of the first and last pack; an empty range gives zero. Every thread of the team obtains the result, free of data races, for any team size. The serialized variant, the default in a BFB build, applies the entries strictly in increasing index order starting from zero, so its result is bit for bit that of the serial loop.",
  over=["inputs", "schedules"], text="all ranges, pack lengths, values, team sizes and thread schedules",
  why="Ranges that start or end inside a pack, or lie within one pack, take different branches; tests cover a few full ranges.",
  files=["src/algorithm/ekat_reduction_utils.hpp", PK], mech=[("parallel_reduce, view_reduction", "src/algorithm/ekat_reduction_utils.hpp")], obs=["return value on every thread"],
  note="Order of the non-serialized sum is left to Kokkos: compared in exact (integer/real) arithmetic.")
prop(id="C19", title="Linear interpolation evaluates the line through the right source points",
  statement="For each target abscissa the interpolation uses the last source point not above it (the first point if there is none) and its right neighbour (the left one for the last point), and returns exactly the value of the straight line through these two points; so lines are reproduced and values beyond the ends are extrapolated. This holds for any pack length, number of points and padding, for scalar and packed, constant and mutable views; one setup serves any number of ordinate arrays, columns are independent, a restricted range touches only its packs, and team threads do not interfere.",
  over=["inputs", "schedules"], text="all sorted abscissae, targets, ordinates, columns, team sizes",
  why="Targets at, between and beyond nodes in different lanes of one pack, and repeated nodes, are rarely hit by random data; the test of this class is not even built here.",
  files=["src/algorithm/ekat_lin_interp.hpp", "src/algorithm/ekat_lin_interp_impl.hpp"], mech=[("LinInterp::setup, lin_interp", "src/algorithm/ekat_lin_interp_impl.hpp")], obs=["interpolated values"],
  note="IEEE bit-exact against the scalar formula; positions of targets enumerated symbolically.")
prop(id="C20", title="Tridiagonal solvers return the exact solution of A x = b",
  statement="For a diagonally dominant tridiagonal matrix every solver (Thomas serial and team, cyclic reduction, BFB), in every problem format (one matrix and one right hand side, one matrix and many right hand sides, as many matrices as right hand sides), returns in exact arithmetic the solution of A x = b in every column, for any number of rows, right hand sides and threads in the team, free of data races between the threads. Matrix and data may have different value types, packs included, and every slot of a pack is solved. The two entries of the diagonals that lie outside the matrix are irrelevant.",
  over=["inputs", "schedules"], text="all right hand sides, diagonally dominant matrices, shapes, team sizes and thread schedules",
  why="Cyclic reduction treats row counts around powers of two, and teams larger or smaller than the number of columns, differently; tests run random matrices to a tolerance with a few thread counts.",
  files=["src/algorithm/ekat_tridiag.hpp"], mech=[("thomas, cr, bfb", "src/algorithm/ekat_tridiag.hpp")], obs=["X after the call"],
  note="Exact real arithmetic: decides the algebra, not the rounding.")
prop(id="C21", title="Tridiagonal solutions do not depend on team size or grouping, bit for bit",
  statement="The result of each tridiagonal team solver (in particular the BFB solver) in a column is bit for bit the result of solving that column alone with one thread: it depends neither on the team size, nor on how columns are dealt to threads, nor on the number of other columns, nor on packing several columns into packs. Entries outside the matrix have no influence, and nothing outside the arrays is written.",
  over=["inputs", "schedules"], text="all matrices and right hand sides (any values), team sizes and distributions of columns",
  why="Tests compare to a tolerance; a change of operation order for some column or team size is invisible to them, yet breaks reproducibility.",
  files=["src/algorithm/ekat_tridiag.hpp"], mech=[("thomas, cr, bfb", "src/algorithm/ekat_tridiag.hpp")], obs=["bits of X"],
  note="Floating-point operations uninterpreted (addition and multiplication commutative): equality holds for any rounding.")
prop(id="C22", title="Workspace blocks handed out never overlap and keep their contents",
  statement="Every block taken from a team's workspace, by whichever operation (single, many, contiguous, macro block, take-and-reset), has the requested number of entries, is disjoint from every block still active, and keeps its contents until released or reset, for every history of takes and releases within the capacity. Released blocks become available again: as many blocks as are inactive can be taken. A reset makes all blocks available. In debug builds each active block reports the name it was taken with and the number of blocks in use is exact, and report() prints, per slot, the most blocks in use at one time, how often each name was taken and released with a leak warning exactly where the two differ, and the totals over the slots. Blocks of teams running at the same time are disjoint and all threads of a team get the same block, free of data races, for any interleaving.",
  over=["inputs", "histories", "schedules"], text="all histories of workspace operations, contents, numbers of teams and thread schedules",
  why="The free list is wrong only after particular non-LIFO sequences of mixed operations; tests run a few sequences with one block size.",
  files=["src/kokkos/ekat_workspace.hpp", "src/kokkos/ekat_workspace_impl.hpp"], mech=[("WorkspaceManager, Workspace", "src/kokkos/ekat_workspace_impl.hpp")], obs=["addresses, contents, names and number of blocks"],
  note="Operations enumerated by forking, contents and positions symbolic.")
prop(id="C25", title="YAML input: every scalar and sequence gets the documented type and value",
  statement="Reading a YAML file into a ParameterList gives every untagged scalar the first type of the list logical (true/false in any capitalisation), integer (digits with at most one minus sign, value in the range of int), real (decimal floating literal that fits in a double, or .inf/.nan), string that its text fits, with exactly that value; text that is quoted or tagged as a string is a string; the tags for logicals, integers and reals (short and full form) are honoured, are rejected on text of another type, and unknown tags are rejected. Sequences get the first of those types that all entries fit (logicals as chars), empty ones become the empty-sequence placeholder. Maps become sublists of the same structure; null entries are skipped. Reading into an existing list keeps entries that the file does not mention and replaces those it does; an unreadable file, a document that is not a map, or a bad entry is rejected and leaves the list unchanged.",
  over=["inputs"], text="all scalar texts of bounded length, all tags, all short sequences mixing types and quotes, all small nested documents, all previous contents",
  why="Tests read one sample file; the classification of odd texts (signs, exponents, capitalisation, range ends, quotes), mixed sequences and failure atomicity are never exercised.",
  files=["src/parser/ekat_yaml.cpp"], mech=[("is_type/str2type classification, parse_node per node type, import into the caller's list", "src/parser/ekat_yaml.cpp")], obs=["types", "values", "exceptions", "list contents"],
  note="The YAML grammar itself (text to nodes) belongs to yaml-cpp and is replaced by a stand-in node tree.")
prop(id="C26", title="YAML output read back gives the same parameters with the same types",
  statement="Writing a ParameterList to a YAML file and reading the file gives the same parameters and sublists, each with the same type and exactly the same value, for integers, logicals, reals (including large, tiny and special ones), strings (including ones that look like numbers or logicals, contain punctuation, quotes, blanks or several lines) and short or long sequences of these; reals are written with at least one decimal digit and no superfluous zeros. A parameter of any other type and a file that cannot be opened are rejected.",
  over=["inputs"], text="all values of the parameters within the bounds on digits and lengths, all nestings of small lists",
  why="Tests round-trip one list of friendly values; losing digits or exponent zeros and confusing strings with numbers depends on the digits of the value.",
  files=["src/parser/ekat_yaml.cpp"], mech=[("write_param, write_parameter_list, write_yaml_file", "src/parser/ekat_yaml.cpp")], obs=["types and values read back", "emitted scalars", "exceptions"],
  note="Decimal conversion is modelled as a function of the exact decimal value with correct rounding; the emitter's text is replaced by the tree that yaml-cpp reads back from it.")
prop(id="C27", title="Communicators deliver the standard collectives on every rank",
  statement="Broadcast, reduction, scan and gather, for every supported entry type (logical included), number of entries, root and operation, in place or into another array, give on every rank exactly the result of the standard collective on the ranks' contributions, and write nothing beyond it. Rank, size and root are those of the wrapped communicator; splitting by color groups the ranks of equal color in their order, and collectives on a part stay within it. A null communicator is rejected, and the configured error handler is installed. Without MPI the same interface behaves like one process: every collective returns the own contribution.",
  over=["inputs", "schedules"], text="all contributions, counts, roots, operations, partitions of the ranks and arrival orders",
  why="Tests run few ranks with rank-derived values, where a wrong type tag, count, in-place buffer or operation can still give the expected number; the serial implementation is never built.",
  files=["src/core/ekat_comm.hpp", "src/core/ekat_comm.cpp", "src/core/ekat_comm_serial.cpp"], mech=[("Comm collectives, split, reset_mpi_comm", "src/core/ekat_comm.hpp"), ("error handler, checks", "src/core/ekat_comm.cpp"), ("build without MPI", "src/core/ekat_comm_serial.cpp")], obs=["receive buffers, rank, size"],
  note="MPI itself is a model after the standard; ranks are threads.")
prop(id="C28", title="Floating point exception masks change exactly as requested",
  statement="Enabling or disabling floating point exceptions changes exactly the named ones and leaves all others as they were, whatever the sequence of calls; disabling all leaves none. Either clears the status flags of the named exceptions and of no others. The query returns the enabled set, and the text names exactly the enabled exceptions. Enabling never traps because of an exception flag left by an earlier computation. Starting a test session enables exactly the configured default mask.",
  over=["histories", "inputs"], text="all masks, initial states and histories of calls and computations",
  why="Tests toggle one or two masks from a clean state; stale flags and combined masks need particular histories.",
  files=["src/core/ekat_fpe.cpp", "src/testing-support/ekat_test_session.cpp"], mech=[("enable/disable/query/text", "src/core/ekat_fpe.cpp"), ("default mask of the session", "src/testing-support/ekat_test_session.cpp")], obs=["enabled set, text, traps"],
  note="The floating point environment of libc is a model after the glibc manual.")
prop(id="C29", title="Test programs parse their arguments exactly and report failures",
  statement="Test arguments are read as flags (-a, --b), values (-a x, -a=x) and lists (-a x,y or -a x y): every flag, parameter and list given is stored under its name with exactly the values given, in order, nothing else is stored, and malformed arguments are rejected. Option matching accepts exactly the short form, the long form and the dashed short form. The test main hands arguments before --args to the test framework and those after it to the session, runs the tests exactly once between session start and end with MPI available, and its exit status is zero exactly if no test failed, whatever the number of failures.",
  over=["inputs"], text="all command lines and all outcomes of the test run",
  why="All tests go through this code, so if it swallowed a failure count every test would still pass; argument combinations are sampled by one test.",
  files=["src/core/ekat_test_utils.cpp", "src/testing-support/ekat_catch_main.cpp"], mech=[("TestSession::parse_test_args, argv_matches", "src/core/ekat_test_utils.cpp"), ("main", "src/testing-support/ekat_catch_main.cpp")], obs=["flags, params, vec_params, exit status"],
  note="Catch2 is a recording stub.")
prop(id="C30", title="Loggers write a message where levels and policies say, and nowhere else",
  statement="A message reaches the console if and only if its level is at least the logger's level and the console's level, and the file likewise with the file's level; the three levels are independent of each other. A rank its policy excludes writes nothing and creates no file; the others write the file whose name is the log's name, then size and rank if all ranks log, then the suffix. The file policy decides between none, one fresh file and rotating files of the fixed size and number. A logger sharing another's sinks writes to the same places under its own name and level and leaves the other unchanged. A format is applied to both outputs..",
  over=["inputs", "configurations"], text="all levels, message levels, file and rank policies, rank counts and log names within the bounds",
  why="Tests run a few combinations and inspect nothing of what was written; silent ranks and shared sinks show only on several ranks.",
  files=["src/logging/ekat_logger.hpp", "src/logging/ekat_log_file_policy.hpp", "src/logging/ekat_log_mpi_policy.hpp"], mech=[("Logger", "src/logging/ekat_logger.hpp"), ("file policies", "src/logging/ekat_log_file_policy.hpp"), ("rank policies", "src/logging/ekat_log_mpi_policy.hpp")], obs=["messages received by the sinks, levels, file names"],
  note="spdlog is a stand-in that records what each sink receives.")
prop(id="C31", title="Kokkos sessions start and stop exactly once and honour the user's arguments",
  statement="Initialising a session initialises Kokkos exactly if it is not initialised already, whoever did that; finalising finalises it exactly if it is initialised; any sequence of calls is valid. Command line arguments are handed to Kokkos, unchanged, exactly if one of them contains the Kokkos prefix; otherwise devices are assigned by rank and warnings are off.",
  over=["inputs", "histories"], text="all argument lists, argument texts and sequences of calls within the bounds",
  why="A process initialises Kokkos once, so a test binary sees a single history with one argument list.",
  files=["src/kokkos/ekat_kokkos_session.cpp"], mech=[("initialize_kokkos_session, finalize_kokkos_session", "src/kokkos/ekat_kokkos_session.cpp")], obs=["calls that reach Kokkos and their arguments"],
  note="Kokkos' entry points are stand-ins that record their arguments.")
prop(id="C32", title="Scalar helpers on device and host agree with the standard functions",
  statement="Minimum, maximum and position of the maximum pick the entry the standard functions pick (the first of equal ones), on devices as on the host; the number classification is right for every bit pattern; the invalid value is not-a-number for reals and the largest value for integers. Device string length, copy and comparison do what the C functions do and write nothing else. A masked scalar is updated exactly if its mask is on and by exactly the requested operation, and contributes to other scalars exactly if its mask is on. The relative difference of two numbers is their distance relative to the magnitude of the first, never negative.",
  over=["inputs"], text="all values (not-a-number, infinities and signed zeros included), masks, operations and short texts",
  why="The device replacements are not compiled in the host build that runs the tests; ties, signed zeros and characters above 127 are not sampled.",
  files=["src/kokkos/ekat_math_utils.hpp", "src/kokkos/ekat_kokkos_str_utils.hpp", "src/kokkos/ekat_where.hpp", "src/core/ekat_scalar_traits.hpp"], mech=[("min, max, max_element, is_nan, isfinite, set_min_max", "src/kokkos/ekat_math_utils.hpp"), ("strlen, strcpy, strcmp", "src/kokkos/ekat_kokkos_str_utils.hpp"), ("scalar where", "src/kokkos/ekat_where.hpp"), ("invalid", "src/core/ekat_scalar_traits.hpp")], obs=["returned values, memory"],
  note="The device variants are encoded as host code.")
prop(id="C33", title="Container and type-list helpers behave like their plain definitions",
  statement="Counting, finding, containment and erasing in a container give the number of equal elements, the first match or the end, and remove exactly the first match. Zipping containers visits the tuples of k-th elements by reference, each once and in order, and containers of different sizes are rejected. Iterating over the keys of a map gives its keys, each once and in order, in both directions. A type map returns for each type the value stored for it; type lists report position, uniqueness and membership truthfully, and loops over them visit the types in order until asked to stop. Sets of weak pointers identify pointers by owner. Printing a vector puts single blanks between its entries.",
  over=["inputs"], text="all container contents, sizes and sought values",
  why="These helpers carry other components; empty, unequal, duplicate and proxy cases are not covered by the few tests.",
  files=["src/core/ekat_std_utils.hpp", "src/core/ekat_zip.hpp", "src/core/ekat_std_map_key_iterator.hpp", "src/core/ekat_meta_utils.hpp"], mech=[("find/count/contains/erase, WeakPtrSet, printing", "src/core/ekat_std_utils.hpp"), ("zip", "src/core/ekat_zip.hpp"), ("map_key_iterator", "src/core/ekat_std_map_key_iterator.hpp"), ("TypeMap, TypeListFor", "src/core/ekat_meta_utils.hpp")], obs=["return values, references"],
  note="Containers of up to 4 elements with unrestricted values.")
prop(id="C34", title="Requirement and assertion macros fail exactly when their condition does",
  statement="A requirement throws exactly if its condition is false, evaluates the condition once, throws the requested exception type, and its message starts with the given text and shows the condition; assertions do the same in debug builds and nothing (not even evaluating the condition) in release builds. In device code the program aborts exactly if the condition is false. While another exception is in flight no second one is thrown, so the first one arrives, and the message passed over is reported on the error output; afterwards failures throw again. Every macro is usable as a single statement.",
  over=["inputs"], text="all conditions, messages, exception types and states of unwinding",
  why="Every component's error detection rests on these macros; tests exercise a failing and a passing case each, in one build type.",
  files=["src/core/ekat_assert.hpp", "src/kokkos/ekat_kernel_assert.hpp"], mech=[("EKAT_REQUIRE/ASSERT/ERROR", "src/core/ekat_assert.hpp"), ("EKAT_KERNEL_*", "src/kokkos/ekat_kernel_assert.hpp")], obs=["exceptions, messages, aborts"],
  note="Debug and release builds both.")
prop(id="C24", title="Lazy expressions evaluate to the plain computation entry by entry",
  statement="Evaluating an expression over views stores in every entry of the result exactly the value of the plain computation on the operands' entries at the same indices: for every arithmetic operator, negation, comparison, logical operator, conditional and math function, with expressions and scalars on either side, operands of different types combined in their common type, and any nesting. This holds for all supported ranks and layouts, nothing but the result view is written, and a result whose extents differ from the expression's is rejected unchanged. Of a conditional only the alternative taken is evaluated. An expression keeps all its parts (temporaries included), and each evaluation sees the current entries of its views.",
  over=["inputs"], text="all entries and scalars, operand kinds and types, extents, ranks and nestings",
  why="Each operator has separate code for expression and scalar operands; the one test of this component is not built here and compares with a wide tolerance on random data.",
  files=["src/expression/ekat_expression_binary_op.hpp", "src/expression/ekat_expression_binary_predicate.hpp", "src/expression/ekat_expression_conditional.hpp", "src/expression/ekat_expression_math.hpp", "src/expression/ekat_expression_view.hpp", "src/expression/ekat_expression_eval.hpp", "src/expression/ekat_expression_base.hpp", "src/expression/ekat_expression_traits.hpp"],
  mech=[("operators and functions", "src/expression/ekat_expression_binary_op.hpp"), ("evaluate", "src/expression/ekat_expression_eval.hpp")], obs=["entries of the result, exceptions"],
  note="Bit-identical; libm functions and (in trees) floating point arithmetic uninterpreted.")
prop(id="C23", title="Teams running at the same time get distinct workspace slots",
  statement="The number of slots is at least one, at most the number of teams, and no less than the number of teams that can run at the same time. The slot a team gets is within that number, is the same for all its threads and differs from the slot of every other team running at the same time, for any pool, team and league size, single or double precision; on devices, where teams may outnumber slots, a slot stays with a team until released, whatever the interleaving. The default team policies keep the requested league size and give the documented team sizes. Use before initialisation is detected in debug builds.",
  over=["inputs", "schedules"], text="all pool, team and league sizes, all pairs of threads, all interleavings of lock operations",
  why="Team sizes that do not divide the pool leave idle threads and uneven alignments; tests run on the few sizes of the test machine, and the device code is not compiled at all.",
  files=["src/kokkos/ekat_team_policy_utils.hpp"], mech=[("TeamUtils", "src/kokkos/ekat_team_policy_utils.hpp"), ("TeamPolicyFactory", "src/kokkos/ekat_team_policy_utils.hpp")], obs=["slot indices, counts, team sizes"],
  note="Kokkos' assignment of threads to teams is a model; device code is encoded as host code with sequentially consistent atomics.")
