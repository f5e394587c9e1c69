NA = {}
prop("V01", "Vector behaves as a growable sequence with correct element lifetimes",
  "After any sequence of vector operations (construct, copy, assign, assign a range, push, pop, erase, resize, clear, swap, element writes) size, contents, order and reported positions equal those of an ideal sequence, capacity never drops below size, and elements stay in place while it suffices. Every element is constructed and destroyed exactly once, and no operation reads or writes outside the live elements, including when an argument refers to an element of the same vector.",
  ["histories", "inputs"], "all operation sequences up to the depth over up to three vectors, all small shapes for multi-element operations, movable and copy-only element types",
  "The unit tests run a handful of short fixed sequences on plain integers; element lifetime, self-reference, reallocation points and returned positions are never observed.",
  ["include/nanovector.h", "include/nanoallocator.h"],
  [("growth by reallocation keeps old elements until the new ones exist", "nanovector.h: reserve/push_back"), ("shift on erase/insert", "nanovector.h: erase, insert"), ("placement construction / explicit destruction", "nanovector.h")],
  [("elements, size, capacity", "the owned buffer", "nanovector.h: class vector")], ["public vector interface", "element constructor/destructor/assignment calls", "allocation balance"],
  technique=LOCK, note="Complete to the stated depth; memory safety as seen by AddressSanitizer on every executed path.")
prop("V02", "Valarray behaves as a growable sequence with correct element lifetimes",
  "After any sequence of valarray operations size, contents, order and reported positions equal those of an ideal sequence; every element is constructed and destroyed exactly once and nothing outside the live elements is touched. Elementwise functions return a new array of the same length holding the function of each element.",
  ["histories", "inputs"], "all operation sequences up to the depth, all small shapes for multi-element operations",
  "The tests cover construction, one loop and one elementwise call.",
  ["include/nanovalarray.h"], [("same storage management as vector, separately written", "nanovalarray.h")],
  [("elements, size, capacity", "the owned buffer", "nanovalarray.h: class valarray")], ["public valarray interface", "element lifetime events"],
  technique=LOCK, note="Complete to the stated depth.")
prop("S01", "String content operations compose as on an ideal character sequence",
  "After any sequence of construction (default, copy, C text, range, count), assignment, append, concatenation, single-character erase, character write and clear operations, a string's length and characters equal those of the ideal character sequence, and its C text is that sequence followed by exactly one terminator. Operands other than the target are unchanged, a string may be combined with itself, and no operation reads or writes outside its storage.",
  ["histories", "inputs"], "all operation sequences up to the depth over two strings and a small alphabet with NUL; all lengths around every reallocation",
  "Tests check single calls on short literals; growth, self-append and the terminator after each mutation are not observed.",
  ["include/nanostring.h"], [("terminator kept in the underlying character vector", "nanostring.h: basic_string"), ("append by resize and copy", "nanostring.h: append/operator+=")],
  [("character vector including terminator", "content", "nanostring.h")], ["c_str(), size(), data(), iteration"],
  technique=LOCK, note="Complete to the stated depth and lengths.")
prop("S02", "String comparison is lexicographic and a consistent total order",
  "For all strings, equality and ordering comparisons (string with string and string with C text) agree with lexicographic order of the characters, so exactly one of less, equal, greater holds, the order is transitive, and a prefix is smaller than its extension. The result does not depend on how either string was built.",
  ["inputs", "histories"], "all pairs (and triples) of strings up to a length over an alphabet with bytes above 127, long common prefixes, every construction route",
  "The tests compare a few literals; map keyed by strings silently depends on the order for all keys.",
  ["include/nanostring.h"], [("compare by memory compare then length", "nanostring.h: compare / operator<")], [], ["comparison operators, compare(), use as map key"],
  technique=EXH, note="Complete over all pairs up to the length bound; strings contain no NUL.")
prop("S03", "A string stream returns exactly what was written, in order",
  "After any sequence of insertions into a string stream, its text is the concatenation, in order, of every inserted text; clearing empties it, moving hands the text over and leaves the source empty, and reading the text changes nothing.",
  ["histories", "inputs"], "all operation sequences up to the depth over two streams: insertion of texts, text replacement, clear, move assignment",
  "One test writes a single stream once.",
  ["include/nanosstream.h", "include/nanostring.h"], [("append of the text form", "nanosstream.h: operator<<")], [("accumulated text", "stream content", "nanosstream.h")], ["str()"],
  technique=LOCK, note="Complete to the stated depth.")
prop("S04", "Output streams print everything inserted once and in order when flushed",
  "After any sequence of insertions of integers of every width, truth values, floats, doubles, C texts and strings into output streams, flushing a stream prints exactly the concatenation of the texts inserted into it since its last flush, each once and in order, whatever lengths and characters (other than NUL) they have. Flushing again prints nothing, streams do not affect each other, and every number appears in its usual text form.",
  ["histories", "inputs"], "all operation sequences up to the depth over one or two streams; boundary values of every number type; all pairs of text lengths around the buffer sizes",
  "No test prints through a stream.",
  ["include/nanoiostream.h", "include/nanosstream.h", "include/nanostring.h"], [("append of the text form to the stream's buffer", "nanoiostream.h: operator<<"), ("printing and clearing the buffer", "nanoiostream.h: flush")], [("pending text of a stream", "text not yet printed", "nanoiostream.h")], ["bytes written to standard output"],
  technique=LOCK, note="Complete to the stated depth.")
prop("M01", "Map is a correct dictionary under every operation sequence",
  "After any sequence of insertions, subscripts, lookups, value writes, copies and assignments, a map holds exactly the keys and values an ideal dictionary would: insert keeps the existing value and says so, subscript creates a default value once, and lookups find exactly the present keys. Copies are independent, and all of this holds whatever internal balancing decisions are made and whatever allocations the map owns.",
  ["histories", "inputs", "configurations"], "all operation sequences up to the depth over a small key set, combined with every choice of internal balancing priorities, including ties",
  "Tests insert a few integer keys in one order with one fixed random sequence, so few tree shapes and rotations are reached.",
  ["include/nanomap.h"], [("treap insertion by rotation", "nanomap.h: __insert, __rotate"), ("balancing priorities from a generator", "nanomap.h: priority_rand")],
  [("tree of key/value nodes with priorities", "content and shape", "nanomap.h")], ["public map interface; allocation balance"], "NANOSTL_VERIF_HOOKS lets the harness choose each node's priority",
  technique=LOCK, note="Every priority order (treap shape) of every explored history up to the bound.")
prop("M02", "Map iteration visits every key once in ascending order",
  "For every reachable map, iterating from begin to end visits each present key exactly once in strictly ascending order with its current value, the upper bound designates the first key greater than the argument, and a position found by lookup continues the same order. Insertions of other elements never invalidate a held position.",
  ["histories", "configurations"], "all maps reachable by operation sequences up to the depth, with every balancing choice; large maps walked completely",
  "The test iterates no map at all beyond finding an element.",
  ["include/nanomap.h"], [("in-order successor/predecessor", "nanomap.h: iterator increment"), ("bound search", "nanomap.h: __upper_bound")],
  [("tree links", "the order of nodes", "nanomap.h")], ["iterators of map"], "NANOSTL_VERIF_HOOKS",
  technique=LOCK, note="Every treap shape up to the bound.")
prop("M03", "Map operations take logarithmically many comparisons for any insertion order",
  "Whatever the order in which keys arrive (sorted, reversed, interleaved or periodic), looking up or inserting a key in a map of n elements costs a number of key comparisons proportional to the logarithm of n, not to n.",
  ["inputs", "histories"], "every size up to a bound for every arrival pattern of a family, and every operation of each run",
  "No test measures cost; a degenerate tree passes every functional test.",
  ["include/nanomap.h"], [("random priorities keep the treap balanced", "nanomap.h: priority_rand")], [("generator state", "source of priorities", "nanomap.h")], ["calls of the key comparison"],
  technique=EXH, note="The limit is 8*log2(n+1)+12 comparisons per operation path; measured on the real generator, which is deterministic.")
prop("N01", "Integer to text conversion is exact for every value",
  "Converting any signed or unsigned 32- or 64-bit integer to text gives its shortest decimal representation, with a minus sign exactly for negative values, without leading zeros and without touching memory outside the result.",
  ["inputs"], "every 32-bit signed and unsigned value (thorough) and a structured 64-bit set around every power of two and ten",
  "The tests convert a couple of values; digit-count boundaries and extreme values are not reached.",
  ["src/nanostring.cc", "include/nanostring.h"], [("digit extraction into a local buffer", "nanostring.cc: to_string")], [], ["text returned by to_string"],
  technique=EXH, note="Complete for 32 bits in the thorough tier; structured for 64 bits.")
prop("N02", "Single precision to text conversion is shortest and reads back exactly",
  "The text of any finite float is the shortest decimal that reads back to the same value (and the closest such), in scientific form; zero, signed zero, infinities and NaN have their documented texts.",
  ["inputs"], "every one of the 2^32 float bit patterns (thorough); structured mantissas for every exponent plus a stride (quick)",
  "Tests print one or two constants.",
  ["src/nanostring.cc", "include/ryu/f2s.c"], [("shortest digit generation", "ryu/f2s.c"), ("table multiplication", "ryu/f2s_intrinsics.h")], [], ["text returned by to_string(float)"],
  technique=EXH, note="Complete over all 2^32 values in the thorough tier.")
prop("N03", "Double precision to text conversion is shortest and reads back exactly",
  "The text of any finite double is the shortest decimal that reads back to the same value (and the closest such), in scientific form; zero, signed zero, infinities and NaN have their documented texts.",
  ["inputs"], "every sign and exponent combined with a structured mantissa set, and the neighbourhoods of short decimals at every scale",
  "Tests print one or two constants.",
  ["src/nanostring.cc", "include/ryu/d2s.c"], [("shortest digit generation", "ryu/d2s.c"), ("128-bit table multiplication", "ryu/d2s_intrinsics.h")], [], ["text returned by to_string(double)"],
  technique=EXH, note="Every exponent (every table row); mantissas are a structured subset of 2^52.")
prop("N04", "Text to float and double conversion gives the nearest value",
  "Reading a decimal literal with at most 9 (float) or 17 (double) significant digits gives the representable value nearest to it, overflowing to infinity and underflowing to zero; longer literals give the nearest value or NaN, malformed text gives NaN. Reading back the text form of any value gives that value.",
  ["inputs"], "every short text over the literal alphabet, digits times every exponent in all spellings, neighbourhoods of binary values and midpoints; all finite positive floats at nine digits (thorough)",
  "Tests parse at most a couple of literals; rounding ties, subnormals and overflow are not reached.",
  ["src/nanostring.cc", "include/ryu/s2f.c", "include/ryu/s2d.c"], [("decimal scanner", "ryu/s2d.c, s2f.c"), ("scaled multiplication and round-to-even", "ryu/s2d.c, s2f.c")], [], ["values returned by stof and stod"],
  technique=EXH, note="Complete for texts up to the length bound; structured beyond.")

prop("U01", "Unique pointers delete what they own exactly once, at the right moment",
  "An object handed to a unique pointer is deleted exactly once, with the deleter it was given, when the pointer is destroyed, reset or assigned over, and never while another pointer owns it; release, move and swap transfer ownership without deleting. The pointed-to value, the deleter and null-ness always match an ideal model, including for arrays, deleters that refer back to the pointer, and pointers to derived objects.",
  ["histories", "inputs"], "all operation sequences up to the depth over two or three pointers, for default, stateful, function, reference and array deleters",
  "The single test constructs one pointer and reads it; no deletion is observed at all.",
  ["include/nanomemory.h", "include/nanotype_traits.h"], [("pointer and deleter held as a compressed pair", "nanomemory.h: __compressed_pair"), ("reset replaces, then deletes the old object", "nanomemory.h: unique_ptr::reset"), ("swap of pointers and deleters", "nanotype_traits.h: swap")],
  [("owned pointer and deleter", "ownership", "nanomemory.h: unique_ptr")], ["unique_ptr interface", "deleter calls, element destructor calls"],
  technique=LOCK, note="Complete to the stated depth.")
prop("X01", "Optional holds at most one value and manages its lifetime correctly",
  "After any sequence of construction, assignment, emplacement, reset, swap, copy and move, an optional is engaged exactly when an ideal one is and holds the same value; the value is constructed and destroyed exactly once and never touched while disengaged. Comparisons, the fallback value and access agree with the ideal, and a constructor that throws leaves no half-made value behind.",
  ["histories", "inputs", "faults"], "all operation sequences up to the depth over two optionals, with a throwing copy at every possible place; all state pairs for comparisons",
  "The test default-constructs, assigns once and compares; lifetimes, state pairs and failures are not observed.",
  ["include/nonstd/optional.hpp"], [("value in aligned raw storage, engaged flag", "nonstd/optional.hpp: detail::storage_t, optional"), ("assignment by state pair", "nonstd/optional.hpp: operator=, swap")],
  [("engaged flag and storage", "content", "nonstd/optional.hpp")], ["optional interface", "value lifetime events"],
  technique=LOCK, note="Complete to the stated depth.")
prop("X02", "Variant holds exactly one alternative and manages its lifetime correctly",
  "After any sequence of construction, assignment, emplacement, copy, move and swap, a variant holds the same alternative and value as an ideal one; every alternative is constructed and destroyed exactly once as itself, also when an operation of an alternative throws, which leaves the variant as it was, assigned, or without value. Index, alternative tests, typed access, visitation and all comparisons agree with the ideal for every pair of held alternatives.",
  ["histories", "inputs"], "all operation sequences up to the depth over two variants; all pairs of states for comparison, swap and assignment; every alternative of the widest variant; an exception at every element operation of short histories",
  "The test builds one variant and reads it; switching alternatives, visitation of every index and lifetimes are not observed.",
  ["include/nonstd/variant.hpp"], [("discriminated raw storage with a table of helpers", "nonstd/variant.hpp: detail::helper"), ("assignment by whether the alternatives match", "nonstd/variant.hpp: copy_assign, move_assign"), ("visitation by index", "nonstd/variant.hpp: detail::VisitorApplicator")],
  [("type index and storage", "content", "nonstd/variant.hpp")], ["variant interface", "value lifetime events"],
  technique=LOCK, note="Complete to the stated depth; alternatives are distinct types (access by index requires it).")

prop("F01", "Floating-point classification, sign and rounding functions are exact",
  "For every float and double, including zeros of both signs, subnormals, infinities and NaNs, classification answers, absolute value, sign transfer and rounding down or up to an integer are exactly those of IEEE arithmetic. Reinterpreting a float as an integer and back preserves every bit.",
  ["inputs"], "every one of the 2^32 floats; every sign and exponent of double with structured mantissas; every half integer and its neighbours",
  "The tests check fabs, isnan and isinf on a few values; thresholds, signed zero and subnormals are not reached.",
  ["include/nanomath.h"], [("classification and sign by bit patterns", "nanomath.h: isnan, isinf, isfinite, fabs, copysign"), ("rounding through integer conversion", "nanomath.h: floor, ceil")], [], ["results of the functions"],
  technique=EXH, note="Complete for float; structured for double.")
prop("F02", "Minimum, maximum and clamp select the right argument for all values",
  "For every pair of numbers minimum and maximum return the smaller and larger argument (the first of equal ones), the floating-point variants ignore a single NaN, and clamping returns the value itself inside the limits and otherwise the nearer limit, for all numeric types including extreme values.",
  ["inputs"], "every pair and triple of structured floats and doubles (all exponents, NaNs, infinities) and of boundary integers",
  "Tests use a couple of ordinary pairs.",
  ["include/nanomath.h", "include/nanoalgorithm.h"], [("selection by comparison", "nanoalgorithm.h: min, max, clamp; nanomath.h: fmin, fmax")], [], ["results and returned references"],
  technique=EXH, note="Complete over the structured sets.")
prop("F03", "Approximate math functions stay within their documented error everywhere",
  "On the whole documented domain the exponential, logarithm, trigonometric, hyperbolic, error, root and power functions differ from the true value by no more than the documented limit, and anywhere else the result stays in the range of the function. Special arguments (zero, one, infinity, negative logarithm and root) give the exact mathematical result.",
  ["inputs"], "every float of each domain (thorough; every sixteenth in the quick tier); structured base and exponent pairs for powers",
  "Tests compare a few values with a loose tolerance; range-reduction boundaries and exponent edges are not reached.",
  ["include/nanomath.h"], [("polynomial after range reduction", "nanomath.h: sin, cos, fast_exp2, fast_log2"), ("rational and table constants", "nanomath.h: erf, tanh, cbrt, ierf")], [], ["results of the functions"],
  technique=EXH, note="Where the source documents no limit (tan, sqrt, wide arguments) the limit is this project's own, derived from the method.")
prop("T01", "Type traits answer as the language does for every kind of type",
  "For every kind of type (arithmetic, pointer, reference, array, function, member pointer, enumeration, union, class with any combination of special members, each with const and volatile) every trait and type transformation gives the answer the language defines, and every query compiles. Conservative answers are permitted only for non-throwing queries, never a wrong yes.",
  ["inputs", "configurations"], "every unary trait on each of 73 types, every binary trait on every ordered pair of them, aligned storage for every size and alignment up to a bound",
  "The test program checks about a dozen positive cases on simple types; containers select code paths by these answers.",
  ["include/nanotype_traits.h"], [("overload-resolution tests", "nanotype_traits.h: is_convertible, is_constructible, is_assignable"), ("partial specialisations per type form", "nanotype_traits.h")], [], ["compile-time trait values"],
  technique=EXH, note="Complete over the type universe; answers compared with the compiler's own traits.")

prop("H01", "Equal values hash equally and different scalars do not collide",
  "The hash of a value depends on the value alone: it is the same on every call, and values that compare equal, including the two floating-point zeros, hash equally. Different integers of one type, and different finite floats or doubles, never share a hash.",
  ["inputs"], "every 8- and 16-bit value, structured 32- and 64-bit sets compared pairwise, all floats in blocks (thorough), both zeros; all pairs of 14 kinds of alternative x 9 values of a variant, each with every earlier content",
  "No test hashes anything; a sample cannot show absence of collisions or dependence on unset bytes.",
  ["include/nanofunctional.h", "include/nonstd/variant.hpp"], [("value placed in a zeroed word", "nanofunctional.h: __scalar_hash"), ("zero special case", "nanofunctional.h: hash<float>, hash<double>"), ("hash of the held alternative combined with its index", "nonstd/variant.hpp: hash<variant>")], [], ["results of hash function objects"],
  technique=EXH, note="Pairwise distinctness within each enumerated set.")
prop("H02", "Keyed hashing is SipHash-2-4 for every message length, key and digest size",
  "For every message, 16-byte key and digest size of 8 or 16 bytes the keyed hash returns exactly the SipHash-2-4 digest, reads only the message and the key, and writes only the digest.",
  ["inputs"], "every message length up to a bound with structured contents and keys, and every single message and key bit",
  "The function has no test at all; tail handling differs for each length modulo eight.",
  ["src/hash.cc", "include/__hashfunc.h"], [("block loop and tail switch", "hash.cc: siphash")], [("four state words", "mixing state", "hash.cc: siphash")], ["digest bytes", "memory accesses outside the buffers"],
  technique=EXH, note="Compared with an independent implementation that is itself checked against the published vectors.")
prop("A01", "Basic algorithms, pairs and memory copy do exactly what they say",
  "For every range, the maximum search returns the first largest element, filling sets exactly the elements of the range, the distance is the number of steps, and copying memory copies exactly the given bytes and nothing else. Pairs compare lexicographically using only the comparisons of their members, and selection of the smaller or larger of two returns the first of equal ones.",
  ["inputs"], "every sequence and subrange up to a bound, every size and misalignment up to a bound, every pair of pairs over a small set",
  "Tests cover one or two calls of min and max.",
  ["include/nanoalgorithm.h", "include/nanoiterator.h", "include/nanoutility.h", "include/nanocstring.h"], [("linear scans", "nanoalgorithm.h: max_element, fill"), ("byte loop", "nanocstring.h: memcpy"), ("lexicographic comparison", "nanoutility.h: operator<")], [], ["results and memory contents"],
  technique=EXH, note="Complete up to the stated bounds.")
prop("L01", "Numeric limits are those of the type",
  "For every supported arithmetic type the reported minimum, maximum, precision, smallest subnormal, infinity and not-a-number values are bit-for-bit those of the type and have their defining properties.",
  ["inputs", "configurations"], "every member of every specialisation",
  "The tests read a few members of float and int.",
  ["include/nanolimits.h"], [("constants and bit-field assembly", "nanolimits.h")], [], ["member values"],
  technique=EXH, note="Complete: the members are finitely many.")
prop("R01", "Ratios are always in lowest terms with the sign in the numerator",
  "For every numerator and non-zero denominator the ratio's terms are coprime, the denominator is positive, the value is unchanged, and equal ratios have the same reduced type. The named prefixes have their decimal values.",
  ["inputs", "configurations"], "a grid of small positive, negative and zero numerators and denominators, extreme and Fibonacci-sized terms, every prefix",
  "The single test checks one ratio.",
  ["include/nanoratio.h"], [("compile-time greatest common divisor", "nanoratio.h: nanogcd"), ("sign handling", "nanoratio.h: ratio")], [], ["reduced terms and type"],
  technique=EXH, note="Complete over the enumerated set.")
prop("X03", "Expected holds either a value or an error and manages both lifetimes correctly",
  "After any sequence of construction, assignment, emplacement, conversion, copy, move and swap, an expected object holds a value exactly when an ideal one does, with the same value or the same error; each is constructed and destroyed exactly once as itself, also when the value type is void. Reading the value of a failed one reports the error it holds, the fallback and comparisons agree with the ideal, and a copy that throws changes nothing.",
  ["histories", "inputs", "faults"], "all operation sequences up to the depth over two objects, for movable, copy-only, plain and void value types, with a throwing copy at every possible place; all state pairs for comparisons",
  "The upstream test is commented out; nothing exercises it.",
  ["include/nonstd/expected.hpp", "include/nanoexpected.h"], [("value or error in a union with a flag", "nonstd/expected.hpp: detail::storage_t_impl"), ("assignment by copy and swap", "nonstd/expected.hpp: operator=, swap"), ("specialisation without a value", "nonstd/expected.hpp: expected<void, E>")],
  [("flag and union", "content", "nonstd/expected.hpp")], ["expected interface", "value and error lifetime events"],
  technique=LOCK, note="Complete to the stated depth; the harness supplies the names the header borrows without defining them (error_code, exception_ptr, is_base_of, ...).")
prop("X04", "Type-erased holders keep exactly the stored value and reveal it only as its type",
  "After any sequence of construction, assignment, emplacement, reset, copy, move and swap, a type-erased holder is empty exactly when an ideal one is, reports the type of what it holds, and a cast yields the stored value for exactly that type and nothing for any other. Copies are independent, a moved-from holder is empty, and every stored value is constructed and destroyed exactly once.",
  ["histories", "inputs"], "all operation sequences up to the depth over two holders; all pairs of held and requested type; every form of storing",
  "The upstream test is commented out; nothing exercises it.",
  ["include/nonstd/any.hpp", "include/nanoany.h"], [("heap-allocated holder with virtual clone", "nonstd/any.hpp: holder"), ("cast guarded by type identity", "nonstd/any.hpp: any_cast"), ("assignment by construct and swap", "nonstd/any.hpp: operator=, emplace")],
  [("owned holder pointer", "content", "nonstd/any.hpp: content")], ["holder interface", "value lifetime events"],
  technique=LOCK, note="Complete to the stated depth; the harness supplies nanostl::type_info, which the header uses without defining; casting to a reference type does not compile upstream and a mismatching cast by value is undefined without exceptions; built with exceptions, each one must throw.")
prop("X05", "Tuples keep every element separately and compare lexicographically",
  "After any sequence of construction, copy, move, element writes, assignment through bound references, concatenation and swap, each element of a tuple equals that of an ideal tuple, and every element is constructed and destroyed exactly once, including for empty and move-only element types. Comparisons are lexicographic for all pairs, and concatenation yields all elements of all arguments in order.",
  ["histories", "inputs"], "all operation sequences up to the depth over two tuples, all pairs of small tuples, concatenation of every combination of four tuples of up to three elements",
  "There is no tuple test.",
  ["include/tao/tuple/tuple.hpp", "include/nanotuple.h", "include/tao/seq"], [("one base class per indexed element", "tuple.hpp: tuple_value, tuple_base"), ("index arithmetic for concatenation", "tuple.hpp: tuple_cat_helper; tao/seq")],
  [("elements", "content", "tuple.hpp")], ["element access, comparison and concatenation results", "element lifetime events"],
  technique=LOCK, note="Converting construction from a tuple of other types and construction with an allocator do not compile in this version and are not covered.")
prop("X06", "Compile-time integer sequences have exactly the defined elements",
  "Generated sequences count from zero to one below the requested length; element selection, mapping, element-wise sums and differences, totals, partial sums, running totals (exclusive and inclusive), all-true tests and type selection by position give exactly the values and element types of their definitions, for every sequence.",
  ["inputs"], "every sequence length to 300 and around powers of two; every sequence of up to four elements over five values; every index sequence, truth assignment and type list of bounded length",
  "The tests use them only indirectly through two small tuples.",
  ["include/tao/seq"], [("doubling generator of sequences", "tao/seq/make_integer_sequence.hpp"), ("sums by object size", "tao/seq/sum.hpp"), ("scans by partial sums", "tao/seq/exclusive_scan.hpp, inclusive_scan.hpp")],
  [], ["elements, element type and length of the resulting sequence"],
  technique=EXH, note="The compiler evaluates each sequence of the family; every result is compared with plain arithmetic.")
prop("X07", "Runtime type descriptors identify, order and hash types consistently",
  "Two descriptors compare equal exactly when they denote the same type under the selected uniqueness assumption (same name object, same name text, or whichever a descriptor's own mark says), the before-relation is a strict total order agreeing with that equality, equal descriptors have equal hash codes, and the name is returned unchanged. This holds for every pair and triple of names, also when several copies of a descriptor exist.",
  ["inputs"], "every pair and a spread of triples of descriptors with names up to a length over six characters, in several copies; long names with a common prefix; each of the three comparison implementations",
  "No test looks at type descriptors; duplicates of a descriptor arise only across shared libraries and marked ones only on one platform.",
  ["include/nanotypeinfo.h"], [("three comparison implementations", "nanotypeinfo.h: __type_info_implementations")],
  [], ["results of ==, !=, before, hash_code, name"],
  technique=EXH, note="Descriptors are built on names in memory the harness lays out, so that both address orders and all marks occur.")
prop("C01", "Atomic variables are linearizable under every interleaving",
  "For every program of concurrent loads, stores, increments, decrements, additions, subtractions, swaps and compare-and-swaps on one atomic integer or pointer, the returned values and the final value are those of some sequential order of the operations that respects real time; arithmetic wraps at the ends of the integer range, and no operation blocks or touches neighbouring memory. A compare-and-swap given the value just loaded always replaces it. What a thread wrote before an operation is visible to a thread that observes its effect.",
  ["interleavings", "inputs"], "all interleavings of all programs of 2 threads x 2 operations and 3 threads x 1 operation (deeper when thorough), and every operation on all pairs of boundary values",
  "There is no test of the thread layer; atomicity is a statement about every interleaving.",
  ["src/libs_thread.h", "src/nanothread.cc"], [("compiler atomic builtins on one word", "libs_thread.h: thread_atomic_*")], [("the word", "current value", "libs_thread.h: thread_atomic_int_t, thread_atomic_ptr_t")], ["return values and final value of atomic operations", "data races on what is handed over"],
  technique=SCHEDT, note="Complete over the stated programs; sequentially consistent interleavings (weaker orders only through race detection).")
prop("C02", "Mutexes exclude, are independent and never deadlock ordered users",
  "Under every interleaving at most one thread is between lock and unlock of the same mutex, everything done inside one critical section is visible in the next, and threads that take several mutexes in one order always finish. A held mutex blocks only users of that same mutex, and its storage can be reused after termination.",
  ["interleavings", "histories"], "all interleavings (one per equivalence class) of all programs of 2-4 threads with critical sections on two mutexes, plain or nested",
  "No test uses a mutex; exclusion must hold for every schedule.",
  ["src/libs_thread.h", "src/nanothread.cc"], [("one native mutex inside opaque storage", "libs_thread.h: thread_mutex_*")], [("owner", "who holds the mutex", "libs_thread.h: thread_mutex_t")], ["order of events inside and outside critical sections", "data races on protected data"],
  technique=SCHEDT, note="Complete over the stated programs.")
prop("C03", "A signal is a flag whose waits neither miss a raise nor invent one",
  "Under every interleaving of any raises with the waits of one thread, the results are those of a binary flag: a wait succeeds only if the flag was raised since the last successful wait, and then clears it; a wait whose flag is raised never stays blocked, even with spurious wakeups. A wait gives up only when it has a timeout, the timeout has fully elapsed by the clock and the flag was not raised, and it gives up promptly then; what was written before a raise is visible after the wait it releases.",
  ["interleavings", "histories", "clock behaviours"], "all interleavings of up to 2 raising threads and 2 waits (infinite, zero, finite), every spurious wakeup position; all timeouts of a list at every listed position of the clock within its second",
  "No test uses signals; lost wakeups and clock effects need particular schedules.",
  ["src/libs_thread.h", "src/nanothread.cc"], [("flag protected by a mutex with a condition variable", "libs_thread.h: thread_signal_raise, thread_signal_wait"), ("absolute deadline from the wall clock", "libs_thread.h: thread_signal_wait")],
  [("value, waiting thread", "flag and queue", "libs_thread.h: thread_internal_signal_t")], ["results and durations of waits", "data races"],
  technique=SCHEDT, note="Complete over the stated programs; one waiting thread, as documented.")
prop("C04", "The producer/consumer queue is a bounded FIFO under every interleaving",
  "For one producing and one consuming thread, every interleaving gives results explainable by an ideal queue of the given size: elements come out once, in order, completely written, and never from outside its slots; count is the number of elements. Producing succeeds (nonzero) unless the queue stays full until the timeout, consuming gives an element unless it stays empty until the timeout, an untimed operation blocks only while the queue is full or empty, and all of this continues to hold however many operations have been made.",
  ["interleavings", "histories"], "all interleavings (one per equivalence class) of up to 3 produces with 3 consumes, sizes 1-2 (thorough 3-4), every initial fill, timeouts infinite, zero and finite; all single-thread sequences up to a depth; one history beyond 2^31 operations (thorough)",
  "No test uses the queue; its errors need a full or empty queue at a particular moment.",
  ["src/libs_thread.h", "src/nanothread.cc"], [("slots between head and tail, element count, two signals", "libs_thread.h: thread_queue_produce, thread_queue_consume")],
  [("head, tail, count, slots", "the content", "libs_thread.h: thread_queue_t")], ["results and durations of produce, consume and count", "data races on element data"],
  technique=SCHEDT, note="Complete over the stated programs; at most one producer and one consumer, as documented.")
prop("C05", "Created threads run once with their argument and join returns their code",
  "Every successfully created thread runs its procedure exactly once with the given argument, sees everything written before its creation, and carries the given name when the platform can hold it. Join and destroy return only after it has ended, make its writes visible and release it; join returns the code returned or passed to exit; a failed creation is reported and runs nothing; identifiers of live threads differ and stay the same.",
  ["interleavings", "inputs", "faults"], "all interleavings of one creator with 1-2 threads (thorough 3) x return codes x ways to end x names x join order x join or destroy x failing creation",
  "No test starts a thread.",
  ["src/libs_thread.h", "src/nanothread.cc"], [("native thread per handle", "libs_thread.h: thread_create, thread_join, thread_destroy, thread_exit")], [("thread state", "running, ended, joined", "platform threads")], ["calls of the thread procedure, return codes, data races"],
  technique=SCHEDT, note="The documented sequence join then destroy joins twice; it is a known finding. The requested stack size is not part of the claim.")
prop("C06", "Thread-local values belong to one thread and one key",
  "Under every interleaving a thread reads from a thread-local key exactly the value it last stored there itself, or null if it stored none since the key was created; live keys are distinct, creation fails (null) only when no key is available, and a destroyed key never leaks its values into a later one.",
  ["interleavings", "histories", "faults"], "all interleavings of 2-3 threads x 2-3 operations on 1-2 keys; all single-thread sequences of create, destroy and set up to a depth, with failing creation",
  "No test uses thread-local storage.",
  ["src/libs_thread.h", "src/nanothread.cc"], [("native key carried in an opaque pointer", "libs_thread.h: thread_tls_*")], [("key table, per-thread values", "content", "platform")], ["results of thread-local reads and creations"],
  technique=SCHEDT, note="Complete over the stated programs.")
prop("C07", "A timer wait lasts at least as long as requested despite interruptions",
  "For every duration, including those beyond 32-bit seconds, and however often and wherever the sleep is interrupted, a timer wait returns only after the whole duration has passed, and does not add a noticeable delay.",
  ["inputs", "faults"], "all durations of a list and a grid up to 2^64-1 ns x all patterns of up to three interruptions; two concurrent sleepers",
  "No test uses the timer; interruptions cannot be provoked by a unit test.",
  ["src/libs_thread.h", "src/nanothread.cc"], [("sleep again with the remaining time", "libs_thread.h: thread_timer_wait")], [], ["elapsed time on a virtual clock"],
  technique=SCHEDT, note="Complete over the stated grid.")
prop("N05", "The decimal parser takes the longest number and rounds it correctly",
  "For every text, format and decimal point, parsing takes exactly the longest prefix that is a number in that format (or infinity or a NaN text), reads nothing outside the text, and otherwise reports an error and leaves the value and position alone. The value is the float or double nearest to the written decimal, ties to even, however many digits are written, with overflow to infinity and underflow to zero.",
  ["inputs"], "every text up to 7 (thorough 8) characters over the literal alphabet; exact midpoints between neighbouring values for every exponent with texts just above and below them up to 800 digits; every decimal exponent with every digit count up to 28; every digit count around the eight-digit steps",
  "The parser is compiled out of every test; its slow exact path is only reached by digits within 1e-19 of a midpoint.",
  ["include/fast_float"], [("scanner with eight-digit steps and a nineteen-digit limit", "fast_float/ascii_number.h"), ("128-bit product and round to even", "fast_float/decimal_to_binary.h, fast_table.h"), ("exact big-integer comparison", "fast_float/digit_comparison.h, bigint.h")], [], ["value, position and error code returned by from_chars"],
  technique=EXH, note="Complete for short texts; exact midpoints are computed, not sampled, for every exponent with structured mantissas.")
prop("O01", "Nested containers keep, copy and free everything they own",
  "Vectors, maps, optionals, variants, pairs and owning pointers holding strings or further containers behave, under every sequence of operations, like ideal values: each level equals what was stored, copies are deep and independent, and changing one never changes another. Everything owned is freed exactly once and nothing is used after it is freed.",
  ["histories", "inputs"], "all operation sequences up to the depth on two containers of each of twenty nested types",
  "No test nests containers other than a vector of small elements once; errors of copying and freeing show only in combinations.",
  ["include/nanovector.h", "include/nanomap.h", "include/nanostring.h", "include/nanomemory.h", "include/nonstd/optional.hpp", "include/nonstd/variant.hpp", "include/nanoutility.h"], [("element copy and assignment of each container", "nanovector.h, nanomap.h, nanostring.h"), ("storage of optional and variant alternatives", "nonstd/optional.hpp, nonstd/variant.hpp")],
  [("contents, capacities", "the nested value", "each container")], ["the complete contents, element lifetime events, allocation balance"],
  technique=LOCK, note="The same program runs on the toolchain's containers; complete to the stated depth.")
