TLA = "TLA+ specification checked with TLC, bound to the library by replay of TLC behaviours and TLC validation of recorded traces"

prop("C01", "Indexing and reshaping views select exactly the described elements",
     "Indexing an array with integers and ranges (negative indices, negative steps, omitted ends), taking fields, permuting, transposing, rotating, adding axes and reshaping yield a view whose shape, type and every element are exactly the ones the index expression describes in the source. Indices outside the dimension raise an error, and no view ever reaches memory outside the array it was taken from.",
     ["inputs", "histories"], "all arrays with fixed dimensions, tuples and structs (any strides, also negative or zero), all index lists, all compositions of view operations",
     "The tests index a handful of shapes; the arithmetic of start/step/size with clamping, negative steps and offsets through nested fields only fails for particular combinations.",
     ["include/dynd/irange.hpp", "include/dynd/array.hpp", "src/dynd/array.cpp", "src/dynd/types/base_type.cpp", "src/dynd/types/fixed_dim_type.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/types/struct_type.cpp"],
     [("array indexing", "src/dynd/array.cpp array::at_array"), ("single index resolution", "include/dynd/shape_tools.hpp apply_single_linear_index"),
      ("linear index of types", "apply_linear_index of fixed_dim_type, tuple_type, struct_type"), ("permute/rotate/transpose/new_axis/reshape", "src/dynd/array.cpp")],
     technique=TLA, note="Exhaustive in TLC for index arithmetic on dimensions of up to 4 elements (all replayed on the code) and for view/assign histories of up to 3 (4) calls; longer TLC behaviours and random histories with arrays of up to 60 scalars, 4 dimensions and nested fields are validated event by event.")

prop("C02", "Assignment changes exactly the destination elements",
     "Assigning to an array or view broadcasts the source over the destination and stores every value in the element it belongs to, visible through every other view of the same memory, while all other memory keeps its value. Copies (evaluated copies, host copies, concatenations) are independent of their source, and a source that does not broadcast to the destination is refused without any effect.",
     ["inputs", "histories"], "all histories of creating, viewing, copying and assigning arrays that do not overlap partially; all destination and source layouts",
     "Tests compare the assigned array only; aliasing views, neighbouring memory, unusual strides and size-one or missing source dimensions in nested positions are not looked at.",
     ["src/dynd/array.cpp", "include/dynd/assignment.hpp", "include/dynd/callables/elwise_callable.hpp", "include/dynd/callables/base_elwise_callable.hpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/kernels/tuple_assignment_kernels.hpp"],
     [("array assignment", "src/dynd/array.cpp array::assign, eval_copy, to_host, concatenate"), ("lifting over dimensions", "include/dynd/callables/elwise_callable.hpp"),
      ("indexed assignment", "include/dynd/array.hpp array_vals_at")],
     technique=TLA, note="After every store the values seen through all live handles, the raw cells of external memory and its guard bytes are compared with the model; same bounds as C01.")

prop("C03", "Memory lives exactly as long as some array refers to it",
     "The memory behind an array stays valid and unchanged while any array or view refers to it, in whatever order handles are created and dropped. When the last one goes the memory is released exactly once: the release callback of externally owned memory runs once at that moment, and nothing that was allocated remains.",
     ["histories"], "all histories of creating, viewing, copying and dropping arrays over owned and external memory",
     "A missing or extra reference only shows for particular drop orders, and tests neither count releases nor check that memory use returns to its starting point.",
     ["include/dynd/memblock/base_memory_block.hpp", "include/dynd/memblock/external_memory_block.hpp", "include/dynd/buffer.hpp", "src/dynd/array.cpp", "include/dynd/array.hpp"],
     [("reference counting", "include/dynd/memblock/base_memory_block.hpp intrusive_ptr_retain/release"), ("external memory", "include/dynd/memblock/external_memory_block.hpp"),
      ("view ownership", "make_array in src/dynd/array.cpp")],
     technique=TLA, note="Release callbacks are observed after every drop; every random session runs twice and the number of live allocations must return to its value.")

prop("C04", "Access permissions are enforced and never gained through views",
     "An array without write permission cannot be modified through any assignment or writable-data interface: the attempt raises an error and no memory changes. Views carry the permissions of the array they come from, copies get the requested ones, and an immutable array's contents never change.",
     ["inputs", "histories"], "all combinations of access flags, view operations and stores",
     "Tests try one store on one read-only array; paths that hand out a view or a destination argument with more rights need specific combinations.",
     ["include/dynd/array.hpp", "src/dynd/array.cpp", "src/dynd/callables/base_callable.cpp"],
     [("flag checks", "src/dynd/array.cpp array::assign, data(), eval_copy"), ("dst argument", "base_callable::call")],
     technique=TLA, note="Flags of every new handle are compared with the model, stores are attempted through all of them; same bounds as C01.")

prop("C05", "Elementwise calls broadcast their arguments by one rule",
     "Calling an elementwise function (a built-in arithmetic, comparison or logical function, or any scalar function lifted with nd::functional::elwise) on arrays aligns their dimensions from the innermost outwards, repeats missing dimensions and dimensions of size one, and computes the scalar function exactly once for every element of the result, which it stores at that element. Fixed sizes other than one that differ, rows of var dimensions whose lengths do not agree, and destinations that do not fit are refused; arguments are never modified. A call with a destination writes every element of it and nothing else (built-in functions called with scalar arguments only refuse a destination that is an array).",
     ["inputs"], "all argument counts, dimension lists of fixed and var dimensions, memory layouts (strided, reversed, transposed, contiguous) and destinations",
     "Tests call a few functions on one or two shapes; stride, offset and missing-dimension handling exists separately for every combination of fixed and var, and goes wrong only in particular combinations of three or more dimensions and arguments.",
     ["include/dynd/callables/elwise_callable.hpp", "include/dynd/callables/base_elwise_callable.hpp", "include/dynd/kernels/elwise_kernel.hpp", "include/dynd/callables/base_dispatch_callable.hpp", "src/dynd/types/dim_fragment_type.cpp", "src/dynd/functional.cpp"],
     [("lifting", "include/dynd/callables/base_elwise_callable.hpp resolve"), ("loops", "include/dynd/kernels/elwise_kernel.hpp"), ("call", "src/dynd/callables/base_callable.cpp call")],
     technique=TLA, note="Exhaustive in TLC over all pairs (thorough: triples) of argument types with up to 2 dimensions of sizes 0..3 and var rows; every such case replayed on the code in several layouts; random calls with up to 4 arguments and 4 dimensions validated one by one.")

prop("C06", "Reductions fold exactly the elements of the reduced dimensions",
     "A reduction (sum, max, min, all, all_equal, or any fold made with nd::functional::reduction) over a set of dimensions folds, for every element of the result, exactly the elements of the argument at that place in row-major order, starting from the identity, once each; over empty dimensions it yields the identity. With keepdims a reduced dimension stays with size one, otherwise it disappears, and kept dimensions keep their order. Two-argument reductions require equal dimensions; a var dimension can only be reduced when it is the innermost.",
     ["inputs"], "all dimension lists, all subsets of non-negative axes, keepdims on and off, all layouts; without an explicit destination",
     "Tests reduce one and two dimensional arrays completely or along one axis; which dimension initializes and which accumulates depends on the pattern of reduced and kept dimensions, sizes of zero, and strides.",
     ["include/dynd/callables/reduction_callable.hpp", "include/dynd/callables/base_reduction_callable.hpp", "include/dynd/kernels/reduction_kernel.hpp", "include/dynd/kernels/reduction_kernel_prefix.hpp", "src/dynd/functional.cpp"],
     [("resolution", "include/dynd/callables/base_reduction_callable.hpp resolve"), ("loops", "include/dynd/kernels/reduction_kernel.hpp")],
     technique=TLA, note="Exhaustive in TLC for arrays of up to 3 (4) dimensions of sizes 0..2 and all axis sets; the folds used in replay are order sensitive, so a wrong order, a repeated or a missing element shows.")

prop("C07", "Numeric conversions give the exact, rounded or rejected value their error mode demands",
     "Assigning a number of one numeric type (bool, signed and unsigned integers of 8 to 128 bits, float32, float64, complex) to another gives the same number whenever the destination can hold it. When it cannot: without checks an integer wraps modulo 2^w, a fraction is truncated and a float is rounded to nearest; in overflow mode a value outside the destination's range (or a nonzero imaginary part) is an error and fractions are truncated; in fractional mode (the default) a lost fraction is an error too; in inexact mode any change of value is an error. No element is ever converted differently because of array length, stride or buffering, and an error names no success: the call raises (not promised: unchecked out-of-range float to integer, NaN under inexact, rounding of 128-bit integers to floats).",
     ["inputs"], "all ordered pairs of 15 numeric types, all four error modes and the default one, scalars and strided arrays; values chosen at and around every range and precision boundary plus random bit patterns",
     "There are over 800 conversion kernels, and mistakes sit at single values (2^63, the largest float, minus one, a subnormal); tests try a few dozen values, none at most boundaries.",
     ["include/dynd/assignment.hpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/callables/assign_callable.hpp", "include/dynd/int128.hpp", "include/dynd/uint128.hpp", "src/dynd/assign.cpp"],
     [("checked casts", "include/dynd/assignment.hpp overflow_cast, fractional_cast, inexact_cast"), ("kernels", "include/dynd/kernels/assignment_kernels.hpp"), ("dispatch", "src/dynd/assign.cpp")],
     technique=TLA, note="Numbers are exact dyadic rationals in the specification, so every kernel is judged against arithmetic that never rounds. TLC checks laws (round trip, idempotence, monotone rounding, error mode inclusion) exhaustively on small integer and float formats, and the boundary values of every type are enumerated from the specification and replayed for every pair of types and mode.")

prop("C08", "Type text denotes one type, and every type's text denotes it back",
     "Parsing a datashape either yields exactly the type its grammar denotes or raises an error: white space, comments, trailing commas, quoting style and escapes do not change the type, and nothing is silently dropped or guessed. Printing any type and parsing the text gives an equal type that prints the same; two types are equal exactly when their structure is, in both directions. Size, alignment, number of dimensions and being symbolic follow from the structure, and stripping, replacing or adding dimensions changes just those.",
     ["inputs"], "all types built from dimensions, options, pointers, records, callables, type variables and kinds, and all texts over the grammar's tokens, well formed or not",
     "Types are trees: a constructor printed or parsed wrongly shows only under particular parents, names, sizes or argument lists, and there is no bound on the texts; tests list about two hundred strings.",
     ["src/dynd/types/datashape_parser.cpp", "src/dynd/parse_util.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/types/callable_type.cpp", "src/dynd/types/fixed_dim_type.cpp", "src/dynd/types/pow_dimsym_type.cpp", "src/dynd/type.cpp"],
     [("parser", "src/dynd/types/datashape_parser.cpp parse_datashape_nooption, parse_struct, parse_tuple_or_funcproto"), ("printers", "print_type of every type class"),
      ("equality", "operator== of every type class"), ("dimensions", "src/dynd/type.cpp with_replaced_dtype, with_new_axis")],
     technique=TLA, note="The specification contains the grammar, the printer and the layout rules; TLC checks Parse(Text(t)) = t on 250,000 types, prints 9,800 of them for replay, and judges random and mutated token sequences rendered with random white space, comments, quotes and escapes. Not promised: several statements in one text, type aliases, numbers beyond 2^31.")

prop("C09", "A pattern matches exactly its instances, and its bindings reproduce them",
     "Matching a type pattern (with type variables, dimension variables, powers, ellipses, kinds, variadic records) against a concrete type succeeds exactly when the type is an instance of the pattern, with every use of a variable standing for the same thing (dimension lists of the same ellipsis name broadcast together). The bindings it reports are those values, and substituting them into the pattern gives the type back wherever the pattern names all of its open parts. Substitution replaces bound variables and nothing else, and produces a concrete type or an error when a concrete type is demanded.",
     ["inputs"], "all patterns and concrete types built from dimensions, options, pointers, records, callables, kinds and variables; symbolic candidates are not covered",
     "Which callable runs, and what type its result has, rests on matching; variables that occur twice, zero-length dimension lists and powers next to other dimensions interact, and tests cover single constructors.",
     ["src/dynd/types/typevar_type.cpp", "src/dynd/types/typevar_dim_type.cpp", "src/dynd/types/ellipsis_dim_type.cpp", "src/dynd/types/pow_dimsym_type.cpp", "src/dynd/types/dim_fragment_type.cpp", "src/dynd/types/substitute_typevars.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/types/fixed_dim_kind_type.cpp"],
     [("matching", "match of every pattern type"), ("broadcasting of named ellipses", "src/dynd/types/dim_fragment_type.cpp"), ("substitution", "src/dynd/types/substitute_typevars.cpp internal_substitute")],
     technique=TLA, note="TLC checks soundness (bindings give the type back), completeness (every instance matches) and generality on all small patterns and types, prints 261 patterns and 261 types whose pairs are replayed, and judges random patterns derived from random types by opening parts of them.")

prop("C10", "Overload lookup picks a most special matching signature, whatever the order of registration",
     "Looking up an overload set (a dispatcher, or a multidispatch callable) with argument types selects a signature that matches them and over which no other matching signature is strictly more special; it fails exactly when no signature matches. The order in which signatures were registered, together or one at a time, does not matter. Registering signatures of which two overlap position by position without one being the more special is refused, unless a signature more special than both is there, and a refused registration leaves the set as it was.",
     ["inputs", "histories"], "signatures of dimensions, options, kinds and scalar types; overlap is position-wise comparability, so overlap between types neither of which covers the other is not detected and not promised",
     "The set is sorted topologically on each registration from whatever order it was in, and lookup takes the first match: a wrong answer needs a particular partial order and a particular registration history, which a handful of overloads does not exercise.",
     ["include/dynd/dispatcher.hpp", "include/dynd/callables/multidispatch_callable.hpp", "src/dynd/callable.cpp", "include/dynd/types/bytes_kind_type.hpp", "src/dynd/types/scalar_kind_type.cpp", "include/dynd/types/string_kind_type.hpp"],
     [("registration and lookup", "include/dynd/dispatcher.hpp dispatcher::assign, insert, operator(), ambiguous, supercedes"), ("callables", "include/dynd/callables/multidispatch_callable.hpp resolve, overload")],
     technique=TLA, note="TLC builds every admissible set of up to three signatures over a lattice of types (one and two argument positions) and checks that taking the first match in any order that puts special ones first is always a best match; the sets are registered in the library in random portions and looked up with all calls, and random registration histories are validated against the same specification.")

prop("C17", "A call is accepted exactly when it fits the signature, and the callable gets what was passed",
     "A callable runs only if the number of positional arguments fits (extra ones fill keywords in order), every argument, keyword and destination matches its declared type under one shared assignment of the type variables, every keyword is declared and given once, and every required keyword is there; otherwise the call raises an error and nothing runs. It then receives the arguments in order, each keyword's value at its declared place whatever order they were passed in, a missing value for each optional keyword left out, and the given destination, and the result has the destination's type or the return type with the variables replaced.",
     ["inputs"], "signatures with positional arguments (also a variable number), keywords and options; variadic keywords, dst given twice and dimensions inside options are not covered",
     "Positional, spilled and named values, options, shared type variables and dst interact combinatorially; tests call a few functions with well-formed arguments.",
     ["src/dynd/callable.cpp", "include/dynd/callable.hpp", "src/dynd/types/callable_type.cpp", "src/dynd/types/substitute_typevars.cpp"],
     [("matching arguments", "src/dynd/callable.cpp nd::callable::call, check_arg, set_unknown_keywords"), ("result type", "src/dynd/callables/base_callable.cpp base_callable::call")],
     technique=TLA, note="TLC puts together every call of up to two arguments and two keywords against every small signature, one argument at a time, and checks that accepted calls bind consistently, that keyword order does not matter and that a keyword may as well be given by position; the calls are replayed on probing callables that record what they receive, and random larger calls are validated.")

prop("C13", "A missing value stays missing and never becomes a number, and numbers never become missing",
     "An element of an optional type is either missing (NA) or a number. Assigning NA makes exactly the addressed elements missing; every way of asking (is_na, printing, JSON) agrees on which elements are; assignment between optional arrays of any length, layout and value types keeps NA as NA and converts the numbers as between plain types; assigning to a plain type succeeds only if nothing is missing; a NaN assigned to an optional type is NA; the words for NA in text give NA; arithmetic and comparison of optional values is missing exactly where an operand is.",
     ["inputs"], "optional bool, int8 to int128, uint32, float32/64, complex; ?string, ?bytes, ?uint8/16/64 and ?float16 have no NA in this library; the one number NA is stored as is not promised to survive",
     "The buffered assignment works in chunks and in runs of present and missing elements, so a mistake needs a particular length, stride and pattern of missing elements; tests use scalars and a few elements.",
     ["include/dynd/kernels/assignment_kernels.hpp", "include/dynd/kernels/is_na_kernel.hpp", "include/dynd/kernels/assign_na_kernel.hpp", "include/dynd/kernels/forward_na_kernel.hpp", "include/dynd/callables/forward_na_callable.hpp", "src/dynd/option.cpp", "src/dynd/types/option_type.cpp", "include/dynd/callables/assign_callable.hpp"],
     [("option to option and to value", "include/dynd/kernels/assignment_kernels.hpp assignment_kernel<option,option>::strided, option_to_value_ck"), ("NA of each type", "include/dynd/kernels/is_na_kernel.hpp, assign_na_kernel.hpp, src/dynd/types/option_type.cpp"), ("operators", "include/dynd/callables/forward_na_callable.hpp")],
     technique=TLA, note="TLC checks chunked run-splitting assignment against the pointwise meaning for every pattern of up to 8 (thorough 12) elements; the patterns are replayed, also scaled so that the model's chunk is the library's, and random arrays up to 300 elements of every pair of types and error modes, NA queries, NA texts and broadcast arithmetic on optional operands are validated.")

prop("C18", "A text stored in a number is the number it denotes or an error",
     "Assigning text to a number, or reading a quoted number from JSON, stores exactly the value the decimal notation denotes: integers of every width exactly, floating point rounded to nearest, booleans by their words, NaN and infinity by theirs, and missing-value words as NA for optional types. Text that is no number, is out of the type's range, or has a fraction an integer cannot hold raises an error (except with checking switched off) and never gives a wrapped, truncated or partly read number; what memory held before does not matter. Assigning between types that have no conversion raises an error.",
     ["inputs"], "string and fixed_string sources, real numeric destinations; hexadecimal and other extensions, surrounding spaces, and text assigned to complex, float16, int128 and (by assignment) unsigned types are left open",
     "The set of texts is unbounded: overflow at one particular digit, an exponent that shifts a fraction to an integer, a number at the end of its buffer or rounding at a halfway point are reached by no table of examples.",
     ["include/dynd/parse_util.hpp", "src/dynd/parse_util.cpp", "include/dynd/config.hpp", "src/dynd/config.cpp", "include/dynd/kernels/assignment_kernels.hpp", "include/dynd/kernels/parse_kernel.hpp", "src/dynd/json_parser.cpp", "include/dynd/callables/assign_callable.hpp"],
     [("digits to integers and floats", "include/dynd/parse_util.hpp, src/dynd/parse_util.cpp"), ("text assigned to numbers", "include/dynd/kernels/assignment_kernels.hpp assignment_kernel<..., string>"), ("types without a conversion", "include/dynd/callables/assign_callable.hpp")],
     technique=TLA, note="TLC reads every text of up to four characters over a numeric alphabet one character at a time next to a running value and checks the notation's laws and the boundary numbers 2^k+d of every type; those texts are stored in every type by the library, and random texts up to 120 characters (halfway cases between floats, long mantissas, exponents, words, mutations), strides, previous contents and all pairs of types are validated.")

prop("C12", "Strings and bytes are values, and text functions find, split, replace and transcode exactly",
     "A string or bytes value keeps the bytes given to it through any sequence of assignment, append, resize, copy, move and clear, of short and long values, from itself or a part of itself, and copies are independent. Assigning between texts of different encodings or sizes keeps the code points, or raises an error when the text is malformed, cannot be encoded or does not fit. Concatenation, find, rfind, count, replace, split, startswith, endswith and contains give what their definition on byte sequences says for every argument, broadcast over arrays, into new or used destinations.",
     ["inputs", "histories"], "dynd::string, bytes, arrays of them, string and fixed_string of ascii, utf8, utf16, utf32, ucs2; searching for the empty text is left open, and what is stored with checking switched off",
     "Small-size storage, reuse of capacity, self-assignment, touching occurrences and multi-unit characters at the end of a buffer combine; tests use a few literals.",
     ["include/dynd/bytes.hpp", "include/dynd/string.hpp", "include/dynd/string_search.hpp", "include/dynd/kernels/string_concat_kernel.hpp", "include/dynd/kernels/string_split_kernel.hpp", "include/dynd/kernels/string_replace_kernel.hpp", "src/dynd/string_encodings.cpp", "include/dynd/kernels/assignment_kernels.hpp"],
     [("value semantics", "include/dynd/bytes.hpp sso_bytestring"), ("searching", "include/dynd/string_search.hpp"), ("transcoding", "src/dynd/string_encodings.cpp; include/dynd/kernels/assignment_kernels.hpp")],
     technique=TLA, note="TLC checks a left-to-right scanner against the definition of occurrences for every haystack of up to 7 and needle of up to 4 characters, and a small-buffer implementation of strings with capacity against plain values for every history of three operations; both are replayed, and random histories, functions over arrays and assignments between all encodings (valid, malformed, truncated) are validated.")

prop("C11", "JSON text is read as the value it denotes, or refused, and a value written as JSON reads back the same",
     "Reading a JSON document into memory of a type stores exactly the tree the document denotes: every array element and every field by name at its place, strings with their escapes decoded, numbers as they are written, null as a missing value, missing optional fields as missing. Text that is not JSON, or that denotes no value of the type (wrong nesting, length, missing field, number out of range), raises an error; no input makes the parser crash, hang or read outside the text. Writing any value gives well-formed JSON, with records as objects or as lists, that denotes the value and reads back the same.",
     ["inputs"], "booleans, integers to 64 bits, floats, string, fixed_string, options, fixed and var dimensions, records and tuples in any nesting, through parse_json, parse_json into an array, from string and bytes arrays, validate_json, format_json and (for scalars) nd::json::parse; duplicate keys, lone surrogates and raw control characters are left open",
     "Documents nest without bound and types nest with them; the interaction of escapes, growth of variable dimensions, field order, options and buffers is far beyond a list of samples.",
     ["src/dynd/json_parser.cpp", "src/dynd/json_formatter.cpp", "include/dynd/kernels/parse_kernel.hpp", "include/dynd/parse_util.hpp", "src/dynd/parse_util.cpp", "include/dynd/json_parser.hpp"],
     [("reading", "src/dynd/json_parser.cpp parse_json, parse_dynd_builtin_json, parse_struct_json, parse_var_dim_json"), ("writing", "src/dynd/json_formatter.cpp"), ("strings", "src/dynd/parse_util.cpp unescape_string")],
     technique=TLA, note="TLC runs a character-at-a-time machine with a stack against the recursive grammar for every text of up to 8 structural, 6 string and 6 number pieces (150,000 texts) and checks that trees survive white space, typing, writing and reading; a sample is replayed into fitting types (all in the thorough tier), and random documents of random types, mutated texts, previous contents and error modes are validated, each written both ways and read back.")

prop("C16", "Memory of variable-sized data keeps its contents while it grows, and objects in it are destroyed exactly once",
     "A memory block hands out regions of elements that are aligned, inside memory it owns and apart from each other; memory of types that need it starts as zero. Resizing the newest region keeps the elements common to both sizes, zeroes the growth where the type needs it and leaves every other region as it was, whether it fits or has to move, and resetting makes the memory reusable. Objects are destroyed exactly once: when a resize drops them, at a reset, or with the last reference to the block, which may outlive the array it was made for; arrays of objects destroy each object once, with the last view of their memory, and nothing is leaked.",
     ["inputs", "histories"], "pod, zeroinit and objectarray blocks made directly or by var dimensions, arrays of types with destructors inside records, tuples and fixed dimensions; only the newest region may be resized, and a finalized block is not used again",
     "Whether a region fits, moves, leaves its old chunk empty, or a chunk record moves with the list depends on the whole history of sizes; a test checks one growth.",
     ["include/dynd/memblock/pod_memory_block.hpp", "include/dynd/memblock/zeroinit_memory_block.hpp", "include/dynd/memblock/objectarray_memory_block.hpp", "include/dynd/memblock/buffer_memory_block.hpp", "src/dynd/types/var_dim_type.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/types/fixed_dim_type.cpp"],
     [("regions and chunks", "include/dynd/memblock/*_memory_block.hpp alloc, resize, reset"), ("which block a type gets", "src/dynd/types/var_dim_type.cpp arrmeta_default_construct"), ("destruction", "src/dynd/types/{struct,tuple,fixed_dim,string}_type.cpp data_destruct, data_destruct_strided")],
     technique=TLA, note="TLC checks a chunked allocator with the library's growth rules against the plain meaning (contents, disjointness, destruction as bags) for every history of 5 (thorough 6) operations on all three kinds; the histories are replayed on the real blocks, and random longer histories over many element types, including an element type that records its destruction, with every allocation tracked, are validated.")

prop("C15", "Comparisons, sorting and searching agree with the order of the values",
     "less, less_equal, equal, not_equal, greater_equal and greater give what the order of the values says, for every pair of numeric types (as numbers, when both are held exactly by the type C++ compares them in), texts (by code point), bytes and types (equality), and tuples and records (equality, field by field, of operands with as many fields and the same names), for arrays of every layout, broadcast, into new or given memory; NaN equals and precedes nothing and a missing operand gives a missing answer. equals_exact and all_equal say whether all elements are equal; sort leaves the same elements in order and touches nothing else; binary_search of ordered values returns an index of the value, or -1 exactly when it is absent; total_order is a strict order. Operands without a comparison raise an error.",
     ["inputs"], "bool, integers to 64 bits, float32/64, complex (equality), string, bytes, type, tuples and records nested to depth 3, options; int64/uint64 against a floating point type it does not fit, and signed against unsigned where C++ converts a negative number, are left open; nd::unique is a known finding",
     "The answer must be right for every pair of values of every pair of types and every layout, and sorting for every permutation with repetitions; tests compare a few small integers and sort a few lists.",
     ["include/dynd/comparison.hpp", "include/dynd/kernels/less_kernel.hpp", "include/dynd/kernels/equal_kernel.hpp", "include/dynd/kernels/sort_kernel.hpp", "src/dynd/sort.cpp", "include/dynd/kernels/binary_search_kernel.hpp", "src/dynd/search.cpp", "include/dynd/string.hpp", "include/dynd/callables/equal_callable.hpp"],
     [("comparing numbers, strings, tuples", "include/dynd/kernels/{less,equal,total_order}_kernel.hpp, include/dynd/callables/{less,equal}_callable.hpp"), ("sorting", "include/dynd/kernels/sort_kernel.hpp, include/dynd/types/type_type.hpp strided_iterator"), ("searching", "include/dynd/kernels/binary_search_kernel.hpp")],
     technique=TLA, note="TLC checks the laws of the order over boundary numbers of every type and texts of up to 3 code points of every length of encoding, and a bisecting searcher and an insertion sorter against the definitions for every list of up to 5 (thorough 6) elements; the numbers in all 121 pairs of types, texts and lists are replayed, and random operands, records, layouts, sorts and searches are validated.")

prop("C14", "Arithmetic gives what the numbers say",
     "add, subtract, multiply, divide, mod, the bitwise operations, shifts, the logical operations, plus, minus, bitwise_not, logical_not and sqrt of real numbers give, element by element, the value and the result type C++ gives for the two types: integers exactly (modulo 2^n for unsigned types), floating point correctly rounded, with NaN, infinities and signed zeros; for arrays of every layout, broadcast, through the operators or the callables, into new or given memory, and without touching the operands; a += b and a /= b store the result in a. Integer division by zero and operands without an implementation raise an error and nothing ends the process. Sums, products and quotients of complex numbers are right where they are exact, and promote_types_arithmetic gives the type C++ promotes two types to, with an option if either is one.",
     ["inputs"], "bool, integers to 64 bits, float32/64 and complex; what C++ leaves undefined (signed overflow, shifts by too many places, floating point too large for an integer) only has to return; transcendental functions, pow and cbrt are outside",
     "Every pair of types has its own kernel and result type, and rounding, signs, zeros and the ends of the range must be right for every pair of values; tests add and multiply a few small numbers of equal types.",
     ["include/dynd/arithmetic.hpp", "include/dynd/kernels/arithmetic.hpp", "include/dynd/binary_arithmetic.hpp", "include/dynd/unary_arithmetic.hpp", "include/dynd/compound_arithmetic.hpp", "include/dynd/kernels/compound_add_kernel.hpp", "include/dynd/kernels/compound_div_kernel.hpp", "include/dynd/complex.hpp", "src/dynd/type_promotion.cpp", "src/dynd/array.cpp"],
     [("operators on numbers", "include/dynd/kernels/arithmetic.hpp, include/dynd/callables/*"), ("dispatch on two types", "include/dynd/binary_arithmetic.hpp"), ("promotion", "src/dynd/type_promotion.cpp")],
     technique=TLA, note="TLC checks the operations, written on bits, against plain integer arithmetic and nearest-value rounding for every pair of small types and values; every operation on every pair of machine types is replayed over the boundary numbers, and random operands near cancellation, rounding and overflow, layouts and destinations are validated.")

prop("C19", "Ranges, selections and callables made of callables",
     "A range holds start, start + step, ... up to but without stop, for every start, stop and step of its type, and a zero step is refused; linspace divides the way evenly; take gives the elements at the given places (negative ones from the end; others refused) or those a mask of the same size is true for, in order, for elements of any type. The combinators give what they say: outer calls its function with every combination of elements and puts the dimensions of its arguments one after the other; where gives the places a predicate holds; constant returns its value whatever the arguments; compose calls the second with the result of the first; left_compound and right_compound call with the destination as first or second argument; a destination of another type is refused.",
     ["inputs"], "ranges of all integer and real types (floating point near a multiple of the step); fixed dimensions for take and outer; where of one dimension; callables of small integers",
     "The number of elements must be right at the ends of the type, where differences and negations overflow; selection and nesting must be right for every layout, element type and number of dimensions; tests use a few small ones.",
     ["src/dynd/array_range.cpp", "include/dynd/callables/range_callable.hpp", "include/dynd/kernels/range_kernel.hpp", "include/dynd/callables/take_dispatch_callable.hpp", "include/dynd/kernels/take_kernel.hpp", "include/dynd/callables/outer_callable.hpp", "include/dynd/callables/outer_entry_callable.hpp", "include/dynd/callables/where_callable.hpp", "include/dynd/callables/constant_callable.hpp", "include/dynd/callables/compose_callable.hpp", "include/dynd/callables/compound_callable.hpp", "src/dynd/functional.cpp", "src/dynd/limits.cpp"],
     [("ranges", "src/dynd/array_range.cpp, include/dynd/callables/range_callable.hpp"), ("selection", "include/dynd/callables/take_dispatch_callable.hpp, include/dynd/kernels/take_kernel.hpp"), ("combinators", "include/dynd/callables/{outer,outer_entry,where,constant,compose,compound}_callable.hpp")],
     technique=TLA, note="TLC walks every range of 4-bit (thorough 5-bit) integers, every mask of up to 6 (8) elements, every list of up to 3 places and an odometer over the operands of outer against the definitions; all are replayed, the ranges spread over each machine type, with elements of 13 types; random cases are validated.")

prop("C20", "Objects and callables shared by threads",
     "Threads may share arrays, memory blocks, types and callables that none of them writes to. Copying and releasing references in several threads at once loses no reference: the number of references asked for is one that some order of the steps gives, an object lives as long as any thread refers to it, and it is destroyed exactly once, by whoever releases the last reference. What a thread reads through a shared object, and the answer it gets from a call (arithmetic, conversion, comparison, reduction, parsing, printing, matching, text functions), is what it would get alone, whatever other threads call at the same time.",
     ["schedules", "inputs"], "2 to 4 threads; sharing of registered callables and types, of handles to one array, block, type or callable; changing shared data or registering overloads while others call is outside",
     "A lost update needs two threads at the same instruction; tests run one thread.",
     ["include/dynd/memblock/base_memory_block.hpp", "include/dynd/memblock/buffer_memory_block.hpp", "include/dynd/types/base_type.hpp", "include/dynd/callables/base_callable.hpp", "include/dynd/callables/outer_entry_callable.hpp", "include/dynd/callables/elwise_entry_callable.hpp", "include/dynd/kernels/kernel_builder.hpp", "docs/ndarray.md"],
     [("atomic reference counts", "include/dynd/memblock/base_memory_block.hpp, include/dynd/memblock/buffer_memory_block.hpp, include/dynd/types/base_type.hpp, include/dynd/callables/base_callable.hpp"), ("no state between calls", "src/dynd/callables/base_callable.cpp, include/dynd/callables/*")],
     technique=TLA, note="TLC explores every interleaving of every pair (triple) of programs of up to 3 (2) steps over a shared object (with the count taken apart into load and store, the invariants fail); the programs run in real threads many times each, and every outcome must be one that an interleaving gives. Lists of random calls of the other checks run alone and at the same time and must be answered alike. Real schedules are sampled, not enumerated.")

prop("C21", "Half-precision numbers stand for the numbers they are made from",
     "Converting a number (float32, float64 or an integer) to a half gives the nearest half, ties to the even one, keeping the sign of zeros, infinities and NaN; a number below the normal range which no half holds is refused, and one beyond the largest half becomes infinite or is refused. Every half converts to float and double exactly, and to an integer that can hold it by dropping its fraction. Comparisons with halves, doubles and integers, truth, negation, floor and the tests for NaN, infinity, finiteness and sign agree with the number.",
     ["inputs"], "dynd::float16 in C++; arithmetic on halves is not implemented by the library, and arrays of float16 have no conversions",
     "All 65536 halves and the places half way between two of them, at each exponent, in both source types, decide rounding; tests convert a handful.",
     ["include/dynd/float16.hpp", "src/dynd/float16.cpp"],
     [("narrowing and widening", "src/dynd/float16.cpp halfbits_to_floatbits, floatbits_to_halfbits, doublebits_to_halfbits"), ("tests and comparisons", "include/dynd/float16.hpp")],
     technique=TLA, note="TLC runs the conversion on bits against nearest-value rounding for every value of small types (3-bit exponents and significands against three wider types) and emits the 8232 boundary numbers of float32 and float64; those, every one of the 65536 halves and random numbers around them are converted by the real code and validated.")

prop("C22", "What is printed of an array shows the array",
     "Printing an array gives array(VALUE, type=\"TYPE\") where VALUE reads back as the array's elements: separated by commas, in order, nothing shown in another place than its own. Where a long dimension is cut short, dots stand for one contiguous run of elements, the elements before them are the first ones and those after them the last ones; dimensions of up to seven scalars, and of up to ten short ones, are shown in full. Texts are escaped so that they can be told from what surrounds them, bytes shown as hexadecimal digits, a missing value as NA and an available one never as NA, for every layout of the array.",
     ["inputs"], "bool, integers to 64 bits, floats of few digits, string, fixed_string, bytes, fixed_bytes, options, tuples and structs, fixed and var dimensions in any nesting; long bytes (over 40) and digits of floats are left open",
     "How rows are packed depends on the number and width of all elements together, and the two ways of printing meet at widths and counts that no list of samples visits.",
     ["src/dynd/type.cpp", "src/dynd/array.cpp", "src/dynd/types/fixed_dim_type.cpp", "src/dynd/types/var_dim_type.cpp", "src/dynd/types/option_type.cpp", "src/dynd/types/string_type.cpp", "src/dynd/types/fixed_string_type.cpp", "src/dynd/types/bytes_type.cpp", "src/dynd/types/struct_type.cpp", "src/dynd/types/tuple_type.cpp", "src/dynd/string_encodings.cpp"],
     [("laying out a dimension", "src/dynd/type.cpp strided_array_summarized, print_indented"), ("scalars", "src/dynd/type.cpp print_builtin_scalar, src/dynd/types/*_type.cpp print_data"), ("missing values", "src/dynd/types/option_type.cpp is_avail_builtin")],
     technique=TLA, note="TLC checks the layout algorithm (grid and line by line) against the reader for every number of elements and every width around the changes of behaviour, and that a reader finds no other array in a text; the same counts and widths are replayed, and random arrays of nested types in four layouts are printed and read by the specification.")
