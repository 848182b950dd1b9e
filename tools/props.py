PROPS = [
 dict(id="V01", title="A vector always holds exactly what a plain list would hold",
  statement="After any sequence of vector operations (push, insert, remove, erase, truncate, clear, splice - also from the vector itself -, append, assign, copy, move, growth, shrinking, conversion to and from a box), the vector's size, elements, order, first/last, iteration and comparisons are those of a plain list put through the same operations, whatever the element type, the inline capacity and the storage mode. Out-of-range indices and ranges crash (or give none from the fallible accessors) without corrupting the vector, and a moved-from vector is empty.",
  over=["histories", "inputs", "configurations"],
  quant="every operation sequence up to the depth bound, every in-range (and just out-of-range) index, every element kind (trivial, relocatable, address-sensitive, over-aligned), inline capacities 0, 1, 2, 3, 5, 9, 23, 127, 130, 200, 260",
  why="vec_test.cc runs a handful of fixed scripts on int and one relocatable type; the storage transitions (inline to heap, overlap direction of a shift, allocator inequality, large inline sizes) multiply with element kinds and positions far beyond it",
  files=["best/container/vec.h", "best/memory/ptr.h", "best/memory/span.h"],
  mech=[("size word encodes inline/heap mode", "best/container/vec.h"), ("shifting elements within the buffer", "best/memory/ptr.h"), ("self-splice split into two copies", "best/container/vec.h")],
  observe=["vec public accessors"],
  note="Exhaustive within the stated depth/size bounds on the real code with ASan; trusts the list model and the instrumented element types."),
 dict(id="V02", title="Every vector element is destroyed exactly once, memory always returned",
  statement="Whatever sequence of operations a vector goes through, each element that was ever constructed is destroyed exactly once, is never read, assigned or destroyed while not alive, and address-sensitive elements are moved only through their own move operations. When the vectors are gone no element and no memory block remains, and no memory outside of the vectors' storage is touched.",
  over=["histories", "inputs", "configurations"],
  quant="every operation sequence up to the depth bound over two vectors, for trivially relocatable, address-sensitive, small, and over-aligned element types with and without inline storage",
  why="leak tests exist for one relocatable element type and a fixed script; the relocation paths for other element kinds and overlaps are never executed",
  files=["best/container/vec.h", "best/memory/ptr.h", "best/memory/span.h", "best/container/box.h"],
  mech=[("overlapping relocation", "best/memory/ptr.h"), ("move construction and assignment", "best/container/vec.h"), ("destroy", "best/container/vec.h")],
  note="Exhaustive within bounds; live-object accounting after every operation, ASan for memory, malloc balance per execution."),
 dict(id="V03", title="Vector capacity, storage mode and allocator use keep their promises",
  statement="After reserving room for n more elements, n pushes neither move the storage nor allocate; an exact growth request is honoured exactly; shrinking to fit leaves no spare heap capacity; a vector stays in its inline storage until that is full. Every block is freed or resized with exactly the layout it was allocated with, by an allocator equal to the one that allocated it, and copies and moves carry the right allocator along.",
  over=["histories", "configurations"],
  quant="every operation sequence up to the depth bound over two vectors with equal or different allocators",
  why="tests use the global allocator only, so a wrong layout, wrong allocator or lost capacity is invisible to them",
  files=["best/container/vec.h", "best/memory/allocator.h", "best/container/box.h"],
  mech=[("growth policy", "best/container/vec.h"), ("allocator transfer on move", "best/container/vec.h")],
  note="Exhaustive within bounds with a checking allocator; trusts the checking allocator."),
 dict(id="S01", title="Every access through a span stays inside it or crashes cleanly",
  statement="Indexing a span or taking a subspan, prefix, suffix, split or fixed-size part of it with any index or range yields exactly the requested elements when the request lies inside the span; otherwise the operation crashes, or answers none if it is one of the fallible forms, however large the index. Reading a NUL-terminated string stops at the first NUL, and iterating a span from both ends visits every element exactly once.",
  over=["inputs", "histories"],
  quant="every span length 0..6 (5), every index and range bound near the ends and near every power-of-two wrap point, all combinations of start/end/including_end/count, every interleaving of front and back iteration",
  why="span_test.cc checks a few in-range subspans of one array; the wrap-around of start+count and the inclusive forms are not sampled",
  files=["best/memory/span.h", "best/iter/bounds.h", "best/memory/internal/bytes.h"],
  mech=[("bounds are resolved with overflow checks", "best/iter/bounds.h"), ("fallible and checked subspans", "best/memory/span.h")],
  note="Exhaustive within bounds on the real code with exactly-sized heap buffers under ASan against an arithmetic oracle in 128-bit integers."),
 dict(id="S02", title="Searching a span finds exactly what a naive search finds",
  statement="Finding, containing, affix tests and stripping, splitting at the first or last occurrence and splitting into pieces give, for every haystack and every needle (element, sequence or predicate), precisely what a position-by-position comparison with the elements' own equality gives. Splitting loses no element, and a stripped affix is stripped exactly once.",
  over=["inputs"],
  quant="every haystack up to length 8 over two symbols or 5 over three or more (11 and 7 in thorough), every needle up to 4/3, for one-, two-, four- and eight-byte, signed, floating, enum and user-defined element types, plus cross-type needles",
  why="span_test.cc tries one or two needles on int and char; the byte-wise fast paths depend on element size, alignment of false matches and repeated prefixes",
  files=["best/memory/span.h", "best/memory/internal/bytes.h"],
  mech=[("byte-wise search when the type permits", "best/memory/internal/bytes.h"), ("search and split built on it", "best/memory/span.h")],
  note="Exhaustive within bounds on the real code against a naive reference search; unaligned false matches and partial matches at the very end of heap buffers are included."),
 dict(id="S03", title="Spans order and compare like their elements, one by one",
  statement="Comparing two spans for equality or order gives the lexicographic result of comparing the elements with their own operators: the first differing pair decides, a proper prefix is less, and the six relational operators and the three-way comparison agree with each other and with the reversed comparison.",
  over=["inputs"],
  quant="all pairs of sequences of up to 3 (thorough 4) elements over edge values of every integer width and signedness, floats with NaN and signed zero, pointers, bytes, enums, user-defined orders, and fixed-size spans",
  why="tests compare a few int and byte arrays; a byte-wise shortcut that is wrong for signed, multi-byte or user-defined types agrees with them",
  files=["best/memory/span.h", "best/memory/internal/bytes.h"],
  mech=[("memcmp used only where it matches the type", "best/memory/internal/bytes.h")],
  note="Exhaustive over pairs within bounds against std::lexicographical_compare semantics; spans of same-width integers of different signedness are left out (their equality is bit equality by design)."),
 dict(id="S04", title="Block operations move exactly the elements asked for",
  statement="Copying, moving, relocating, swapping, reversing, filling and destroying runs of elements changes precisely the requested elements to precisely the requested values, whether or not source and destination overlap; every element is constructed and destroyed exactly once, and nothing outside the run is touched.",
  over=["inputs", "histories"],
  quant="12 block operations x every destination, source and count within a buffer of 6, for six element kinds; every sequence of 2 (thorough 3) swaps and reversals; pointer arithmetic at every pair of positions",
  why="tests copy disjoint arrays of ints; the direction in which an overlapping run must be walked depends on positions and element kinds they do not combine",
  files=["best/memory/ptr.h", "best/memory/span.h", "best/memory/internal/bytes.h"],
  mech=[("copy/move/relocate with trivial fast paths", "best/memory/ptr.h"), ("span-level wrappers", "best/memory/span.h")],
  note="Exhaustive within bounds on the real code with tracked elements under ASan."),
 dict(id="S05", title="Sorting is a sorted permutation, stable where promised",
  statement="Sorting any sequence, with any strict weak order or key function, leaves a permutation of the input in order; the stable forms keep equal elements in their original order. Binary search in a sorted sequence finds a matching element if there is one, and otherwise the position at which it can be inserted.",
  over=["inputs"],
  quant="all sequences of up to 7 items over 3 keys, 12 over 2, 5 over 5 (thorough 9/16/6), structured sequences of 8..300; every non-decreasing sequence of up to 8 (11) over 5 values with every sought value, all lengths 0..300",
  why="tests sort two fixed arrays; a wrong merge, partition or bisection bound shows only for particular arrangements",
  files=["best/memory/span.h", "best/memory/span_sort.h"],
  mech=[("sort entry points", "best/memory/span.h"), ("bisect", "best/memory/span.h")],
  note="Exhaustive within bounds on the real code; the permutation and stability oracle uses unique tags."),
 dict(id="I01", title="Integer ranges yield exactly their numbers, bounds checks are exact",
  statement="A range of integers of any width and signedness, given by start and end, inclusive end or count, yields every number in it once, in order, and then ends, also when it reaches the largest or smallest value of its type; its size hint, count and last agree. A failed bounds check names the length and an offending index.",
  over=["inputs"],
  quant="every range of the 8-bit types (all starts x all ends), edge-value ranges of the 16-, 32- and 64-bit types, full 8- and 16-bit ranges, every bad range over spans of 0..3",
  why="bounds_test.cc iterates a few small ranges; wrap-around at the end of a type and signed widths are not reached",
  files=["best/iter/bounds.h", "best/iter/bounds.cc"],
  mech=[("range iteration", "best/iter/bounds.h"), ("error message", "best/iter/bounds.cc")],
  note="Exhaustive for 8-bit types and within edge sets for the wider ones, in 128-bit arithmetic."),
 dict(id="I02", title="Chains of iterator adaptors behave like the same steps on a list",
  statement="Any composition of iterator adaptors (mapping, filtering, inspecting, enumerating, taking, skipping, reversing, chaining and the like) yields the items the corresponding list operations yield, in that order, calling each callback once per item and no earlier than needed. The size hint always encloses the number of items left; count, last, collecting and folding agree with stepping, and no item is copied, lost or leaked on the way.",
  over=["histories", "inputs", "configurations"],
  quant="every chain of up to 2 adaptors (3 for one source kind; thorough: 3 for all) over five kinds of sources (by reference, by value, tracked, double-ended with hints, move-only) of several lengths, every consumption pattern",
  why="iter_test.cc uses each adaptor once on ints; interactions of adaptors, hints and ends multiply combinatorially",
  files=["best/iter/iter.h"],
  mech=[("adaptors", "best/iter/iter.h"), ("size hints", "best/iter/iter.h")],
  note="Exhaustive over adaptor chains within the depth bound on the real code, against list operations; live-object accounting for tracked items."),
 dict(id="U01", title="Text encodings round-trip every rune and reject everything else",
  statement="Encoding a rune and decoding it, forwards or backwards, gives the same rune and length, for every encoding that can express it and with any amount of room; a rune that an encoding cannot express is refused and nothing is written. Decoding, validating and classifying code units accepts exactly the well-formed sequences of the encoding and rejects all others without reading past the end, and all ways of asking agree.",
  over=["inputs"],
  quant="all 1,114,112 code points plus surrogates x every room 0..5 x six encodings; every byte string up to 3 (second byte by class for one encoding in quick), classes up to 5 bytes; all surrogate pairs; UTF-16 and UTF-32 strings of classes (thorough: every 4-byte string not beginning with ASCII)",
  why="utf_test.cc decodes a list of known samples; truncated, overlong and stray sequences at every position are far more",
  files=["best/text/encoding.h", "best/text/utf8.h", "best/text/utf16.h", "best/text/utf32.h", "best/text/ascii.h", "best/text/internal/utf.h"],
  mech=[("UTF-8/WTF-8 decoder and validator", "best/text/internal/utf.h"), ("encoding definitions", "best/text/utf8.h")],
  note="Exhaustive over runes and short strings on the real code, against decoders written from the Unicode standard; exactly-sized buffers under ASan."),
 dict(id="R01", title="Rune classification, digits and escapes follow their definitions",
  statement="An integer becomes a rune exactly when it is a Unicode scalar value (or, where allowed, a surrogate), and that rune. For every rune: the class predicates, case mapping, ordering and emptiness niche give what their definitions say; a rune is a digit of a radix exactly when the conversion to a value succeeds and the value converts back to it; and printing it quoted yields an escape that denotes that rune and no other.",
  over=["inputs"],
  quant="every rune and unpaired surrogate; every integer up to 2097151 and near every multiple of 2^24 (thorough: all 2^32); every rune below U+0200 in every radix 0..40, every digit 0..80 in every radix",
  why="rune_test.cc checks some letters and digits; a boundary off by one in a class or radix is not seen",
  files=["best/text/rune.h"],
  mech=[("predicates", "best/text/rune.h"), ("escapes", "best/text/rune.h")],
  note="Exhaustive over all runes on the real code."),

 dict(id="T01", title="Text answers as its runes do, across all encodings",
  statement="Searching, prefix and suffix tests, stripping, splitting and slicing well-formed text give what the same operation gives on the text's sequence of runes, for every pair of encodings of the text and of what is sought, with positions in code units that always fall on rune boundaries. Equality and order of text are those of the rune sequences, runes are visited in order from either end, and a rune that an encoding cannot express is simply never found in it.",
  over=["inputs", "configurations"],
  quant="six text encodings x up to six needle encodings: every text of up to 6 (thorough 8) runes of 3, up to 3 (4) of 4 with order traps, up to 4 (5) Latin1 runes; every needle of up to 3 (4) runes, every single rune of an edge set, four predicates, every slice",
  why="str_test.cc searches one or two strings; partial matches, matches at the end, runes of different lengths and mixed encodings are not combined",
  files=["best/text/str.h", "best/text/encoding.h"],
  mech=[("split and search by rune or by code", "best/text/str.h"), ("rune iteration", "best/text/encoding.h")],
  note="Exhaustive within bounds on the real code, with exactly-sized heap buffers under ASan, against a reference that works on lists of runes decoded by an independent decoder."),
 dict(id="T02", title="Ill-formed text is searched, split and walked without harm",
  statement="A view of code units that need not be well formed can be walked from either end, searched, split, sliced and validated without ever reading outside it. Ill-formed stretches come out as replacement runes one code unit at a time in the permissive walks, are reported as errors in the strict ones, and never match a well-formed needle of another encoding; searching within one encoding compares code units.",
  over=["inputs"],
  quant="every string of up to 6 UTF-8, 5 WTF-8, 5 UTF-16, 5 UTF-32 and 5 ASCII code units (thorough 7, 7, 7, 6, 7) over alphabets of leading, continuation, surrogate and out-of-range units, with every needle of up to 2 units",
  why="str_test.cc has a handful of broken strings; a truncated sequence at the very end of a buffer in front of a search is not among them",
  files=["best/text/str.h", "best/text/encoding.h", "best/text/internal/utf.h"],
  mech=[("pretext iteration and search", "best/text/str.h"), ("error reporting", "best/text/encoding.h")],
  note="Exhaustive within bounds on the real code under ASan against an independent decoder. Order of ill-formed text in different encodings and the empty separator are left out (unspecified)."),
 dict(id="T03", title="A text buffer always holds exactly the text pushed into it, well formed",
  statement="After any sequence of pushing runes and text (of any encoding, or the buffer itself), failed pushes, truncation, clearing, copying, moving and conversion, a text buffer holds exactly the concatenation of what was accepted, in valid encoding. A push of something that the encoding cannot express is refused; bad code units are refused or replaced as the operation says. Growth keeps the content and the allocator, and slices are boundary-checked.",
  over=["histories", "inputs"],
  quant="every sequence of 3 (thorough 4) of 21 kinds of operations from 5 starting sizes around the inline capacity, for six encodings; every string of up to 4 units of 5 as construction input",
  why="strbuf_test.cc pushes a few strings; refusal half-way, growth from inline storage and self-append depend on the state reached",
  files=["best/text/strbuf.h", "best/text/str.h", "best/container/vec.h"],
  mech=[("push with transcoding", "best/text/strbuf.h"), ("construction from codes", "best/text/strbuf.h")],
  note="Exhaustive over operation sequences within bounds on the real code against a list-of-runes model, with leak accounting. Pushing a slice of the buffer's own ill-formed view is left out."),
 dict(id="N01", title="Parsing a number accepts exactly its spellings, with its exact value",
  statement="Parsing text as an integer succeeds exactly if the text is an optional sign followed by one or more digits of the radix and the value fits the type, and then gives that value; everything else is an error, never a wrapped value. The prefix form picks the radix from 0x, 0b, 0o or a leading 0. The outcome does not depend on the text's encoding.",
  over=["inputs"],
  quant="every string of up to 4 (thorough 5) of 15 characters in six radices for 8-bit types, up to 5 (6) of 7 for wider ones; in every radix 2..36 all numbers within 2 of each power of the radix and of the limits of eight types; all numbers of 16 bits",
  why="conv_test.cc parses a few numbers; overflow in exactly the last digit depends on radix, width and sign",
  files=["best/math/conv.h", "best/text/rune.h"],
  mech=[("digit loop with and without overflow checks", "best/math/conv.h")],
  note="Exhaustive within bounds on the real code against 128-bit arithmetic."),
 dict(id="N02", title="Overflow-tracking arithmetic is exact and never misses an overflow",
  statement="Each operation on overflow-tracking integers yields the exact result wrapped to the result type and reports overflow exactly if the exact result does not fit it; overflow is never lost by later operations or conversions. Checked, strict, wrapping and saturating results follow from that, division by zero crashes, and plain integers may be mixed in freely.",
  over=["inputs"],
  quant="24 pairs of operand types, all pairs of 8-bit values and all pairs of edge values (near 0, powers of two and limits) of wider types, 10 operators, compound forms, saturating forms, conversions",
  why="overflow_test.cc checks single values of int; small, mixed-sign and mixed-width types behave differently through promotion",
  files=["best/math/overflow.h", "best/math/int.h"],
  mech=[("operators", "best/math/overflow.h"), ("common type", "best/math/int.h")],
  note="Exhaustive for 8-bit types, edge sets for wider ones, against 128-bit arithmetic. Value of the remainder and ceiling of min / -1 are left out (pinned by a test as flagged only)."),
 dict(id="N03", title="Bit operations and integer comparisons are mathematically exact",
  statement="Counting, rotating, shifting and rounding to powers of two give what their definitions give on the bits of the value, for every integer type and every amount. Comparing integers of any two types compares the mathematical values, and conversions between them succeed exactly if the value fits; minimum, maximum and limits agree.",
  over=["inputs"],
  quant="every value of 8 and 16 bits and edge values of 32 and 64 bits of both signs, every shift and rotation amount 0..139; 23 pairs of types, all pairs of 8-bit values and of edge values",
  why="bit_test.cc and int_test.cc check int-sized samples; small types are promoted and signed shifts differ at the edges",
  files=["best/math/bit.h", "best/math/int.h"],
  mech=[("bit operations", "best/math/bit.h"), ("safe comparison", "best/math/int.h")],
  note="Exhaustive for 8/16-bit values, edge sets for wider ones, against bit-by-bit reference code."),
 dict(id="F01", title="Every number and pointer is printed exactly, in every base and padding",
  statement="Formatting an integer of any type under any specifier gives exactly the sign and digits of its value in the requested base, with the base prefix, minimum digits, width, fill and alignment asked for; nothing is lost at the limits of the type, and different routes (format, repr, debug) agree. Pointers and boxes print as their address.",
  over=["inputs"],
  quant="every 8-bit value and edge values of wider types, times every combination of base, prefix, case, precision, width, fill and alignment in the grid; pointers to several kinds of objects",
  why="format_test.cc prints a few integers; the smallest value of each type, zero with a precision and padding interact with prefixes and signs",
  files=["best/text/internal/format_impls.h", "best/text/format.h", "best/text/format.cc"],
  mech=[("integer formatting", "best/text/internal/format_impls.h"), ("fill and alignment", "best/text/format.cc")],
  note="Exhaustive within the grid on the real code against an independent printer."),
 dict(id="F02", title="A format template means exactly what its grammar says",
  statement="A format template is accepted exactly if it follows the grammar; then the output is its literal text with escapes undone and each replacement field substituted by the right argument, formatted under exactly the specifier written. Malformed templates, unknown arguments and out-of-range numbers are rejected and never read out of bounds.",
  over=["inputs"],
  quant="every template of up to 6 (thorough 7) characters of the significant alphabet, and every combination of the parts of a specifier",
  why="format_parser_test.cc samples templates; truncated fields and overlong numbers only show at particular positions",
  files=["best/text/internal/format_parser.h", "best/text/format.h", "best/text/format.cc"],
  mech=[("template grammar", "best/text/internal/format_parser.h"), ("argument substitution", "best/text/format.cc")],
  note="Exhaustive within bounds on the real code against an independent recogniser of the documented grammar. Text after '!' flags and braces as fill are left out (the documentation is silent)."),
 dict(id="F03", title="Strings, characters and structured values print faithfully, escaped and indented",
  statement="Text prints as itself, in the right encoding, cut to the precision, and in debug form quoted with each character escaped so that it can be read back; the same holds for single characters and for ill-formed code units. Lists, tuples, records and containers print their entries in order with separators, brackets and indentation that depend only on the structure, whatever was printed before and however the printing of an entry goes.",
  over=["inputs", "histories"],
  quant="every string of up to 4 characters of alphabets for each encoding, well-formed or not, times specifiers; all 1114112 code points; every tree of up to 5 (thorough 6) nodes, and every tree of 3 (4) nodes with titles, finishing, own specifiers and size advice, in both modes; all containers times 16 specifiers",
  why="format_test.cc prints single examples; newlines at block boundaries and nested specifiers need combinations",
  files=["best/text/format.h", "best/text/format.cc", "best/text/internal/format_impls.h", "best/text/rune.h"],
  mech=[("indented writing", "best/text/format.cc"), ("string and rune escaping", "best/text/internal/format_impls.h"), ("blocks", "best/text/format.h")],
  note="Exhaustive within bounds on the real code against an independent printer. Width padding of bools and runes and of quoted strings is left out (unspecified)."),

 dict(id="O01", title="An option holds exactly the value put in, or nothing, and never anything else",
  statement="After any sequence of operations on options (assigning, emplacing, resetting, copying, moving, swapping, converting to and from references and results, taking the value out), an option has a value exactly if one was put in last, it is that value, and every way to look at it agrees. Mapping, chaining, filtering and the logical operators call their callback exactly when there is a value, with the value in the category of the option, and nothing is copied, moved from or destroyed beyond that. Empty options of options, of references and of types with a niche stay distinguishable, and taking the value of an empty option ends the program.",
  over=["histories", "inputs", "configurations"],
  quant="every reachable state of two options under every sequence of 5 (thorough 7) of 37 operations, for ints, tracked, big trivial, non-assignable, move-only, niche, box and over-aligned types; references of each kind, void, and options of options; every method in every value category of the option and of its arguments and callbacks, over tracked, move-only, reference and void types",
  why="option_test.cc is a set of single calls on ints and a few fodder types; the storage differs between niche, trivial, reference and void options and moved-from states only arise in sequences",
  files=["best/container/option.h", "best/container/choice.h", "best/container/internal/choice.h", "best/container/internal/pun.h", "best/container/object.h"],
  mech=[("niche and tagged storage", "best/container/internal/choice.h"), ("value access and combinators", "best/container/option.h")],
  note="Exhaustive within bounds on the real code with ASan against a one-value model, with tracked objects. Reading moved-from boxes and copying options of rvalue references are left out."),
 dict(id="O02", title="A result is either its value or its error, through every operation",
  statement="After any sequence of assignments, conversions, copies, moves and swaps, a result holds exactly the value or the error last stored; all accessors and comparisons agree on which, ok sorts before err, and comparing against a bare value, ok() or err() gives the same answer as against a result. map(), map_err() and then() call their callback for their own side only and carry the other side over unchanged; nothing is copied or destroyed beyond that. Taking the value of an error ends the program with a message that shows the error.",
  over=["histories", "inputs", "configurations"],
  quant="every reachable state of two results under every sequence of 5 (thorough 7) of 23 operations, for 16 pairs of value and error types including void, niche, move-only, non-assignable, boxes and equal types; results of references; every method in every value category of the result and of its arguments and callbacks; error messages of 0 to 1199 characters",
  why="result_test.cc checks single calls on ints and strings; void sides, moved-from values and orderings against bare values are never compiled there",
  files=["best/container/result.h", "best/container/choice.h", "best/container/internal/choice.h", "best/log/internal/crash.cc", "best/text/format.h"],
  mech=[("two-alternative choice", "best/container/internal/choice.h"), ("map and then", "best/container/result.h"), ("crash message", "best/log/internal/crash.cc")],
  note="Exhaustive within bounds on the real code with ASan against a model, with tracked objects."),
 dict(id="O03", title="A choice holds exactly one alternative, and all access goes to it",
  statement="After any sequence of emplacements, assignments, copies, moves, swaps and permutations, a choice holds the alternative and value last stored; which(), every accessor, match() and index_match() agree on it and hand out that very object in the category of the choice, and the other alternatives are reported absent. Each stored value is destroyed exactly once. Choices compare by alternative first and then by value; permuting keeps the value; accessing the wrong alternative ends the program.",
  over=["histories", "inputs", "configurations"],
  quant="every reachable state of two choices under every sequence of 5 (thorough 7) of 19 operations and every alternative, for 15 lists of alternatives (single, repeated, void, references, niche, trivial, non-assignable, move-only, over-aligned); all permutations of three; 129 alternatives",
  why="choice_test.cc checks single accesses on numbers and one leak script; storage layout (tagged, niche, reference) and transitions between each pair of alternatives are far beyond it",
  files=["best/container/choice.h", "best/container/internal/choice.h", "best/container/internal/pun.h", "best/container/pun.h", "best/container/object.h"],
  mech=[("tag and storage", "best/container/internal/choice.h"), ("dispatch", "best/container/internal/choice.h"), ("permutation", "best/container/choice.h")],
  note="Exhaustive within bounds on the real code with ASan against a model, with tracked objects. Emplacing from a reference into the choice itself is left out."),
 dict(id="C01", title="Command lines mean what their flags struct declares",
  statement="For every argument list, parse_flags() either sets exactly the declared flags, positionals and subcommand fields that the arguments name, or fails with an error that says what is wrong, or asks for help on the command or group in question. Long names, aliases, letters, runs of letters, `=` values, groups (named, lettered, flattened, nested), `_` for `-`, `--` and subcommands all work together as documented; a flag that is not Repeated is refused the second time, and everything Required in the selected commands must be given.",
  over=["inputs", "histories", "configurations"],
  quant="every argument list of length up to 3 (thorough 4) over alphabets of 34 and 43 tokens, up to 2 (thorough 3) over 75 and 81 tokens, up to 5 (thorough 7) over 12 for required things; three flag structs that cover all kinds of entries, nested two deep",
  why="cli_test.cc parses about 70 fixed command lines, nearly all of one flag; combinations, order, wrong input and nested groups are never tried",
  files=["best/cli/parser.cc", "best/cli/parser.h", "best/cli/cli.h", "best/memory/span.h", "best/text/str.h"],
  mech=[("argument loop", "best/cli/parser.cc"), ("lookup tables", "best/cli/parser.cc"), ("field parsers", "best/cli/parser.h")],
  note="Exhaustive within bounds on the real code with ASan against a reference parser written from the documentation. Subcommand names after `--`, long names after a single dash and fields whose name equals a letter are left out."),
 dict(id="C02", title="Help pages list what is visible, and values are read strictly",
  statement="--help lists every public documented flag, alias, group and subcommand, --help-hidden also the hidden ones, and neither ever an invisible or deleted one; each is shown with its letter, argument name and full help text in the help column, on the page of the command or group that was asked about, and the usage line shows the visible letters and positionals. Everything but deleted names is accepted. Bools, runes and texts are accepted exactly if they are spelled and encoded correctly, and are stored as given.",
  over=["configurations", "inputs"],
  quant="17 flags with every visibility of names, letters and aliases, in a group of each kind and a subcommand of each visibility, both pages, every spelling of every name; 32 subsets of the application tags; all words of up to 4 (thorough 5) of 17 characters as bools, all strings of up to 4 (thorough 5) of 13 bytes as runes and texts",
  why="cli_test.cc compares the pages of one struct; other visibilities, letter-only groups, missing tags and malformed values are not covered",
  files=["best/cli/parser.cc", "best/cli/parser.h", "best/cli/cli.h"],
  mech=[("usage", "best/cli/parser.cc"), ("visibility", "best/cli/parser.cc"), ("BestFromArgv", "best/cli/parser.h")],
  note="Exhaustive within bounds on the real code with ASan. The order of entries is only pinned by the existing tests. How flags of letter-only groups are listed is left open."),
 dict(id="C03", title="An app runs once, with its arguments, and its outcome becomes the exit code",
  statement="best::app::start() runs the installed function exactly once, with exe() and argv() as passed to the program and with parsed flags if it takes them; it then exits with 0, the returned code, or a crash showing the error of a result. If the flags cannot be parsed the function is not run: errors go to stderr with code 128 (or the code given), help to stdout with code 0. Missing, repeated or restarted apps end the program.",
  over=["histories", "inputs", "configurations"],
  quant="11 kinds of app, 3 program names, 6 return values, all lists of up to 2 (thorough 3) of 11 arguments, each in a process of its own; 5 misuses; error exits with 5 codes and 5 messages",
  why="nothing in the test suite runs an app or print_and_exit()",
  files=["best/cli/app.h", "best/cli/app.cc", "best/cli/cli.cc"],
  mech=[("start", "best/cli/app.cc"), ("shims", "best/cli/app.h"), ("print_and_exit", "best/cli/cli.cc")],
  note="Exhaustive within bounds on the real code, one process per execution."),

 dict(id="M01", title="Allocated memory is aligned, private, keeps its bytes and is freed as it was got",
  statement="Every block that best::malloc hands out has at least the size and the alignment of its layout and overlaps no other live block; zalloc() gives zeroes; resizing keeps the common prefix of the bytes, moves nothing else, and takes the block through any change of size and alignment; freeing a block with its layout releases all of it and nothing more. This holds for every alignment, also beyond what the system's malloc() provides, and for vectors of such elements. When the system's allocator fails, whichever call it is, the program ends with a message and no null block is handed out. Where a block is freed or resized with the wrong layout, and the header can tell, the program ends instead of damaging the heap.",
  over=["histories", "inputs", "configurations"],
  quant="all sequences of 4 (thorough 5) allocations, resizes and frees over 6 layouts and of 2 (thorough 3) over 25 layouts of sizes up to 70016 and alignments up to 4096; every pair of layouts as right and wrong one; vectors of 64- and 128-aligned elements through all sequences of 5 (6) operations; histories with each single call of the system's allocator made to fail",
  why="there is no test of the allocator; over-aligned blocks with their hidden header, and their resizing, are never exercised",
  files=["best/memory/allocator.h", "best/memory/allocator.cc", "best/container/vec.h"],
  mech=[("over-aligned headers", "best/memory/allocator.cc"), ("growing vectors", "best/container/vec.h")],
  note="Exhaustive within bounds on the real code with ASan and leak checking, each block filled with its own pattern and compared after each step."),
 dict(id="M02", title="Layouts are those of the compiler, and array sizes never wrap",
  statement="best::layout::of, of_struct and of_union (and size_of, align_of) give the size and alignment that the compiler gives the corresponding object, struct or union, with references and functions as pointers and void as an empty object; an array's layout is the size times the length, and crashes rather than wrapping when that overflows. fits_in(), comparison and printing agree with the size and alignment; a block laid out for one is usable as a value of the type.",
  over=["configurations", "inputs"],
  quant="all structs and unions of up to 2 of 19 types and of 3 of 10 types; all pairs of 7 x 257 layouts; arrays of 9 types with every length around every power of two and around each overflow point; blocks of 24 layouts",
  why="layout_test.cc compares a handful of fixed structs; overflow and unusual members are not covered",
  files=["best/memory/layout.h", "best/memory/internal/layout.h", "best/container/object.h"],
  mech=[("struct layout", "best/memory/internal/layout.h"), ("array overflow", "best/memory/layout.h")],
  note="Exhaustive within bounds; the oracle is a real struct or union of the same members. Arrays between half of and all of the address space are not claimed either way."),
 dict(id="B01", title="A box owns exactly one value (or array) and frees it exactly once",
  statement="After any sequence of constructions, moves, copies, assignments, swaps, conversions, leaks and re-adoptions, each box holds the value or array last given to it, moving hands over the very same object without copying it, copying makes an independent one, and every object is destroyed exactly once and its memory returned to the allocator it came from. Access respects the constness of the value, indexing and iterating an array checks its bounds, boxes compare as their values do, and options of boxes take no extra space and distinguish every value from none.",
  over=["histories", "inputs", "configurations"],
  quant="all sequences of 3 (thorough 4) of 14 operations on two boxes of each of 10 kinds (ints, tracked, over-aligned, move-only, const, references, stateful allocators); all sequences of 2 (3) of 9 operations on arrays of 0 to 3; all conversions and comparisons of small values",
  why="box_test.cc makes single boxes and moves them once; allocators with state, const and reference boxes do not even compile there",
  files=["best/container/box.h", "best/memory/ptr.h", "best/memory/allocator.h", "best/memory/internal/ptr.h"],
  mech=[("ownership", "best/container/box.h"), ("copy and destroy by metadata", "best/memory/ptr.h")],
  note="Exhaustive within bounds on the real code with ASan and a counting allocator. Reading moved-from boxes, copying boxes of void and which allocator survives a copy-assignment into a full box are left out."),
 dict(id="D01", title="Calls through interfaces reach the function and the object they were made for",
  statement="A call through a best::dynptr, dynbox, itable or Interface::of() runs the function of the object's own type (or the interface's default where it has none) on that very object, with the arguments and result passed on unchanged in number, order and category; that stays so when the handle is copied, moved, swapped, converted to const or to one of several interfaces, put in options or vectors. Boxes own their value: copies are independent and possible exactly if the type is copyable, and each value is destroyed exactly once, as what it is, also when overwritten by a value of another type. Const handles do not give mutable access, and calling through null ends the program.",
  over=["histories", "configurations", "inputs"],
  quant="all sequences of 4 (thorough 5) of 9 operations on two boxes of 6 kinds of values, and of 3 (4) of 5 operations on boxes of two interfaces, with all functions called after each step; 10 ways to reach an interface for each kind; overwriting every kind by every other",
  why="dyn_test.cc calls one interface on two types; defaults, several interfaces, const, copying and overwriting with other types are not tried",
  files=["best/func/dyn.h", "best/func/internal/dyn.h", "best/memory/ptr.h", "best/container/box.h"],
  mech=[("vtables and itables", "best/func/internal/dyn.h"), ("handles", "best/func/dyn.h"), ("metadata of pointers", "best/memory/ptr.h")],
  note="Exhaustive within bounds on the real code with ASan and tracked objects, against a tagged value."),

 dict(id="P01", title="Pointers move exactly the objects asked for, and measure and convert truly",
  statement="best::ptr's construct, assign, destroy, copy, move and relo families (also their assigning and overlapping forms) leave exactly the objects they should in the destination, in order, moved-from or gone from the source as named, construct, assign and destroy each object exactly once, and touch nothing outside of the ranges, whichever way the ranges overlap. Arithmetic, differences and comparisons follow the addresses in units of the layout; conversions to bases, const, void and arrays give the address and length of that very part; fat pointers compare by address and then length. Using a null or dangling pointer ends the program.",
  over=["histories", "inputs", "configurations"],
  quant="14 operations on every pair of ranges of slots from every set of live slots: single ones on 6 slots, all pairs of them on 4 (thorough 5, and triples on 3), for 11 element types (trivial, tracked, relocatable, over-aligned, non-assignable, move-only, references, arrays); all pairs of places in arrays of 9 types; all pairs of ranges of 4; 10 uses of bad pointers of 5 types",
  why="ptr_test.cc dereferences and converts a few pointers; none of the operations that move objects is called with a count, let alone overlapping",
  files=["best/memory/ptr.h", "best/memory/internal/ptr.h", "best/base/ord.h"],
  mech=[("copy_impl and relo_overlapping", "best/memory/ptr.h"), ("metadata", "best/memory/internal/ptr.h")],
  note="Exhaustive within bounds on the real code with ASan and tracked objects, against a model of the slots. Comparing pointers to different bases of one object and volatile pointers are left out."),

 dict(id="L01", title="Calls, fnrefs, taps, defers and arrows run exactly what they wrap",
  statement="best::call runs the very callable std::invoke would, once, with each argument and the callable itself in the value category given, and gives back its result unchanged; best::callable, call_params and call_devoid answer accordingly. A fnref runs the function it was last made from (functions, functors, lambdas, raw pointers), with the arguments as given, and compares to null truly; copies refer to the same function. A tap runs its callback once with the value piped into it and the arguments bound to it, and gives the result; inspect gives back the value it was given. A defer runs its callback exactly once, at run() or at the end of its scope, and never once cancelled. An arrow reaches exactly the object it was made from.",
  over=["inputs", "histories"],
  quant="13 functors, members and functions in all 4 value categories with 0-3 arguments in all 4 categories; all sequences of 4 (thorough 5) of 14 operations on two fnrefs (mutable and const); taps and bound taps over value, tap and argument categories; all scripts of up to 4 (thorough 6) run/cancel on two nested, owning or bound, re-entrant defers; arrows over values, proxies and calls",
  why="fnref_test, tap_test and defer_test run each wrapper once or twice with one functor; qualifiers of the callable, categories of the arguments and re-entrancy are not varied",
  files=["best/func/call.h", "best/func/fnref.h", "best/func/tap.h", "best/func/defer.h", "best/func/arrow.h"],
  mech=[("call and callable", "best/func/internal/call.h"), ("fnref", "best/func/fnref.h")],
  note="Exhaustive within bounds on the real code, against std::invoke and a log of the calls. A type list as the first argument of call, functors returning rvalue references through fnrefs, raw fnrefs with null data, functions of merely convertible signature and taps made from lvalue callables are left out."),
 dict(id="O04", title="Rows hold and rearrange exactly the given elements, in the given order",
  statement="A row is the list of its elements: construction, indexing (by position, type, key and tag), first, last, slices, appends and insertions, updates, removals and splices, gather and scatter, joins, select and apply give exactly the elements of that list operation, each of the type and value category asked for, each copied, moved, constructed and destroyed exactly once. Comparison is lexicographic over the elements; for_each visits each element once, in order; rows of references refer to the very objects, rows of void elements hold the place. No operation touches an element it does not name.",
  over=["inputs", "configurations"],
  quant="all rows of 0-5 elements (each position a type of its own), every slice and splice (range and insertion) of them in 4 value categories; every position for insert, update, remove; all lists of up to 3 positions for gather, scatter and select; rows with references, void, empty and duplicated types; all comparisons of rows over 3 values",
  why="row_test.cc runs each operation on one or two rows of ints in one category; wrong positions at the ends, copies instead of moves, and lost or doubly destroyed elements need every position, category and tracked elements",
  files=["best/container/row.h", "best/container/internal/row.h", "best/meta/tlist.h"],
  mech=[("splice and gather", "best/container/row.h"), ("row_impl", "best/container/internal/row.h")],
  note="Exhaustive within bounds on the real code with ASan and tracked objects, against lists of (type, value). Gathering one element twice from an expiring row and applying to void elements of an expiring row are left out."),

 dict(id="O05", title="Objects and puns hold any type, and act only on the alternative they hold",
  statement="A best::object<T> stores a value of any T (objects, references, void, arrays, functions) and constructs, copies, moves, assigns, compares, dereferences and formats exactly as a T would: references are rebound, arrays are handled element by element, each element is constructed and destroyed once. A best::pun holds whichever alternative was last constructed in it: get() and object() reach exactly that one, in the category of the pun; a pun copies only if every alternative is trivially copyable, and never destroys anything itself.",
  over=["histories", "configurations"],
  quant="all scripts of up to 3 (thorough 4) constructions, copies, moves, assignments (also from convertible values and from itself) over 10 types of object and arrays; all scripts of 3 (thorough 4) selections over puns of 1, 2, 3 and 6 alternatives, and a pun of void, a reference, an array and a number",
  why="object_test.cc and pun_test.cc construct one or two values of each; leaks and double destructions of replaced arrays, references written through instead of rebound, and wrong alternatives need sequences with tracked elements",
  files=["best/container/object.h", "best/container/pun.h", "best/container/internal/pun.h"],
  mech=[("object assignment", "best/container/object.h"), ("pun::impl", "best/container/internal/pun.h")],
  note="Exhaustive within bounds on the real code with ASan and tracked objects. object<T[n]>() without arguments leaves its elements to T's default constructor, and is not examined. One known finding: puns that cannot be copied still have move operations, which do nothing."),


 dict(id="L02", title="Type lists and operators compute what the list of their types says",
  statement="best::tlist operations are those of the list: at, [] and slices reach the named elements (or the default given), splice, insert, update, remove, push, pop, trim and join give the named lists, gather and scatter pick and place by index (writes outside of the list are discarded), find, find_unique and is_unique report the first (or only) position of a type, map, each, apply and reduce visit each element once in order, and comparison is lexicographic. best::operate<op>(...) gives the result, type and category of the C++ operator of the same name, for every operator, and evaluates or folds each operand once.",
  over=["inputs", "configurations"],
  quant="all lists of 0-5 types and values, every position, slice and insertion, out-of-range indices and defaults; all lists of indices of up to 3 for gather and scatter; all pairs of lists for join, comparison, prefixes and suffixes; all operators of best::op on operands logging what ran, and folds of up to 4 operands",
  why="tlist_test.cc and ops_test.cc use one list and a few operators; positions at the ends, empty lists, duplicates, and each further operator are instantiations no test compiles",
  files=["best/meta/tlist.h", "best/meta/internal/tlist.h", "best/meta/ops.h", "best/meta/internal/ops.h"],
  mech=[("tlist", "best/meta/tlist.h"), ("operate", "best/meta/ops.h")],
  note="Exhaustive within bounds: the compiler evaluates every member of the grid on the real headers and the harness compares the resulting list with a list model at run time. That at() and splice() refuse bad arguments is not examined."),

 dict(id="F04", title="Reflection shows exactly a type's fields, enumerators, names and tags",
  statement="best::reflect<T> visits each visible field of a struct once, in order, with its name, type, address and tags, in the category of the object given; fields hidden by BestReflect are absent from each, apply, match, fields, zip_fields and formatting, and tags are those attached, in order. For enums it lists the enumerators within the searched range (or those listed), once each in order; matching a value or a name finds the enumerator with that value or name or none, for every value of the type. type_names, value_name and field_name are the names in the source for plain, nested and templated types. Bit enums behave as their underlying integer.",
  over=["inputs", "configurations"],
  quant="structs of every number of fields from 0 to 64; all 64 combinations of nothing, one tag, two tags and hidden over three fields of different types; 15 shapes of enum with every value in -2..69, around each enumerator and the extremes; names of 14 shapes of type; all pairs of 8-bit values for bit enums",
  why="reflect_test.cc reflects one struct and one enum; dropped or reordered fields, lost tags, off-by-one ranges and tables read past their end need counts at the edges, combinations of tags, and values that are not enumerators",
  files=["best/meta/reflect.h", "best/meta/internal/reflect.h", "best/meta/names.h", "best/meta/internal/names.h", "best/meta/bit_enum.h"],
  mech=[("reflect", "best/meta/reflect.h"), ("tables of values", "best/meta/internal/reflect.h")],
  note="Exhaustive within bounds on the real code with ASan. Structs without linkage, with private fields, or with array fields cannot be reflected and are not examined."),

 dict(id="E01", title="A failed check ends the program, naming the caller's line and the true values",
  statement="Every precondition that the library checks and that fails (an index, a slice or a swap out of bounds, the value of an empty option, the wrong side of a result or choice, a failed strict or division) ends the process through best's crash handler with its exit code and never goes on; the report names the file and line of the caller, or the location that was passed explicitly, and shows the values actually compared. Checks that succeed report nothing. best::location and best::track_location carry the place they were made through copies and conversions.",
  over=["inputs", "configurations"],
  quant="every checked operation of span, vec, str, strbuf, pretext, option, result, choice, strict and div; every index and bound in -1..n+2 and at the extremes for lengths 0-4; four value categories; implicit and explicit locations",
  why="tests never run a failing check, since it ends the process; a check that is dropped, reports its own header's line, or prints wrong values is invisible to them",
  files=["best/log/internal/crash.h", "best/log/internal/crash.cc", "best/log/location.h", "best/memory/span.h", "best/container/option.h", "best/container/result.h", "best/container/choice.h", "best/math/overflow.h", "best/text/str.h"],
  mech=[("crash handler", "best/log/internal/crash.cc"), ("tracked locations", "best/log/location.h"), ("bounds", "best/iter/bounds.h")],
  note="Exhaustive within bounds on the real code; each failing operation runs in a child process whose exit code and report are compared with the model's."),
]
NOT_APPLICABLE = {}
