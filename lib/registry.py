"""What each check builds and what it explores. bounds: (quick, thorough) as text for the evidence."""

COMMON = [
    "g++ 13, 64-bit Linux build of /repo's Source with -O1 and AddressSanitizer; Windows sources are not built",
    "the storage-release check counts the blocks of the C++ allocator in one execution",
]


def B(quick, thorough):
    return {"quick": quick, "thorough": thorough}


CHECKS = {
    "P01": dict(harness=["p01_ptr.cpp"], bounds=B(
        "object graphs: 2 variables to depth 14 and 3 variables to depth 8 with state matching, every history to depth 5 without; cast, detach and intrusive histories to depth 10; 1..300 handles to one object",
        "object graphs: 2 variables to depth 24, 3 variables to depth 12, every history to depth 6; cast, detach and intrusive histories to depth 16; 1..1200 handles")),
    "P02": dict(harness=["p02_comptr.cpp"], bounds=B(
        "2 variables to depth 14, 3 to depth 8 with state matching, every history to depth 5 without; 1..300 handles",
        "2 variables to depth 24, 3 to depth 12, every history to depth 6; 1..1200 handles")),
    "P03": dict(harness=["p03_threads.cpp"], mode="sched", bounds=B(
        "2 threads with every pair of programs of 2 operations and every interleaving; 2 threads with 3 operations and 2 preemptions; 3 threads with 1 operation each; shared pointers (plain, intrusive), COM-style handles, strings of five types, function objects",
        "2 threads with 3 operations and every interleaving, 4 operations and 2 preemptions; 3 threads with 2 operations and 2 preemptions"),
        assumptions=["interleavings of atomic operations are explored under sequential consistency; weaker orders are covered by the happens-before race check", "a program without races behaves as one of the explored interleavings"]),
    "P04": dict(harness=["p04_string_ops.cpp"], bounds=B(
        "every content up to 5 characters of 3 classes (zero characters: up to 3), every representation, every argument from below to above its range; every pair up to 2 characters; lengths 0..140; five character types; positions and counts at the limits of vint; sizes around powers of two and ten up to 1025",
        "contents up to 7 characters (zero characters: 5), pairs up to 3; lengths 0..600; sizes around powers of two and ten up to 66000")),
    "P05": dict(harness=["p05_string_sharing.cpp"], bounds=B(
        "2 variables to depth 4 (wchar_t) and 3 (other types), 3 variables to depth 3; every release order of up to 4 sharers; 1..300 copies",
        "2 variables to depth 5 and 4, 3 variables to depth 4; 1..1000 copies")),
    "P06": dict(harness=["p06_string_order.cpp"], bounds=B(
        "every pair of contents up to 3 characters (with zero characters: 2) in every pair of representations, parts of one buffer of 6, common prefixes up to 64; five character types; sizes around powers of two and ten up to 4097; every code unit against its neighbours and the limits",
        "pairs up to 4 (3) characters, one buffer of 8, prefixes up to 200; sizes around powers of two and ten up to 66000")),
    "P07": dict(harness=["p07_utf_roundtrip.cpp"], bounds=B(
        "every scalar value alone; every sequence of up to 3 of the scalar classes; lengths 0..299 in 4 phases; every 31-bit class boundary of UTF-8; parts of strings; 1..40 equal scalars of 6 classes with one of another class at every place; sizes around powers of two and ten up to 2050",
        "sequences of up to 4 classes; lengths 0..1999; 140 equal scalars with a different one; sizes around powers of two and ten up to 66000")),
    "P08": dict(harness=["p08_utf_malformed.cpp"], bounds=B(
        "every sequence of up to 3 of 22 byte classes, up to 4 of 11 unit classes (UTF-16), up to 3 of 16 classes (UTF-32); all byte pairs, all UTF-16 units in 4 contexts; every truncation; UTF-8 forms of 2..6 bytes, shortest and overlong, around all limits; every output buffer size from 0; sizes around powers of two and ten up to 513",
        "sequences of up to 4 / 5 / 4 classes, all third bytes; sizes around powers of two and ten up to 17000")),
    "P09": dict(harness=["p09_utf_readers.cpp"], bounds=B(
        "every sequence of up to 3 scalar classes and every scalar value for all pairs of encodings; UTF-8 sequences of up to six bytes; lengths 0..149 in 4 phases; malformed tails; 1..22 equal scalars with a different one at every place; sizes around powers of two and ten up to 257",
        "sequences of up to 4 classes; lengths 0..999; 120 equal scalars with a different one; sizes around powers of two and ten up to 4097")),
    "P10": dict(harness=["p10_numbers.cpp"], bounds=B(
        "every text of up to 5 of 8 symbols (integers and floating point); within 4 of every power of two and ten; 131072 consecutive integers; every exponent with 7 mantissas; every n.nnn below 200",
        "texts of up to 6 symbols; 2 million integers; n.nnn below 2000")),
    "P11": dict(harness=["p11_case.cpp"], bounds=B(
        "every wide character below 0x110000 in the C and the C.UTF-8 locale, every narrow sequence of up to 2, every sequence of up to 3 of 13 wide classes, lengths 0..399, every representation; 1..40 equal characters with a different one at every place; sizes around powers of two and ten up to 4097",
        "wide sequences of up to 4 classes; sizes around powers of two and ten up to 66000")),
    "P12": dict(harness=["p12_array_list.cpp"], bounds=B(
        "lists of every size to 26 and capacity reached by every preparation followed by every operation, of size to 7 (5) followed by every two; every history from empty to depth 4 (3 for strings); growth to 80; arrays to depth 4; resize chains over sizes 0..19; positions and sizes at the limits of vint; sizes around powers of two and ten up to 4097 (strings and tracked objects 1025); values of every integer type at its limits; elements with only equality; elements with constructors of their own and nothing to destroy; default values after every chain of three sizes up to 11; every collection of up to 4 objects replaced by the one inside any of them",
        "sizes to 40, to 13 (10); histories to depth 5; growth to 400; arrays to depth 6; resize chains of 4 over 0..23; sizes around powers of two and ten up to 66000 (10001)")),
    "P13": dict(harness=["p13_sorted_list.cpp"], bounds=B(
        "every history to depth 4 over 3..4 keys (strings 3); every insertion sequence of up to 6 elements over 5 keys; every probe of lists of size 0..69; runs of duplicates in lists up to 39; sizes around powers of two and ten up to 4097; values at the limits of their types",
        "histories to depth 5; insertion sequences of up to 8; sizes to 199; duplicates to 79; sizes around powers of two and ten up to 32769")),
    "P14": dict(harness=["p14_dictionary.cpp"], bounds=B(
        "every history to depth 4 over 3 keys (3 with all overloads, or strings); every insertion order of up to 6 keys; growth to 39; sizes around powers of two and ten up to 4097 (owned values 2050, strings 1025); keys at the limits of their types; every dictionary of up to 4 keys replaced by the one inside any value",
        "histories to depth 5 (4); orders of up to 7 keys; growth to 119; sizes around powers of two and ten up to 16385 (4097)")),
    "P15": dict(harness=["p15_group.cpp"], bounds=B(
        "every history to depth 4 over 3 keys (3 with all overloads, or strings); every filling of up to 6 associations followed by every emptying; joins of every pair of groups over 5 keys; sizes around powers of two and ten up to 1025 (strings 513); keys and values at the limits of their types; every group of up to 4 keys replaced by the one inside any value",
        "histories to depth 5 (4); up to 7 associations; 6 keys; sizes around powers of two and ten up to 4097")),
    "P16": dict(harness=["p16_enumerators.cpp"], bounds=B(
        "every interleaving of Next/Clone/Reset/read to depth 4..6 on up to 3 enumerators, over every container and lazy operation with sources of 0..4 elements, a copy standing at the position of its original in every state, and every stack of two lazy operations to depth 3; sizes around powers of two and ten up to 513",
        "depth 5..7, stacks to depth 4; sizes around powers of two and ten up to 2050")),
    "P17": dict(harness=["p17_pipelines.cpp"], bounds=B(
        "every composition of up to 3 operations over sources of up to 2 elements, 2 operations over up to 4, 1 over up to 7; all comparisons of sequences up to 4 over 3 values, and of sequences with unordered elements; the set operations over shared pointers; how much is computed for every prefix of every result of up to 2 operations over up to 4 elements; sizes around powers of two and ten up to 513; values and counts at the limits of their types; 1..24 equal elements with two different ones at every place; a sequence replaced by the one its own function owns",
        "4 operations over 2 elements, 2 over 5, 1 over 9; sequences up to 5; sizes around powers of two and ten up to 2050")),
    "P18": dict(harness=["p18_copy_from.cpp"], bounds=B(
        "every kind of source and target, contents up to 3 elements over 3 values (strings 2), previous contents up to 3; sizes to 12 + 20; maps of up to 3 associations; strings up to 3; elements converted between types; every collection copied or appended to itself; sizes around powers of two and ten up to 1025",
        "contents up to 4 elements, sizes to 20 + 40, maps of up to 4, strings up to 4; sizes around powers of two and ten up to 4097")),
    "P19": dict(harness=["p19_sort.cpp"], bounds=B(
        "every sequence of up to 8 elements over 4 keys in 6 ways of calling, every 0/1 sequence of 8..16, every permutation of up to 9, 8 shapes of every length below 120, partially unordered sequences of up to 5; sorted, reversed and constant sequences of 2..31 with every element moved, swapped or replaced; sizes around powers of two and ten up to 4097; values at the limits of their types",
        "up to 10 over 4 keys, 0/1 to 20, permutations to 10, shapes below 400, unordered up to 6; sizes around powers of two and ten up to 16385")),
    "P20": dict(harness=["p20_partial_ordering.cpp"], bounds=B(
        "every graph of up to 4 items with loops, every graph of 5 items without, every acyclic graph of 6 in index order, every grouping into subclasses of every graph of up to 3 (4 without loops), chains and cycles to 60; 4 cycles of 1..3 items linked in every way, graphs of 5 items with up to 2 dependencies in every grouping; a refused initialisation before and a second one after every graph of up to 3 items; 9 shapes of graphs with sizes around powers of two and ten up to 257",
        "acyclic graphs of 7, chains to 200, 5 linked cycles; shapes up to 513")),
    "P21": dict(plain=True, harness=["p21_nullable.cpp"], bounds=B(
        "every history over 2 variables to depth 4 (3 for strings and numbers) and over 3 to depth 3, for six element types, every state also compared with itself; chains of up to 4 replaced by their next",
        "depth 5..6 and 4")),
    "P22": dict(plain=True, harness=["p22_variant.cpp"], bounds=B(
        "every history of one variant to depth 3, of two to depth 2, of a variant with repeated types to depth 4, of two variants with alternatives of mixed sizes and alignments to depth 3; move-only and unassignable alternatives; every way of assigning a part of the current value, to depth 3",
        "depth 4, 3, 5, 4; parts to depth 4")),
    "P23": dict(plain=True, harness=["p23_func.cpp"], bounds=B(
        "every history over 3 function objects to depth 4 over 6 kinds of callables; every signature form x callable form; sizes around powers of two and ten up to 257",
        "depth 5; sizes around powers of two and ten up to 4097")),
    "P24": dict(harness=["p24_event.cpp"], bounds=B(
        "every history over 2 events to depth 5; every combination of removal and handle release of up to 4 callbacks; every way of passing arguments; sizes around powers of two and ten up to 1025",
        "depth 6, 5 callbacks; sizes around powers of two and ten up to 4097")),
    "P25": dict(harness=["p25_tuple_pair.cpp"], bounds=B(
        "every pair of values of pairs and tuples of 1..5 elements over 3..4 element values including unordered ones, each also compared with itself; histories to depth 3..4, also with elements that are references; values at the limits of their types",
        "4 element values, histories to depth 4..5")),
    "P26": dict(harness=["p26_global_storage.cpp"], bounds=B(
        "every history of accesses and finalisations to depth 5 over 2 storages, 4 over 3 and 4 storages that use each other; each in a process of its own, including its exit; storages that finalise each other; up to 64 storages in 3 orders and 3 rounds",
        "depth 7, 6, 5")),
    "P27": dict(harness=["p27_datetime.cpp"], bounds=B(
        "every day of 1971..2102 and of selected later years in 8 time zones, every hour around changes of the offset, distances over a grid",
        "the same calendar with a finer grid")),
    "P28": dict(harness=["p28_collection_reference.cpp"], bounds=B(
        "every history over 2 collections of 6 kinds to depth 4..5", "depth 5..6")),
    "P29": dict(harness=["p29_byte_map.cpp"], bounds=B(
        "every ordered pair of the 256 keys, every history to depth 3 over two maps with one allocator, full maps in several orders, block sizes 1..9 with up to 40 allocations",
        "depth 4, up to 100 allocations")),
    "P30": dict(harness=["p30_unittest.cpp"], bounds=B(
        "every pair of 14 case outcomes in 3 arrangements, every program of up to 2 nodes with nesting 2, two files of up to 2 nodes, every sequence of up to 3 of 14 options; 3..257 cases with failures at 4 kinds of places, categories nested 1..40 deep",
        "4 outcomes in programs, nested nodes in two files; 2049 cases, 200 levels")),
    "P31": dict(harness=["p31_lorem.cpp"], bounds=B(
        "every length -2..120, negative ones down to the limit, x 3 casings from 120 positions, titles and sentences 0..120, paragraphs 2..150 with 4 faces for each of the first 5 random numbers; sizes around powers of two and ten up to 4097",
        "lengths to 400 from 700 positions, paragraphs to 200 with 8 faces; sizes around powers of two and ten up to 100000")),
    "P32": dict(harness=["p32_readers.cpp"], mode="sched", bounds=B(
        "2 threads with every pair of sequences of 1..3 reading operations per kind of object (array, list, sorted list, dictionary, group, 15 lazy pipelines and the members of their enumerators, the functions that take collections, every reading member of strings and their conversions, number and case functions, values, callables, byte map), 3 threads on a list; every interleaving with up to 2..3 preemptions",
        "up to 4 preemptions, longer sequences"),
        assumptions=["interleavings of atomic operations are explored under sequential consistency; weaker orders are covered by the happens-before race check"]),
    "P33": dict(harness=["p33_console.cpp"], bounds=B(
        "every sequence of up to 2 calls over 6 forms and 6..9 texts in two locales, up to 4 calls over 2 texts; every length to 600; every scalar value; texts the locale cannot show at every place of short histories; 16 colours; every input of up to 6 symbols and every line length to 600",
        "sequences of up to 3 and 5 calls; lengths to 5000; inputs of up to 7 symbols"),
        assumptions=COMMON + ["standard output and input are redirected to memory files; C and C.UTF-8 locales", "standard streams stay synchronised with C stdio, as they are by default"]),
    "P34": dict(harness=["p34_exceptions.cpp"], bounds=B(
        "an exception at every call: 20 pipeline operations over sources of 0..4 elements, their pairs (0..3) and triples (0..1) in up to 13 ways of reading; interrupted enumerators in 4 continuations; every search and change of lists, sorted lists, dictionaries and groups of up to 4..5 elements; sorting every sequence of up to 5 over 3 values; joins, events with up to 4 callbacks, function objects, variants, relations over up to 3 items",
        "sources of up to 5, containers of up to 5..7, sorting up to 6")),
}
for _spec in CHECKS.values():
    _spec.setdefault("assumptions", COMMON)
