#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Word primitives are exact on every 64-bit word, in every build configuration",
 "For every 64-bit word, population count, per-byte counts, select-in-word, most/least significant set bit, bit and byte reversal, single-bit position, same-MSB test (non-zero words) and the bytewise/9-bit-fieldwise comparisons return exactly what their mathematical definition says (with the zero-word case of msb/lsb reported as 'not found', and leq_step_8 claimed for bytes whose top bits agree). "
 "The results are the same whether the library is built with or without intrinsics and with or without hardware popcount.",
 ["inputs", "configurations"], "all 64-bit words (and all valid ranks k < popcount for select-in-word), the intrinsics / no-intrinsics / popcnt configurations",
 "The tests never call these functions directly except msb on 15 constants; they see a few thousand words drawn with srand(42) and only one of the three configurations is ever built.",
 ["broadword.hpp", "intrinsics.hpp", "tables.hpp"],
 [("SWAR arithmetic and select table", "broadword.hpp:popcount/byte_counts/select_in_word/..."), ("2048-entry table", "tables.hpp:select_in_byte"), ("bsf/bsr/bswap wrappers", "intrinsics.hpp")],
 ["return values of the broadword functions"])

prop("C02", "A bit builder holds exactly the bits its operation history says",
 "After any sequence of construction (size, initial value), push_back, set, set_bits, append_bits, zero_extend, one_extend, append of another builder, reverse, reserve and swap with valid arguments, the builder's size and every bit equal those of the obvious sequence-of-bits model, and so does the bit vector built from it. "
 "Bits of the storage past the logical end stay zero, so that later appends and whole-word consumers are not corrupted, and no operation writes outside the builder's storage.",
 ["inputs", "histories"], "all operation sequences and all argument values (positions, lengths 0..64, bit patterns, sizes at and around word boundaries)",
 "The tests run push_back, set, append_bits, set_bits and reverse once each on fixed inputs; zero_extend, one_extend, append, reserve, swap and every interleaving of operations are untested.",
 ["bit_vector.hpp"],
 [("current-word pointer and word vector kept in step", "bit_vector.hpp:bit_vector_builder"), ("shift/carry across words", "bit_vector.hpp:append_bits, append, set_bits, reverse")],
 ["bit_vector_builder::size", "bit_vector built from the builder"],
 [("m_bits", "words", "bit_vector.hpp"), ("m_size", "logical size", "bit_vector.hpp"), ("m_cur_word", "word that receives the next bit", "bit_vector.hpp")])

prop("C03", "Random access to a bit vector returns exactly the stored bits",
 "For every bit sequence, whether given as a range or as a builder, a bit vector reports its size, operator[] returns the stored bit, get_bits(pos, len) returns the len bits (0..64) from pos in LSB-first order, get_word(pos) returns the next 64 bits with zeros past the end, and get_word56 agrees on at least the low 56 bits wherever a whole 8-byte read lies inside the storage. "
 "No read with valid arguments touches memory outside the vector's words.",
 ["inputs"], "all bit contents, sizes, positions and lengths with pos + len <= size",
 "Tests read back fifteen concatenated integers and single bits of one random vector; positions/lengths straddling words are a handful of samples and get_word/get_word56 are never checked.",
 ["bit_vector.hpp"], [("word/shift arithmetic", "bit_vector.hpp:get_bits, get_word, get_word56, operator[]"), ("range packing", "bit_vector.hpp:bit_vector(Range)")],
 ["operator[]", "get_bits", "get_word", "get_word56", "size"])

prop("C04", "Predecessor and successor queries find the nearest bit of the asked value",
 "For every bit vector and position, predecessor0/1(pos) returns the largest position <= pos and successor0/1(pos) the smallest position >= pos that holds the asked bit, whenever such a position exists, however many words away it is.",
 ["inputs"], "all contents, sizes and positions for which an answer exists",
 "Tests sample one uniform random vector and a few sparse ones, where answers are almost always in the same or the next word.",
 ["bit_vector.hpp"], [("mask then word-wise scan", "bit_vector.hpp:predecessor0/1, successor0/1")], ["return values"])

prop("C05", "The sequential bit enumerator reads the same bits as random access",
 "Starting at any position, any interleaving of next(), take(l) for 0 <= l <= 64 and skip_zeros() that stays inside the vector returns exactly the bits at the running position (skip_zeros: the number of zeros before the next one, and moves just past it), and position() always equals the start plus the bits consumed.",
 ["inputs", "histories"], "all contents, start positions and operation sequences that stay inside the vector",
 "The only test calls next() once per freshly constructed enumerator; take() and skip_zeros() and buffer refills in the middle of a sequence are never tested directly.",
 ["bit_vector.hpp"], [("64-bit look-ahead buffer with an available-bits count", "bit_vector.hpp:bit_vector::enumerator")], ["next", "take", "skip_zeros", "position"],
 [("m_buf/m_avail", "look-ahead buffer and its valid bit count", "bit_vector.hpp")])

prop("C06", "The unary enumerator visits exactly the set bits in order and skips exactly",
 "From any start position, next() returns successive positions of ones, skip(k) makes the following next() return the k-th next one (k counted from 0), skip_no_move(k) returns that position without changing what next() returns afterwards, and skip0(k) on a freshly positioned enumerator moves to the k-th zero at or after the position, so that next() returns the first one after it.",
 ["inputs", "histories"], "all contents, start positions, skip distances and operation sequences for which the target exists",
 "One random vector of 20000 bits; skip0 is only tested immediately after construction; runs spanning many words are rare.",
 ["bit_vector.hpp"], [("word buffer with consumed bits cleared, popcount skipping", "bit_vector.hpp:bit_vector::unary_enumerator")], ["next", "skip", "skip_no_move", "skip0", "position"])

prop("C07", "Rank counts exactly the ones (zeros) before a position",
 "For every bit vector with rank support and every 0 <= pos <= size, rank(pos) is the number of ones in [0, pos), rank0(pos) = pos - rank(pos), and num_ones/num_zeros are the totals, for every size including empty, word-, 512-bit- and multi-block boundaries.",
 ["inputs"], "all contents, sizes and positions",
 "Tests use size 10000 only (not a multiple of any block size) and never query pos == size.",
 ["rs_bit_vector.hpp", "rs_bit_vector.cpp"], [("block rank and packed 9-bit sub-block counters", "rs_bit_vector.cpp:build_indices"), ("counter lookup plus in-word popcount", "rs_bit_vector.hpp:rank")], ["rank", "rank0", "num_ones", "num_zeros"],
 [("m_block_rank_pairs", "cumulative rank and packed sub-block ranks per 512 bits", "rs_bit_vector.hpp")])

prop("C08", "Select inverts rank, with or without select hints",
 "For every bit vector with rank/select support and every n < number of ones (zeros), select(n) (select0(n)) returns the position of the n-th one (zero). "
 "The answer does not depend on whether select hints were requested for ones, zeros, both or neither.",
 ["inputs", "configurations"], "all contents, sizes, ranks and hint settings",
 "One random density-0.5 vector and two sparse ones of 10000 bits; several hint chunks, dense/sparse transitions between them, exact chunk multiples and sizes that are multiples of 512 are not reached.",
 ["rs_bit_vector.hpp", "rs_bit_vector.cpp", "broadword.hpp"], [("hint table narrowing a binary search over blocks", "rs_bit_vector.hpp:select/select0; rs_bit_vector.cpp:build_indices"), ("parallel 9-bit field comparison", "broadword.hpp:uleq_step_9")], ["select", "select0"],
 [("m_select_hints/m_select0_hints", "block index per 1024 ones/zeros", "rs_bit_vector.hpp")])

prop("C09", "Balanced-parentheses navigation finds the matching and enclosing parentheses",
 "For every balanced parentheses sequence, find_close of an open parenthesis returns its match, find_open of a close parenthesis returns its match, the two are inverse, and enclose of a non-root open parenthesis returns the opening parenthesis of its parent, at any distance (same word, block, superblock or across the min tree).",
 ["inputs"], "all balanced sequences and all valid positions",
 "Tests use random walks, random binary trees and pure nestings of a few sizes; rare shapes at block (256 bit) and superblock (8192 bit) boundaries and tree turns are only hit by luck.",
 ["bp_vector.hpp", "bp_vector.cpp"], [("byte tables and SWAR search in a word", "bp_vector.cpp:find_close_in_word/find_open_in_word"), ("block and superblock excess minima tree", "bp_vector.cpp:build_min_tree, search_min_tree")], ["find_close", "find_open", "enclose"],
 [("m_block_excess_min", "min excess per block relative to its superblock", "bp_vector.hpp"), ("m_superblock_excess_min", "min tree over superblocks", "bp_vector.hpp")])

prop("C10", "Excess and excess range-minimum queries are exact and leftmost",
 "For every balanced parentheses sequence and 0 <= a <= b <= size, excess(p) is the number of opens minus closes in [0, p) and excess_rmq(a, b) returns the leftmost position p in [a, b] of minimal excess together with that excess value.",
 ["inputs"], "all balanced sequences and all ranges a <= b",
 "Tests sweep b from fifteen values of a on a few generated sequences, do not compare the returned excess value, and never take b == size.",
 ["bp_vector.hpp", "bp_vector.cpp"], [("in-word byte-table minimum", "bp_vector.cpp:excess_rmq_in_word"), ("block, superblock and min-tree decomposition of the range", "bp_vector.cpp:excess_rmq, excess_rmq_in_block, excess_rmq_in_superblock, find_min_superblock")], ["excess", "excess_rmq"])

prop("C11", "The Cartesian tree answers range-minimum queries with the leftmost minimum",
 "For every array of comparable values and every comparator that is a strict weak order, and every a <= b < size, rmq(a, b) returns the leftmost index in [a, b] whose value is minimal under the comparator, however the tree was built (range, range with comparator, incremental builder), and size() is the array's length.",
 ["inputs"], "all arrays (with ties), comparators and ranges",
 "Tests sweep right ends for about thirteen left ends on monotone, convex and random arrays; the incremental builder is not tested.",
 ["cartesian_tree.hpp", "bp_vector.cpp"], [("DFUDS encoding of the 2d-min-heap", "cartesian_tree.hpp:builder"), ("select0 + excess_rmq", "cartesian_tree.hpp:rmq")], ["rmq", "size"])

prop("C12", "Top-k returns the k largest entries in order, ties by lowest index",
 "For every value vector, range a <= b < size and k, topk(a, b, k) returns the min(k, b-a+1) largest (value, index) pairs of the range in decreasing value order with ties in increasing index order; the enumerator yields the same sequence one entry at a time and then reports exhaustion; the vector's own elements and size are unchanged by the structure.",
 ["inputs", "histories"], "all value vectors (with ties), ranges, k and interleavings of enumerators over one vector",
 "100 random ranges per vector with k = 10 only; exhaustion, k beyond the range length, re-used enumerators and k = 0 are untested.",
 ["topk_vector.hpp", "cartesian_tree.hpp"], [("heap of sub-ranges split at the maximum", "topk_vector.hpp:enumerator"), ("Cartesian tree on the reversed order", "topk_vector.hpp:topk_vector")], ["topk", "get_topk_enumerator", "operator[]", "size"])

prop("C13", "The dense-array index selects every one (zero) of any bit vector",
 "For every bit vector, the one- and zero-select indices report the number of ones (zeros) and return the position of the n-th one (zero) for every valid n, whether the surrounding block of 1024 positions is dense or spans 2^16 bits or more.",
 ["inputs"], "all contents, sizes and ranks, dense, sparse and mixed blocks",
 "Five vectors; the boundary between inventory and overflow representation (span exactly 2^16) and mixes of both are not constructed.",
 ["darray.hpp"], [("block and sub-block inventories with an overflow list for sparse blocks", "darray.hpp:darray, flush_cur_block, select")], ["select", "num_positions"],
 [("m_block_inventory/m_subblock_inventory/m_overflow_positions", "position inventories", "darray.hpp")])

prop("C14", "The sparse-bits builder index selects every appended one",
 "After any sequence of appends, each skipping 0..63 zeros before a one, num_ones() is the number of appends, the bits are exactly those appended, and select(n) returns the position of the n-th one for every n.",
 ["inputs", "histories"], "all sequences of gaps",
 "Only used indirectly, through two gamma-coded vectors.",
 ["darray64.hpp"], [("inventories maintained while appending", "darray64.hpp:builder::append1"), ("word scan from the sub-block start", "darray64.hpp:select")], ["select", "num_ones", "bits"])

prop("C15", "An Elias-Fano sequence answers select, rank, access, predecessor, successor",
 "For every non-decreasing sequence of values below the declared universe, and equivalently for every bit vector converted to Elias-Fano form, num_ones() is the number of values, select(i) is the i-th value, and, with the rank index and distinct values, rank(p) is the number of values < p for p <= size, operator[](p) tells membership, and predecessor1/successor1 return the nearest present value <= p / >= p whenever one exists.",
 ["inputs"], "all monotone sequences, universes and queries, every split point between low and high bits (0..63)",
 "Tests use universe 10000 only and at most seven densities, so the number of low bits never exceeds about 13.",
 ["elias_fano.hpp", "darray.hpp"], [("high/low split", "elias_fano.hpp:elias_fano_builder"), ("select on high bits and short scan over equal high parts", "elias_fano.hpp:select, rank, operator[]")], ["select", "rank", "operator[]", "predecessor1", "successor1", "num_ones", "size"])

prop("C16", "Elias-Fano deltas, pairs and enumeration agree with select",
 "For every Elias-Fano sequence, delta(i) equals select(i) - select(i-1) (select(0) for i = 0), select_range(i) equals (select(i), select(i+1)), and an enumerator started at any index i < num_ones yields select(i), select(i+1), ... to the last value.",
 ["inputs", "histories"], "all monotone sequences (with repetitions), all start indices, every number of low bits 0..63",
 "The enumerator is only tested from index 0 ('XXX test other starting points'); select_range is not tested; low-bit widths above 13 are not reached.",
 ["elias_fano.hpp", "bit_vector.hpp"], [("buffered low bits and unary enumeration of high bits", "elias_fano.hpp:select_enumerator"), ("predecessor/successor on high bits", "elias_fano.hpp:delta, select_range")], ["delta", "select_range", "select_enumerator::next"])

prop("C17", "Elias-Fano lists give back every stored integer",
 "For every list of unsigned integers (total sum below 2^64-1 for the prefix-sum list, each value below 2^64-1 for the compressed list), the list's size is the number of integers, operator[](i) returns the i-th integer, and sum() of the prefix-sum list is the total.",
 ["inputs"], "all lists and indices, including zeros, powers of two minus one and values near the maximum",
 "The compressed list is tested on one random list of small values; the prefix-sum list has no test at all.",
 ["elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "elias_fano.hpp"], [("cumulative sums / cumulative code lengths in Elias-Fano", "elias_fano_list.hpp, elias_fano_compressed_list.hpp")], ["operator[]", "size", "sum"])

prop("C18", "Gamma-coded vectors give back every stored integer by index",
 "For every list of unsigned integers (below 2^64-1 for the plain, below 2^64-2 for the bit variant), the gamma-coded vector's size is the list's length and operator[](i) returns the i-th integer.",
 ["inputs"], "all lists and indices, all code lengths 0..63",
 "Values come from rand(), so code lengths 32..63 are never exercised.",
 ["gamma_vector.hpp", "gamma_bit_vector.hpp", "darray64.hpp"], [("unary lengths in a select structure plus packed low bits", "gamma_vector.hpp, gamma_bit_vector.hpp")], ["operator[]", "size"])

prop("C19", "Forward enumerators yield the same integers as indexing",
 "For every gamma-coded (plain or bit variant) or other indexable list and every start index, a forward enumerator yields exactly the elements from that index to the end in order, and skip(k) moves past exactly k elements.",
 ["inputs", "histories"], "all lists, start indices and read/skip sequences",
 "The tests create a new enumerator before every next(), so consecutive reads across buffer refills are never compared.",
 ["forward_enumerator.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "bit_vector.hpp"], [("unary enumerator over lengths plus bit enumerator over values", "gamma_vector.hpp, gamma_bit_vector.hpp: forward_enumerator")], ["next", "skip"])

prop("C20", "Freezing and mapping back reproduces every structure and counts its bytes",
 "For every value of every mappable structure, writing it and mapping the written bytes into a new object gives an object that answers every query like the original (with or without the warmup flag), the number of bytes reported as written, the number reported as read and the number actually written are equal, and they exceed the size reported by size_of by exactly the 8-byte flags header. The same holds when several structures are written one after another to one stream and mapped at the offsets the reported counts give, and when the file is mapped through a mapped_file_source.",
 ["inputs", "configurations"], "all structures, contents and flags",
 "Tests freeze one vector of four ints and one two-field struct; no succinct structure is ever frozen ('XXX test (de)serialization').",
 ["mapper.hpp", "mappable_vector.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "nibble_vector.hpp"],
 [("visitor over all fields in declaration order", "mapper.hpp:freeze_visitor/map_visitor/sizeof_visitor and every map() member")], ["freeze return value and bytes", "map return value", "size_of", "queries on the mapped object"])

prop("C21", "The mappable vector owns, transfers and releases its storage exactly once",
 "After any sequence of default construction, construction or assignment from a range, stealing a std::vector, swap and clear, a mappable vector holds exactly the expected elements (operator[], size, begin/end), a stolen-from vector is left empty, every owned buffer is released exactly once and no released buffer is read. Whatever is done to a vector that is mapped to an image, the image and every other vector mapped to it keep their contents.",
 ["inputs", "histories"], "all operation sequences over several vectors and all contents",
 "One assign() of four ints is tested; steal, swap, clear and re-assignment are not tested and leaks or double frees are invisible to the tests.",
 ["mappable_vector.hpp"], [("type-erased deleter moved with the buffer", "mappable_vector.hpp:steal, swap, clear")], ["operator[]", "size", "begin/end", "allocator"])

prop("C22", "Variable-byte coding round-trips every integer",
 "For every 64-bit value, appending its variable-byte code at any offset of a byte vector and decoding at that offset returns the value, both report the same number of bytes, that number equals the size function and is the minimum number of 7-bit groups, and a sequence of codes decodes to the same sequence.",
 ["inputs"], "all 64-bit values and offsets",
 "There is no test for this code.",
 ["vbyte.hpp"], [("7-bit groups, most significant first, continuation bit", "vbyte.hpp")], ["vbyte_size", "append_vbyte", "decode_vbyte"])

prop("C23", "The nibble vector returns every stored nibble",
 "For every sequence of values 0..15 of odd or even length, the nibble vector's size is the length and operator[](i) is the i-th value.",
 ["inputs"], "all sequences and indices",
 "There is no test for this class.",
 ["nibble_vector.hpp"], [("two nibbles per byte with a parity flag", "nibble_vector.hpp")], ["operator[]", "size"])

prop("C24", "Signed/unsigned interleaving is a bijection and ceil_div rounds up",
 "For every signed 64-bit x, nat2int(int2nat(x)) == x, for every unsigned n, int2nat(nat2int(n)) == n, the mapping interleaves 0,-1,1,-2,2,..., and ceil_div(a, b) is the least q with q*b >= a for every b > 0 for which a + b - 1 does not overflow.",
 ["inputs"], "all 64-bit values",
 "There is no test for these functions; the extreme values are the interesting ones.",
 ["util.hpp"], [("sign folding", "util.hpp:int2nat/nat2int"), ("rounding", "util.hpp:ceil_div")], ["return values"])

prop("C25", "Line readers yield exactly the lines of the input",
 "For every input text without NUL bytes, reading line by line (from a stream, from a memory buffer or from a mapped file) yields exactly its lines in order, including empty lines and a last line without a newline, and then reports the end; line terminators (LF, and CR before it) are stripped where the reader says so and kept otherwise, and no reader touches memory outside the buffer.",
 ["inputs", "histories"], "all texts (contents and lengths), chunk boundaries of the underlying reads",
 "There is no test for this code.",
 ["util.hpp"], [("fgets accumulation", "util.hpp:fast_getline, line_iterator"), ("scan to newline", "util.hpp:buffer_line_iterator"), ("trailing CR/LF removal", "util.hpp:trim_newline_chars")], ["returned strings and end-of-input report"])

prop("C26", "Swapping exchanges whole structures and disposing empties them",
 "For every pair of values of every structure that offers swap, after swapping each object answers every query exactly as the other did before, nothing is lost or shared, and dispose() leaves the object like a default-constructed one while releasing its storage. A default-constructed or disposed object is an empty one: size, number of ones or positions and sum are 0.",
 ["inputs", "histories"], "all structures and pairs of contents (also of different sizes and hint settings)",
 "swap is only used to fill a default-constructed object; swapping two live objects is never tested.",
 ["bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "nibble_vector.hpp", "mappable_vector.hpp", "util.hpp"],
 [("member-wise swap", "every swap() member"), ("swap with a temporary", "util.hpp:dispose")], ["queries after swap/dispose"])

prop("C27", "Queries never read outside the structure's own storage",
 "For every structure mapped over a memory image of exactly the frozen bytes (or owning exactly-sized storage), every query with valid arguments reads only bytes of that image and triggers none of the library's internal assertions, in particular at sizes that are exact multiples of the word and block sizes and for the last element.",
 ["inputs"], "all structures, contents, exact-fit sizes and valid arguments",
 "An out-of-bounds read of heap slack does not fail a test; no sanitizer run or mapped structure is part of the tests.",
 ["bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.cpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "cartesian_tree.hpp"],
 [("index arithmetic at the last word/block, sentinel entries", "all query functions")], ["memory accesses of queries"])

prop("C28", "The size report is a tree whose numbers add up",
 "For every structure, size_tree_of reports the same total as size_of, every composite node's size is the sum of its vector and composite children plus its fixed-size fields, and every vector node's size is its element bytes plus the 8-byte length; the printed report lists exactly those nodes with their names and sizes, in tree order and indented by depth.",
 ["inputs"], "all structures and contents",
 "One size_of value of a two-field struct is tested; size trees are not.",
 ["mapper.hpp"], [("checkpointed accumulation", "mapper.hpp:sizeof_visitor")], ["size_of", "size_tree_of", "size_node::dump"])

prop("C29", "Queries only read: structures can be shared and mapped read-only",
 "Once built or mapped, no const query (access, rank, select, predecessor/successor, enumerators, parenthesis navigation, range minima, top-k, list access) writes to the structure, to the storage it owns or is mapped over, or to any global variable; asking the same question again gives the same answer. Hence a structure can be mapped over read-only memory and queried by any number of threads at once.",
 ["inputs", "schedules"], "all structures, contents, query arguments and orders of queries; with no shared write, every interleaving of concurrent readers is equivalent to a serial one",
 "The tests map files privately writable or own their storage, and query from one thread; a cache or lazily filled field would go unnoticed.",
 ["bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "bp_vector.cpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "cartesian_tree.hpp", "topk_vector.hpp", "mappable_vector.hpp"],
 [("const query methods", "all query headers"), ("const element pointers", "mappable_vector.hpp:m_data")], ["the bytes of the object, of its storage and of global variables before and after queries"])

prop("C30", "Frozen bytes are a function of the value",
 "Freezing is deterministic: building the same structure twice from the same input -- or from the same value reached another way (bits pushed one by one, appended in fields or whole builders, set in a zero or one builder, reversed; lists from narrower elements, sub-ranges or mapped vectors) --, freezing it twice, or freezing an object mapped from the frozen bytes produces the same bytes every time; all default-constructed objects of a type freeze to the same bytes, and a disposed object freezes like a default-constructed one. In particular no undefined memory ever reaches the output.",
 ["inputs", "histories"], "all structures (including empty, default-constructed and disposed ones) and contents, whatever the memory they were constructed in held before",
 "The tests compare sizes and a few queries after a round trip, never the bytes, and never freeze an empty structure.",
 ["mapper.hpp", "bp_vector.hpp", "elias_fano.hpp", "bit_vector.hpp", "darray.hpp", "darray64.hpp"],
 [("constructors initialise every mapped field", "default constructors"), ("field by field output", "mapper.hpp:freeze_visitor")], ["bytes written by mapper::freeze"])

prop("C31", "Structures built from any range type hold the range's values",
 "For every range of values -- whatever its element type (any unsigned width for the integer lists, signed and custom-ordered elements for range minima and top-k, any type convertible to bool for bit strings) and whatever its kind (vector, deque, linked list, pointer pair, reversed) -- the structure built from it answers as if built from the same values in a vector of the widest type; in particular the largest value of a narrow element type survives, and ties are decided by the comparator alone.",
 ["inputs", "configurations"], "all element types and range kinds, contents (including the extreme values of each type), comparators that are strict weak orders",
 "Tests only pass std::vector<uint64_t>, std::vector<bool> and std::vector<char>.",
 ["gamma_vector.hpp", "gamma_bit_vector.hpp", "elias_fano_list.hpp", "elias_fano_compressed_list.hpp", "mappable_vector.hpp", "nibble_vector.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp"],
 [("generic range constructors", "the Range constructors"), ("user-supplied comparator", "cartesian_tree.hpp:builder::push_back")], ["size and queries of the built structure"])

prop("C32", "Enumerators are values: copies go on independently",
 "Every enumerator and line iterator over memory (bit, unary, Elias-Fano select, forward and top-k enumerators, buffer line iterators) is a value: a copy of it, or another one it was assigned to -- whatever that one was doing before --, yields exactly what the original would have yielded from there on; advancing, copying, destroying or self-assigning one of them never changes what the others yield.",
 ["inputs", "histories"], "all contents, starting points, numbers of steps before the copy and interleavings of steps on the original, the copy and the assigned enumerator",
 "Tests only use one enumerator at a time and never copy one that has been advanced.",
 ["bit_vector.hpp", "elias_fano.hpp", "forward_enumerator.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "topk_vector.hpp", "util.hpp"],
 [("copyable cursor state", "bit_vector.hpp:enumerator, unary_enumerator; elias_fano.hpp:select_enumerator; topk_vector.hpp:enumerator; util.hpp:buffer_line_iterator")], ["values yielded by each enumerator"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
