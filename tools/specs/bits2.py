H = '#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <cstdint>\n#include <string>\n#include <fstream>\n'
BUGS = [
dict(id="c01-msb-portable", property="C01", edits=[("broadword.hpp", "        x |= x >> 8;\n        x |= x >> 16;\n        x |= x >> 32;\n", "        x |= x >> 8;\n        x |= x >> 16;\n")],
 needs="the portable build (SUCCINCT_USE_INTRINSICS=0) and a word whose highest bit is far above its other bits", breaks="msb() isolates more than one bit",
 demo=H + '''#undef SUCCINCT_USE_INTRINSICS
#include "succinct_config.hpp"
#undef SUCCINCT_USE_INTRINSICS
#define SUCCINCT_USE_INTRINSICS 0
#include "broadword.hpp"
int main() { for (int i = 0; i < 64; ++i) { unsigned long r = 99; if (!succinct::broadword::msb(uint64_t(1) << i, r) || r != i) return 1; } return 0; }
''', nolib=True),
dict(id="c02-swap-cur", property="C02", edits=[("bit_vector.hpp", "            std::swap(m_size, other.m_size);\n            std::swap(m_cur_word, other.m_cur_word);\n", "            std::swap(m_size, other.m_size);\n            m_cur_word = m_bits.empty() ? 0 : &m_bits.back();\n")],
 needs="two builders swapped, then bits appended to the second one", breaks="the second builder keeps writing into the word that now belongs to the first",
 demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder a, b; a.append_bits(5, 3); b.append_bits(0, 4); a.swap(b); b.append_bits(7, 3); b.append_bits(1, 1); succinct::bit_vector x(&a), y(&b); return !(x.size() == 4 && x.get_bits(0, 4) == 0 && y.size() == 7 && y.get_bits(0, 7) == (5 | 7 << 3 | 1 << 6)); }
'''),
dict(id="c03-range-zero-tail", property="C03", edits=[("bit_vector.hpp", "            if (mask != first_mask) {\n                bits.push_back(cur_val);\n            }\n            m_bits.steal(bits);", "            if (cur_val) {\n                bits.push_back(cur_val);\n            }\n            m_bits.steal(bits);")],
 needs="a vector built from a range whose last, partial word is all zeros", breaks="the last word is not stored", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<bool> v(70, false); v[3] = true; succinct::bit_vector b(v); return b.data().size() != 2 || b[69]; }
'''),
dict(id="c05-word-end", property="C05", edits=[("bit_vector.hpp", "            if (shift && block + 1 < m_bits.size()) {\n                word |= m_bits[block + 1] << (64 - shift);", "            if (pos + 64 < size()) {\n                word |= m_bits[block + 1] << (63 - shift) << 1;")],
 needs="a window that starts unaligned less than 65 bits before the end and reaches into the last word", breaks="the last bits of the vector are read as zeros when the window ends exactly at or beyond the end",
 demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder b; b.append_bits(0, 64); b.append_bits(0xf, 4); succinct::bit_vector v(&b); return !(v.get_word(10) == (uint64_t(0xf) << 54)); }
'''),
dict(id="c06-skip0-next", property="C06", edits=[("bit_vector.hpp", "                m_buf = ~buf & (uint64_t(-1) << pos_in_word);\n", "                m_buf = ~buf;\n")],
 needs="skip0() into the middle of a word followed by next() or skip()", breaks="ones before the position reached are seen again", demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder b; b.append_bits(0x97, 10); b.append_bits(1, 54); succinct::bit_vector v(&b); succinct::bit_vector::unary_enumerator e(v, 0); e.skip0(1); uint64_t p = e.position(); return !(p == 5 && e.next() == 7); }
'''),
dict(id="c06-nomove-moves", property="C06", edits=[("bit_vector.hpp", "                uint64_t position = m_position;\n                uint64_t skipped = 0;\n                uint64_t buf = m_buf;\n                uint64_t w = 0;\n                while (skipped + (w = broadword::popcount(buf)) <= k) {\n                    skipped += w;\n                    position += 64;\n                    buf = m_data[position / 64];\n", "                uint64_t position = m_position & ~uint64_t(63);\n                uint64_t skipped = 0;\n                uint64_t buf = m_buf;\n                uint64_t w = 0;\n                while (skipped + (w = broadword::popcount(buf)) <= k) {\n                    skipped += w;\n                    if (w == 64) k -= 64, skipped = 0;\n                    position += 64;\n                    buf = m_data[position / 64];\n")],
 needs="skip_no_move across a partly filled word and then an all-ones word", breaks="the ones of the earlier words are forgotten", demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder b; b.append_bits(7, 64); b.append_bits(-1, 64); b.append_bits(-1, 64); succinct::bit_vector v(&b); succinct::bit_vector::unary_enumerator e(v, 0); return e.skip_no_move(70) != 64 + 67; }
'''),
dict(id="c07-subrank-mask", property="C07", edits=[("rs_bit_vector.hpp", "            r += sub_block_ranks(block) >> ((7 - left) * 9) & 0x1FF;", "            r += (sub_block_ranks(block) >> ((7 - left) * 9)) % 448;")],
 needs="a block whose first seven words are all ones, and a position in its last word", breaks="the in-block rank 448 is read as 0", demo=H + '''#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(1000, true); succinct::rs_bit_vector r(v); return r.rank(460) != 460; }
'''),
dict(id="c08-zero-hints", property="C08", edits=[("rs_bit_vector.hpp", "        static const uint64_t select_zeros_per_hint = select_ones_per_hint;", "        static const uint64_t select_zeros_per_hint = 64 * block_size - 16;")],
 needs="select0 hints and long runs of (almost) only zeros", breaks="a block can cross two hint thresholds but only one hint is written", demo=H + '''#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(200000, false); succinct::rs_bit_vector r(v, true, true); for (size_t i = 0; i < v.size(); i += 7) if (r.select0(i) != i) return 1; return 0; }
'''),
dict(id="c09-exact-depth", property="C09", edits=[("bp_vector.cpp", "        if (excess > excess_t((bp_block_size - start) * 64)) {", "        if (excess >= excess_t((bp_block_size - start) * 64)) {")],
 needs="the match being the last bit of a block of which all remaining words are closings", breaks="the block holding the match is skipped", demo=H + '''#include "bp_vector.hpp"
int main() { succinct::bit_vector_builder b; b.one_extend(192); b.one_extend(64); b.zero_extend(256); succinct::bp_vector v(&b); for (int i = 0; i < 256; ++i) if (v.find_close(i) != 511 - i) return 1; return 0; }
'''),
dict(id="c09-word64", property="C09", edits=[("bp_vector.cpp", "            if (excess <= 64) {\n                if (find_open_in_word(word, byte_counts, excess, ret)) {", "            if (excess < 64) {\n                if (find_open_in_word(word, byte_counts, excess, ret)) {")],
 needs="an opening at the very start of a word of 64 openings, matched from a later word", breaks="the match is not found", demo=H + '''#include "bp_vector.hpp"
int main() { succinct::bit_vector_builder b; b.one_extend(128); b.zero_extend(128); succinct::bp_vector v(&b); for (int i = 0; i < 128; ++i) if (v.find_open(255 - i) != i) return 1; return 0; }
'''),
dict(id="c09-back-superblock", property="C09", edits=[("bp_vector.cpp", "                 cur_block + 1 >= (superblock * superblock_size) + 1;\n", "                 cur_block > superblock * superblock_size;\n")],
 needs="find_open/enclose whose answer lies in the first block of a superblock far to the left", breaks="the first block of a superblock is never considered", demo=H + '''#include "bp_vector.hpp"
int main() { succinct::bit_vector_builder b; for (int i = 0; i < 8192 / 2; ++i) { b.push_back(1); b.push_back(0); } b.push_back(1); for (int i = 0; i < 3000; ++i) { b.push_back(1); b.push_back(0); } b.push_back(0); for (int i = 0; i < 9000; ++i) { b.push_back(1); b.push_back(0); } uint64_t n = b.size(); succinct::bp_vector v(&b); return v.find_open(8192 + 1 + 6000) != 8192; }
'''),
dict(id="c10-super-tie", property="C10", edits=[("bp_vector.cpp", "                if (m_superblock_excess_min[left_child] < node_min_exc) {", "                if (m_superblock_excess_min[left_child] <= node_min_exc) {")],
 needs="a range over many superblocks with the minimum reached in two of them", breaks="the later one is returned", demo=H + '''#include "bp_vector.hpp"
int main() { succinct::bit_vector_builder b; b.push_back(1); for (int i = 0; i < 60000; ++i) { b.push_back(1); b.push_back(0); } b.push_back(0); succinct::bp_vector v(&b); for (uint64_t a = 2; a < 100000; a += 4999) for (uint64_t c = a + 2; c < 120000; c += 3001) { uint64_t e = a % 2 ? a : a + 1; if (v.excess_rmq(a, c) != e) return 1; } return 0; }
'''),
dict(id="c10-block-tie", property="C10", edits=[("bp_vector.cpp", "            if (superblock_excess + m_block_excess_min[block] < block_min_exc) {", "            if (superblock_excess + m_block_excess_min[block] < block_min_exc || (block == block_start + 31 && superblock_excess + m_block_excess_min[block] == block_min_exc && block_min_idx != -1U)) {")],
 needs="a whole superblock in the range whose last block ties with an earlier one", breaks="a later minimum is returned", demo=H + '''#include "bp_vector.hpp"
int main() { succinct::bit_vector_builder b; b.one_extend(3000); for (int i = 0; i < 3000; ++i) { b.push_back(1); b.push_back(0); } b.zero_extend(2000); for (int i = 0; i < 40000; ++i) { b.push_back(1); b.push_back(0); } b.zero_extend(1000); succinct::bp_vector v(&b);
 std::vector<int> ex(v.size() + 1, 0); for (size_t i = 0; i < v.size(); ++i) ex[i + 1] = ex[i] + (v[i] ? 1 : -1); for (uint64_t a = 0; a < 30000; a += 1111) for (uint64_t c = a + 10; c < v.size(); c += 9973) { uint64_t m = a; for (uint64_t i = a; i <= c; ++i) if (ex[i] < ex[m]) m = i; if (v.excess_rmq(a, c) != m) return 1; } return 0; }
'''),
dict(id="c11-boundary-min", property="C11", edits=[("cartesian_tree.hpp", "            if (exc_w >= exc_t - 1) {", "            if (exc_w >= exc_t - int(b + 1 < n)) {")],
 needs="a range that ends at the last element with ties or with the minimum at the end", breaks="the last element is not returned", demo=H + '''#include "cartesian_tree.hpp"
int main() { for (int m = 0; m < 256; ++m) { std::vector<int> v; for (int i = 0; i < 4; ++i) v.push_back(m >> (2 * i) & 3); succinct::cartesian_tree t(v); for (int a = 0; a < 4; ++a) for (int b = a; b < 4; ++b) { int r = a; for (int i = a; i <= b; ++i) if (v[i] < v[r]) r = i; if (t.rmq(a, b) != r) return 1; } } return 0; }
'''),
dict(id="c12-tie-order", property="C12", edits=[("topk_vector.hpp", "                             get<1>(a) > get<1>(b)));", "                             get<2>(a) + get<3>(a) > get<2>(b) + get<3>(b)));")],
 needs="equal values whose sub-intervals' midpoints are ordered differently than the values' positions", breaks="equal values are not enumerated left to right", demo=H + '''#include "topk_vector.hpp"
#include "mappable_vector.hpp"
int main() { using boost::get; typedef succinct::topk_vector<succinct::mapper::mappable_vector<uint64_t> > T; for (int m = 0; m < 729; ++m) { std::vector<uint64_t> v; int x = m; for (int i = 0; i < 6; ++i) { v.push_back(x % 3); x /= 3; } T t(v); for (int a = 0; a < 6; ++a) for (int b = a; b < 6; ++b) { T::entry_vector_type r = t.topk(a, b, 6); for (size_t i = 1; i < r.size(); ++i) if (get<0>(r[i]) > get<0>(r[i-1]) || (get<0>(r[i]) == get<0>(r[i-1]) && get<1>(r[i]) < get<1>(r[i-1]))) return 1; } } return 0; }
'''),
dict(id="c12-enum-reuse", property="C12", edits=[("topk_vector.hpp", "                assert(a <= b);\n                clear();\n                m_topkv = topkv;", "                assert(a <= b);\n                m_topkv = topkv;")],
 needs="an enumerator object re-used for a new range before it was exhausted", breaks="entries of the old range are mixed in", demo=H + '''#include "topk_vector.hpp"
#include "mappable_vector.hpp"
int main() { using boost::get; typedef succinct::topk_vector<succinct::mapper::mappable_vector<uint64_t> > T; uint64_t x[] = {5, 9, 1, 7, 3}; std::vector<uint64_t> v(x, x + 5); T t(v); T::enumerator e; t.get_topk_enumerator(0, 4, e); e.next(); t.get_topk_enumerator(2, 4, e); return !(e.next() && get<0>(e.value()) == 7 && e.next() && get<0>(e.value()) == 3 && e.next() && get<0>(e.value()) == 1 && !e.next()); }
'''),
dict(id="c13-distance", property="C13", edits=[("darray.hpp", "            static const size_t max_in_block_distance = 1 << 16;", "            static const size_t max_in_block_distance = 1 << 17;")],
 needs="a block of positions spanning between 2^16 and 2^17 bits", breaks="16-bit sub-block offsets overflow", demo=H + '''#include "darray.hpp"
int main() { succinct::bit_vector_builder b; for (int i = 0; i < 3000; ++i) { b.zero_extend(79); b.push_back(1); } succinct::bit_vector v(&b); succinct::darray1 d(v); for (int i = 0; i < 3000; ++i) if (d.select(v, i) != 80 * i + 79) return 1; return 0; }
'''),
dict(id="c13-overflow-sub", property="C13", edits=[("darray.hpp", "                    for (size_t i = 0; i < cur_block_positions.size(); i += subblock_size) {\n                        subblock_inventory.push_back(uint16_t(-1));\n                    }\n", "")],
 needs="a sparse block of positions followed by a dense one", breaks="the sub-block inventory is no longer aligned with the blocks", demo=H + '''#include "darray.hpp"
int main() { succinct::bit_vector_builder b; for (int i = 0; i < 1024; ++i) { b.zero_extend(99); b.push_back(1); } for (int i = 0; i < 1024; ++i) { b.push_back(0); b.push_back(1); } succinct::bit_vector v(&b); succinct::darray1 d(v); for (int i = 0; i < 1024; ++i) if (d.select(v, i) != 100 * i + 99 || d.select(v, 1024 + i) != 102400 + 2 * i + 1) return 1; return 0; }
'''),
dict(id="c14-block", property="C14", edits=[("darray64.hpp", "        static const size_t block_size = 1024; // 64 * block_size must fit in an uint16_t (64 is the max sparsity of bits)", "        static const size_t block_size = 2048;")],
 needs="more than 1024 ones with gaps near the maximum", breaks="16-bit sub-block offsets overflow", demo=H + '''#include "darray64.hpp"
int main() { succinct::darray64::builder b; for (int i = 0; i < 2100; ++i) b.append1(60); succinct::darray64 d(&b); for (int i = 0; i < 2100; ++i) if (d.select(i) != 61 * i + 60) return 1; return 0; }
'''),
dict(id="c15-scan-limit", property="C15", edits=[("elias_fano.hpp", "            while (h_pos > 0\n                   && m_high_bits[h_pos - 1]\n                   && m_low_bits", "            for (size_t steps = 0; steps < 64\n                     && h_pos > 0\n                     && m_high_bits[h_pos - 1]\n                     && m_low_bits"), ("elias_fano.hpp", ">= l_pos) {\n                --rank;", ">= l_pos; ++steps) {\n                --rank;")],
 needs="more than 64 ones in one bucket above the position asked for", breaks="rank stops scanning too early", demo=H + '''#include "elias_fano.hpp"
int main() { succinct::elias_fano::elias_fano_builder b(1000000, 200); for (int i = 0; i < 200; ++i) b.push_back(500000 + i); succinct::elias_fano e(&b); return !(e.rank(499995) == 0 && e.rank(500100) == 100); }
'''),
dict(id="c16-delta-carry", property="C16", edits=[("elias_fano.hpp", "                    + low_val - m_low_bits.get_bits((n - 1) * m_l, m_l);", "                    + ((low_val - m_low_bits.get_bits((n - 1) * m_l, m_l)) & ((1ULL << m_l) - 1));")],
 needs="a difference whose low part borrows", breaks="the borrow is lost", demo=H + '''#include "elias_fano.hpp"
int main() { succinct::elias_fano::elias_fano_builder b(1000, 3); b.push_back(255); b.push_back(256); b.push_back(900); succinct::elias_fano e(&b); return !(e.delta(0) == 255 && e.delta(1) == 1 && e.delta(2) == 644); }
'''),
dict(id="c16-enum-chunks", property="C16", edits=[("elias_fano.hpp", "                    m_chunks_in_word = 64 / m_l;\n", "                    m_chunks_in_word = (64 + (m_l == 13)) / m_l;\n")],
 needs="thirteen low bits per value, enumeration of five values from one word", breaks="the fifth chunk loses its top bit", demo=H + '''#include "elias_fano.hpp"
int main() { uint64_t n = 20; succinct::elias_fano::elias_fano_builder b(8192 * n + 5, n); for (uint64_t i = 0; i < n; ++i) b.push_back(8192 * i + 8191 - i); succinct::elias_fano e(&b); succinct::elias_fano::select_enumerator s(e, 0); for (uint64_t i = 0; i < n; ++i) if (s.next() != 8192 * i + 8191 - i) return 1; return 0; }
'''),
dict(id="c17-base32", property="C17", edits=[("elias_fano_list.hpp", "            size_t cur_base = 0;\n", "            unsigned cur_base = 0;\n")],
 needs="a list whose sum exceeds 2^32", breaks="the running sum wraps", demo=H + '''#include "elias_fano_list.hpp"
int main() { std::vector<uint64_t> v; v.push_back(7); v.push_back(4000000000ULL); v.push_back(500000000ULL); v.push_back(1); succinct::elias_fano_list l(v); for (int i = 0; i < 4; ++i) if (l[i] != v[i]) return 1; return 0; }
'''),
dict(id="c17-narrow-one", property="C17", edits=[("elias_fano_compressed_list.hpp", "            return ((uint64_t(1) << l) | m_bits.get_bits(r.first, l)) - 1;", "            return ((size_t(l < 60) << l) | m_bits.get_bits(r.first, l)) - 1;")],
 needs="a value of at least 2^60", breaks="the leading one is lost", demo=H + '''#include "elias_fano_compressed_list.hpp"
int main() { std::vector<uint64_t> v; v.push_back(3); v.push_back(uint64_t(1) << 61); succinct::elias_fano_compressed_list l(v); return l[1] != v[1]; }
'''),
dict(id="c18-word56", property="C18", edits=[("gamma_vector.hpp", "            l = broadword::lsb(m_high_bits.bits().get_word(pos + 1));", "            l = broadword::lsb(m_high_bits.bits().get_word(pos + 1) << 4) - 4;")],
 needs="a value of 2^60 - 1 or more", breaks="the length is not found in the shortened window", demo=H + '''#include "gamma_vector.hpp"
int main() { std::vector<uint64_t> v; v.push_back(3); v.push_back(uint64_t(-2)); v.push_back(9); succinct::gamma_vector l(v); return !(l[0] == 3 && l[1] == v[1] && l[2] == 9); }
'''),
dict(id="c19-skip-impl", property="C19", edits=[("gamma_bit_vector.hpp", "            // XXX actually implement this\n            while (k--) next();", "            if (!k) return;\n            m_idx += k;\n            m_high_bits_enumerator.skip(k - 1);\n            size_t next_pos = m_high_bits_enumerator.next();\n            m_low_bits_enumerator = bit_vector::enumerator(m_c->m_low_bits, next_pos & ~size_t(k == 64));\n            m_pos = next_pos;")],
 needs="skip(64) landing on an odd position", breaks="the low bits are read one bit early", demo=H + '''#include "forward_enumerator.hpp"
#include "gamma_bit_vector.hpp"
int main() { for (int o = 0; o < 2; ++o) { std::vector<uint64_t> v; for (int i = 0; i < 100; ++i) v.push_back((i * 37 + o) % 50); succinct::gamma_bit_vector g(v); for (int k = 0; k < 90; ++k) { succinct::forward_enumerator<succinct::gamma_bit_vector> e(g, 3); e.skip(k); for (int i = 3 + k; i < 100; ++i) if (e.next() != v[i]) return 1; } } return 0; }
'''),
dict(id="c21-steal-leak", property="C21", edits=[("mappable_vector.hpp", "            clear();\n            m_size = vec.size();\n            if (m_size) {", "            m_size = vec.size();\n            if (m_size) {\n                if (m_deleter && m_data == 0) clear();")],
 needs="steal() into a vector that already owns storage", breaks="the old storage is leaked, and stealing an empty vector keeps the old elements' storage", demo=H + '''#include "mappable_vector.hpp"
#include <malloc.h>
int main() { std::vector<uint64_t> a(1000, 1), b(1000, 2); size_t before = mallinfo2().uordblks; { succinct::mapper::mappable_vector<uint64_t> v(a); for (int i = 0; i < 50; ++i) { std::vector<uint64_t> c(b); v.steal(c); } } return mallinfo2().uordblks > before + 100000; }
'''),
dict(id="c24-min", property="C24", edits=[("util.hpp", "            return -int64_t(n / 2) - 1;", "            return -int64_t((n + 1) / 2);")],
 needs="n = 2^64 - 1", breaks="n + 1 wraps, so the least integer decodes to 0", demo=H + '''#include "util.hpp"
int main() { return succinct::util::nat2int(succinct::util::int2nat(INT64_MIN)) != INT64_MIN; }
'''),
dict(id="c26-enum-swap", property="C26", edits=[("nibble_vector.hpp", "            std::swap(other.m_size, m_size);\n", "            m_size = std::max(m_size, other.m_size);\n            other.m_size = m_size;\n")],
 needs="two nibble vectors of different lengths", breaks="both get the larger length", demo=H + '''#include "nibble_vector.hpp"
int main() { std::vector<uint8_t> a(3, 1), b(8, 2); succinct::nibble_vector x(a), y(b); x.swap(y); return !(x.size() == 8 && y.size() == 3); }
'''),
dict(id="c26-da-swap", property="C26", edits=[("darray.hpp", "                std::swap(other.m_positions, m_positions);\n", "                size_t positions = m_positions;\n                m_positions = other.m_positions;\n                if (other.m_block_inventory.size()) other.m_positions = positions;\n")],
 needs="swapping with an empty index and then using the other one", breaks="the formerly empty one keeps its count", demo=H + '''#include "darray.hpp"
int main() { std::vector<bool> a(100, true), e; succinct::bit_vector v(a), w(e); succinct::darray1 x(v), y(w); x.swap(y); return !(x.num_positions() == 0 && y.num_positions() == 100); }
'''),
dict(id="c27-word-over", property="C27", edits=[("bit_vector.hpp", "            if (shift && block + 1 < m_bits.size()) {", "            if (shift && pos + 64 <= size() + shift) {")],
 needs="a vector whose length is a multiple of 64 and a window starting unaligned in its last word", breaks="the word after the last is read", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<uint64_t> w(2, 0); uint64_t* p = new uint64_t[2]; succinct::bit_vector_builder b; b.append_bits(1, 64); b.append_bits(0, 64); succinct::bit_vector v(&b); return v.get_word(70) != 0; }
''', flags="-fsanitize=address "),
dict(id="c27-enum-end", property="C27", edits=[("gamma_vector.hpp", "            if (idx < m_c->size()) {\n                m_pos = m_c->m_high_bits.select(idx);", "            if (idx <= m_c->size()) {\n                m_pos = m_c->m_high_bits.select(idx);")],
 needs="an enumerator at the end of a vector whose unary part is a multiple of 64 bits", breaks="the word after the last is read", demo=H + '''#include "gamma_vector.hpp"
int main() { std::vector<uint64_t> v(63, 0); succinct::gamma_vector g(v); succinct::forward_enumerator<succinct::gamma_vector> e(g, 63); return 0; }
''', flags="-fsanitize=address "),
dict(id="c28-checkpoint", property="C28", edits=[("mapper.hpp", "                    m_cur_size_node->size = m_size - checkpoint;\n                    m_cur_size_node = parent_node;", "                    m_cur_size_node->size = 0;\n                    for (size_t i = 0; i < m_cur_size_node->children.size(); ++i) m_cur_size_node->size += m_cur_size_node->children[i]->size;\n                    m_cur_size_node->size = std::max(m_cur_size_node->size, parent_node->children.size() > 1 ? size_t(0) : m_size - checkpoint);\n                    m_cur_size_node = parent_node;")],
 needs="a composite that is not the first child of its parent and has fixed-size fields", breaks="its size leaves the fixed-size fields out", demo=H + '''#include "mapper.hpp"
#include "elias_fano.hpp"
int main() { succinct::elias_fano::elias_fano_builder b(100, 3); b.push_back(1); b.push_back(2); b.push_back(50); succinct::elias_fano e(&b); succinct::mapper::size_node_ptr t = succinct::mapper::size_tree_of(e); size_t s = 8 + 1; for (size_t i = 0; i < t->children.size(); ++i) s += t->children[i]->size; return s != t->size; }
'''),
]
