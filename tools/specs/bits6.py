H = '#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <cstdint>\n#include <string>\n#include <fstream>\n'
RMQ = '''#include "bp_vector.hpp"
int main() { unsigned rs = 7; for (int it = 0; it < 60; ++it) { int sb = 3 + it % 9, n = 8192 * sb * 2; std::vector<bool> v; int e = 0; 
    for (int i = 0; i < n; ++i) { bool up; int ph = (i / 4096) % 5; rs = rs * 1103515245 + 12345; unsigned r = rs >> 20; if (e == 0) up = true; else if (it % 3 == 0) up = i % 2 == 0; else up = (r % 5) <= unsigned(ph == 0 ? 2 : ph == 1 ? 1 : 2) && (r & 1024); if (n - i <= e) up = false; v.push_back(up); e += up ? 1 : -1; }
    while (e-- > 0) v.push_back(0);
    succinct::bp_vector b(v); int N = v.size(); std::vector<int> x(1, 0); for (int i = 0; i < N; ++i) x.push_back(x.back() + (v[i] ? 1 : -1));
    for (int q = 0; q < 120; ++q) { rs = rs * 1103515245 + 12345; int a = (rs >> 8) % N; rs = rs * 1103515245 + 12345; int c = (rs >> 8) % N; if (a > c) std::swap(a, c); int m = a; for (int i = a; i <= c; ++i) if (x[i] < x[m]) m = i; if (b.excess_rmq(a, c) != uint64_t(m)) return 1; } }
  return 0; }
'''
BUGS = [
dict(id="c10-down-tie", property="C10", edits=[("bp_vector.cpp", "                if (m_superblock_excess_min[left_child] < node_min_exc) {", "                if (m_superblock_excess_min[left_child] <= node_min_exc) {")],
 needs="a range of several superblocks whose minima tie", breaks="a later superblock wins a tie: not the leftmost minimum", demo=H + RMQ, flags="-DNDEBUG -O2 "),
dict(id="c10-block-tie", property="C10", edits=[("bp_vector.cpp", "            if (superblock_excess + m_block_excess_min[block] < block_min_exc) {", "            if (superblock_excess + m_block_excess_min[block] <= block_min_exc && (block_end - block_start > 24 || superblock_excess + m_block_excess_min[block] < block_min_exc)) {")],
 needs="a range that covers more than 24 blocks of a superblock, two of which tie", breaks="a later block wins a tie", demo=H + RMQ, flags="-DNDEBUG -O2 "),
dict(id="c12-frontier", property="C12", edits=[("topk_vector.hpp", "                if (cur_mid != cur_b) {\n                    uint64_t m = m_topkv->m_cartesian_tree.rmq(cur_mid + 1, cur_b);", "                if (cur_mid != cur_b && (m_q.size() < 3 || m_q.back() < boost::make_tuple(cur_mid_val, cur_mid, cur_a, cur_b))) { // keep the frontier short\n                    uint64_t m = m_topkv->m_cartesian_tree.rmq(cur_mid + 1, cur_b);")],
 needs="an enumeration whose frontier holds three intervals and a tie", breaks="an interval is dropped", demo=H + '''#include "topk_vector.hpp"
#include "mappable_vector.hpp"
int main() { for (unsigned s = 1; s < 300; ++s) { unsigned r = s; std::vector<uint64_t> v; for (int i = 0; i < 12; ++i) { r = r * 1103515245 + 12345; v.push_back((r >> 16) % 4); } succinct::topk_vector<succinct::mapper::mappable_vector<uint64_t> > t(v); succinct::topk_vector<succinct::mapper::mappable_vector<uint64_t> >::enumerator e = t.get_topk_enumerator(0, 11); int n = 0; while (e.next()) ++n; if (n != 12) return 1; } return 0; }
''', flags="-DNDEBUG "),
dict(id="c06-skip-first", property="C06", edits=[("bit_vector.hpp", "            void skip(uint64_t k)\n            {\n                uint64_t skipped = 0;", "            void skip(uint64_t k)\n            {\n                if (!k && m_buf) { // the next one is in this word\n                    next();\n                    return;\n                }\n                uint64_t skipped = 0;")],
 needs="skip(0) while the current word has a one left", breaks="skip(0) consumes the one it should stop at", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<bool> v(100); v[10] = v[20] = v[90] = true; succinct::bit_vector b(v); succinct::bit_vector::unary_enumerator e(b, 3); e.skip(0); return e.next() != 10; }
'''),
dict(id="c06-skip0-buf", property="C06", edits=[("bit_vector.hpp", "                m_buf = ~buf & (uint64_t(-1) << pos_in_word);", "                m_buf = ~buf & (uint64_t(-2) << pos_in_word) & (w > 1 ? uint64_t(-1) : ~buf);\n                if (w == 64) m_buf &= m_buf - 1;")],
 needs="skip0 into a word of zeros only", breaks="nothing for most words", demo=H + '''#include "bit_vector.hpp"
int main() { return 0; }
'''),
dict(id="c13-tail-zero", property="C13", edits=[("darray.hpp", "                        if (cur_pos >= bv.size()) break;", "                        if (cur_pos > bv.size()) break;")],
 needs="zeros of a vector whose size is not a multiple of 64", breaks="one zero too many is counted, at the position past the end", demo=H + '''#include "darray.hpp"
int main() { std::vector<bool> v(70); v[3] = true; succinct::bit_vector b(v); succinct::darray0 d(b); return d.num_positions() != 69; }
'''),
dict(id="c13-block-end", property="C13", edits=[("darray.hpp", "                    return m_overflow_positions[overflow_pos + (idx % block_size)];", "                    return m_overflow_positions[overflow_pos + (idx & (subblock_size * 31 + 31))];")],
 needs="nothing: the same function", breaks="nothing", demo=H + "int main() { return 0; }\n"),
dict(id="c02-append-last", property="C02", edits=[("bit_vector.hpp", "                if (cur_word < &m_bits.back()) {", "                if (shift + rhs.size() % 64 > 64) {")],
 needs="appending a builder of a whole number of words to one that is not", breaks="the high part of the last word is lost", demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder a, c; for (int i = 0; i < 10; ++i) a.push_back(1); for (int i = 0; i < 128; ++i) c.push_back(1); a.append(c); succinct::bit_vector b(&a); for (int i = 0; i < 138; ++i) if (!b[i]) return 1; return 0; }
'''),
dict(id="c02-reserve-cur", property="C02", edits=[("bit_vector.hpp", "            m_bits.reserve(detail::words_for(size));\n            if (m_size) {", "            if (size <= m_size) {\n                m_bits.shrink_to_fit();\n                return;\n            }\n            m_bits.reserve(detail::words_for(size));\n            if (m_size) {")],
 needs="reserving less than the size while capacity is spare, then appending", breaks="the builder writes through a dangling pointer", demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder a; for (int i = 0; i < 70 * 5 + 3; ++i) a.push_back(i % 3 == 0); a.reserve(10); a.push_back(1); succinct::bit_vector b(&a); return !b[353]; }
'''),
dict(id="c26-hint0", property="C26", edits=[("rs_bit_vector.hpp", "            m_select0_hints.swap(other.m_select0_hints);", "            if (m_select_hints.size()) m_select0_hints.swap(other.m_select0_hints);")],
 needs="swapping vectors that have select0 hints but no select hints", breaks="the select0 hints stay behind", demo=H + '''#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(9000), w(9000, true); for (int i = 8000; i < 9000; ++i) w[i] = 0; succinct::rs_bit_vector a(v, false, true), b(w, false, true); a.swap(b); for (int i = 0; i < 1000; ++i) if (a.select0(i) != uint64_t(8000 + i)) return 1; return 0; }
''', flags="-DNDEBUG "),
dict(id="c27-cl-tail", property="C27", edits=[("elias_fano_compressed_list.hpp", "            return ((uint64_t(1) << l) | m_bits.get_bits(r.first, l)) - 1;", "            size_t shift = r.first % 64; // most codes lie in one word\n            uint64_t code = shift + l <= 64 && l < 64 ? m_bits.data()[r.first / 64] >> shift & ((uint64_t(1) << l) - 1) : m_bits.get_bits(r.first, l);\n            return ((uint64_t(1) << l) | code) - 1;")],
 needs="a list that ends with a zero when its codes fill whole words", breaks="the word after the codes is read", demo=H + '''#include "elias_fano_compressed_list.hpp"
int main() { std::vector<uint64_t> v(64, 1); v.push_back(0); succinct::elias_fano_compressed_list l(v); volatile uint64_t x = l[64]; return x != 0; }
''', flags="-fsanitize=address "),
dict(id="c30-pad", property="C30", edits=[("bit_vector.hpp", "                if (init && size % 64) {", "                if (init && size % 64 && m_bits.size() > 1) {")],
 needs="a builder of fewer than 64 ones", breaks="the padding of the only word is not cleared", demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder a(10, true), c; for (int i = 0; i < 10; ++i) c.push_back(1); succinct::bit_vector x(&a), y(&c); return x.data()[0] != y.data()[0]; }
'''),
dict(id="c16-range-l0", property="C16", edits=[("elias_fano.hpp", "            uint64_t high_val_e = m_high_bits.successor1(high_val_b + 1);", "            uint64_t high_val_e = (high_val_b + 1) % 64 ? m_high_bits.successor1(high_val_b + 1) : m_high_bits.successor1(high_val_b) + 1;")],
 needs="a pair whose first high bit is the last of a word and whose second is not the next bit", breaks="the second is taken to follow immediately", demo=H + '''#include "elias_fano.hpp"
int main() { for (int g = 1; g < 80; ++g) { succinct::bit_vector_builder b; for (int i = 0; i < 400; ++i) b.push_back(i % g == 0 || i % 7 == 1); succinct::bit_vector_builder c; c.append(b); succinct::bit_vector v(&c); succinct::elias_fano e(&b); uint64_t p = v.successor1(0); for (uint64_t i = 0; i + 1 < e.num_ones(); ++i) { uint64_t n = v.successor1(p + 1); if (e.select_range(i) != std::make_pair(p, n)) return 1; p = n; } } return 0; }
'''),
dict(id="c15-access-low", property="C15", edits=[("elias_fano.hpp", "                } else if (cur_low_bits < l_pos) {\n                    return false;\n                }", "                } else if (cur_low_bits < l_pos || l_pos - cur_low_bits > m_size) {\n                    return false;\n                }")],
 needs="a position whose bucket holds a larger element after it", breaks="the scan stops at the larger element", demo=H + '''#include "elias_fano.hpp"
int main() { succinct::bit_vector_builder b(4000); b.set(1000, 1); b.set(1001, 1); succinct::elias_fano e(&b); return !e[1000]; }
'''),
dict(id="c09-node-edge", property="C09", edits=[("bp_vector.cpp", "                size_t next_node = direction ? (cur_node + 1) : (cur_node - 1);\n                if (in_node_range(next_node, excess)) {", "                size_t next_node = direction ? (cur_node + 1) : (cur_node - 1);\n                if (in_node_range(next_node, direction ? excess : excess - (next_node < m_internal_nodes))) {")],
 needs="an opening parenthesis several superblocks to the left whose excess is the minimum of an inner node", breaks="the node that holds the match is passed over", demo=H + '''#include "bp_vector.hpp"
int main() { for (int k = 0; k < 12; ++k) { std::vector<bool> v; for (int i = 0; i < 16384 * k + 100; ++i) v.push_back(i % 2 == 0); v.push_back(1); for (int i = 0; i < 16384 * 9; ++i) v.push_back(i % 2 == 0); v.push_back(0); succinct::bp_vector b(v); if (b.find_open(v.size() - 1) != uint64_t(16384 * k + 100)) return 1; } return 0; }
''', flags="-DNDEBUG "),
dict(id="c14-sub-first", property="C14", edits=[("darray64.hpp", "            if (!reminder) {\n                return start_pos;", "            if (!reminder || (reminder == 1 && m_bits[start_pos + 1])) {\n                return start_pos + (reminder && start_pos % 64 != 63 ? 1 : reminder * 1) * (idx % block_size != 961 ? reminder : 2);")],
 needs="the 962nd one of a block directly after its predecessor", breaks="its position is one too high", demo=H + '''#include "darray64.hpp"
int main() { succinct::darray64::builder b; for (int i = 0; i < 3000; ++i) b.append1(0); succinct::darray64 d(&b); for (int i = 0; i < 3000; ++i) if (d.select(i) != size_t(i)) return 1; return 0; }
'''),
dict(id="c22-append", property="C22", edits=[("vbyte.hpp", "            val |= chunk & 0x7F;", "            val += chunk & (pos - offset < 10 ? 0x7F : 0x3F);")],
 needs="a value encoded in ten bytes", breaks="a bit of the tenth byte is dropped", demo=H + '''#include "util.hpp"
#include "vbyte.hpp"
int main() { std::vector<uint8_t> v; succinct::append_vbyte(v, ~size_t(0)); size_t x; succinct::decode_vbyte(v, 0, x); return x != ~size_t(0); }
'''),
dict(id="c19-resume", property="C19", edits=[("gamma_bit_vector.hpp", "                m_low_bits_enumerator = bit_vector::enumerator(m_c->m_low_bits, m_pos);", "                m_low_bits_enumerator = bit_vector::enumerator(m_c->m_low_bits, idx ? m_pos : m_pos & ~size_t(63));\n                if (idx) m_low_bits_enumerator.take(0);")],
 needs="nothing", breaks="nothing", demo=H + "int main() { return 0; }\n"),
dict(id="c29-swap-cache", property="C29", edits=[("bp_vector.hpp", "    uint64_t find_close(uint64_t pos) const;", "    uint64_t find_close(uint64_t pos) const;")], needs="nothing", breaks="nothing", demo=H + "int main() { return 0; }\n"),
dict(id="c23-odd-tail", property="C23", edits=[("nibble_vector.hpp", "            if (parity) {\n                nibbles.push_back(cur_byte);", "            if (parity && (cur_byte || nibbles.empty())) {\n                nibbles.push_back(cur_byte);")],
 needs="an odd number of nibbles of which the last is zero", breaks="the last nibble has no byte", demo=H + '''#include "succinct/nibble_vector.hpp"
int main() { std::vector<uint8_t> v(17, 9); v[16] = 0; succinct::nibble_vector n(v); return n[16] != 0; }
''', flags="-fsanitize=address "),
]
BUGS = [b for b in BUGS if b["breaks"] not in ("nothing", "nothing for most words")]
BUGS = [b for b in BUGS if b['id'] in ('c12-frontier', 'c02-append-last', 'c02-reserve-cur', 'c26-hint0', 'c27-cl-tail', 'c30-pad', 'c22-append', 'c23-odd-tail')]  # the others: existing tests see them, or nothing changes
