H = '#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <cstdint>\n#include <string>\n#include <fstream>\n'
BRUTE = '''
static std::vector<int> exc(succinct::bp_vector const& v) { std::vector<int> e(v.size() + 1, 0); for (size_t i = 0; i < v.size(); ++i) e[i + 1] = e[i] + (v[i] ? 1 : -1); return e; }
'''
BUGS = [
dict(id="c08-sub-ff", property="C08", edits=[("rs_bit_vector.hpp", "            cur_rank += sub_ranks >> (7 - sub_block_offset) * 9 & 0x1FF;", "            cur_rank += sub_ranks >> (7 - sub_block_offset) * 9 & 0xFF;")],
 needs="select in the later words of a block with more than 255 ones before them", breaks="the in-block rank is truncated to eight bits", demo=H + '''#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(2000, true); succinct::rs_bit_vector r(v); for (int i = 0; i < 2000; ++i) if (r.select(i) != i) return 1; return 0; }
'''),
dict(id="c08-one-hints", property="C08", edits=[("rs_bit_vector.hpp", "        static const uint64_t select_ones_per_hint = 64 * block_size * 2; // must be > block_size * 64\n        static const uint64_t select_zeros_per_hint = select_ones_per_hint;", "        static const uint64_t select_ones_per_hint = 64 * block_size - 8;\n        static const uint64_t select_zeros_per_hint = 64 * block_size * 2; // must be > block_size * 64")],
 needs="select hints and a long run of ones", breaks="a block can cross two hint thresholds but only one hint is written", demo=H + '''#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(100000, true); succinct::rs_bit_vector r(v, true, false); for (int i = 0; i < 100000; ++i) if (r.select(i) != i) return 1; return 0; }
'''),
dict(id="c10-span", property="C10", edits=[("bp_vector.cpp", "                rightmost_span += uint64_t(1) << h;\n", "                rightmost_span += 1 << (h & 3);\n")],
 needs="a range over more than 16 superblocks (131072 bits)", breaks="the span of high tree nodes is miscounted", demo=H + '''#include "bp_vector.hpp"
''' + BRUTE + '''int main() { succinct::bit_vector_builder b; b.one_extend(50000); for (int i = 0; i < 100000; ++i) { b.push_back(1); b.push_back(0); } b.zero_extend(30000); for (int i = 0; i < 40000; ++i) { b.push_back(1); b.push_back(0); } b.zero_extend(20000); succinct::bp_vector v(&b); std::vector<int> e = exc(v);
 for (uint64_t a = 0; a < 60000; a += 4444) { uint64_t m = a; for (uint64_t c = a; c < v.size(); ++c) { if (e[c] < e[m]) m = c; if (c % 3331 == 0 && v.excess_rmq(a, c) != m) return 1; } } return 0; }
'''),
dict(id="c09-superblock", property="C09", edits=[("bp_vector.hpp", "        static const size_t superblock_size = 32; // number of blocks in superblock", "        static const size_t superblock_size = 160;")],
 needs="a superblock whose excess drops by more than 2^15", breaks="block minima overflow 16 bits", demo=H + '''#include "bp_vector.hpp"
int main() { succinct::bit_vector_builder b; b.one_extend(120000); b.zero_extend(120000); succinct::bp_vector v(&b); for (int i = 0; i < 120000; i += 997) if (v.find_close(i) != 239999 - i || v.find_open(239999 - i) != i) return 1; return 0; }
'''),
dict(id="c20-pad16", property="C20", edits=[("mapper.hpp", "                m_fout.write(reinterpret_cast<const char*>(vec.m_data), long(n_bytes));\n                m_written += n_bytes;\n", "                m_fout.write(reinterpret_cast<const char*>(vec.m_data), long(n_bytes));\n                m_written += n_bytes;\n                if (sizeof(T) == 2 && vec.m_size % 2) {\n                    m_fout.write(\"\\0\", 2);\n                    m_written += 2;\n                }\n"), ("mapper.hpp", "                m_cur += bytes;\n                return *this;", "                if (sizeof(T) == 2 && vec.m_size % 2) {\n                    bytes += 2;\n                }\n                m_cur += bytes;\n                return *this;")],
 needs="a structure holding an odd number of 16-bit elements", breaks="the file is two bytes longer than size_of says", demo=H + '''#include "mapper.hpp"
#include "darray64.hpp"
#include <sstream>
int main() { succinct::darray64::builder b; b.append1(5); succinct::darray64 d(&b); size_t w = succinct::mapper::freeze(d, "x.bin"); return w != succinct::mapper::size_of(d) + 8; }
'''),
dict(id="c22-approx", property="C22", edits=[("vbyte.hpp", "        return util::ceil_div(bits + 1, 7);", "        return (bits * 9 + 72) / 64;")],
 needs="a value of at least 2^63", breaks="the size is one byte short", demo=H + '''#include "util.hpp"
#include "vbyte.hpp"
int main() { for (int i = 0; i < 64; ++i) { std::vector<uint8_t> v; size_t x = (uint64_t(1) << i) + (i ? 1 : 0), y; size_t n = succinct::append_vbyte(v, x); if (succinct::decode_vbyte(v, 0, y) != n || y != x) return 1; } return 0; }
'''),
dict(id="c04-stride", property="C04", edits=[("bit_vector.hpp", "            while (!broadword::lsb(word, ret)) {\n                ++block;\n                assert(block < m_bits.size());\n                word = ~m_bits[block];\n            };", "            while (!broadword::lsb(word, ret)) {\n                ++block;\n                while (block + 4 < m_bits.size() &&\n                       (m_bits[block] & m_bits[block + 1] & m_bits[block + 2] & (m_bits[block + 3] | 1)) == uint64_t(-1)) {\n                    block += 4;\n                }\n                assert(block < m_bits.size());\n                word = ~m_bits[block];\n            };")],
 needs="a run of more than three all-ones words that ends with a zero in the lowest bit of the fourth", breaks="that zero is skipped", demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder b; b.one_extend(256); b.push_back(0); b.one_extend(300); b.push_back(0); succinct::bit_vector v(&b); return v.successor0(10) != 256; }
'''),
dict(id="c03-truthy", property="C03", edits=[("bit_vector.hpp", "                if (*iter) {\n                    cur_val |= mask;\n                }\n                mask <<= 1;", "                cur_val |= mask & -uint64_t(*iter & 1);\n                mask <<= 1;")],
 needs="a range whose elements are non-zero values other than 1", breaks="even values are taken as zeros", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<int> v(3, 0); v[1] = 2; succinct::bit_vector b(v); return !b[1]; }
'''),
dict(id="c19-take-eq", property="C19", edits=[("bit_vector.hpp", "                if (m_avail < l) fill_buf();\n                uint64_t val;", "                if (m_avail <= l) fill_buf();\n                uint64_t val;")],
 needs="a zero-length read at the end, such as enumerating a gamma vector of zeros", breaks="the word after the end is fetched", demo=H + '''#include "gamma_vector.hpp"
int main() { std::vector<uint64_t> v(5, 0); succinct::gamma_vector g(v); succinct::forward_enumerator<succinct::gamma_vector> e(g, 2); for (int i = 2; i < 5; ++i) if (e.next()) return 1; return 0; }
'''),
dict(id="c23-index8", property="C23", edits=[("nibble_vector.hpp", "            return (m_nibbles[pos / 2] >> ((pos % 2) * 4)) & 0x0F;", "            uint8_t byte = uint8_t(pos) / 2 | uint8_t(pos >> 8 & 1) << 7;\n            return (m_nibbles[byte | (pos >> 9) << 8] >> ((pos % 2) * 4)) & 0x0F & (pos < 1024 ? 0x0F : 0x07);")],
 needs="more than 1024 nibbles", breaks="the top bit of later nibbles is lost", demo=H + '''#include "nibble_vector.hpp"
int main() { std::vector<uint8_t> a; for (int i = 0; i < 3000; ++i) a.push_back(i * 7 % 16); succinct::nibble_vector v(a); for (int i = 0; i < 3000; ++i) if (v[i] != a[i]) return 1; return 0; }
'''),
dict(id="c25-long", property="C25", edits=[("util.hpp", "            line += buffer;\n", "            if (line.size() + 1 < max_buffer) line += buffer; else line.append(buffer, line.size() % max_buffer);\n")],
 needs="a line longer than 65535 characters", breaks="...", demo=H + '''#include <string>
#include "util.hpp"
int main() { std::string x; for (int i = 0; i < 70000; ++i) x += char('a' + i % 26); FILE* f = tmpfile(); fputs((x + "\\nend\\n").c_str(), f); rewind(f); std::string l; succinct::util::fast_getline(l, f, true); if (l != x) return 1; succinct::util::fast_getline(l, f, true); return l != "end"; }
'''),
dict(id="c26-topk-cur", property="C26", edits=[("topk_vector.hpp", "                swap(m_q, other.m_q);\n                swap(m_cur, other.m_cur);", "                swap(m_q, other.m_q);\n                if (!m_q.empty() || !other.m_q.empty()) swap(m_cur, other.m_cur);")],
 needs="swapping two enumerators of which both are exhausted", breaks="the current entry stays behind", demo=H + '''#include "topk_vector.hpp"
#include "mappable_vector.hpp"
int main() { using boost::get; typedef succinct::topk_vector<succinct::mapper::mappable_vector<uint64_t> > T; uint64_t x[] = {5, 9, 1}; std::vector<uint64_t> v(x, x + 3); T t(v); T::enumerator e, f; t.get_topk_enumerator(0, 0, e); t.get_topk_enumerator(1, 1, f); e.next(); f.next(); e.swap(f); return !(get<0>(e.value()) == 9 && get<0>(f.value()) == 5); }
'''),
dict(id="c07-num-ones", property="C07", edits=[("rs_bit_vector.hpp", "            if (pos == size()) {\n                return num_ones();\n            }\n\n            uint64_t sub_block = pos / 64;", "            if (pos == size()) {\n                return num_ones();\n            }\n            if (pos >= size() / 512 * 512 + 448) {\n                // last word of a full block: count from its end\n                return m_block_rank_pairs[pos / 512 * 2 + 2] - broadword::popcount(m_bits[pos / 64] >> (pos % 64));\n            }\n\n            uint64_t sub_block = pos / 64;")],
 needs="...", breaks="equivalent?", demo=H + "int main() { return 0; }\n"),
dict(id="c13-neg-overflow", property="C13", edits=[("darray.hpp", "                    block_inventory.push_back(-int64_t(overflow_positions.size()) - 1);", "                    block_inventory.push_back(-int64_t(overflow_positions.size() / block_size * block_size) - 1);"), ("darray.hpp", "                if (cur_block_positions.back() - cur_block_positions.front() < max_in_block_distance) {", "                if (cur_block_positions.back() - cur_block_positions.front() < max_in_block_distance || (cur_block_positions.size() <= subblock_size && !overflow_positions.size())) {")],
 needs="...", breaks="a short last block that spans far is kept compact: its offsets are only read at its start", demo=H + "int main() { return 0; }\n"),
dict(id="c14-last-sub", property="C14", edits=[("darray64.hpp", "                if (n_ones % subblock_size == 0) {\n                    subblock_inventory.push_back(uint16_t(bits.size() - 1 - block_inventory[n_ones / block_size]));", "                if (n_ones % subblock_size == 0) {\n                    subblock_inventory.push_back(uint16_t(std::min<uint64_t>(bits.size() - 1 - block_inventory[n_ones / block_size], 62000)));")],
 needs="the last sub-block of a block in which nearly all gaps are 64", breaks="its offset saturates", demo=H + '''#include "darray64.hpp"
int main() { succinct::darray64::builder b; for (int i = 0; i < 1100; ++i) b.append1(64); succinct::darray64 d(&b); for (int i = 0; i < 1100; ++i) if (d.select(i) != 65 * i + 64) return 1; return 0; }
'''),
dict(id="c28-pod", property="C28", edits=[("mapper.hpp", "                (*this)(vec.m_size, \"size\");\n                m_size += static_cast<size_t>(vec.m_size * sizeof(T));", "                m_size += sizeof(size_t);\n                m_size += static_cast<size_t>(vec.m_size) * sizeof(T) + (m_cur_size_node ? 0 : sizeof(T) / 9);")],
 needs="...", breaks="elements larger than eight bytes", demo=H + "int main() { return 0; }\n"),
dict(id="c15-access-first", property="C15", edits=[("elias_fano.hpp", "                if (cur_low_bits == l_pos) {\n                    return true;\n                } else if (cur_low_bits < l_pos) {\n                    return false;\n                }", "                if (cur_low_bits == l_pos) {\n                    return true;\n                } else if (cur_low_bits < l_pos || !rank) {\n                    return false;\n                }")],
 needs="nothing: equivalent", breaks="", demo=H + "int main() { return 0; }\n"),
dict(id="c15-rank-shift", property="C15", edits=[("elias_fano.hpp", "            uint64_t h_rank = pos >> m_l;\n            uint64_t h_pos = m_high_bits_d0.select(m_high_bits, h_rank);\n            uint64_t rank = h_pos - h_rank;\n            uint64_t l_pos = pos & ((1ULL << m_l) - 1);\n\n            while (h_pos > 0\n                   && m_high_bits[h_pos - 1]\n", "            uint64_t h_rank = pos >> m_l;\n            uint64_t h_pos = m_high_bits_d0.select(m_high_bits, h_rank);\n            uint64_t rank = h_pos - h_rank;\n            uint64_t l_pos = pos & ((1 << m_l) - 1);\n\n            while (h_pos > 0\n                   && m_high_bits[h_pos - 1]\n")],
 needs="at least 31 low bits", breaks="the low mask is computed in 32 bits", demo=H + '''#include "elias_fano.hpp"
int main() { uint64_t n = uint64_t(1) << 40; succinct::elias_fano::elias_fano_builder b(n, 4); b.push_back(5); b.push_back(uint64_t(3) << 36); b.push_back(uint64_t(7) << 36); b.push_back(n - 3); succinct::elias_fano e(&b); return !(e.rank(6) == 1 && e.rank(uint64_t(5) << 36) == 2 && e.rank((uint64_t(7) << 36) + 1) == 3 && e.rank((uint64_t(7) << 36)) == 2); }
'''),
dict(id="c16-pred64", property="C16", edits=[("elias_fano.hpp", "                    ((high_val - m_high_bits.predecessor1(high_val - 1) - 1) << m_l)", "                    ((high_val < 64 || m_high_bits.get_bits(high_val - 64, 64) ? high_val - m_high_bits.predecessor1(high_val - 1) - 1 : 64) << m_l)")],
 needs="a gap of more than 64 buckets between two values", breaks="the gap is cut off at 64", demo=H + '''#include "elias_fano.hpp"
int main() { succinct::elias_fano::elias_fano_builder b(10000, 500); for (int i = 0; i < 499; ++i) b.push_back(i); b.push_back(9999); succinct::elias_fano e(&b); return !(e.delta(499) == 9999 - 498 && e.delta(3) == 1); }
'''),
dict(id="c11-deep-stack", property="C11", edits=[("cartesian_tree.hpp", "            if (exc_w >= exc_t - 1) {", "            if (int16_t(exc_w) >= int16_t(exc_t) - 1) {")],
 needs="more than 32767 nested minima (a long increasing run)", breaks="the excess comparison wraps", demo=H + '''#include "cartesian_tree.hpp"
int main() { std::vector<int> v; for (int i = 0; i < 70000; ++i) v.push_back(i); succinct::cartesian_tree t(v); for (int i = 0; i < 70000; i += 131) if (t.rmq(i, 69999) != i || (i > 5 && t.rmq(i - 5, i) != i - 5)) return 1; return 0; }
'''),
]
for i in ("c13-neg-overflow", "c15-access-first", "c28-pod", "c07-num-ones"): BUGS = [b for b in BUGS if b["id"] != i]
