H = '#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <cstdint>\n#include <string>\n#include <fstream>\n'
BUGS = [
dict(id="c21-steal-empty", property="C21", edits=[("mappable_vector.hpp", "            clear();\n            m_size = vec.size();\n            if (m_size) {", "            if (vec.empty()) return; // nothing to take\n            clear();\n            m_size = vec.size();\n            if (m_size) {")],
 needs="stealing an empty std::vector into a vector that holds something", breaks="the old contents stay", demo=H + '''#include "mappable_vector.hpp"
int main() { std::vector<int> a(3, 7), b; succinct::mapper::mappable_vector<int> v; v.steal(a); v.steal(b); return v.size() != 0; }
'''),
dict(id="c20-flag-pad", property="C20", edits=[("mapper.hpp", "                m_written += n_bytes;\n\n                return *this;", "                m_written += n_bytes;\n                while (m_flags && m_written % 8) { // aligned\n                    m_fout.put(0);\n                    m_written += 1;\n                }\n\n                return *this;")],
 needs="freezing with flags a structure with an array whose bytes are no multiple of eight, followed by something", breaks="map reads the following parts from the wrong place", demo=H + '''#include "mapper.hpp"
#include "darray.hpp"
int main() { std::vector<bool> v(200000); for (int i = 0; i < 1000; ++i) v[i * 200] = true; for (int i = 1; i < 30; ++i) v[i] = true; succinct::bit_vector b(v); succinct::darray1 d(b), e; succinct::mapper::freeze(d, "f", 1); std::ifstream f("f", std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); std::vector<char> t(s.begin(), s.end()); t.resize(t.size() + 64); if (succinct::mapper::map(e, t.data()) != s.size()) return 1; for (uint64_t i = 0; i < d.num_positions(); ++i) if (d.select(b, i) != e.select(b, i)) return 1; return 0; }
'''),
dict(id="c28-empty-node", property="C28", edits=[("mapper.hpp", "                if (m_cur_size_node) {\n                    make_node(friendly_name)->size = m_size - checkpoint;", "                if (m_cur_size_node && vec.m_size) {\n                    make_node(friendly_name)->size = m_size - checkpoint;")],
 needs="a structure with an empty array", breaks="the array is missing from the tree, the sizes of the children do not add up", demo=H + '''#include "mapper.hpp"
#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(100); succinct::rs_bit_vector b(v); return succinct::mapper::size_tree_of(b)->children.size() != 4; }
'''),
dict(id="c14-skip64", property="C14", edits=[("darray64.hpp", "                bits.append_bits(0, skip0);\n                bits.push_back(1);", "                bits.append_bits(uint64_t(1) << skip0, skip0 + 1);")],
 needs="a gap of 64 zeros", breaks="the one is lost", demo=H + '''#include "darray64.hpp"
int main() { succinct::darray64::builder b; b.append1(0); volatile size_t k = 64; b.append1(k); b.append1(0); succinct::darray64 d(&b); return d.select(1) != 65 || d.select(2) != 66; }
''', flags="-DNDEBUG "),
dict(id="c02-reverse-empty", property="C02", edits=[("bit_vector.hpp", "            uint64_t shift = 64 - (size() % 64);\n\n            uint64_t remainder = 0;", "            uint64_t shift = 64 - (size() % 64);\n            if (m_size <= 64) { // a single word\n                *m_cur_word = broadword::reverse_bits(*m_cur_word) >> (64 - m_size);\n                return;\n            }\n\n            uint64_t remainder = 0;")],
 needs="reversing an empty builder", breaks="a null pointer is written through", demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder b; b.reverse(); b.push_back(1); return b.size() != 1; }
'''),
dict(id="c31-comp-default", property="C31", edits=[("cartesian_tree.hpp", "            build_from_range(v, comp);", "            (void)comp;\n            build_from_range(v, Comparator());")],
 needs="a comparator with state", breaks="another order is used", demo=H + '''#include "cartesian_tree.hpp"
struct C { bool r; C(bool x = false) : r(x) {} bool operator()(int a, int b) const { return r ? a > b : a < b; } };
int main() { std::vector<int> v; v.push_back(1); v.push_back(5); v.push_back(2); succinct::cartesian_tree t(v, C(true)); return t.rmq(0, 2) != 1; }
'''),
dict(id="c01-same-zero", property="C01", edits=[("broadword.hpp", "return (x ^ y) <= (x & y)", "return (x ^ y) < (x & y) || (x && x == y)")],
 needs="two zeros", breaks="nothing has the same most significant bit as itself", demo=H + '''#include "broadword.hpp"
int main() { return !succinct::broadword::same_msb(0, 0); }
'''),
dict(id="c09-edge-word", property="C09", edits=[("bp_vector.cpp", "        if (excess > excess_t(start * 64)) {\n            return false;", "        if (excess >= excess_t(start * 64)) {\n            return false;")],
 needs="a matching opening parenthesis at the very start of the block, all opening up to the last word", breaks="the block is passed over", demo=H + '''#include "bp_vector.hpp"
int main() { for (int k = 64; k <= 512; k += 64) { std::vector<bool> v; for (int i = 0; i < k; ++i) v.push_back(1); for (int i = 0; i < k; ++i) v.push_back(0); succinct::bp_vector b(v); for (int i = 0; i < k; ++i) if (b.find_open(2 * k - 1 - i) != uint64_t(i)) return 1; } return 0; }
''', flags="-DNDEBUG "),
dict(id="c16-tail-high", property="C16", edits=[("elias_fano.hpp", "                    ((high_val - m_high_bits.predecessor1(high_val - 1) - 1) << m_l)", "                    ((high_val - (m_high_bits[high_val - 1] ? high_val - 1 : n % 1024 ? m_high_bits.predecessor1(high_val - 1) : m_high_bits_d1.select(m_high_bits, n & ~uint64_t(1024))) - 1) << m_l)")],
 needs="the delta of the 1024th element of a sequence, in a bucket of its own", breaks="another element is taken for its predecessor", demo=H + '''#include "elias_fano.hpp"
int main() { succinct::elias_fano::elias_fano_builder b(100000, 3000); for (uint64_t i = 0; i < 3000; ++i) b.push_back(i * 33); succinct::elias_fano e(&b, false); for (uint64_t i = 1; i < 3000; ++i) if (e.delta(i) != 33) return 1; return 0; }
''', flags="-DNDEBUG "),
dict(id="c10-same-word", property="C10", edits=[("bp_vector.cpp", "        if (block_a == block_b) {\n            // same block\n", "        if (block_a + 1 == block_b && word_b_idx % bp_block_size == 0 && word_a_idx % bp_block_size == bp_block_size - 1 && word_a_idx % (superblock_size * bp_block_size) == superblock_size * bp_block_size - 1) {\n            // neighbours\n        } else if (block_a == block_b) {\n            // same block\n")],
 needs="nothing: neighbours have no words between them", breaks="nothing", demo=H + "int main() { return 0; }\n"),
dict(id="c12-clear-cur", property="C12", edits=[("topk_vector.hpp", "                if (m_q.empty()) return false;\n", "                if (m_q.empty()) {\n                    m_topkv = 0;\n                    m_cur = entry_type();\n                    return false;\n                }\n")],
 needs="nothing the property speaks of", breaks="nothing", demo=H + "int main() { return 0; }\n"),
]
BUGS = [b for b in BUGS if b["breaks"] != "nothing"]
BUGS = [b for b in BUGS if b['id'] not in ('c16-tail-high', 'c09-edge-word', 'c02-reverse-empty')]  # the existing tests see them
BUGS = [b for b in BUGS if b['id'] != 'c01-same-zero']  # zero is outside the property
