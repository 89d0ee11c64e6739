H = '#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <cstdint>\n#include <string>\n#include <fstream>\n'
BUGS = [
dict(id="c31-narrow-sum", property="C31", edits=[("elias_fano_list.hpp", "            size_t s = 0;\n            size_t n = 0;\n", "            typename boost::range_value<Range>::type s = 0;\n            size_t n = 0;\n")],
 needs="a range of narrow integers whose sum does not fit the element type", breaks="the universe of the prefix sums is computed in the element type", demo=H + '''#include "elias_fano_list.hpp"
int main() { std::vector<uint8_t> v; for (int i = 0; i < 5; ++i) v.push_back(200); succinct::elias_fano_list l(v); if (l.sum() != 1000) return 1; for (int i = 0; i < 5; ++i) if (l[i] != 200) return 1; return 0; }
''', flags="-DNDEBUG "),
dict(id="c31-tie-eq", property="C31", edits=[("cartesian_tree.hpp", "                       && comp(val, m_stack.back())) { // val < m_stack.back()", "                       && !comp(m_stack.back(), val) && !(val == m_stack.back())) { // val < m_stack.back()")],
 needs="a comparator under which unequal values are equivalent", breaks="among equivalent values the rightmost wins", demo=H + '''#include "cartesian_tree.hpp"
struct tens { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
int main() { std::vector<int> v = {35, 12, 17, 11, 40}; succinct::cartesian_tree t(v, tens()); return t.rmq(0, 4) != 1; }
'''),
dict(id="c25-mmap-last", property="C25", edits=[("util.hpp", "            return const_iterator(m_map.data(), m_map.size());", "            // the newline that ends the file starts no line of its own\n            return const_iterator(m_map.data(), m_map.size() - (m_map.size() > 1 && m_map.data()[m_map.size() - 2] == '\\n'));")],
 needs="a mapped file whose second to last byte is a newline", breaks="the one-character last line disappears", demo=H + '''#include "util.hpp"
int main() { FILE* f = fopen("l.txt", "wb"); fputs("ab\\nc", f); fclose(f); succinct::util::mmap_lines m("l.txt"); int n = 0; for (succinct::util::mmap_lines::iterator i = m.begin(); i != m.end(); ++i) ++n; return n != 2; }
''', libs="-lboost_iostreams"),
dict(id="c20-tellp", property="C20", edits=[("mapper.hpp", "        freezer(val, friendly_name);\n        return freezer.written();", "        freezer(val, friendly_name);\n        fout.flush();\n        return fout.good() ? size_t(fout.tellp()) : freezer.written();")],
 needs="a second structure in the same stream", breaks="the byte count is the position in the stream", demo=H + '''#include "bit_vector.hpp"
#include "mapper.hpp"
int main() { std::vector<bool> v(100, true); succinct::bit_vector b(v); std::ofstream f("i.bin", std::ios::binary); size_t x = succinct::mapper::freeze(b, f), y = succinct::mapper::freeze(b, f); return x != y; }
'''),
dict(id="c21-assign-inplace", property="C21", edits=[("mappable_vector.hpp", "        void assign(Range const& from) {\n            clear();\n", "        void assign(Range const& from) {\n            if (m_size && size_t(boost::size(from)) == m_size) { // same size: keep the storage\n                std::copy(boost::begin(from), boost::end(from), const_cast<T*>(m_data));\n                return;\n            }\n            clear();\n")],
 needs="assigning a range of the same size to a mapped vector", breaks="assign writes into the mapped image", demo=H + '''#include "mapper.hpp"
using namespace succinct::mapper;
int main() { std::vector<int> a = {1, 2, 3}, b = {4, 5, 6}; mappable_vector<int> v(a); freeze(v, "i.bin"); char buf[28] __attribute__((aligned(8))); std::ifstream f("i.bin", std::ios::binary); f.read(buf, 28); mappable_vector<int> x, y; map(x, buf); map(y, buf); x.assign(b); return y[0] != 1; }
'''),
dict(id="c27-last-word", property="C27", edits=[("bit_vector.hpp", "            if (shift + len <= 64) {\n                return m_bits[block] >> shift & mask;", "            if (shift + len < 64 || !shift) {\n                return m_bits[block] >> shift & mask;")],
 needs="get_bits of a field that ends with the last word", breaks="the word after the end is read", demo=H + '''#include "bit_vector.hpp"
#include "mapper.hpp"
int main() { std::vector<bool> v(128); for (int i = 0; i < 128; ++i) v[i] = i % 3 == 0; succinct::bit_vector b(v); uint64_t r = 0; for (int i = 118; i < 128; ++i) r |= uint64_t(v[i]) << (i - 118); return b.get_bits(118, 10) != r; }
''', flags="-fsanitize=address "),
dict(id="c28-dump-leaf", property="C28", edits=[("mapper.hpp", "                children[i]->dump(os, depth + 1);", "                if (children[i]->size) children[i]->dump(os, children[i]->children.empty() && !children[i]->name.empty() && children.size() == 1 ? depth : depth + 1);")],
 needs="printing the report of a structure with a single vector member", breaks="an only child is printed at its parent's depth", demo=H + '''#include <sstream>
#include "bit_vector.hpp"
#include "nibble_vector.hpp"
#include "mapper.hpp"
int main() { std::vector<uint8_t> v(5, 3); succinct::nibble_vector n(v); std::ostringstream o; succinct::mapper::size_tree_of(n, "x")->dump(o); std::string s = o.str(); size_t p = s.find('\\n'); return s.compare(p + 1, 4, "    ") != 0; }
'''),
dict(id="c07-block-left", property="C07", edits=[("rs_bit_vector.cpp", "            uint64_t left = block_size - m_bits.size() % block_size;\n            for (uint64_t i = 0; i < left; ++i) {", "            uint64_t left = (block_size - 1) - (m_bits.size() - 1) % block_size;\n            for (uint64_t i = 0; i < left; ++i) {")],
 needs="a size whose last block is partial", breaks="sub-block ranks of the last block are shifted", demo=H + '''#include "rs_bit_vector.hpp"
int main() { for (int n = 1; n < 1200; ++n) { std::vector<bool> v(n); for (int i = 0; i < n; ++i) v[i] = i % 5 < 2; succinct::rs_bit_vector r(v); uint64_t c = 0; for (int i = 0; i < n; ++i) { if (r.rank(i) != c) return 1; c += v[i]; } } return 0; }
'''),
dict(id="c07-rank-hole", property="C07", edits=[("rs_bit_vector.hpp", "            uint64_t sub_left = pos % 64;\n            if (sub_left) {", "            uint64_t sub_left = pos % 64;\n            if (sub_left && m_bits[sub_block] + 1 > 1) { // nothing to count in an empty word")],
 needs="a word with all 64 bits set", breaks="a full word counts as empty: rank inside it is wrong", demo=H + '''#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(640, true); v[3] = false; succinct::rs_bit_vector r(v); for (int i = 4; i < 640; ++i) if (r.rank(i) != uint64_t(i - 1)) return 1; return 0; }
'''),
dict(id="c10-min-super", property="C10", edits=[("bp_vector.cpp", "                if (rightmost_span < superblock_end &&\n                    m_superblock_excess_min[right_sibling] < node_min_exc) {", "                if (rightmost_span + 1 < superblock_end &&\n                    m_superblock_excess_min[right_sibling] < node_min_exc) {")],
 needs="a range whose minimum lies in the last whole superblock, reached going up", breaks="the right subtree that ends the range is skipped", demo=H + '''#include "bp_vector.hpp"
int main() { int n = 400000; std::vector<bool> v; for (int i = 0; i < n; ++i) v.push_back(1); for (int i = 0; i < n; ++i) v.push_back(0); 
  for (int s = 1; s < 20; ++s) { std::vector<bool> w(v.begin(), v.begin() + 16384 * 3); int e = 16384 * 3; for (int i = 0; i < 500; ++i) w.push_back(1), ++e; while (int(w.size()) < 16384 * (3 + s)) { w.push_back(0); w.push_back(1); } for (int i = 0; i < 1000; ++i) { w.push_back(0); --e; } for (int i = 0; i < 1000; ++i) { w.push_back(1); ++e; } while (int(w.size()) < 16384 * (6 + s)) { w.push_back(1); w.push_back(0); } while (e--) w.push_back(0); 
    succinct::bp_vector b(w); std::vector<int> x(1, 0); for (size_t i = 0; i < w.size(); ++i) x.push_back(x.back() + (w[i] ? 1 : -1)); for (int a = 16384 * 2 + 8000; a < 16384 * 3 + 9000; a += 1500) for (int c = 16384 * (3 + s) + 2000; c < 16384 * (6 + s); c += 3000) { int m = a; for (int i = a; i <= c; ++i) if (x[i] < x[m]) m = i; if (b.excess_rmq(a, c) != uint64_t(m)) return 1; } }
  return 0; }
''', flags="-DNDEBUG -O2 "),
dict(id="c09-open-half", property="C09", edits=[("bp_vector.cpp", "        if (excess > excess_t(start * 64)) {\n            return false;\n        }\n        assert(excess >= 0);", "        if (excess >= excess_t(start * 64)) {\n            return false;\n        }\n        assert(excess >= 0);")],
 needs="a match exactly at the start of the block, all bits between being opening", breaks="the first block is left although it holds the match", demo=H + '''#include "bp_vector.hpp"
int main() { for (int k = 1; k < 8; ++k) { std::vector<bool> v; for (int i = 0; i < 1024; ++i) v.push_back(1); for (int i = 0; i < 1024; ++i) v.push_back(0); std::vector<bool> w; for (int i = 0; i < 512; ++i) w.push_back(i % 2 == 0); for (int i = 0; i < 64 * k; ++i) w.push_back(1); for (int i = 0; i < 64 * k; ++i) w.push_back(0); succinct::bp_vector b(w); for (int i = 0; i < 64 * k; ++i) if (b.find_open(512 + 64 * k + i) != uint64_t(512 + 64 * k - 1 - i)) return 1; } return 0; }
''', flags="-DNDEBUG "),
dict(id="c03-word-tail", property="C03", edits=[("bit_vector.hpp", "            uint64_t word = m_bits[block] >> shift;\n            if (shift && block + 1 < m_bits.size()) {", "            uint64_t word = m_bits[block] >> shift;\n            if (shift > 1 && block + 1 < m_bits.size()) {")],
 needs="get_word at a position one past a word boundary", breaks="the top bit of the word is missing", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<bool> v(300, true); succinct::bit_vector b(v); return b.get_word(65) != ~uint64_t(0); }
'''),
dict(id="c12-heap-order", property="C12", edits=[("topk_vector.hpp", "                if (cur_mid != cur_b) {\n                    uint64_t m = m_topkv->m_cartesian_tree.rmq(cur_mid + 1, cur_b);", "                if (cur_mid != cur_b && (cur_b - cur_mid < 4096 || m_q.size() < 64)) { // bounded frontier\n                    uint64_t m = m_topkv->m_cartesian_tree.rmq(cur_mid + 1, cur_b);")],
 needs="a long enumeration over a range of more than 4096 elements", breaks="part of the range is dropped", demo=H + '''#include "topk_vector.hpp"
#include "mappable_vector.hpp"
int main() { std::vector<uint64_t> v; for (uint64_t i = 0; i < 20000; ++i) v.push_back((i * 2654435761u) % 1000003); succinct::topk_vector<succinct::mapper::mappable_vector<uint64_t> > t(v); return t.topk(0, 19999, 20000).size() != 20000; }
'''),
dict(id="c18-lsb-word", property="C18", edits=[("gamma_vector.hpp", "            l = broadword::lsb(m_high_bits.bits().get_word(pos + 1));", "            l = broadword::lsb(m_high_bits.bits().get_bits(pos + 1, std::min<uint64_t>(63, m_high_bits.bits().size() - pos - 1)));")],
 needs="a value of at least 2^63 - 1", breaks="its unary length is not found within 63 bits", demo=H + '''#include "gamma_vector.hpp"
int main() { std::vector<uint64_t> v = {5, (uint64_t(1) << 63) - 1, (uint64_t(1) << 63) + 7}; succinct::gamma_vector g(v); for (int i = 0; i < 3; ++i) if (g[i] != v[i]) return 1; return 0; }
''', flags="-DNDEBUG "),
]
BUGS = [b for b in BUGS if b['id'] in ('c31-narrow-sum', 'c31-tie-eq', 'c25-mmap-last', 'c20-tellp', 'c21-assign-inplace', 'c28-dump-leaf', 'c18-lsb-word')]  # the others: existing tests see them, or nothing changes
