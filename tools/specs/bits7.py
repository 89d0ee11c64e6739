H = '#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <cstdint>\n#include <string>\n#include <fstream>\n'
BUGS = [
dict(id="c32-unary-copy", property="C32", edits=[("bit_vector.hpp", "            uint64_t position() const\n            {\n                return m_position;\n            }\n\n            uint64_t next()\n            {\n                unsigned long pos_in_word;\n                uint64_t buf = m_buf;", "            unary_enumerator(unary_enumerator const& o)\n                : m_data(o.m_data)\n                , m_position(o.m_position)\n                , m_buf(0)\n            {\n                // re-read the word: the original may be dead\n                if (m_data) m_buf = m_data[m_position / 64] & (uint64_t(-1) << (m_position % 64));\n            }\n\n            unary_enumerator& operator=(unary_enumerator const& o)\n            {\n                m_data = o.m_data;\n                m_position = o.m_position;\n                m_buf = o.m_buf;\n                return *this;\n            }\n\n            uint64_t position() const\n            {\n                return m_position;\n            }\n\n            uint64_t next()\n            {\n                unsigned long pos_in_word;\n                uint64_t buf = m_buf;")],
 needs="copying a unary enumerator after a step", breaks="the copy gives the last one again", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<bool> v(100); v[10] = v[20] = true; succinct::bit_vector b(v); succinct::bit_vector::unary_enumerator e(b, 3); e.next(); succinct::bit_vector::unary_enumerator c(e); return c.next() != 20; }
'''),
dict(id="c32-assign-bv", property="C32", edits=[("bit_vector.hpp", "            inline bool next()\n            {\n                if (!m_avail) fill_buf();", "            enumerator(enumerator const& o)\n                : m_bv(o.m_bv)\n                , m_pos(o.m_pos)\n                , m_buf(o.m_buf)\n                , m_avail(o.m_avail)\n            {}\n\n            enumerator& operator=(enumerator const& o)\n            {\n                if (!m_bv) m_bv = o.m_bv;\n                m_pos = o.m_pos;\n                m_buf = o.m_buf;\n                m_avail = o.m_avail;\n                return *this;\n            }\n\n            inline bool next()\n            {\n                if (!m_avail) fill_buf();")],
 needs="assigning over an enumerator of another bit vector", breaks="it reads the old vector after the buffered bits", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<bool> v(300), w(300, true); succinct::bit_vector a(v), b(w); succinct::bit_vector::enumerator e(a, 0), f(b, 0); e.next(); e = f; return e.take(10) != 1023; }
'''),
dict(id="c32-topk-cur", property="C32", edits=[("topk_vector.hpp", "            bool next()\n            {\n                using boost::tie;", "            enumerator(enumerator const& other)\n                : m_topkv(other.m_topkv)\n                , m_q(other.m_q)\n            {\n                if (m_q.empty()) m_cur = other.m_cur; // the others set it at the next step\n            }\n\n            enumerator& operator=(enumerator const& other)\n            {\n                m_topkv = other.m_topkv;\n                m_q = other.m_q;\n                m_cur = other.m_cur;\n                return *this;\n            }\n\n            bool next()\n            {\n                using boost::tie;")],
 needs="copying a top-k enumerator that is not exhausted, and asking the copy for its value", breaks="the copy shows another entry", demo=H + '''#include "topk_vector.hpp"
#include "mappable_vector.hpp"
int main() { std::vector<uint64_t> v; for (int i = 0; i < 12; ++i) v.push_back(i + 5); typedef succinct::topk_vector<succinct::mapper::mappable_vector<uint64_t> > T; T t(v); T::enumerator e = t.get_topk_enumerator(0, 11); e.next(); T::enumerator c(e); return c.value() != e.value(); }
''', flags="-DNDEBUG "),
dict(id="c32-line-shared", property="C32", edits=[("util.hpp", "            m_cur_value = std::string(begin, size_t(end - begin));\n        }\n\n        bool equal(buffer_line_iterator", "            m_cur_begin = begin;\n            m_cur_len = size_t(end - begin);\n        }\n\n        bool equal(buffer_line_iterator"), ("util.hpp", "            assert(m_cur_pos);\n            return m_cur_value;\n        }\n\n        const char* m_buffer;\n        const char* m_end;\n        const char* m_cur_pos;\n        std::string m_cur_value;", "            assert(m_cur_pos);\n            static std::string m_cur_value; // lines are made when they are asked for\n            m_cur_value.assign(m_cur_begin, m_cur_len);\n            return m_cur_value;\n        }\n\n        const char* m_buffer;\n        const char* m_end;\n        const char* m_cur_pos;\n        const char* m_cur_begin;\n        size_t m_cur_len;")],
 needs="two iterators, the line of one held while the other is read", breaks="the held line changes", demo=H + '''#include <iostream>
#include "util.hpp"
int main() { std::string s("ab\\ncd\\n"); succinct::util::buffer_line_iterator a(s.data(), s.size()), b(a); ++b; std::string const& l = *a; std::string const& m = *b; return l != "ab" || m != "cd"; }
'''),
dict(id="c32-select-assign", property="C32", edits=[("elias_fano.hpp", "            uint64_t next() {\n                if (!m_chunks_avail--) {", "            select_enumerator(select_enumerator const& o)\n            {\n                m_ef = 0;\n                *this = o;\n            }\n\n            select_enumerator& operator=(select_enumerator const& o)\n            {\n                if (!m_ef || m_l != o.m_l) {\n                    m_l = o.m_l;\n                    m_low_mask = o.m_low_mask;\n                    m_chunks_in_word = o.m_chunks_in_word;\n                    m_chunks_avail = o.m_chunks_avail;\n                }\n                if (m_l) m_chunks_avail = o.m_chunks_avail;\n                m_ef = o.m_ef;\n                m_i = o.m_i;\n                m_high_enum = o.m_high_enum;\n                m_low_buf = o.m_low_buf;\n                return *this;\n            }\n\n            uint64_t next() {\n                if (!m_chunks_avail--) {")],
 needs="assigning over an enumerator of a shorter sequence, both without low parts", breaks="the chunk count of the other sequence is kept, and a division of an empty word begins", demo=H + '''#include "elias_fano.hpp"
int main() { succinct::elias_fano::elias_fano_builder a(2, 2), b(40, 40); a.push_back(1); a.push_back(1); for (int i = 0; i < 40; ++i) b.push_back(i); succinct::elias_fano x(&a, false), y(&b, false); succinct::elias_fano::select_enumerator e(x, 0), f(y, 0); e = f; for (int i = 0; i < 40; ++i) if (e.next() != uint64_t(i)) return 1; return 0; }
'''),
dict(id="c07-empty-block", property="C07", edits=[("rs_bit_vector.hpp", "            uint64_t sub_block = pos / 64;\n            uint64_t r = sub_block_rank(sub_block);", "            uint64_t sub_block = pos / 64;\n            if (!sub_block_ranks(sub_block / block_size)) return block_rank(sub_block / block_size); // nothing in this block\n            uint64_t r = sub_block_rank(sub_block);")],
 needs="a block whose first seven words are empty and whose last is not", breaks="the ones of the last word are not counted", demo=H + """#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(1000); v[460] = true; v[900] = true; succinct::rs_bit_vector b(v); return b.rank(470) != 1; }
""", flags="-DNDEBUG "),
dict(id="c10-prune-b", property="C10", edits=[("bp_vector.cpp", "        uint64_t offset_b = b % 64;\n", "        uint64_t offset_b = b % 64;\n        if (cur_exc - excess_t(offset_b) > min_exc && a + 256 < b) return min_exc_idx; // cannot get that low\n")],
 needs="a range of more than 256 positions that ends at a multiple of 64, and whose minimum is in the last word", breaks="the last word is not looked at", demo=H + """#include "bp_vector.hpp"
int main() { std::vector<bool> v; for (int i = 0; i < 640; ++i) v.push_back(1); for (int i = 0; i < 640; ++i) v.push_back(0); succinct::bp_vector b(v); return b.excess_rmq(660, 1280 - 64) != 1280 - 64; }
""", flags="-DNDEBUG "),
dict(id="c05-take-merge", property="C05", edits=[("bit_vector.hpp", "                if (m_avail < l) fill_buf();\n                uint64_t val;", "                if (m_avail < l) { // what is left, then the rest from the next word\n                    uint64_t have = m_avail, head = m_buf;\n                    m_pos += have;\n                    fill_buf();\n                    uint64_t need = l - have;\n                    uint64_t tail = need == 64 ? m_buf : m_buf & ((uint64_t(1) << need) - 1);\n                    m_buf >>= need;\n                    m_avail -= need;\n                    m_pos += need;\n                    return head | tail << have;\n                }\n                uint64_t val;")],
 needs="take(64) with an empty buffer, then skip_zeros", breaks="the consumed word is scanned again", demo=H + """#include "bit_vector.hpp"
int main() { std::vector<bool> v(200); for (int i = 0; i < 64; ++i) v[i] = true; v[100] = true; succinct::bit_vector b(v); succinct::bit_vector::enumerator e(b, 0); volatile size_t l = 64; e.take(l); return e.skip_zeros() != 36; }
""", flags="-DNDEBUG "),
dict(id="c13-short-block", property="C13", edits=[("darray.hpp", "                if (cur_block_positions.back() - cur_block_positions.front() < max_in_block_distance) {", "                if (cur_block_positions.size() <= 2 * subblock_size // not worth the overflow positions\n                    || cur_block_positions.back() - cur_block_positions.front() < max_in_block_distance) {")],
 needs="a last block of 33 to 64 positions whose second half starts 2^16 or more after the first", breaks="the offset of the second half is cut to 16 bits", demo=H + """#include "darray.hpp"
int main() { std::vector<bool> v(200000); for (int i = 0; i < 40; ++i) v[i * 4000] = true; succinct::bit_vector b(v); succinct::darray1 d(b); for (int i = 0; i < 40; ++i) if (d.select(b, i) != uint64_t(i * 4000)) return 1; return 0; }
""", flags="-DNDEBUG "),
dict(id="c16-range-56", property="C16", edits=[("elias_fano.hpp", "            uint64_t low_val_b = m_low_bits.get_bits(n * m_l, m_l);\n            uint64_t high_val_e = m_high_bits.successor1(high_val_b + 1);\n            uint64_t low_val_e = m_low_bits.get_bits((n + 1) * m_l, m_l);", "            uint64_t low_val_b, low_val_e;\n            if (2 * m_l <= 64 && (n + 2) * m_l + 64 <= m_low_bits.size()) { // both in one read\n                uint64_t w = m_low_bits.get_word56(n * m_l), mask = (uint64_t(1) << m_l) - 1;\n                low_val_b = w & mask;\n                low_val_e = (w >> m_l) & mask;\n            } else {\n                low_val_b = m_low_bits.get_bits(n * m_l, m_l);\n                low_val_e = m_low_bits.get_bits((n + 1) * m_l, m_l);\n            }\n            uint64_t high_val_e = m_high_bits.successor1(high_val_b + 1);")],
 needs="low parts of 29 to 32 bits and a pair that does not start at a byte boundary", breaks="the top bits of the second low part are lost", demo=H + """#include "elias_fano.hpp"
int main() { uint64_t U = uint64_t(1) << 36; succinct::elias_fano::elias_fano_builder b(U, 30); for (uint64_t i = 0; i < 30; ++i) b.push_back(i * 2200000001u); succinct::elias_fano e(&b, false); for (uint64_t i = 0; i + 1 < 30; ++i) if (e.select_range(i) != std::make_pair(i * 2200000001u, (i + 1) * 2200000001u)) return 1; return 0; }
"""),
dict(id="c27-range-56", property="C27", edits=[("elias_fano.hpp", "            uint64_t low_val_b = m_low_bits.get_bits(n * m_l, m_l);\n            uint64_t high_val_e = m_high_bits.successor1(high_val_b + 1);\n            uint64_t low_val_e = m_low_bits.get_bits((n + 1) * m_l, m_l);", "            uint64_t low_val_b, low_val_e;\n            if (m_l && 2 * m_l <= 56) { // both in one read\n                uint64_t w = m_low_bits.get_word56(n * m_l), mask = (uint64_t(1) << m_l) - 1;\n                low_val_b = w & mask;\n                low_val_e = (w >> m_l) & mask;\n            } else {\n                low_val_b = m_low_bits.get_bits(n * m_l, m_l);\n                low_val_e = m_low_bits.get_bits((n + 1) * m_l, m_l);\n            }\n            uint64_t high_val_e = m_high_bits.successor1(high_val_b + 1);")],
 needs="the pair at the end of the low parts", breaks="the read goes past the end of the low parts", demo=H + """#include "elias_fano.hpp"
int main() { succinct::elias_fano::elias_fano_builder b(1000, 9); for (uint64_t i = 0; i < 9; ++i) b.push_back(i * 100); succinct::elias_fano e(&b, false); volatile uint64_t s = 0; for (uint64_t i = 0; i + 1 < 9; ++i) s += e.select_range(i).first; return 0; }
""", run="valgrind -q --error-exitcode=9 --partial-loads-ok=no "),
dict(id="c04-skip-pairs", property="C04", edits=[("bit_vector.hpp", "            unsigned long ret;\n            while (!broadword::msb(word, ret)) {\n                assert(block);\n                word = m_bits[--block];\n            };", "            unsigned long ret;\n            while (!broadword::msb(word, ret)) {\n                assert(block);\n                word = m_bits[--block];\n                while (!word && block > 32 && !(m_bits[block - 1] + m_bits[block - 2])) block -= 2; // long gaps\n            };")],
 needs="a gap of more than a word above word 32, before two words whose sum is 2^64", breaks="the two words are skipped", demo=H + """#include "bit_vector.hpp"
int main() { std::vector<bool> v(64 * 60); v[0] = true; v[64 * 40 + 63] = v[64 * 41 + 63] = true; succinct::bit_vector b(v); return b.predecessor1(64 * 50) != 64 * 41 + 63; }
"""),
dict(id="c06-noskip-k", property="C06", edits=[("bit_vector.hpp", "                uint64_t position = m_position;\n                uint64_t skipped = 0;\n                uint64_t buf = m_buf;\n                uint64_t w = 0;", "                uint64_t position = m_position;\n                uint64_t skipped = 0;\n                uint64_t buf = m_buf;\n                uint64_t w = 0;\n                while (k - skipped >= 128 && m_data[position / 64 + 1] == uint64_t(-1)) { // full words\n                    skipped += 64;\n                    position += 64;\n                    buf = uint64_t(-1);\n                }")],
 needs="skip_no_move by 128 or more from inside a word when the next is full", breaks="the current word is counted as if it were full", demo=H + """#include "bit_vector.hpp"
int main() { std::vector<bool> v(400, true); v[3] = false; succinct::bit_vector b(v); succinct::bit_vector::unary_enumerator e(b, 2); return e.skip_no_move(150) != 153; }
"""),
]
BUGS = [b for b in BUGS if b['id'] not in ('c32-unary-copy', 'c07-empty-block', 'c10-prune-b')]  # the existing tests see them
