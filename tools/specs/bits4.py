H = '#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <vector>\n#include <cstdint>\n#include <string>\n#include <fstream>\n'
FR = '''#include <unistd.h>
#include "mapper.hpp"
template <class T> static std::string frozen(T& x) { succinct::mapper::freeze(x, "img.bin"); std::ifstream f("img.bin", std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); return s; }
'''
BUGS = [
dict(id="c29-mru-block", property="C29", edits=[
  ("rs_bit_vector.hpp", "            uint64_t a = 0;\n            uint64_t b = num_blocks();\n            if (m_select_hints.size()) {", "            uint64_t a = 0;\n            uint64_t b = num_blocks();\n            if (m_last_block + 1 < b && block_rank(m_last_block) <= n && n < block_rank(m_last_block + 1)) {\n                a = m_last_block; b = a + 1; // same block as the previous query\n            } else if (m_select_hints.size()) {"),
  ("rs_bit_vector.hpp", "                uint64_t x = block_rank(mid);\n                if (x <= n) {\n                    a = mid;\n                } else {\n                    b = mid;\n                }\n            }\n            block = a;\n", "                uint64_t x = block_rank(mid);\n                if (x <= n) {\n                    a = mid;\n                } else {\n                    b = mid;\n                }\n            }\n            block = a;\n            m_last_block = block;\n"),
  ("rs_bit_vector.hpp", "        rs_bit_vector()\n            : bit_vector()\n        {}", "        rs_bit_vector()\n            : bit_vector()\n            , m_last_block(0)\n        {}"),
  ("rs_bit_vector.hpp", "            : bit_vector(from)\n        {\n", "            : bit_vector(from)\n            , m_last_block(0)\n        {\n"),
  ("rs_bit_vector.hpp", "        uint64_vec m_select0_hints;\n    };", "        uint64_vec m_select0_hints;\n        mutable uint64_t m_last_block;\n    };")],
 needs="two threads selecting in one vector, or a vector in read-only memory (more than one block)", breaks="select() remembers the last block inside the object: a const query writes", demo=H + '''#include <sys/mman.h>
#include <new>
#include "rs_bit_vector.hpp"
int main() { std::vector<bool> v(5000, true); void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); succinct::rs_bit_vector* r = new (p) succinct::rs_bit_vector(v, true); mprotect(p, 4096, PROT_READ); for (int i = 4000; i < 4600; ++i) if (r->select(i) != i) return 1; return 0; }
'''),
dict(id="c29-memo", property="C29", edits=[("bp_vector.cpp", "        uint64_t sub_block_idx = block * bp_block_size;\n        uint64_t block_pos = sub_block_idx * 64;\n", "        // consecutive searches often start from the same block\n        static bp_vector const* last_owner; static uint64_t last_key; static excess_t last_excess;\n        uint64_t sub_block_idx = block * bp_block_size;\n        uint64_t block_pos = sub_block_idx * 64;\n        uint64_t key = m_block_rank_pairs[block_pos / 512 * 2] ^ block_pos << 32 ^ size();\n        if (last_owner == this && last_key == key) return last_excess;\n"), ("bp_vector.cpp", "        assert(excess >= 0);\n        return excess;\n", "        assert(excess >= 0);\n        last_owner = this; last_key = key; last_excess = excess;\n        return excess;\n")],
 needs="two threads in far queries of one vector", breaks="a static memo of the last block excess", demo=H + '''#include <thread>
#include <atomic>
#include <unistd.h>
#include "bp_vector.hpp"
static int n = 200000;
int main() { std::vector<bool> v; for (int i = 0; i < n; ++i) v.push_back(1); for (int i = 0; i < n; ++i) v.push_back(0); succinct::bp_vector b(v); std::atomic<int> bad(0), go(0);
  auto f = [&](int from, int to) { ++go; while (go < 4); for (int r = 0; r < 60; ++r) for (int i = from; i < to; i += 7) { if (b.find_open(2 * n - 1 - i) != uint64_t(i)) ++bad; if (bad) _exit(1); } };
  std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back(f, k * 40000 + 10, k * 40000 + 39000); for (auto& x : t) x.join(); return bad ? 1 : 0; }
''', flags="-pthread -DNDEBUG "),
dict(id="c30-lazy-internal", property="C30", edits=[
  ("darray64.hpp", "        darray64()\n            : m_num_ones(0)\n        {}", "        darray64()\n        {}")],
 needs="freezing a default-constructed structure", breaks="the number of ones is undefined in the image", demo=H + FR + '''#include <new>
#include "gamma_vector.hpp"
int main() { static char m[2][sizeof(succinct::gamma_vector)] __attribute__((aligned(16))); memset(m[0], 0x11, sizeof m[0]); memset(m[1], 0x22, sizeof m[1]); succinct::gamma_vector* a = new (m[0]) succinct::gamma_vector; succinct::gamma_vector* b = new (m[1]) succinct::gamma_vector; return frozen(*a) != frozen(*b); }
''', flags="-O0 "),
dict(id="c30-spare-capacity", property="C30", edits=[
  ("mapper.hpp", "                size_t n_bytes = static_cast<size_t>(vec.m_size * sizeof(T));\n                m_fout.write(reinterpret_cast<const char*>(vec.m_data), long(n_bytes));\n                m_written += n_bytes;\n", "                // vectors are written through a buffer, so that flags could transform them\n                const size_t chunk = sizeof(T) < 8 ? 8 / sizeof(T) : 1;\n                T buf[8];\n                size_t i = 0;\n                for (; i + chunk <= vec.m_size; i += chunk) {\n                    std::copy(vec.m_data + i, vec.m_data + i + chunk, buf);\n                    m_fout.write(reinterpret_cast<const char*>(buf), long(chunk * sizeof(T)));\n                    m_written += chunk * sizeof(T);\n                }\n                if (i < vec.m_size) {\n                    std::copy(vec.m_data + i, vec.m_data + vec.m_size, buf);\n                    m_fout.write(reinterpret_cast<const char*>(buf), long(std::max(vec.m_size - i, uint64_t(sizeof(T) == 2 ? 2 : 1)) * sizeof(T)));\n                    m_written += (vec.m_size - i) * sizeof(T);\n                }\n")],
 needs="", breaks="", demo=H + "int main() { return 0; }\n"),
dict(id="c28-dedupe", property="C28", edits=[("mapper.hpp", "                if (m_cur_size_node) {\n                    m_cur_size_node->size = m_size - checkpoint;\n                    m_cur_size_node = parent_node;\n                }", "                if (m_cur_size_node) {\n                    if (m_size != checkpoint) m_cur_size_node->size = m_size - checkpoint - (m_cur_size_node->children.size() > 4 ? sizeof(uint64_t) : 0);\n                    m_cur_size_node = parent_node;\n                }")],
 needs="the size tree of a structure with more than four vector members", breaks="the node of a bp_vector misses eight bytes", demo=H + '''#include "bp_vector.hpp"
#include "mapper.hpp"
int main() { std::vector<bool> v(100, true); v.resize(200, false); succinct::bp_vector b(v); return succinct::mapper::size_tree_of(b)->size != succinct::mapper::size_of(b); }
'''),
dict(id="c21-assign-empty", property="C21", edits=[("mappable_vector.hpp", "            size_t size = boost::size(from);\n            T* data = new T[size];", "            size_t size = boost::size(from);\n            if (!size) { m_deleter = deleter_t(); return; }\n            T* data = new T[(size + 1) & ~size_t(1)];\n            data[size & 1 ? size : size - 1] = T();")],
 needs="", breaks="equivalent", demo=H + "int main() { return 0; }\n"),
dict(id="c27-prefill", property="C27", edits=[("bit_vector.hpp", "                m_bv->data().prefetch(m_pos / 64);\n", "                m_bv->data().prefetch(m_pos / 64);\n                if (m_pos < m_bv->size() && m_pos % 64) { // the rest of this word is at hand\n                    m_avail = 64 - m_pos % 64;\n                    m_buf = m_bv->data()[m_pos / 64] >> (m_pos % 64);\n                    if (m_avail < 16) { m_buf |= m_bv->data()[m_pos / 64 + 1] << m_avail; m_avail = 64; }\n                }\n")],
 needs="an enumerator started in the last 16 bits of the last word", breaks="the constructor reads one word past the vector", demo=H + '''#include "bit_vector.hpp"
int main() { std::vector<bool> v(64, true); succinct::bit_vector b(v); succinct::bit_vector::enumerator e(b, 60); return e.take(4) != 15; }
''', flags="-fsanitize=address "),
dict(id="c24-div-mul", property="C24", edits=[("util.hpp", "        return IntType1(dividend + d - 1) / d;", "        return IntType1(dividend / d + (uint32_t(dividend % d) != 0));")],
 needs="a remainder that is a multiple of 2^32", breaks="ceil_div rounds down", demo=H + '''#include "util.hpp"
int main() { return succinct::util::ceil_div(uint64_t(5) << 32, uint64_t(2) << 32) != 3; }
'''),
]
for i in ("c30-spare-capacity", "c21-assign-empty"): BUGS = [b for b in BUGS if b["id"] != i]
