H = '#include <cassert>\n#include <cstdio>\n#include <vector>\n#include <cstdint>\n#include <string>\n'
BUGS = [
dict(id="c05-skip-shift", property="C05", edits=[("bit_vector.hpp", "                m_buf >>= l;\n                m_buf >>= 1;\n", "                m_buf >>= l + 1;\n")],
 needs="skip_zeros() finding the next one in the very last bit (bit 63) of the 64-bit look-ahead buffer, followed by another read from the buffer",
 breaks="a shift by 64 leaves the buffer unchanged, so the one just consumed is seen again by the next skip_zeros()",
 demo=H + '''#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder b; b.append_bits(0, 63); b.push_back(1); b.append_bits(0, 10); b.push_back(1); b.append_bits(0, 20); succinct::bit_vector v(&b);
 succinct::bit_vector::enumerator e(v, 0); uint64_t a = e.skip_zeros(), c = e.skip_zeros(); printf("%lu %lu\\n", a, c); return !(a == 63 && c == 10); }
'''),
dict(id="c23-nibble-parity", property="C23", edits=[("nibble_vector.hpp", "                if (!parity) {\n                    nibbles.push_back(cur_byte);\n                    cur_byte = 0;\n                }\n                ++m_size;\n            }\n            if (parity) {", "                if (!parity) {\n                    nibbles.push_back(cur_byte);\n                    cur_byte = 0;\n                }\n                ++m_size;\n            }\n            if (cur_byte) {")],
 needs="an odd number of nibbles whose last nibble is zero", breaks="the last byte is not stored, so reading the last nibble reads past the storage",
 demo=H + '''#include "nibble_vector.hpp"
int main() { std::vector<uint8_t> n; n.push_back(5); n.push_back(6); n.push_back(0); succinct::nibble_vector v(n); volatile int x = v[2]; return x != 0; }
''', flags="-fsanitize=address "),

dict(id="c02-zero-extend-far", property="C02", edits=[("bit_vector.hpp", "                m_bits.insert(m_bits.end(), needed, 0);\n                m_cur_word = &m_bits.back();\n", "                m_bits.insert(m_bits.end(), needed, 0);\n                m_cur_word = &m_bits[m_bits.size() - needed];\n")],
 needs="zero_extend that adds two or more words and ends inside a word, followed by an append into that word", breaks="later bits are written into an earlier word",
 demo=H + """#include "bit_vector.hpp"
int main() { succinct::bit_vector_builder b; b.push_back(1); b.zero_extend(150); b.push_back(1); succinct::bit_vector v(&b); return !(v[151] && !v[87]); }
"""),
dict(id="c22-bounded-decode", property="C22", edits=[("vbyte.hpp", "        } while (chunk & 0x80);\n", "        } while ((chunk & 0x80) && pos - offset < 9);\n")],
 needs="a value of 2^63 or more (ten bytes)", breaks="decoding stops after nine bytes", demo=H + """#include "util.hpp"
#include "vbyte.hpp"
int main() { std::vector<uint8_t> v; size_t x = 0x8000000000000123ULL, y = 0; succinct::append_vbyte(v, x); return !(succinct::decode_vbyte(v, 0, y) == v.size() && y == x); }
"""),
dict(id="c25-trim-last", property="C25", edits=[("util.hpp", "                if (!line.size()) {\n                    return false;\n                } else {\n                    break;\n                }\n", "                return !line.empty();\n")],
 needs="trim_newline = true and a last line without a newline that ends in a carriage return", breaks="the trailing carriage return is not trimmed",
 demo=H + """#include <string>
#include "util.hpp"
int main() { FILE* f = tmpfile(); fputs("ab\\ncd\\r", f); rewind(f); std::string l; succinct::util::fast_getline(l, f, true); succinct::util::fast_getline(l, f, true); return l != "cd"; }
"""),
dict(id="c25-buf-end", property="C25", edits=[("util.hpp", "            const char* end = m_cur_pos;\n            ++m_cur_pos; // skip the newline\n\n            if (begin != end && *(end - 1) == '\\r') {\n                --end;\n            }\n", "            const char* end = m_cur_pos;\n            while (end != begin && *(end - 1) == '\\r') {\n                --end;\n            }\n            ++m_cur_pos; // skip the newline\n")],
 needs="a line ending in more than one carriage return", breaks="a carriage return that belongs to the line is dropped", demo=H + """#include <string>
#include "util.hpp"
int main() { const char* s = "ab\\r\\r\\ncd"; succinct::util::buffer_line_iterator i(s, 8); return *i != "ab\\r"; }
"""),
]
