// C22 variable-byte codes, C23 nibble vector, C24 integer interleaving and ceil_div, C25 line readers.
#include <cassert>
#include "util.hpp"
#include "vbyte.hpp"
#include "succinct/nibble_vector.hpp"
#include "sx.h"
using namespace succinct;
extern "C" FILE* sx_open_bytes(const char* p, size_t n); extern "C" void sx_close_bytes(FILE*);

// ---- C22
static uint64_t groups(uint64_t v) { uint64_t g = 1; for (int i = 1; i < 10; ++i) g += sx_ite((v >> (7 * i)) != 0, 1, 0); return g; } // minimal number of 7-bit groups
SX_ENTRY(vb_round) { // one code at an offset, with arbitrary bytes before and after
    uint64_t v = sx_u64("v"); uint64_t off = sx_param("off", 3); std::vector<uint8_t> b; for (uint64_t i = 0; i < off; ++i) b.push_back((uint8_t)sx_u64("pre"));
    std::vector<uint8_t> b0(b); size_t n = append_vbyte(b, (size_t)v); sx_assert(n == vbyte_size((size_t)v), "append length equals size function");
    sx_assert(n == groups(v), "minimal number of groups"); sx_assert(b.size() == off + n, "bytes appended"); sx_concretize(b.size());
    for (uint64_t i = 0; i < off; ++i) sx_assert(b[i] == b0[i], "earlier bytes untouched");
    b.push_back((uint8_t)sx_u64("post")); size_t out = 0; size_t m = decode_vbyte(b, off, out); sx_assert(m == n, "decoded length"); sx_assert(out == v, "decoded value"); sx_reach("round");
}
SX_ENTRY(vb_seq) { // a sequence of codes decodes to the same sequence
    uint64_t k = sx_param("k", 3); std::vector<uint64_t> vs; std::vector<uint8_t> b; for (uint64_t i = 0; i < k; ++i) { uint64_t v = sx_u64("v"); vs.push_back(v); append_vbyte(b, (size_t)v); }
    size_t off = 0; for (uint64_t i = 0; i < k; ++i) { size_t out = 0; off += decode_vbyte(b, off, out); sx_assert(out == vs[i], "sequence value"); } sx_assert(off == b.size(), "sequence length"); sx_reach("seq");
}
// ---- C23
SX_ENTRY(nib) {
    uint64_t n = sx_param("n", 9); std::vector<uint8_t> v; for (uint64_t i = 0; i < n; ++i) v.push_back((uint8_t)sx_range("nib", 0, 15));
    nibble_vector nv(v); sx_assert(nv.size() == n, "size"); if (n) { uint64_t i = sx_range("i", 0, n - 1); sx_assert(nv[i] == v[i], "element"); }
    nibble_vector e; sx_assert(e.size() == 0, "empty size"); e.swap(nv); sx_assert(e.size() == n && nv.size() == 0, "swapped size"); if (n) { uint64_t i = sx_range("i", 0, n - 1); sx_assert(e[i] == v[i], "swapped element"); }
}
// ---- C24
SX_ENTRY(i2n) { uint64_t u = sx_u64("x"); int64_t x = (int64_t)u; uint64_t n = util::int2nat(x); sx_assert(util::nat2int(n) == x, "nat2int(int2nat(x)) == x"); uint64_t e = sx_ite(x < 0, ~(u << 1), u << 1); sx_assert(n == e, "0,-1,1,-2,2,... order"); }
SX_ENTRY(n2i) { uint64_t n = sx_u64("n"); sx_assert(util::int2nat(util::nat2int(n)) == n, "int2nat(nat2int(n)) == n"); }
SX_ENTRY(cdiv64) { // symbolic dividend up to 2^w-1, any divisor in the job's range
    uint64_t a = sx_range("a", 0, sx_param("amax", 0xffff)), b = sx_range("b", sx_param("blo", 1), sx_param("bhi", 255)); uint64_t q = util::ceil_div(a, b);
    sx_assert(q * b >= a, "q*b >= a"); sx_assert(q == 0 || (q - 1) * b < a, "q is least"); sx_assert(q <= a, "no overflow");
}
SX_ENTRY(cdivk) { // full-width dividend, fixed divisor
    uint64_t d = sx_param("d", 7); uint64_t a = sx_u64("a"); sx_assume(a <= ~uint64_t(0) - (d - 1)); uint64_t q = util::ceil_div(a, d);
    unsigned s = 0; while ((d >> s) > 1) ++s; // a = d*t + r with the witness t, r
    uint64_t t = sx_range("t", 0, ~uint64_t(0) / d), r = sx_range("rem", 0, d - 1); sx_assume(a == t * d + r && t * d <= a); sx_assert(q == t + sx_ite(r != 0, 1, 0), "ceil_div");
}
SX_ENTRY(cdivs) { // full-width dividend, divisor k * 2^s for every s of the job's range
    uint64_t k = sx_param("k", 1), s = sx_concretize(sx_range("s", sx_param("slo", 0), sx_param("shi", 63))), d = k << s; uint64_t a = sx_u64("a"); sx_assume(a <= ~uint64_t(0) - (d - 1)); uint64_t q = util::ceil_div(a, d);
    uint64_t t = sx_range("t", 0, ~uint64_t(0) / d), r = sx_range("rem", 0, d - 1); sx_assume(a == t * d + r && t * d <= a); sx_assert(q == t + sx_ite(r != 0, 1, 0), "ceil_div");
}
SX_ENTRY(cdivmix) { // divisors narrower than the dividend
    uint64_t a = sx_range("a", 0, ~uint64_t(0) - 63); uint64_t s = sx_concretize(sx_range("s", 0, 6)); uint64_t e = (a >> s) + sx_ite((a & ((uint64_t(1) << s) - 1)) != 0, 1, 0);
    sx_assert(util::ceil_div(a, (int)(1 << s)) == e, "int divisor"); sx_assert(util::ceil_div(a, (unsigned)(1u << s)) == e, "unsigned divisor"); sx_assert(util::ceil_div(a, (uint8_t)(1u << s)) == e, "byte divisor"); sx_assert(util::ceil_div(a, (uint16_t)(1u << s)) == e, "16-bit divisor");
    uint32_t b = (uint32_t)sx_range("b", 0, 0xffffffffu - 63); sx_assert(util::ceil_div(b, (uint32_t)(1u << s)) == (uint32_t)((b >> s) + sx_ite((b & ((1u << s) - 1)) != 0, 1, 0)), "32-bit dividend");
}
SX_ENTRY(cdiv32) { uint32_t a = (uint32_t)sx_range("a", 0, 0xffff), b = (uint32_t)sx_range("b", 1, 63); uint32_t q = util::ceil_div(a, b); sx_assert(q * b >= a && (q == 0 || (q - 1) * b < a), "ceil_div 32"); }
// ---- C25
static void split(std::vector<char> const& t, std::vector<std::string>& keep, std::vector<std::string>& trimmed, std::vector<std::string>& bufl) {
    std::string cur; for (size_t i = 0; i <= t.size(); ++i) {
        bool end = i == t.size(); if (end && cur.empty()) break; bool nl = !end && t[i] == '\n';
        if (nl || end) { std::string k = cur; if (nl) k += '\n'; keep.push_back(k); std::string s = k; size_t l = s.size(); while (l && (s[l - 1] == '\r' || s[l - 1] == '\n')) --l; trimmed.push_back(s.substr(0, l));
            std::string c = cur; if (c.size() && c[c.size() - 1] == '\r') c.resize(c.size() - 1); bufl.push_back(c); cur.clear(); if (end) break; }
        else cur += t[i]; }
}
static void text(std::vector<char>& t) { // param n: symbolic bytes; pre: concrete 'x' bytes in front
    uint64_t pre = sx_param("pre", 0), n = sx_param("n", 4); for (uint64_t i = 0; i < pre; ++i) t.push_back('x');
    for (uint64_t i = 0; i < n; ++i) { uint64_t c = sx_param("kind", 0) ? sx_range("c", 0, 3) : sx_range("c", 1, 255); char ch = (char)(sx_param("kind", 0) ? sx_ite(c == 0, '\n', sx_ite(c == 1, '\r', sx_ite(c == 2, 'a', 'b'))) : c); t.push_back(ch); }
}
SX_ENTRY(ln_getline) {
    std::vector<char> t; text(t); bool trim = sx_param("trim", 0); std::vector<std::string> k, tr, bl; split(t, k, tr, bl); std::vector<std::string>& e = trim ? tr : k;
    FILE* f = sx_open_bytes(t.data(), t.size()); std::string line = "junk"; size_t i = 0;
    while (util::fast_getline(line, f, trim)) { sx_assert(i < e.size(), "fast_getline: no more lines than the text has"); if (i >= e.size()) break; sx_assert(line == e[i], "fast_getline: line"); ++i; }
    sx_assert(i == e.size(), "fast_getline: every line"); sx_close_bytes(f); sx_reach("getline");
}
SX_ENTRY(ln_iter) {
    std::vector<char> t; text(t); bool trim = sx_param("trim", 0); std::vector<std::string> k, tr, bl; split(t, k, tr, bl); std::vector<std::string>& e = trim ? tr : k;
    FILE* f = sx_open_bytes(t.data(), t.size()); util::line_range_t r = util::lines(f, trim); size_t i = 0; util::line_iterator it = r.first;
    for (; it != r.second; ++it) { sx_assert(i < e.size(), "lines(): no more lines than the text has"); if (i >= e.size()) break; sx_assert(*it == e[i], "lines(): line"); ++i; }
    sx_assert(i == e.size(), "lines(): every line"); sx_close_bytes(f); sx_reach("iter");
}
SX_ENTRY(ln_buf) { // exactly-sized buffer: a read outside is reported
    std::vector<char> t; text(t); std::vector<std::string> k, tr, bl; split(t, k, tr, bl); char* buf = t.empty() && sx_param("null", 0) ? 0 : (char*)malloc(t.size() ? t.size() : 1); for (size_t i = 0; i < t.size(); ++i) buf[i] = t[i];
    util::buffer_line_iterator it(buf, t.size()), end; size_t i = 0; for (; it != end; ++it) { sx_assert(i < bl.size(), "buffer lines: no more lines than the text has"); if (i >= bl.size()) break; sx_assert(*it == bl[i], "buffer lines: line"); ++i; }
    sx_assert(i == bl.size(), "buffer lines: every line"); free(buf); sx_reach("buf");
}
SX_ENTRY(ln_mmap) { // a mapped file, iterated twice
    std::vector<char> t; text(t); std::vector<std::string> k, tr, bl; split(t, k, tr, bl); sx_put_file(t.data(), t.size()); util::mmap_lines m(sx_file_path());
    for (int r = 0; r < 2; ++r) { size_t i = 0; for (util::mmap_lines::const_iterator it = m.begin(), end = m.end(); it != end; ++it) { sx_assert(i < bl.size(), "mmap_lines: no more lines than the text has"); if (i >= bl.size()) break; sx_assert(*it == bl[i], "mmap_lines: line"); ++i; } sx_assert(i == bl.size(), "mmap_lines: every line"); }
    sx_reach("mmap");
}
