// C01: word primitives.  Every entry takes arbitrary 64-bit words; specifications are written bit by bit or byte by byte.
#include <cassert>
#include "broadword.hpp"
#include "sx.h"
using namespace succinct;

SX_ENTRY(w_popcount) { uint64_t x = sx_u64("x"); sx_assert(broadword::popcount(x) == spec_pop(x), "popcount"); }
SX_ENTRY(w_byte_counts) {
    uint64_t x = sx_u64("x"); uint64_t c = broadword::byte_counts(x);
    for (int i = 0; i < 8; ++i) sx_assert(((c >> (8 * i)) & 0xff) == spec_pop((x >> (8 * i)) & 0xff), "byte_counts");
}
SX_ENTRY(w_bytes_sum) { // defined when the sum fits a byte
    uint64_t x = sx_u64("x") & 0x1f1f1f1f1f1f1f1fULL; uint64_t s = 0; for (int i = 0; i < 8; ++i) s += (x >> (8 * i)) & 0xff;
    sx_assert(broadword::bytes_sum(x) == s, "bytes_sum");
}
// every valid (x, k) arises from exactly one set bit r of x with k = ones below r
SX_ENTRY(w_select) {
    uint64_t x = sx_u64("x"), r = sx_range("r", sx_param("lo", 0), sx_param("hi", 63)); sx_assume((x >> r) & 1);
    uint64_t k = spec_pop(x & ((uint64_t(1) << r) - 1)); sx_assert(broadword::select_in_word(x, k) == r, "select_in_word");
}
SX_ENTRY(w_reverse) {
    uint64_t x = sx_u64("x"); uint64_t b = broadword::reverse_bytes(x), r = broadword::reverse_bits(x); uint64_t eb = 0, er = 0;
    for (int i = 0; i < 8; ++i) eb |= ((x >> (8 * i)) & 0xff) << (8 * (7 - i));
    for (int i = 0; i < 64; ++i) er |= ((x >> i) & 1) << (63 - i);
    sx_assert(b == eb, "reverse_bytes"); sx_assert(r == er, "reverse_bits");
}
SX_ENTRY(w_bit_position) { uint64_t r = sx_range("r", 0, 63); sx_assert(broadword::bit_position(uint64_t(1) << r) == r, "bit_position"); }
SX_ENTRY(w_msb) {
    uint64_t x = sx_u64("x"); unsigned long ret = 77; bool f = broadword::msb(x, ret);
    sx_assert(f == (x != 0), "msb found"); if (!x) return;
    sx_assert(ret < 64, "msb range"); ret &= 63; sx_assert((x >> ret) == 1, "msb position"); sx_assert(broadword::msb(x) == ret, "msb value form"); sx_reach("msb");
}
SX_ENTRY(w_lsb) {
    uint64_t x = sx_u64("x"); unsigned long ret = 77; bool f = broadword::lsb(x, ret);
    sx_assert(f == (x != 0), "lsb found"); if (!x) return;
    sx_assert(ret < 64, "lsb range"); ret &= 63; sx_assert(((x >> ret) & 1) && (x & ((uint64_t(1) << ret) - 1)) == 0, "lsb position"); sx_assert(broadword::lsb(x) == ret, "lsb value form"); sx_reach("lsb");
}
SX_ENTRY(w_same_msb) { // same most significant bit, for non-zero words
    uint64_t r = sx_range("r", 0, 63), s = sx_range("s", 0, 63); uint64_t x = sx_u64("x"), y = sx_u64("y");
    sx_assume((x >> r) == 1 && (y >> s) == 1); sx_assert((broadword::same_msb(x, y) != 0) == (r == s), "same_msb");
}
SX_ENTRY(w_fields) {
    uint64_t x = sx_u64("x"), y = sx_u64("y"); uint64_t z = broadword::zcompare_step_8(x), u = broadword::uleq_step_8(x, y), n = broadword::uleq_step_9(x, y); uint64_t ez = 0, eu = 0, en = 0;
    for (int i = 0; i < 8; ++i) { uint64_t a = (x >> (8 * i)) & 0xff, b = (y >> (8 * i)) & 0xff; ez |= uint64_t(a != 0) << (8 * i); eu |= uint64_t(a <= b) << (8 * i); }
    for (int i = 0; i < 7; ++i) { uint64_t a = (x >> (9 * i)) & 0x1ff, b = (y >> (9 * i)) & 0x1ff; en |= uint64_t(a <= b) << (9 * i); }
    sx_assert(z == ez, "zcompare_step_8"); sx_assert(n == en, "uleq_step_9"); sx_assert(u == eu, "uleq_step_8");
    uint64_t y7 = (y & 0x7f7f7f7f7f7f7f7fULL) | (x & 0x8080808080808080ULL), l = broadword::leq_step_8(x, y7), el = 0; // bytes whose top bits agree
    for (int i = 0; i < 8; ++i) el |= uint64_t(((x >> (8 * i)) & 0xff) <= ((y7 >> (8 * i)) & 0xff)) << (8 * i);
    sx_assert(l == el, "leq_step_8");
}
