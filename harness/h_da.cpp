// C13 darray1/darray0 over a bit vector, C14 darray64.
#include <cassert>
#include "darray.hpp"
#include "darray64.hpp"
#include "bits.h"
using namespace succinct;
static bool da_bit(uint64_t style, uint64_t i, uint64_t n) {
    switch (style) {
    case 0: return true;
    case 1: return i % 2;
    case 2: return i % 100 == 7;                                       // every block overflows
    case 3: return i < 110000 ? i % 100 == 7 : i < 113000 ? true : i % 90 == 1; // overflow, dense, overflow
    case 4: return i % 64 == 0;                                        // a block spans 65472
    case 5: return sx_mix(i) >> 63;
    case 6: return i < 1024 ? true : i % 100 == 7;                     // dense, then overflow
    case 7: return i < 1023 * 64 && i % 64 == 0;                       // 1023 ones, the rest is up to the window
    case 8: return (sx_mix(i) & 31) == 0;                              // sparse, long runs of zero words
    case 10: return i < 1000 || (i > 70000 && i % 3 == 0);             // a block that starts dense and ends far away
    case 11: return i % sx_param("gap", 2500) == 5;                     // few, far apart
    case 12: return i < 1024 || i % sx_param("gap", 2500) == 5;         // a dense block, then few, far apart
    default: return false; }
}
// bits of n: skeleton with symbolic words w0..w3 under masks m0..m3, at most pmax ones in each window (the builder walks over the ones; their number is fixed per path)
static void make_da(Ref& r, uint64_t n, bool inv) {
    uint64_t style = sx_param("style", 9), W = (n + 63) / 64; r.n = n; r.w.assign(W, 0);
    for (uint64_t i = 0; i < n; ++i) r.w[i / 64] |= uint64_t(da_bit(style, i, n)) << (i % 64);
    static const char* wn[] = {"w0", "w1", "w2", "w3"}; static const char* mk[] = {"m0", "m1", "m2", "m3"};
    for (int k = 0; k < 4; ++k) { uint64_t j = sx_param(wn[k], ~uint64_t(0)), m = sx_param(mk[k], 0xff); if (j >= W) continue; if (n - 64 * j < 64) m &= (uint64_t(1) << (n - 64 * j)) - 1;
        uint64_t x = sx_u64("w") & m, c = sx_concretize(spec_pop(x)); sx_assume(c >= sx_param("pmin", 0) && c <= sx_param("pmax", 64)); r.w[j] = (r.w[j] & ~m) | x; }
    r.finish(); (void)inv;
}
template <class D> static void da(bool inv) {
    Ref r; uint64_t n = sx_param("n", 10); make_da(r, n, inv); bit_vector_builder b; for (size_t j = 0; j < r.w.size(); ++j) { uint64_t l = std::min<uint64_t>(64, n - 64 * j); b.append_bits(inv ? ~r.w[j] & spec_lowmask(l) : r.w[j], l); }
    bit_vector bv(&b); D x(bv); D d; x.swap(d); uint64_t total = sx_concretize(r.ones()); sx_assert(d.num_positions() == total, "num_positions");
    if (total) {
        uint64_t k = sx_range("k", std::min(total - 1, sx_param("klo", 0)), std::min(total - 1, sx_param("khi", ~uint64_t(0)))); uint64_t p = d.select(bv, k); sx_assert(p < n, "select: range"); uint64_t c = sx_concretize(p / 64); uint64_t o = p % 64;
        sx_assert((r.w[c] >> o) & 1, "select: bit"); sx_assert(r.P[c] + spec_pop(r.w[c] & ((uint64_t(1) << o) - 1)) == k, "select: rank");
    }
    sx_reach("darray");
}
SX_ENTRY(da_one) { da<darray1>(false); }
SX_ENTRY(da_zero) { da<darray0>(true); }
// darray64: base skip (or a pattern) with symbolic skips at positions s0..s2 of the history
SX_ENTRY(da_64) {
    uint64_t n = sx_param("n", 4), base = sx_param("base", 0), lo = sx_param("slo", 0), hi = sx_param("shi", 64), style = sx_param("style", 0); darray64::builder b; std::vector<uint64_t> pos; uint64_t cur = 0; static const char* sn[] = {"s0", "s1", "s2"};
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t sk = style == 0 ? base : style == 1 ? sx_mix(i) % 65 : (i % 2 ? 64 : 0); bool sy = style == 99; for (int j = 0; j < 3; ++j) if (sx_param(sn[j], ~uint64_t(0)) == i) sy = true;
        if (sy) sk = sx_range("skip", lo, hi);
        if (sk == 0 && !sy) b.append1(); else b.append1(sk);
        cur += sk; pos.push_back(cur); cur += 1;
    }
    darray64 x(&b), d; x.swap(d); sx_assert(d.num_ones() == n, "num_ones"); sx_assert(d.bits().size() == cur, "bits: size");
    if (n) { uint64_t klo = std::min(n - 1, sx_param("klo", 0)), k = sx_range("k", klo, std::min(n - 1, sx_param("khi", ~uint64_t(0)))); uint64_t p = d.select(k); uint64_t want = pos[klo]; for (uint64_t i = klo + 1; i <= std::min(n - 1, sx_param("khi", ~uint64_t(0))); ++i) want = sx_ite(k == i, pos[i], want); sx_assert(p == want, "select"); }
    sx_reach("darray64");
}
