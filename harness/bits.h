// Branch-free word-level model of a bit string with symbolic length, and instance makers.
#pragma once
#include "sx.h"
static inline uint64_t shl_any(uint64_t x, uint64_t s) { return sx_ite(s >= 64, 0, x << (s & 63)); }
static inline uint64_t shr_any(uint64_t x, uint64_t s) { return sx_ite(s >= 64, 0, x >> (s & 63)); }
// bits of [a, b) that fall in word j
static inline uint64_t wmask(uint64_t a, uint64_t b, uint64_t j) {
    uint64_t lo = sx_ite(a <= 64 * j, 0, sx_ite(a >= 64 * j + 64, 64, a - 64 * j)), hi = sx_ite(b <= 64 * j, 0, sx_ite(b >= 64 * j + 64, 64, b - 64 * j));
    return spec_lowmask(hi) & ~spec_lowmask(lo);
}
struct Mod {
    std::vector<uint64_t> w; uint64_t n;
    explicit Mod(size_t W) : w(W, 0), n(0) {}
    void put(uint64_t pos, uint64_t bits, uint64_t len) { // overwrite [pos, pos+len) by the low len bits
        uint64_t m = spec_lowmask(len); bits &= m;
        for (size_t j = 0; j < w.size(); ++j) { uint64_t up = pos - 64 * j, dn = 64 * j - pos; bool at = pos >= 64 * j;
            uint64_t mm = sx_ite(at, shl_any(m, up), shr_any(m, dn)), bb = sx_ite(at, shl_any(bits, up), shr_any(bits, dn)); w[j] = (w[j] & ~mm) | bb; }
    }
    void fill(uint64_t a, uint64_t b, bool v) { for (size_t j = 0; j < w.size(); ++j) { uint64_t m = wmask(a, b, j); w[j] = v ? w[j] | m : w[j] & ~m; } }
    void reverse() { // bit i -> bit n-1-i
        size_t W = w.size(); std::vector<uint64_t> r(W, 0); for (size_t j = 0; j < W; ++j) { uint64_t x = w[W - 1 - j], y = 0; for (int i = 0; i < 64; ++i) y |= ((x >> i) & 1) << (63 - i); r[j] = y; }
        uint64_t s = 64 * W - n, q = s / 64, m = s % 64; for (size_t j = 0; j < W; ++j) { uint64_t a = 0, b = 0; for (size_t t = j; t < W; ++t) { a = sx_ite(t == j + q, r[t], a); b = sx_ite(t == j + q + 1, r[t], b); } w[j] = (a >> m) | shl_any(b, 64 - m); }
    }
};
// true when no bit of value v lies in [a, b)
static inline bool none_in(Ref const& r, uint64_t a, uint64_t b, bool v) { uint64_t acc = 0; for (size_t j = 0; j < r.w.size(); ++j) acc |= (v ? r.w[j] : ~r.w[j]) & wmask(a, b, j); return acc == 0; }
// ---- instances with a concrete skeleton and symbolic windows
// pattern of word j of a skeleton: 0 zeros, 1 ones, 2 mixed, 3 runs (ones for 20 words, zeros for 40), 4 sparse, 5 almost all ones, 6 runs the other way
static inline uint64_t skel_word(uint64_t pat, uint64_t j) {
    switch (pat) {
    case 0: return 0; case 1: return ~uint64_t(0); case 2: return sx_mix(j * 2654435761u + 11);
    case 3: return j % 60 < 20 ? ~uint64_t(0) : 0; case 4: return uint64_t(1) << (sx_mix(j + 3) % 64); case 5: return ~(uint64_t(1) << (sx_mix(j + 5) % 64)); case 6: return j % 60 < 20 ? 0 : ~uint64_t(0);
    default: return sx_mix(j) & sx_mix(j + 77) & sx_mix(j + 177); }
}
// n bits; words w0..w3 (parameters, default none) have the bits of `mask` symbolic (the others keep the skeleton's value)
static inline void make_inst(Ref& r, uint64_t n) {
    uint64_t pat = sx_param("pat", 2), W = (n + 63) / 64, mask = sx_param("mask", 0xfff0000000000fffULL); r.n = n; r.w.clear(); uint64_t win[4] = {sx_param("w0", ~uint64_t(0)), sx_param("w1", ~uint64_t(0)), sx_param("w2", ~uint64_t(0)), sx_param("w3", ~uint64_t(0))};
    for (uint64_t j = 0; j < W; ++j) { uint64_t x = pat == 99 ? sx_u64("w") : skel_word(pat, j); bool in = false; for (int t = 0; t < 4; ++t) in |= win[t] == j; if (in && pat != 99) x = (x & ~mask) | (sx_u64("w") & mask); if (sx_param("inv", 0)) x = ~x; if (n - 64 * j < 64) x &= (uint64_t(1) << (n - 64 * j)) - 1; r.w.push_back(x); }
    r.finish();
}
struct Pos { uint64_t c, b; }; // position 64*c+b, c concrete
static inline uint64_t at(Pos p) { return 64 * p.c + p.b; }
static inline Pos pick_pos(uint64_t n) { Pos p; uint64_t last = (n - 1) / 64; p.c = sx_concretize(sx_range("c", std::min(last, sx_param("clo", 0)), std::min(last, sx_param("chi", ~uint64_t(0))))); uint64_t top = n - 64 * p.c; p.b = sx_range("b", 0, top > 64 ? 63 : top - 1); return p; }
static inline bool rbit(Ref const& r, Pos p) { return (r.w[p.c] >> p.b) & 1; }
static inline uint64_t rrank(Ref const& r, Pos p) { return r.P[p.c] + spec_pop(r.w[p.c] & ((uint64_t(1) << p.b) - 1)); }
static inline uint64_t rrank0(Ref const& r, Pos p) { return 64 * p.c - r.P[p.c] + spec_pop(~r.w[p.c] & ((uint64_t(1) << p.b) - 1)); }
