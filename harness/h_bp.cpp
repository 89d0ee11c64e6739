// C09 parenthesis matching, C10 excess and excess range minimum, on bp_vector.
#include <cassert>
#include "bp_vector.hpp"
#include "bits.h"
using namespace succinct;
// A balanced sequence of n bits: a concrete skeleton in which some bits (mask mI of word wI) are symbolic, constrained to be balanced again.
struct Bal {
    Ref r; std::vector<char> sym; std::vector<int64_t> X;        // X[j]: excess before word j
    std::vector<int64_t> mn;                                       // least excess after 1..64 bits of a concrete word, relative to its start
    int64_t exc(Pos p) const { return X[p.c] + 2 * (int64_t)spec_pop(r.w[p.c] & ((uint64_t(1) << p.b) - 1)) - (int64_t)p.b; } // excess(at(p)): before bit p
    int64_t exc1(Pos p) const { return exc(p) + (rbit(r, p) ? 1 : -1); }
};
static bool skel_bit(uint64_t style, uint64_t i, uint64_t n, int64_t e) { // e: excess so far; the caller forces closing when e == bits left
    switch (style) {
    case 0: return i < n / 2;                                      // one deep path
    case 1: return e < 1 || (e < 2 && i + 2 < n);                  // root with leaves
    case 2: return sx_mix(i / 2 + 5) >> 63;                        // drifting
    case 3: return (i / 600) % 2 == 0 ? i % 600 < 560 : i % 600 < 40; // slow ramps up and down
    case 4: return i < n / 3 ? 1 : sx_mix(i) % 8 < 4;              // deep plateau with small hills
    case 5: return (i / 2000) % 2 == 0;                            // long ramps
    case 6: return i < 40 ? 1 : (i % 2 == 0);                      // "()()()" at depth 40
    case 7: return i < 300 ? 1 : (i / 3) % 2 == 0;                 // "((()))" at depth 300
    default: return e < 4; }
}
static void make_bal(Bal& B, uint64_t n) {
    uint64_t style = sx_param("style", 0), W = (n + 63) / 64; B.r.n = n; B.r.w.assign(W, 0); B.sym.assign(W, 0);
    if (style == 99) { for (uint64_t j = 0; j < W; ++j) { uint64_t x = sx_u64("w"); if (n - 64 * j < 64) x &= (uint64_t(1) << (n - 64 * j)) - 1; B.r.w[j] = x; B.sym[j] = 1; } }
    else {
        int64_t e = 0; for (uint64_t i = 0; i < n; ++i) { bool b = skel_bit(style, i, n, e); if (e == 0) b = true; if (e >= (int64_t)(n - i)) b = false; B.r.w[i / 64] |= uint64_t(b) << (i % 64); e += b ? 1 : -1; }
        static const char* wn[] = {"w0", "w1", "w2", "w3"}; static const char* mk[] = {"m0", "m1", "m2", "m3"};
        for (int k = 0; k < 4; ++k) { uint64_t j = sx_param(wn[k], ~uint64_t(0)), m = sx_param(mk[k], 0xff); if (j >= W) continue; if (n - 64 * j < 64) m &= (uint64_t(1) << (n - 64 * j)) - 1; B.r.w[j] = (B.r.w[j] & ~m) | (sx_u64("w") & m); B.sym[j] = 1; }
    }
    B.r.finish(); B.X.assign(W + 1, 0); B.mn.assign(W, 0); for (uint64_t j = 0; j <= W; ++j) B.X[j] = 2 * (int64_t)B.r.P[j] - 64 * (int64_t)j;
    // balanced
    int64_t gmin = 0; uint64_t gs = 0; bool open = false; bool ok = true;
    for (uint64_t j = 0; j < W; ++j) {
        uint64_t l = std::min<uint64_t>(64, n - 64 * j);
        if (B.sym[j]) { int64_t e = B.X[j]; for (uint64_t i = 0; i < l; ++i) { e += (int64_t)((B.r.w[j] >> i) & 1) * 2 - 1; ok &= e >= 0; } }
        else { int64_t e = 0, m = 1; for (uint64_t i = 0; i < l; ++i) { e += (B.r.w[j] >> i) & 1 ? 1 : -1; m = i ? std::min(m, e) : e; } B.mn[j] = m; ok &= B.X[j] + m >= 0; }
    }
    sx_assume(ok); sx_assume(2 * (int64_t)B.r.P[W] == (int64_t)n);
}
static void build(Bal const& B, bp_vector& out) {
    bit_vector_builder b; for (size_t j = 0; j < B.r.w.size(); ++j) b.append_bits(B.r.w[j], std::min<uint64_t>(64, B.r.n - 64 * j));
    uint64_t h = sx_param("hints", 0); bp_vector t(&b, h & 1, h & 2); out.swap(t);
}
static Pos cpos(uint64_t p) { Pos x; x.c = sx_concretize(p / 64); x.b = p % 64; return x; }
// asserts excess(i) >= level for every i with at(from) < i <= at(to)
static void above(Bal const& B, Pos from, Pos to, int64_t level, const char* label) {
    for (uint64_t j = from.c + 1; j < to.c; ++j) if (!B.sym[j]) { uint64_t k = j; int64_t m = B.mn[j], rel = 2 * (int64_t)spec_pop(B.r.w[j]) - 64; while (k + 1 < to.c && !B.sym[k + 1]) { ++k; m = std::min(m, rel + B.mn[k]); rel += 2 * (int64_t)spec_pop(B.r.w[k]) - 64; } sx_assert(B.X[j] + m >= level, label); j = k; }
    std::vector<uint64_t> ws; ws.push_back(from.c); for (uint64_t j = from.c + 1; j < to.c; ++j) if (B.sym[j]) ws.push_back(j); if (to.c != from.c) ws.push_back(to.c);
    uint64_t k = ws[sx_concretize(sx_range("iw", 0, ws.size() - 1))]; Pos i; i.c = k; i.b = sx_range("ib", 0, 63); if (64 * k + 63 >= B.r.n) sx_assume(at(i) < B.r.n); sx_assume(at(i) >= at(from) && at(i) < at(to)); sx_assert(B.exc1(i) >= level, label);
}
static Pos pick_p(uint64_t n) { Pos p = pick_pos(n); if (sx_param("conc", 0)) p.b = sx_concretize(p.b); return p; }
SX_ENTRY(bp_close) {
    Bal B; uint64_t n = sx_param("n", 64); make_bal(B, n); bp_vector v; build(B, v); Pos p = pick_p(n); sx_assume(rbit(B.r, p)); uint64_t c = v.find_close(at(p)); sx_assert(c > at(p) && c < n, "find_close: range"); Pos q = cpos(c);
    sx_assert(!rbit(B.r, q), "find_close: closing parenthesis"); sx_assert(B.exc1(q) == B.exc(p), "find_close: matching excess"); if (sx_param("part", 2) != 1) above(B, p, q, B.exc(p) + 1, "find_close: nearest"); sx_reach("close");
}
SX_ENTRY(bp_open) {
    Bal B; uint64_t n = sx_param("n", 64); make_bal(B, n); bp_vector v; build(B, v); Pos p = pick_p(n); sx_assume(!rbit(B.r, p)); uint64_t o = v.find_open(at(p)); sx_assert(o < at(p), "find_open: range"); Pos q = cpos(o);
    sx_assert(rbit(B.r, q), "find_open: opening parenthesis"); sx_assert(B.exc(q) == B.exc1(p), "find_open: matching excess"); above(B, q, p, B.exc(q) + 1, "find_open: nearest"); sx_reach("open");
}
SX_ENTRY(bp_enclose) {
    Bal B; uint64_t n = sx_param("n", 64); make_bal(B, n); bp_vector v; build(B, v); Pos p = pick_p(n); sx_assume(rbit(B.r, p)); sx_assume(B.exc(p) > 0); uint64_t o = v.enclose(at(p)); sx_assert(o < at(p), "enclose: range"); Pos q = cpos(o);
    sx_assert(rbit(B.r, q), "enclose: opening parenthesis"); sx_assert(B.exc(q) == B.exc(p) - 1, "enclose: excess"); above(B, q, p, B.exc(p), "enclose: nearest"); sx_reach("enclose");
}
SX_ENTRY(bp_excess) { Bal B; uint64_t n = sx_param("n", 64); make_bal(B, n); bp_vector v; build(B, v); Pos p = pick_p(n); sx_assert(v.excess(at(p)) == B.exc(p), "excess"); sx_assert(v.excess(n) == 0, "excess(size)"); sx_reach("excess"); }
SX_ENTRY(bp_rmq) {
    Bal B; uint64_t n = sx_param("n", 64); make_bal(B, n); bp_vector v; build(B, v); Pos a, b; uint64_t last = (n - 1) / 64; bool conc = sx_param("conc", 0);
    a = pick_p(n); b.c = sx_concretize(sx_range("bc", std::max(a.c, std::min(last, sx_param("blo", 0))), std::max(a.c, std::min(last, sx_param("bhi", ~uint64_t(0)))))); uint64_t top = n - 64 * b.c; b.b = sx_range("bb", 0, top > 64 ? 63 : top - 1); if (conc) b.b = sx_concretize(b.b); sx_assume(at(a) <= at(b));
    bool one = sx_concretize(sx_range("incl", 0, 1)); uint64_t e = at(b) + one; // both b in the middle of a word and at its end
    bp_vector::excess_t m; uint64_t i = v.excess_rmq(at(a), e, m); sx_assert(i >= at(a) && i <= e, "excess_rmq: range"); sx_assert(v.excess_rmq(at(a), e) == i, "excess_rmq: overloads agree");
    Pos q = cpos(i); if (q.c < B.r.w.size()) { sx_assert(B.exc(q) == m, "excess_rmq: reported minimum"); } else { sx_assert(m == B.X[q.c], "excess_rmq: reported minimum"); }
    // nothing smaller in [a, e], nothing equal before i
    sx_assert(B.exc(a) >= m, "excess_rmq: minimum"); if (i != at(a)) sx_assert(B.exc(a) > m, "excess_rmq: leftmost"); 
    Pos en = b; if (one) { en.b += 1; } // b+1 stays relative to word b.c
    if (sx_param("part", 0) == 0) { above(B, a, en, m, "excess_rmq: minimum"); }
    else if (i > at(a)) { Pos pq; if (q.b == 0 && q.c > a.c) { pq.c = q.c - 1; pq.b = 63; } else { uint64_t x = i - 1; pq = cpos(x); } above(B, a, pq, (int64_t)m + 1, "excess_rmq: leftmost"); }
    sx_reach("rmq");
}
