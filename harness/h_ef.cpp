// C15 Elias-Fano queries, C16 deltas/pairs/enumeration, C17 Elias-Fano lists.
#include <cassert>
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "bits.h"
using namespace succinct;
// skeleton of m non-decreasing values below n; positions s0..s2 (style 99: all) symbolic
static uint64_t ef_val(uint64_t style, uint64_t i, uint64_t m, uint64_t n) {
    uint64_t d = n / (m ? m : 1);
    switch (style) {
    case 0: return i * d;                                       // even
    case 1: return i < m / 2 ? 0 : n - 1;                       // two piles
    case 2: return i * d + (d > 1 ? sx_mix(i) % d : 0);         // scattered
    case 3: return (i / 50) * 50 * d + (i % 50 ? i % 50 : 0);   // clusters
    case 4: return n - m + i;                                   // dense at the end
    default: return i; }
}
struct Seq { uint64_t n, m; std::vector<uint64_t> v; };
static void make_seq(Seq& s, bool strict) {
    uint64_t style = sx_param("style", 99); s.n = sx_param("n", 10); s.m = sx_param("m", 2); static const char* sn[] = {"s0", "s1", "s2"};
    for (uint64_t i = 0; i < s.m; ++i) { bool sy = style == 99; for (int j = 0; j < 3; ++j) if (sx_param(sn[j], ~uint64_t(0)) == i) sy = true; s.v.push_back(sy ? sx_range("x", sx_param("xlo", 0), std::min(s.n - 1, sx_param("xhi", ~uint64_t(0)))) : ef_val(style, i, s.m, s.n)); }
    bool ok = true; for (uint64_t i = 0; i + 1 < s.m; ++i) ok &= strict ? s.v[i] < s.v[i + 1] : s.v[i] <= s.v[i + 1]; sx_assume(ok);
}
static void build(Seq const& s, elias_fano& out, bool rank) { elias_fano::elias_fano_builder b(s.n, s.m); for (uint64_t i = 0; i < s.m; ++i) b.push_back(s.v[i]); elias_fano e(&b, rank); e.swap(out); }
static uint64_t at_idx(Seq const& s, uint64_t k, uint64_t lo, uint64_t hi) { uint64_t r = s.v[lo]; for (uint64_t i = lo + 1; i <= hi; ++i) r = sx_ite(k == i, s.v[i], r); return r; }
static uint64_t less_than(Seq const& s, uint64_t p) { uint64_t r = 0; for (uint64_t i = 0; i < s.m; ++i) r += sx_ite(s.v[i] < p, 1, 0); return r; }
static void pick_k(Seq const& s, uint64_t& k, uint64_t& lo, uint64_t& hi, uint64_t top) { lo = std::min(top, sx_param("klo", 0)); hi = std::min(top, sx_param("khi", ~uint64_t(0))); k = sx_range("k", lo, hi); if (sx_param("conc", 0)) k = sx_concretize(k); }
SX_ENTRY(ef_select) {
    Seq s; make_seq(s, false); elias_fano e; build(s, e, sx_param("rank", 0)); sx_assert(e.num_ones() == s.m, "num_ones"); sx_assert(e.size() == s.n, "size");
    if (s.m) { uint64_t k, lo, hi; pick_k(s, k, lo, hi, s.m - 1); sx_assert(e.select(k) == at_idx(s, k, lo, hi), "select"); } sx_reach("ef");
}
SX_ENTRY(ef_rank) { // distinct values; what: 0 rank, 1 access, 2 predecessor, 3 successor
    Seq s; make_seq(s, true); elias_fano e; build(s, e, true); uint64_t what = sx_param("what", 0), p = sx_range("p", sx_param("plo", 0), std::min(s.n - (what ? 1 : 0), sx_param("phi", ~uint64_t(0))));
    uint64_t lt = less_than(s, p);
    if (what == 0) sx_assert(e.rank(p) == lt, "rank");
    else { uint64_t le = 0; for (uint64_t i = 0; i < s.m; ++i) le += sx_ite(s.v[i] <= p, 1, 0);
        if (what == 1) sx_assert(e[p] == (le != lt), "operator[]");
        else { uint64_t lo = std::min(s.m - 1, sx_param("klo", 0)), hi = std::min(s.m - 1, sx_param("khi", ~uint64_t(0))); // the answer's index lies in [klo, khi]
            if (what == 2) { sx_assume(le > lo && le - 1 <= hi); sx_assert(e.predecessor1(p) == at_idx(s, le - 1, lo, hi), "predecessor1"); }
            else { sx_assume(lt >= lo && lt <= hi); sx_assert(e.successor1(p) == at_idx(s, lt, lo, hi), "successor1"); } } }
    sx_reach("ef");
}
// conversion of a bit vector of n bits (windowed skeleton)
SX_ENTRY(ef_bits) {
    Ref r; uint64_t n = sx_param("n", 10), W = (n + 63) / 64, style = sx_param("style", 9); r.n = n; r.w.assign(W, 0); for (uint64_t i = 0; i < n; ++i) { bool b = style == 0 ? true : style == 1 ? i % 2 : style == 2 ? i % 100 == 7 : style == 3 ? sx_mix(i) % 8 == 0 : false; r.w[i / 64] |= uint64_t(b) << (i % 64); }
    static const char* wn[] = {"w0", "w1"}; static const char* mk[] = {"m0", "m1"};
    for (int k = 0; k < 2; ++k) { uint64_t j = sx_param(wn[k], ~uint64_t(0)), m = sx_param(mk[k], 0xff); if (j >= W) continue; if (n - 64 * j < 64) m &= (uint64_t(1) << (n - 64 * j)) - 1; uint64_t x = sx_u64("w") & m; sx_concretize(spec_pop(x)); r.w[j] = (r.w[j] & ~m) | x; }
    r.finish(); bit_vector_builder b; for (size_t j = 0; j < W; ++j) b.append_bits(r.w[j], std::min<uint64_t>(64, n - 64 * j));
    elias_fano t(&b, true), e; e.swap(t); uint64_t total = sx_concretize(r.ones()); sx_assert(e.num_ones() == total, "num_ones"); sx_assert(e.size() == n, "size"); uint64_t what = sx_param("what", 0);
    uint64_t plo = sx_param("plo", 0), phi = std::min(n - 1, sx_param("phi", ~uint64_t(0)));
    if (what == 0) { uint64_t p = sx_range("p", plo, phi + 1); uint64_t c = sx_concretize(p / 64), o = p % 64; uint64_t want = c < W ? r.P[c] + spec_pop(r.w[c] & ((uint64_t(1) << o) - 1)) : total; sx_assert(e.rank(p) == want, "rank"); }
    else if (what == 1) { uint64_t p = sx_range("p", plo, phi); uint64_t c = sx_concretize(p / 64); sx_assert(e[p] == ((r.w[c] >> (p % 64)) & 1), "operator[]"); }
    else if (total) { uint64_t k = sx_range("k", std::min(total - 1, sx_param("klo", 0)), std::min(total - 1, sx_param("khi", ~uint64_t(0)))), p = e.select(k); sx_assert(p < n, "select: range"); uint64_t c = sx_concretize(p / 64); sx_assert((r.w[c] >> (p % 64)) & 1, "select: bit"); sx_assert(r.P[c] + spec_pop(r.w[c] & ((uint64_t(1) << (p % 64)) - 1)) == k, "select: rank"); }
    sx_reach("ef");
}
SX_ENTRY(ef_delta) {
    Seq s; make_seq(s, false); elias_fano e; build(s, e, false); uint64_t k, lo, hi; pick_k(s, k, lo, hi, s.m - 1); uint64_t v = at_idx(s, k, lo, hi), u = 0; if (hi > 0) { Seq const& c = s; u = sx_ite(k == 0, 0, at_idx(c, k - 1, lo ? lo - 1 : 0, hi - 1)); }
    sx_assert(e.delta(k) == v - u, "delta"); sx_reach("ef");
}
SX_ENTRY(ef_pair) {
    Seq s; make_seq(s, false); elias_fano e; build(s, e, false); uint64_t k, lo, hi; pick_k(s, k, lo, hi, s.m - 2); std::pair<uint64_t, uint64_t> p = e.select_range(k); sx_assert(p.first == at_idx(s, k, lo, hi), "select_range: first"); sx_assert(p.second == at_idx(s, k + 1, lo + 1, hi + 1), "select_range: second"); sx_reach("ef");
}
SX_ENTRY(ef_enum) {
    Seq s; make_seq(s, false); elias_fano e; build(s, e, false); if (!s.m) { elias_fano::select_enumerator z(e, 0); sx_reach("ef"); return; }
    uint64_t k, lo, hi; pick_k(s, k, lo, hi, s.m - 1); k = sx_concretize(k); elias_fano::select_enumerator it(e, k); uint64_t lim = sx_param("take", ~uint64_t(0));
    for (uint64_t i = k; i < s.m && i - k < lim; ++i) sx_assert(it.next() == s.v[i], "enumerator"); sx_reach("ef");
}
// values (h_i << l) | low_i: concrete buckets (hst: 0 one per bucket, 1 two per bucket, 2 all in one, 3 with gaps), every low part symbolic; what: 0 select, 1 rank, 2 access, 3 predecessor, 4 successor, 5 delta, 6 pair, 7 enumerator
SX_ENTRY(ef_low) {
    uint64_t l = sx_concretize(sx_range("l", sx_param("llo", 0), sx_param("lhi", 63))), hst = sx_concretize(sx_range("hst", sx_param("hlo", 0), sx_param("hhi", 3))), what = sx_concretize(sx_range("what", sx_param("what", 0), sx_param("whi", sx_param("what", 0)))), cap = (~uint64_t(0) >> l), m = std::min(cap, sx_param("m", 5)), sorted = what >= 1 && what <= 4; Seq s; s.m = m; bool ok = true; uint64_t per = m; s.n = per << l; std::vector<uint64_t> h;
    for (uint64_t i = 0; i < m; ++i) { uint64_t b = hst == 0 ? i : hst == 1 ? i / 2 : hst == 2 ? m / 2 : (i / 3) * 3; h.push_back(std::min(b, per - 1)); uint64_t low = l ? sx_u64("low") & ((uint64_t(1) << l) - 1) : 0; s.v.push_back((h[i] << l) | low); if (i && h[i] == h[i - 1]) ok &= sorted ? s.v[i - 1] < s.v[i] : s.v[i - 1] <= s.v[i]; }
    sx_assume(ok); elias_fano e; build(s, e, sorted); sx_assert(e.num_ones() == m, "num_ones");
    uint64_t lo = std::min(m - 1, sx_param("klo", 0)), hi = std::min(m - 1, sx_param("khi", ~uint64_t(0)));
    if (what == 0) for (uint64_t k = lo; k <= hi; ++k) sx_assert(e.select(k) == s.v[k], "select");
    if (what == 5) for (uint64_t k = lo; k <= hi; ++k) sx_assert(e.delta(k) == s.v[k] - (k ? s.v[k - 1] : 0), "delta");
    if (what == 6) for (uint64_t k = lo; k + 1 < m && k <= hi; ++k) { std::pair<uint64_t, uint64_t> p = e.select_range(k); sx_assert(p.first == s.v[k] && p.second == s.v[k + 1], "select_range"); }
    if (what == 7) { uint64_t k = sx_concretize(sx_range("k", lo, hi)); elias_fano::select_enumerator it(e, k); for (; k < m; ++k) sx_assert(it.next() == s.v[k], "enumerator"); }
    if (sorted) { uint64_t b = sx_concretize(sx_range("bucket", h[lo], h[hi])), p = b << l | (l ? sx_u64("p") & ((uint64_t(1) << l) - 1) : 0), lt = 0, le = 0; for (uint64_t i = 0; i < m; ++i) { lt += h[i] < b || (h[i] == b && s.v[i] < p); le += h[i] < b || (h[i] == b && s.v[i] <= p); }
        if (what == 1) sx_assert(e.rank(p) == lt, "rank"); else if (what == 2) sx_assert(e[p] == (lt != le), "operator[]"); else if (what == 3) { sx_assume(le > 0); sx_assert(e.predecessor1(p) == at_idx(s, le - 1, 0, m - 1), "predecessor1"); } else { sx_assume(lt < m); sx_assert(e.successor1(p) == at_idx(s, lt, 0, m - 1), "successor1"); } }
    sx_reach("ef");
}
// C17
SX_ENTRY(efl) { // prefix-sum list: m values with total S (the last one makes up the total)
    uint64_t m = sx_param("m", 2), S = sx_param("S", 10), style = sx_param("style", 99); std::vector<uint64_t> v; uint64_t t = 0; bool ok = true;
    for (uint64_t i = 0; i < m; ++i) { uint64_t x; bool sy = style == 99 || i == sx_param("s0", ~uint64_t(0)) || i == sx_param("s1", ~uint64_t(0)); if (i + 1 == m) x = S - t; else if (style != 99 && i > 0 && i == sx_param("s0", ~uint64_t(0)) + 1) x = sx_param("xhi", S) - v[i - 1]; /* keeps the later sums fixed */ else if (sy) x = sx_range("x", 0, sx_param("xhi", S)); else x = style == 0 ? sx_mix(i) % 9 : style == 1 ? (i % 64 ? 0 : 500) : style == 2 ? sx_mix(i) >> 40 : 1; if (i + 1 < m) { ok &= x <= S - t; t += x; } v.push_back(x); }
    sx_assume(ok); elias_fano_list t0(v), l; l.swap(t0); sx_assert(l.size() == m, "size"); sx_assert(l.sum() == (m ? S : 0), "sum");
    if (m) { uint64_t lo = std::min(m - 1, sx_param("klo", 0)), hi = std::min(m - 1, sx_param("khi", ~uint64_t(0))), k = sx_range("k", lo, hi), w = v[lo]; for (uint64_t i = lo + 1; i <= hi; ++i) w = sx_ite(k == i, v[i], w); sx_assert(l[k] == w, "operator[]"); } sx_reach("efl");
}
SX_ENTRY(efc) { // compressed list: values with code lengths in [llo, lhi]
    uint64_t m = sx_param("m", 2), llo = sx_param("llo", 0), lhi = sx_param("lhi", 63), style = sx_param("style", 99); std::vector<uint64_t> v;
    for (uint64_t i = 0; i < m; ++i) { bool sy = style == 99 || i == sx_param("s0", ~uint64_t(0)) || i == sx_param("s1", ~uint64_t(0)); if (!sy) { v.push_back(sx_mix(i) >> (40 + i % 24)); continue; } uint64_t l = sx_concretize(sx_range("l", llo, lhi)); uint64_t x = sx_u64("x") & ((uint64_t(1) << l) - 1); v.push_back(((uint64_t(1) << l) | x) - 1); }
    elias_fano_compressed_list t0(v), c; c.swap(t0); sx_assert(c.size() == m, "size");
    if (m) { uint64_t lo = std::min(m - 1, sx_param("klo", 0)), hi = std::min(m - 1, sx_param("khi", ~uint64_t(0))), k = sx_range("k", lo, hi), w = v[lo]; for (uint64_t i = lo + 1; i <= hi; ++i) w = sx_ite(k == i, v[i], w); sx_assert(c[k] == w, "operator[]"); } sx_reach("efc");
}
