// C02 builder, C03 random access, C04 predecessor/successor, C05 enumerator, C06 unary enumerator.
#include <cassert>
#include "bit_vector.hpp"
#include "bits.h"
using namespace succinct;

// ---- C02
static void check_builder(bit_vector_builder& b, Mod const& m) {
    sx_assert(b.size() == m.n, "builder size"); uint64_t n = m.n; bit_vector bv(&b); sx_assert(bv.size() == n, "bit_vector size"); sx_assert(bv.data().size() == (n + 63) / 64, "number of words");
    uint64_t W = sx_concretize(bv.data().size()); for (size_t j = 0; j < W && j < m.w.size(); ++j) sx_assert(bv.data()[j] == m.w[j], "stored words equal the model, padding zero");
    if (n > 0 && W == (n + 63) / 64) { uint64_t i = sx_range("i", 0, 64 * W - 1); sx_assume(i < n); uint64_t e = 0; for (size_t j = 0; j < W; ++j) e = sx_ite(i / 64 == j, m.w[j], e); sx_assert(bv[i] == ((e >> (i % 64)) & 1), "bit"); }
}
static void small(bit_vector_builder& b, Mod& m, uint64_t lo, uint64_t hi) { // a builder with arbitrary content and a length in [lo, hi]
    uint64_t k = sx_range("rn", lo, hi); m.n = k;
    uint64_t left = k; size_t pos = 0; while (pos < hi) { uint64_t len = sx_ite(left >= 64, 64, left); uint64_t v = sx_u64("rw") & spec_lowmask(len); if (len == 0) break; b.append_bits(v, len); m.put(pos, v, len); left -= len; pos += 64; }
}
static uint64_t length(const char* nm, uint64_t hi, uint64_t d) { uint64_t f = d == 0 ? sx_param("k0", 999) : d == 1 ? sx_param("k1", 999) : 999; return f != 999 ? std::min(f, hi) : sx_range(nm, 0, hi); } // fixed by the job or arbitrary
static void op(uint64_t o, bit_vector_builder& b, Mod& m, uint64_t cap, uint64_t d) {
    uint64_t room = cap - m.n;
    switch (o) {
    case 0: { bool v = sx_range("b", 0, 1); sx_assume(room >= 1); b.push_back(v); m.put(m.n, v, 1); m.n += 1; break; }
    case 1: { uint64_t len = length("len", 64, d); sx_assume(len <= room); uint64_t v = sx_u64("v") & spec_lowmask(len); b.append_bits(v, len); m.put(m.n, v, len); m.n += len; break; }
    case 2: { uint64_t k = length("k", sx_param("ext", 140), d); sx_assume(k <= room); b.zero_extend(k); m.n += k; break; }
    case 3: { uint64_t k = length("k", sx_param("ext", 140), d); sx_assume(k <= room); b.one_extend(k); m.fill(m.n, m.n + k, true); m.n += k; break; }
    case 4: { if (m.n == 0) return; uint64_t p = sx_range("pos", 0, cap); sx_assume(p < m.n); bool v = sx_range("b", 0, 1); b.set(p, v); m.put(p, v, 1); break; }
    case 5: { uint64_t p = sx_range("pos", 0, cap), len = sx_range("len", 0, 64); sx_assume(p + len <= m.n); uint64_t v = sx_u64("v") & spec_lowmask(len); b.set_bits(p, v, len); m.put(p, v, len); break; }
    case 6: { bit_vector_builder r; Mod rm(m.w.size()); { uint64_t f = d == 0 ? sx_param("k0", 999) : d == 1 ? sx_param("k1", 999) : 999; if (f != 999) small(r, rm, f, f); else small(r, rm, 0, sx_param("rhi", 130)); } sx_assume(rm.n <= room); b.append(r); for (size_t j = 0; j < rm.w.size(); ++j) { uint64_t l = sx_ite(rm.n >= 64 * j + 64, 64, sx_ite(rm.n <= 64 * j, 0, rm.n - 64 * j)); m.put(m.n + 64 * j, rm.w[j], l); } m.n += rm.n; check_builder(r, rm); break; }
    case 7: { b.reverse(); m.reverse(); break; }
    case 8: { static const uint64_t rs[] = {0, 65, 700}; b.reserve(rs[sx_concretize(sx_range("r", 0, 2))]); break; }
    case 9: { bit_vector_builder r; Mod rm(m.w.size()); small(r, rm, 0, 70); r.swap(b); std::swap(m.w, rm.w); std::swap(m.n, rm.n); check_builder(r, rm); break; }
    }
}
SX_ENTRY(bb_seq) { // start: builder(size, init); then a sequence of operations chosen by the solver (first one may be fixed by the job)
    uint64_t W = sx_param("W", 5), cap = 64 * W; Mod m(W); uint64_t n0 = sx_range("n0", sx_param("n0lo", 0), sx_param("n0hi", 130)); n0 = sx_param("concn0", 0) ? sx_concretize(n0) : n0; bool init = sx_concretize(sx_range("init", 0, 1));
    bit_vector_builder b(n0, init); m.n = n0; if (init) m.fill(0, n0, true);
    uint64_t D = sx_param("depth", 2); for (uint64_t d = 0; d < D; ++d) { uint64_t f = d == 0 ? sx_param("op0", 99) : d == 1 ? sx_param("op1", 99) : 99; uint64_t o = f != 99 ? f : sx_concretize(sx_range("op", 0, 9)); op(o, b, m, cap, d); }
    check_builder(b, m); sx_reach("sequence");
}
SX_ENTRY(bb_swap) { // two builders exchange everything and are usable afterwards
    uint64_t cap = 64 * 4; Mod ma(4), mb(4); bit_vector_builder a, b; small(a, ma, 0, sx_param("ahi", 64)); small(b, mb, sx_param("blo", 0), sx_param("bhi", 130)); if (sx_concretize(sx_range("dir", 0, 1))) a.swap(b); else b.swap(a); std::swap(ma.w, mb.w); std::swap(ma.n, mb.n);
    sx_assert(a.size() == ma.n && b.size() == mb.n, "sizes after swap"); op(sx_param("op0", 1), a, ma, cap, 0); op(sx_param("op1", 1), b, mb, cap, 1); check_builder(a, ma); check_builder(b, mb); sx_reach("swap");
}
// large builders: concrete lengths, contents with symbolic windows
struct Big { // model with a concrete length
    std::vector<uint64_t> w; uint64_t n; Big() : n(0) {}
    void app(uint64_t v, uint64_t len) { while (len) { if (n % 64 == 0) w.push_back(0); uint64_t l = std::min(len, 64 - n % 64); uint64_t x = l == 64 ? v : v & ((uint64_t(1) << l) - 1); w.back() |= x << (n % 64); n += l; v = l == 64 ? 0 : v >> l; len -= l; } }
    void rev() { std::vector<uint64_t> r(w.size(), 0); for (uint64_t i = 0; i < n; ++i) { uint64_t d = n - 1 - i; r[d / 64] |= (w[i / 64] >> (i % 64) & 1) << (d % 64); } w = r; }
};
static void large(bit_vector_builder& b, Big& m, uint64_t n, uint64_t w0, uint64_t w1) { for (uint64_t j = 0; 64 * j < n; ++j) { uint64_t l = std::min<uint64_t>(64, n - 64 * j), v = j == w0 || j == w1 ? sx_u64("w") : sx_mix(j + n); if (l < 64) v &= (uint64_t(1) << l) - 1; b.append_bits(v, l); m.app(v, l); } }
SX_ENTRY(bb_big) {
    uint64_t n0 = sx_param("n0", 1000), n1 = sx_param("n1", 3000), what = sx_param("what", 0); bit_vector_builder b; Big m; large(b, m, n0, sx_param("w0", 3), n0 / 64); uint64_t x = sx_concretize(sx_range("x", 0, sx_param("xhi", 2)));
    switch (what) {
    case 0: { bit_vector_builder r; Big q; large(r, q, n1 + x, sx_param("w1", 5), (n1 + x) / 64); b.append(r); for (size_t j = 0; j < q.w.size(); ++j) m.app(q.w[j], std::min<uint64_t>(64, q.n - 64 * j)); sx_assert(r.size() == q.n, "the appended builder keeps its size"); bit_vector rv(&r); bool same = true; for (size_t j = 0; j < q.w.size(); ++j) same &= rv.data()[j] == q.w[j]; sx_assert(same, "and its contents"); break; }
    case 1: b.one_extend(n1 + x); for (uint64_t k = 0; k < n1 + x; ++k) m.app(1, 1); break;
    case 2: b.zero_extend(n1 + x); for (uint64_t k = 0; k < n1 + x; ++k) m.app(0, 1); break;
    case 3: b.reverse(); m.rev(); break;
    case 4: { uint64_t c = sx_param("c", 7), p = 64 * c + sx_range("pos", 0, 63), len = sx_range("len", 0, 64); sx_assume(p + len <= n0); uint64_t v = sx_u64("v") & spec_lowmask(len); b.set_bits(p, v, len); Mod t(2); t.w[0] = m.w[c]; t.w[1] = c + 1 < m.w.size() ? m.w[c + 1] : 0; t.put(p - 64 * c, v, len); m.w[c] = t.w[0]; if (c + 1 < m.w.size()) m.w[c + 1] = t.w[1]; break; }
    case 5: { uint64_t c = sx_param("c", 7), p = sx_range("pos", 0, 63); bool v = sx_range("b", 0, 1); b.set(64 * c + p, v); m.w[c] = sx_ite(v, m.w[c] | uint64_t(1) << p, m.w[c] & ~(uint64_t(1) << p)); break; }
    case 6: for (uint64_t k = 0; k < n1 + x; ++k) { bool v = k % 512 == 300 ? sx_range("b", 0, 1) : sx_mix(k) & 1; b.push_back(v); m.app(v, 1); } break;
    case 7: for (uint64_t k = 0; k * 5 < n1; ++k) { uint64_t l = (k * 7 + x) % 65, v = k % 97 == 50 ? sx_u64("v") : sx_mix(k); if (l < 64) v &= (uint64_t(1) << l) - 1; b.append_bits(v, l); m.app(v, l); } break;
    case 8: b.reserve(n1); break;
    case 9: { bit_vector_builder r(n1 + x, 1); Big q; for (uint64_t k = 0; k < n1 + x; ++k) q.app(1, 1); r.swap(b); std::swap(m, q); break; }
    }
    bool last = sx_range("last", 0, 1); b.push_back(last); m.app(last, 1); uint64_t y = sx_u64("y") & 0x1fffffffffULL; b.append_bits(y, 37); m.app(y, 37); // the cursor is where it should be
    sx_assert(b.size() == m.n, "builder size"); bit_vector bv(&b); sx_assert(bv.size() == m.n, "bit_vector size"); sx_assert(bv.data().size() == m.w.size(), "number of words");
    bool ok = true; for (size_t j = 0; j < m.w.size(); ++j) ok &= bv.data()[j] == m.w[j]; sx_assert(ok, "stored words equal the model, padding zero"); sx_reach("big");
}
// ---- instances: n bits; all symbolic
static void all_sym(Ref& r, uint64_t n) { if (sx_param("pat", 99) != 99) { make_inst(r, n); return; }  r.n = n; r.w.clear(); for (uint64_t j = 0; j * 64 < n; ++j) { uint64_t l = n - 64 * j; uint64_t x = sx_u64("w"); if (l < 64) x &= (uint64_t(1) << l) - 1; r.w.push_back(x); } r.finish(); }
static void to_builder(Ref const& r, bit_vector_builder& b) { for (size_t j = 0; j < r.w.size(); ++j) b.append_bits(r.w[j], std::min<uint64_t>(64, r.n - 64 * j)); }
// ---- C03
static void access(bit_vector const& bv, Ref const& r) {
    uint64_t n = r.n; sx_assert(bv.size() == n, "size"); if (!n) { sx_assert(bv.get_bits(0, 0) == 0, "empty get_bits"); return; }
    uint64_t lo = std::min(n - 1, sx_param("plo", 0)), hi = std::min(n - 1, sx_param("phi", n)); uint64_t i = sx_range("i", lo, hi); sx_assert(bv[i] == r.bit(i), "operator[]"); sx_assert(bv.get_word(i) == r.get(i, 64), "get_word");
    uint64_t len = sx_range("len", 0, 64), p = sx_range("p", lo, hi + 1); sx_assume(p + len <= n); sx_assert(bv.get_bits(p, len) == r.get(p, len), "get_bits");
    uint64_t bytes = r.w.size() * 8; uint64_t y = sx_range("y", lo / 8, std::min(bytes - 8, hi / 8)), t = sx_range("t", 0, 7); uint64_t q = 8 * y + t; if (q < n) { uint64_t m = (uint64_t(1) << 56) - 1; sx_assert((bv.get_word56(q) & m) == (r.get(q, 64) & m), "get_word56"); }
}
SX_ENTRY(bv_access) { Ref r; all_sym(r, sx_param("n", 130)); bit_vector_builder b; to_builder(r, b); bit_vector bv(&b); access(bv, r); }
template <class T> static void range_of(uint64_t hi) { // range constructor: k symbolic elements in the middle of a fixed pattern; any non-zero element is a one
    uint64_t n = sx_param("n", 70), from = sx_param("from", 0), k = sx_param("k", 16); std::vector<T> v; Ref r; r.n = n; r.w.assign((n + 63) / 64, 0);
    for (uint64_t i = 0; i < n; ++i) { uint64_t b = i >= from && i < from + k ? sx_range("bit", 0, hi) : (sx_mix(i / 3 + 7) & 1); v.push_back((T)b); r.w[i / 64] |= sx_ite(b != 0, 1, 0) << (i % 64); } r.finish(); bit_vector bv(v); sx_assert(bv.size() == n, "size"); sx_assert(bv.data().size() == r.w.size(), "number of words"); for (size_t j = 0; j < r.w.size(); ++j) sx_assert(bv.data()[j] == r.w[j], "words"); if (n) { uint64_t i = sx_range("i", 0, n - 1); sx_assert(bv[i] == r.bit(i), "operator[]"); }
}
SX_ENTRY(bv_range) { range_of<uint8_t>(sx_param("vhi", 1)); }
SX_ENTRY(bv_range64) { range_of<uint64_t>(~uint64_t(0)); }
// ---- C04: the answer and the query position are both chosen; what lies between them is constrained
SX_ENTRY(bv_near) {
    Ref r; uint64_t n = sx_param("n", 200); all_sym(r, n); bit_vector_builder b; to_builder(r, b); bit_vector bv(&b); uint64_t kind = sx_param("kind", 0); bool v = kind & 1; bool pred = kind & 2;
    uint64_t lo = std::min(n - 1, sx_param("alo", 0)), hi = std::min(n - 1, sx_param("ahi", n)); uint64_t a = sx_range("a", lo, hi), p = sx_range("p", std::min(n - 1, sx_param("plo", 0)), std::min(n - 1, sx_param("phi", n))); sx_assume(r.bit(a) == v);
    if (pred) { sx_assume(a <= p && none_in(r, a + 1, p + 1, v)); uint64_t g = v ? bv.predecessor1(p) : bv.predecessor0(p); sx_assert(g == a, "predecessor"); }
    else { sx_assume(p <= a && none_in(r, p, a, v)); uint64_t g = v ? bv.successor1(p) : bv.successor0(p); sx_assert(g == a, "successor"); }
    sx_reach("near");
}
// ---- C05
SX_ENTRY(en_seq) {
    Ref r; uint64_t n = sx_param("n", 200); all_sym(r, n); bit_vector_builder b; to_builder(r, b); bit_vector bv(&b); uint64_t p = sx_concretize(sx_range("start", sx_param("slo", 0), std::min(n - 1, sx_param("shi", 63)))); bit_vector::enumerator e(bv, p); sx_assert(e.position() == p, "initial position");
    uint64_t D = sx_param("depth", 3); for (uint64_t d = 0; d < D; ++d) { uint64_t f = d == 0 ? sx_param("op0", 9) : d == 1 ? sx_param("op1", 9) : 9; uint64_t o = f != 9 ? f : sx_concretize(sx_range("op", 0, 2));
        if (o == 0) { sx_assume(p < n); sx_assert(e.next() == r.bit(p), "next"); p += 1; }
        else if (o == 1) { uint64_t l = sx_range("l", 0, 64); sx_assume(p + l <= n); if (d < sx_param("conc", 1)) l = sx_concretize(l); sx_assert(e.take(l) == r.get(p, l), "take"); p += l; }
        else { uint64_t z = sx_range("z", 0, n - 1); sx_assume(p + z < n); if (d < sx_param("conc", 1)) z = sx_concretize(z); sx_assume(r.bit(p + z) && none_in(r, p, p + z, true)); sx_assert(e.skip_zeros() == z, "skip_zeros"); p += z + 1; }
        sx_assert(e.position() == p, "position"); }
    sx_reach("seq");
}
// ---- C06: every valid call is described by its answer: the word (concrete per path) and bit of the one it must reach
static Pos pick(const char* nw, const char* nb, uint64_t n, uint64_t c0) { Pos p; p.c = sx_concretize(sx_range(nw, std::max(c0, std::min((n - 1) / 64, sx_param(nw, 0))), std::min((n - 1) / 64, std::max(c0, sx_param("whi", n))))); uint64_t top = n - 64 * p.c; p.b = sx_range(nb, 0, top > 64 ? 63 : top - 1); return p; }
static bool leq(Pos x, Pos y) { return x.c < y.c || (x.c == y.c && x.b <= y.b); }
// ones (zeros) in [from, a)
static uint64_t count(Ref const& r, Pos from, Pos a, bool v) { uint64_t k = 0; for (uint64_t j = from.c; j <= a.c; ++j) { uint64_t w = v ? r.w[j] : ~r.w[j]; if (j == from.c) w &= ~uint64_t(0) << from.b; if (j == a.c) w &= (uint64_t(1) << a.b) - 1; k += spec_pop(w); } return k; }
static bool nothing(Ref const& r, Pos from, Pos a, bool v) { uint64_t k = 0; for (uint64_t j = from.c; j <= a.c; ++j) { uint64_t w = v ? r.w[j] : ~r.w[j]; if (j == from.c) w &= ~uint64_t(0) << from.b; if (j == a.c) w &= (uint64_t(1) << a.b) - 1; k |= w; } return k == 0; }
SX_ENTRY(un_seq) { // ops: 0 next, 1 skip(k), 2 skip_no_move(k); 'from': the ones at or after it are still to come
    Ref r; uint64_t n = sx_param("n", 200); all_sym(r, n); bit_vector_builder b; to_builder(r, b); bit_vector bv(&b); Pos from = pick("sw", "sb", n, 0); bit_vector::unary_enumerator e(bv, at(from)); sx_assert(e.position() == at(from), "initial position");
    uint64_t D = sx_param("depth", 2); for (uint64_t d = 0; d < D; ++d) { uint64_t f = d == 0 ? sx_param("op0", 9) : d == 1 ? sx_param("op1", 9) : 9; uint64_t o = f != 9 ? f : sx_concretize(sx_range("op", 0, 2));
        Pos a = pick("aw", "ab", n, from.c); sx_assume(leq(from, a)); sx_assume(rbit(r, a));
        if (o == 0) { sx_assume(nothing(r, from, a, true)); sx_assert(e.next() == at(a), "next"); sx_assert(e.position() == at(a), "position"); from = a; uint64_t nx = at(a) + 1; from.c = sx_concretize(nx / 64); from.b = nx % 64; if (from.c * 64 >= n) { sx_reach("end"); return; } }
        else { uint64_t k = count(r, from, a, true); if (o == 1) { e.skip(k); from = a; } else { sx_assert(e.skip_no_move(k) == at(a), "skip_no_move"); } } }
    Pos z = pick("zw", "zb", n, from.c); sx_assume(leq(from, z)); sx_assume(rbit(r, z) && nothing(r, from, z, true)); sx_assert(e.next() == at(z), "next after the sequence"); sx_reach("unary");
}
SX_ENTRY(un_skip0) { // fresh enumerator, k-th zero at or after the position
    Ref r; uint64_t n = sx_param("n", 200); all_sym(r, n); for (size_t j = 0; j < r.w.size(); ++j) { r.w[j] = ~r.w[j]; if (64 * (j + 1) > n) r.w[j] &= spec_lowmask(n - 64 * j); } bit_vector_builder b; to_builder(r, b); bit_vector bv(&b); Pos s = pick("sw", "sb", n, 0); bit_vector::unary_enumerator e(bv, at(s));
    Pos a = pick("aw", "ab", n, s.c); sx_assume(leq(s, a)); sx_assume(!rbit(r, a)); e.skip0(count(r, s, a, false)); sx_assert(e.position() == at(a), "position");
    Pos z = pick("zw", "zb", n, a.c); sx_assume(leq(a, z)); sx_assume(rbit(r, z) && nothing(r, a, z, true)); sx_assert(e.next() == at(z), "next after skip0"); sx_reach("skip0");
}
