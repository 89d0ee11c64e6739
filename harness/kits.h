// One kit per mappable structure: build it from symbolic contents, ask it queries at symbolic arguments.
// probe() appends answers; the arguments are drawn once per object, so the same questions can be asked before and after a swap / a mapping.
#pragma once
#include <cassert>
#include "mapper.hpp"
#include "bit_vector.hpp"
#include "rs_bit_vector.hpp"
#include "bp_vector.hpp"
#include "darray.hpp"
#include "darray64.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "nibble_vector.hpp"
#include "mappable_vector.hpp"
#include "forward_enumerator.hpp"
#include "util.hpp"
#include "bits.h"
using namespace succinct;
#include <new>
// a structure is built elsewhere and swapped in, or built in place (where swap itself is under test)
static bool in_place;
#define PUT(...) do { if (in_place) { s.~type(); new (&s) type(__VA_ARGS__); } else { type t_(__VA_ARGS__); t_.swap(s); } } while (0)
typedef std::vector<uint64_t> Ans;
struct Args { uint64_t n, ones, p, q, k, k0, l; std::vector<uint64_t> w; }; // valid positions / indices of one object, and its bits where that helps
// how deep the questions go: 0 the basic ones, 1 everything
static uint64_t deep() { return sx_param("deep", 0); }
static void put_bits(bit_vector_builder& b, uint64_t n, std::vector<uint64_t>& w) { // parameter full: every bit symbolic, else the last and first bytes of every word
    uint64_t full = sx_param("full", 1); for (uint64_t j = 0; 64 * j < n; ++j) { uint64_t l = std::min<uint64_t>(64, n - 64 * j), x = sx_u64("w"); if (!full) x = (skel_word(2, j) & 0x00fffffffffff000ULL) | (x & 0xff00000000000fffULL); x &= spec_lowmask(l); w.push_back(x); b.append_bits(x, l); }
}
// cons-style composite: two fields and a plain one
struct bit_kit {
    typedef bit_vector type;
    static void make(type& s, uint64_t n, Args& a) { bit_vector_builder b; a.n = n; put_bits(b, n, a.w); PUT(&b); a.p = n ? sx_range("p", 0, n - 1) : 0; a.l = n ? sx_range("l", 0, 64) : 0; if (n) { sx_assume(a.p + a.l <= n); a.l = sx_concretize(a.l / 64) * 64 + a.l % 64; } a.q = n ? sx_range("q", 0, n - 1) : 0; }
    static void probe(type const& s, Args const& a, Ans& o) {
        o.push_back(s.size()); if (!a.n) return; o.push_back(s[a.p]); o.push_back(s.get_bits(a.p, a.l)); o.push_back(s.get_word(a.p)); if (!deep()) return;
        uint64_t what = sx_param("what", 0);
        if (what == 0) { bit_vector::enumerator e(s, sx_concretize(a.p)); uint64_t i = sx_concretize(a.p); while (i < a.n) { uint64_t l = std::min<uint64_t>(a.n - i, 29); o.push_back(e.take(l)); i += l; } }
        if (what == 1) { uint64_t m = 0; for (size_t j = 0; j < a.w.size(); ++j) m |= a.w[j] & wmask(0, a.q + 1, j); sx_assume(m != 0); o.push_back(s.predecessor1(a.q)); }
        if (what == 2) { uint64_t m = 0; for (size_t j = 0; j < a.w.size(); ++j) m |= a.w[j] & wmask(a.q, a.n, j); sx_assume(m != 0); o.push_back(s.successor1(a.q)); }
        if (what == 3) { uint64_t m = 0; for (size_t j = 0; j < a.w.size(); ++j) m |= ~a.w[j] & wmask(0, a.q + 1, j); sx_assume(m != 0); o.push_back(s.predecessor0(a.q)); }
        if (what == 4) { uint64_t m = 0; for (size_t j = 0; j < a.w.size(); ++j) m |= ~a.w[j] & wmask(a.q, a.n, j); sx_assume(m != 0); o.push_back(s.successor0(a.q)); }
        if (what == 5) { uint64_t m = 0; for (size_t j = 0; j < a.w.size(); ++j) m += spec_pop(a.w[j] & wmask(a.q, a.n, j)); sx_assume(m > 0); bit_vector::unary_enumerator e(s, a.q); o.push_back(e.next()); sx_assume(m > 1); o.push_back(e.next()); }
        if (what == 6) { uint64_t m = 0; for (size_t j = 0; j < a.w.size(); ++j) m += spec_pop(a.w[j] & wmask(a.q, a.n, j)); uint64_t k = sx_range("sk", 0, 63); sx_assume(m > k); bit_vector::unary_enumerator e(s, a.q); e.skip(k); o.push_back(e.next()); }
        if (what == 7) { uint64_t m = 0; for (size_t j = 0; j < a.w.size(); ++j) m += spec_pop(~a.w[j] & wmask(a.q, a.n, j)); uint64_t k = sx_range("sk", 0, 63); sx_assume(m > k); bit_vector::unary_enumerator e(s, a.q); e.skip0(k); o.push_back(e.position()); }
        if (what == 8) { o.push_back(s.get_bits(a.n, 0)); o.push_back(s.get_bits(a.n - 1, 1)); uint64_t l = std::min<uint64_t>(64, a.n); o.push_back(s.get_bits(a.n - l, l)); }
    }
};
template <class RS> static void rs_args(RS const& s, uint64_t n, Args& a) { a.n = n; a.p = n ? sx_range("p", 0, n - 1) : 0; a.q = n ? sx_range("q", 0, n) : 0; a.ones = 0; for (size_t j = 0; j < a.w.size(); ++j) a.ones += spec_pop(a.w[j]); a.k = a.k0 = ~uint64_t(0); if (sx_concretize(a.ones > 0)) { a.k = sx_range("k", 0, n - 1); sx_assume(a.k < a.ones); } if (sx_concretize(a.ones < n)) { a.k0 = sx_range("k0", 0, n - 1); sx_assume(a.k0 < n - a.ones); } (void)s; }
static void rs_probe(rs_bit_vector const& s, Args const& a, Ans& o) {
    o.push_back(s.size()); o.push_back(s.num_ones()); o.push_back(s.num_zeros()); if (!a.n) return; uint64_t what = sx_param("what", 0);
    if (what == 0) { o.push_back(s[a.p]); o.push_back(s.rank(a.p)); o.push_back(s.rank(a.q)); o.push_back(s.rank0(a.q)); o.push_back(s.rank(a.n)); }
    if (what == 1 && a.k != ~uint64_t(0)) o.push_back(s.select(a.k)); if (what == 2 && a.k0 != ~uint64_t(0)) o.push_back(s.select0(a.k0));
}
struct rs_kit {
    typedef rs_bit_vector type;
    static void make(type& s, uint64_t n, Args& a) { bit_vector_builder b; put_bits(b, n, a.w); uint64_t h = sx_param("hints", 3); PUT(&b, h & 1, h & 2); rs_args(s, n, a); }
    static void probe(type const& s, Args const& a, Ans& o) { rs_probe(s, a, o); }
};
struct rs_kit2 : rs_kit { static void make(type& s, uint64_t n, Args& a) { bit_vector_builder b; put_bits(b, n, a.w); uint64_t h = sx_param("hints2", 0); PUT(&b, h & 1, h & 2); rs_args(s, n, a); } };
struct bp_kit {
    typedef bp_vector type;
    static void make(type& s, uint64_t n, Args& a) {
        n &= ~uint64_t(1); bit_vector_builder b; uint64_t full = sx_param("full", 1); std::vector<uint64_t> w; uint64_t W = (n + 63) / 64;
        if (full) for (uint64_t j = 0; j < W; ++j) w.push_back(sx_u64("w") & spec_lowmask(std::min<uint64_t>(64, n - 64 * j)));
        else { w.assign(W, 0); int64_t e = 0; for (uint64_t i = 0; i < n; ++i) { bool c = e == 0 ? true : e >= (int64_t)(n - i) ? false : sx_mix(i / 2) >> 63; w[i / 64] |= uint64_t(c) << (i % 64); e += c ? 1 : -1; } w[W - 1] ^= sx_u64("w") & 0x3c & spec_lowmask(n - 64 * (W - 1)); }
        int64_t e = 0; bool ok = true; for (uint64_t j = 0; j < W; ++j) { if (!full && j + 1 < W) { e += 2 * (int64_t)spec_pop(w[j]) - 64; } else for (uint64_t i = 0; i < std::min<uint64_t>(64, n - 64 * j); ++i) { e += (int64_t)((w[j] >> i) & 1) * 2 - 1; ok &= e >= 0; } b.append_bits(w[j], std::min<uint64_t>(64, n - 64 * j)); }
        sx_assume(ok); sx_assume(e == 0); a.w = w; uint64_t h = sx_param("hints", 0); PUT(&b, h & 1, h & 2); rs_args(s, n, a); if (n && !full) { uint64_t sp = sx_param("span", 63); a.p = n - 1 - sx_range("dp", 0, std::min<uint64_t>(n - 1, sp)); a.q = n - sx_range("dq", 0, std::min<uint64_t>(n, sp)); } 
    }
    static void probe(type const& s, Args const& a, Ans& o) {
        rs_probe(s, a, o); if (!a.n) return; uint64_t what = sx_param("what", 0);
        if (what == 3) { if (s[a.p]) { uint64_t c = s.find_close(a.p); o.push_back(c); o.push_back(s.excess(a.p)); if (s.excess(a.p) > 0) o.push_back(s.enclose(a.p)); } else o.push_back(s.find_open(a.p)); }
        if (what == 4) { uint64_t lo = sx_ite(a.p < a.q, a.p, a.q), hi = sx_ite(a.p < a.q, a.q, a.p); bp_vector::excess_t m; o.push_back(s.excess_rmq(lo, hi, m)); o.push_back(m); }
    }
};
// darray: the index and the bits it was built from, with a plain field between them
template <class D> struct with_bits { bit_vector bv; uint32_t tag; D d; with_bits() : tag(0) {} void swap(with_bits& o) { bv.swap(o.bv); std::swap(tag, o.tag); d.swap(o.d); } template <class V> void map(V& v) { v(bv, "bv")(tag, "tag")(d, "d"); } };
template <class D, bool Zero> struct da_kit {
    typedef with_bits<D> type;
    static void make(type& s, uint64_t n, Args& a) { bit_vector_builder b; a.n = n; uint64_t W = (n + 63) / 64; for (uint64_t j = 0; j < W; ++j) { uint64_t l = std::min<uint64_t>(64, n - 64 * j), base = sx_param("sparse", 0) ? (j % 20 == 0) : sx_param("pat", 0) ? ~uint64_t(0) : 0, x = (j == 0 || j + 1 == W) ? sx_u64("w") & 0xf & spec_lowmask(l) : 0; sx_concretize(spec_pop(x)); x = ((base & ~uint64_t(0xf)) | x) & spec_lowmask(l); a.w.push_back(x); b.append_bits(Zero ? ~x & spec_lowmask(l) : x, l); }
        if (in_place) { s.bv.~bit_vector(); new (&s.bv) bit_vector(&b); s.d.~D(); new (&s.d) D(s.bv); } else { bit_vector t(&b); t.swap(s.bv); D d(s.bv); d.swap(s.d); } s.tag = 77; a.ones = 0; for (size_t j = 0; j < a.w.size(); ++j) a.ones += spec_pop(a.w[j]); a.ones = sx_concretize(a.ones); a.k = a.ones ? sx_range("k", sx_param("klast", 0) && a.ones > 40 ? a.ones - 40 : 0, a.ones - 1) : 0; }
    static void probe(type const& s, Args const& a, Ans& o) { o.push_back(s.bv.size()); o.push_back(s.tag); o.push_back(s.d.num_positions()); if (a.ones) o.push_back(s.d.select(s.bv, a.k)); }
};
struct d64_kit {
    typedef darray64 type;
    static void make(type& s, uint64_t n, Args& a) { darray64::builder b; uint64_t bs = sx_param("base", 0); for (uint64_t i = 0; i < n; ++i) { bool sy = i + 1 == n || n <= 3; b.append1(sy ? sx_range("skip", 0, 64) : bs); } PUT(&b); a.n = n; a.k = n ? sx_range("k", n > 40 ? n - 40 : 0, n - 1) : 0; }
    static void probe(type const& s, Args const& a, Ans& o) { o.push_back(s.num_ones()); o.push_back(s.bits().size()); if (a.n) o.push_back(s.select(a.k)); }
};
struct ef_kit {
    typedef elias_fano type;
    static void make(type& s, uint64_t n, Args& a) { // n values below universe U
        uint64_t U = sx_param("U", 100), st = n > 8 ? U / n : 0, last = 0; bool ok = true; elias_fano::elias_fano_builder b(U, n); for (uint64_t i = 0; i < n; ++i) { uint64_t x = !st || i + 1 == n ? sx_range("x", st ? i * st : 0, U - 1) : i * st; ok &= i == 0 || x >= last; last = x; a.w.push_back(x); } sx_assume(ok); for (uint64_t i = 0; i < n; ++i) b.push_back(a.w[i]);
        PUT(&b, sx_param("rank", 1)); a.n = n; a.k = n ? sx_range("k", n > 16 ? n - 16 : 0, n - 1) : 0; a.p = sx_range("p", U > 100 && st ? U - 50 : 0, U - 1); a.l = last; }
    static void probe(type const& s, Args const& a, Ans& o) {
        o.push_back(s.num_ones()); o.push_back(s.size()); uint64_t what = sx_param("what", 0); if (!a.n) return;
        if (what == 0) { o.push_back(s.select(a.k)); o.push_back(s.delta(a.k)); if (a.n > 1) { uint64_t k = sx_ite(a.k == a.n - 1, a.n - 2, a.k); o.push_back(s.select_range(k).first); o.push_back(s.select_range(k).second); } }
        if (what == 1) { o.push_back(s.rank(a.p)); o.push_back(s.rank(s.size())); o.push_back(s[a.p]); o.push_back(s[s.size() - 1]); }
        if (what == 2) { sx_assume(a.p <= a.l); o.push_back(s.successor1(a.p)); } if (what == 3) { sx_assume(a.p >= a.w[0]); o.push_back(s.predecessor1(a.p)); o.push_back(s.predecessor1(s.size() - 1)); }
        if (what == 4) { uint64_t k = sx_concretize(a.k); elias_fano::select_enumerator e(s, k); for (; k < a.n; ++k) o.push_back(e.next()); }
    }
};
template <class L> struct list_probe { static void args(L const&, uint64_t n, Args& a) { a.n = n; a.k = n ? sx_range("k", n > 16 ? n - 16 : 0, n - 1) : 0; }
    static void probe(L const& s, Args const& a, Ans& o) { o.push_back(s.size()); if (!a.n) return; uint64_t what = sx_param("what", 0); if (what == 0) o.push_back(s[a.k]); else if (what == 2) { forward_enumerator<L> e(s, a.n); (void)e; } else { uint64_t k = sx_concretize(a.k); forward_enumerator<L> e(s, k); for (; k < a.n; ++k) o.push_back(e.next()); } } };
template <class L, uint64_t Bias> struct code_kit { // gamma vectors, compressed list: code lengths fixed per path
    typedef L type;
    static void make(type& s, uint64_t n, Args& a) { std::vector<uint64_t> v; for (uint64_t i = 0; i < n; ++i) { if (n > 3 && i + 1 < n) { v.push_back(sx_param("cval", 5)); continue; } uint64_t l = sx_concretize(sx_range("len", std::max<uint64_t>(sx_param("llo", 0), Bias == 2), sx_param("lhi", 4))); v.push_back(((uint64_t(1) << l) | (sx_u64("x") & ((uint64_t(1) << l) - 1))) - Bias); } PUT(v); list_probe<L>::args(s, n, a); }
    static void probe(type const& s, Args const& a, Ans& o) { list_probe<L>::probe(s, a, o); }
};
struct efl_kit {
    typedef elias_fano_list type;
    static void make(type& s, uint64_t n, Args& a) { std::vector<uint64_t> v; uint64_t S = sx_param("S", 40), t = 0; bool ok = true; for (uint64_t i = 0; i < n; ++i) { uint64_t x = i + 1 == n ? S - t : n > 6 && i + 3 < n ? 1 : sx_range("x", 0, S); ok &= i + 1 == n || x <= S - t; t += x; v.push_back(x); } sx_assume(ok); PUT(v); a.l = n ? S : 0; list_probe<type>::args(s, n, a); }
    static void probe(type const& s, Args const& a, Ans& o) { list_probe<type>::probe(s, a, o); o.push_back(s.sum()); }
};
template <class T> struct vec_kit {
    typedef mapper::mappable_vector<T> type;
    static void make(type& s, uint64_t n, Args& a) { std::vector<T> v; for (uint64_t i = 0; i < n; ++i) v.push_back((T)sx_u64("x")); PUT(v); list_probe<type>::args(s, n, a); }
    static void probe(type const& s, Args const& a, Ans& o) { o.push_back(s.size()); o.push_back(s.end() - s.begin()); if (a.n) { o.push_back(s[a.k]); o.push_back(s.begin()[a.k]); o.push_back(s.data()[a.k]); } }
};
struct nib_kit {
    typedef nibble_vector type;
    static void make(type& s, uint64_t n, Args& a) { std::vector<uint8_t> v; for (uint64_t i = 0; i < n; ++i) v.push_back((uint8_t)sx_range("x", 0, 15)); PUT(v); a.n = n; a.k = n ? sx_range("k", 0, n - 1) : 0; }
    static void probe(type const& s, Args const& a, Ans& o) { o.push_back(s.size()); if (a.n) o.push_back(s[a.k]); }
};
static std::vector<uint64_t> vals(uint64_t n) { std::vector<uint64_t> v; for (uint64_t i = 0; i < n; ++i) v.push_back(n > 4 && i + 2 < n ? sx_mix(i) >> 50 : sx_range("x", 0, sx_param("vmax", 1000))); return v; }
struct ct_kit {
    typedef cartesian_tree type;
    static void make(type& s, uint64_t n, Args& a) { std::vector<uint64_t> v = vals(n); PUT(v); a.n = n; a.p = sx_range("p", 0, n - 1); a.q = sx_range("q", 0, n - 1); sx_assume(a.p <= a.q); }
    static void probe(type const& s, Args const& a, Ans& o) { o.push_back(s.size()); o.push_back(s.rmq(a.p, a.q)); }
};
template <class V> struct tk_kit {
    typedef topk_vector<V> type;
    static void make(type& s, uint64_t n, Args& a) { std::vector<uint64_t> v = vals(n); PUT(v); a.n = n; a.k = sx_range("k", 0, n - 1); a.p = sx_concretize(sx_range("p", 0, n - 1)); a.q = sx_concretize(sx_range("q", a.p, n - 1)); }
    static void probe(type const& s, Args const& a, Ans& o) { o.push_back(s.size()); o.push_back(s[a.k]); typename type::entry_vector_type r = s.topk(a.p, a.q, 2); for (size_t i = 0; i < r.size(); ++i) { o.push_back(boost::get<0>(r[i])); o.push_back(boost::get<1>(r[i])); } }
};
static inline void same(Ans const& x, Ans const& y, const char* label) { sx_assert(x.size() == y.size(), label); for (size_t i = 0; i < x.size(); ++i) sx_assert(x[i] == y[i], label); }
// the frozen form of a structure, computed without mapper.hpp: what each field contributes
struct count_visitor {
    uint64_t total, kids, depth; std::vector<uint64_t> sizes, depths; std::vector<std::string> names; // preorder lists of the nodes of the size report
    count_visitor() : total(0), kids(0), depth(0) {}
    size_t node(const char* name) { sizes.push_back(0); depths.push_back(depth); names.push_back(name); return sizes.size() - 1; }
    template <class T> typename boost::enable_if<boost::is_pod<T>, count_visitor&>::type operator()(T&, const char*) { total += sizeof(T); return *this; }
    template <class T> count_visitor& operator()(mapper::mappable_vector<T>& v, const char* name) { uint64_t b = 8 + v.size() * sizeof(T); sizes[node(name)] = b; total += b; return *this; }
    template <class T> typename boost::disable_if<boost::is_pod<T>, count_visitor&>::type operator()(T& v, const char* name) { size_t at = node(name); uint64_t before = total; ++depth; v.map(*this); --depth; sizes[at] = total - before; return *this; }
};
