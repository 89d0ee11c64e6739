// C31: the same values in a range of another type give the same structure.
#include <list>
#include <deque>
#include <cassert>
#include <boost/range.hpp>
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "mappable_vector.hpp"
#include "nibble_vector.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "bp_vector.hpp"
#include "sx.h"
using namespace succinct;
// m values of an unsigned type of `bits` bits; each is 2^l + x - 1 with l fixed per path (so every value of the type is reached), x symbolic
static std::vector<uint64_t> values(unsigned bits) {
    uint64_t m = sx_param("m", 2), llo = sx_param("llo", 0), lhi = std::min<uint64_t>(bits, sx_param("lhi", bits)); std::vector<uint64_t> v; if (llo > lhi) llo = lhi;
    for (uint64_t i = 0; i < m; ++i) { uint64_t l = sx_concretize(sx_range("l", llo, lhi)); if (l == bits) v.push_back(bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1); else { uint64_t x = sx_u64("x") & ((uint64_t(1) << l) - 1); v.push_back(((uint64_t(1) << l) | x) - 1); } }
    return v;
}
template <class S> static void list_is(S const& s, std::vector<uint64_t> const& v) { sx_assert(s.size() == v.size(), "size"); for (size_t i = 0; i < v.size(); ++i) sx_assert(s[i] == v[i], "element"); }
template <class S, class R> static void from(R const& r, std::vector<uint64_t> const& v) { S t(r), s; s.swap(t); list_is(s, v); }
// bits: the width of the range's elements; top: the largest values of 64-bit ranges the code cannot hold
template <class S> static void lists(uint64_t top) {
    uint64_t kind = sx_param("kind", 0); static const unsigned bits[] = {8, 16, 32, 64, 32, 16, 64, 32}; std::vector<uint64_t> v = values(bits[kind]); if (bits[kind] == 64) for (size_t i = 0; i < v.size(); ++i) sx_assume(v[i] <= ~uint64_t(0) - top);
    if (kind == 0) { std::vector<uint8_t> r(v.begin(), v.end()); from<S>(r, v); }
    else if (kind == 1) { std::vector<uint16_t> r(v.begin(), v.end()); from<S>(r, v); }
    else if (kind == 2) { std::vector<uint32_t> r(v.begin(), v.end()); from<S>(r, v); }
    else if (kind == 3) { std::vector<unsigned long long> r(v.begin(), v.end()); from<S>(r, v); }
    else if (kind == 4) { std::deque<uint32_t> r(v.begin(), v.end()); from<S>(r, v); }
    else if (kind == 5) { uint16_t* p = new uint16_t[v.size() + 1]; for (size_t i = 0; i < v.size(); ++i) p[i] = (uint16_t)v[i]; from<S>(boost::make_iterator_range((const uint16_t*)p, (const uint16_t*)p + v.size()), v); delete[] p; }
    else if (kind == 6) { mapper::mappable_vector<uint64_t> r(v); from<S>(boost::make_iterator_range(r.begin(), r.end()), v); }
    else { std::vector<uint32_t> r; for (size_t i = v.size(); i--;) r.push_back((uint32_t)v[i]); from<S>(boost::make_iterator_range(r.rbegin(), r.rend()), v); }
    sx_reach("list");
}
template <class S> static void node_list(uint64_t top) { std::vector<uint64_t> v = values(32); (void)top; std::list<uint32_t> r(v.begin(), v.end()); from<S>(r, v); sx_reach("list"); }
SX_ENTRY(rg_gv) { lists<gamma_vector>(1); }
SX_ENTRY(rg_gb) { lists<gamma_bit_vector>(2); }
SX_ENTRY(rg_efc) { lists<elias_fano_compressed_list>(1); }
SX_ENTRY(rg_mv) { lists<mapper::mappable_vector<uint64_t> >(0); }
SX_ENTRY(rg_gv_node) { node_list<gamma_vector>(1); }
SX_ENTRY(rg_gb_node) { node_list<gamma_bit_vector>(2); }
SX_ENTRY(rg_efc_node) { node_list<elias_fano_compressed_list>(1); }
// prefix sums: the last value is fixed by the total
template <class R> static void sums(unsigned bits) {
    uint64_t m = sx_param("m", 2), S = sx_param("S", 600), mx = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1, t = 0; std::vector<uint64_t> v; bool ok = true;
    for (uint64_t i = 0; i < m; ++i) { uint64_t x = i + 1 == m ? S - t : sx_range("x", 0, std::min(mx, S)); ok &= x <= S - t && x <= mx; if (i + 1 < m) t += x; v.push_back(x); } sx_assume(ok);
    R r(v.begin(), v.end()); elias_fano_list a(r), s; s.swap(a); list_is(s, v); sx_assert(s.sum() == S, "sum"); sx_reach("sums");
}
SX_ENTRY(rg_efl8) { sums<std::vector<uint8_t> >(8); }
SX_ENTRY(rg_efl16) { sums<std::vector<uint16_t> >(16); }
SX_ENTRY(rg_efl32) { sums<std::vector<uint32_t> >(32); }
SX_ENTRY(rg_efl_node) { sums<std::list<uint32_t> >(32); }
template <class R> static void nibbles() { uint64_t m = sx_param("m", 5); std::vector<uint64_t> v; for (uint64_t i = 0; i < m; ++i) v.push_back(sx_range("x", 0, 15)); R r(v.begin(), v.end()); nibble_vector a(r), s; s.swap(a); sx_assert(s.size() == m, "size"); for (uint64_t i = 0; i < m; ++i) sx_assert(s[i] == v[i], "element"); sx_reach("nib"); }
SX_ENTRY(rg_nib8) { nibbles<std::vector<uint8_t> >(); }
SX_ENTRY(rg_nib64) { nibbles<std::vector<uint64_t> >(); }
SX_ENTRY(rg_nib_node) { nibbles<std::list<uint32_t> >(); }
// range minima and top-k on ranges of narrow, signed and non-integral element types
template <class T, class R, class C> static void minima(C comp, uint64_t lo, uint64_t hi) {
    uint64_t n = sx_param("n", 3); std::vector<T> v; for (uint64_t i = 0; i < n; ++i) v.push_back((T)sx_range("v", lo, hi)); R r(v.begin(), v.end()); cartesian_tree t(r, comp); sx_assert(t.size() == n, "size");
    uint64_t a = sx_concretize(sx_range("a", 0, n - 1)), b = sx_concretize(sx_range("b", a, n - 1)), m = sx_concretize(t.rmq(a, b)); sx_assert(m >= a && m <= b, "rmq: inside the range");
    for (uint64_t j = a; j <= b; ++j) { bool bad = j < m ? !comp(v[m], v[j]) : comp(v[j], v[m]); sx_assert(!bad, j < m ? "rmq: leftmost" : "rmq: minimum"); } sx_reach("minima");
}
struct low_bits { template <class T> bool operator()(T a, T b) const { return (a & 3) < (b & 3); } }; // many equivalent, unequal values
struct by_weight { int64_t* w; bool operator()(uint32_t a, uint32_t b) const { return w[a] > w[b]; } }; // a comparator with state
static const uint64_t FULL = ~uint64_t(0);
SX_ENTRY(rg_ct8) { minima<uint8_t, std::vector<uint8_t> >(std::less<uint8_t>(), 0, 255); }
SX_ENTRY(rg_ct_i8) { minima<int8_t, std::deque<int8_t> >(std::greater<int8_t>(), 0, 255); }
SX_ENTRY(rg_ct_i64) { minima<int64_t, std::vector<int64_t> >(std::less<int64_t>(), 0, FULL); }
SX_ENTRY(rg_ct32) { minima<uint32_t, std::list<uint32_t> >(std::less<uint32_t>(), 0, 0xffffffffu); }
SX_ENTRY(rg_ct_low) { minima<uint64_t, std::vector<uint64_t> >(low_bits(), 0, FULL); }
SX_ENTRY(rg_ct_state) { // indices ordered by a table of signed weights
    uint64_t n = sx_param("n", 3); std::vector<int64_t> w; std::vector<uint32_t> v; for (uint64_t i = 0; i < n; ++i) { w.push_back((int64_t)sx_u64("w")); v.push_back((uint32_t)(n - 1 - i)); } by_weight c; c.w = &w[0]; cartesian_tree t(v, c);
    uint64_t a = sx_concretize(sx_range("a", 0, n - 1)), b = sx_concretize(sx_range("b", a, n - 1)), m = sx_concretize(t.rmq(a, b)); sx_assert(m >= a && m <= b, "rmq: inside the range"); for (uint64_t j = a; j <= b; ++j) { bool bad = j < m ? !c(v[m], v[j]) : c(v[j], v[m]); sx_assert(!bad, "rmq: leftmost minimum"); } sx_reach("minima");
}
template <class V, class R> static void best(uint64_t lo, uint64_t hi) {
    typedef topk_vector<V> T; typedef typename V::value_type E; typedef typename R::value_type X; uint64_t n = sx_param("n", 3); std::vector<X> v; for (uint64_t i = 0; i < n; ++i) v.push_back((X)sx_range("v", lo, hi)); R r(v.begin(), v.end()); T x(r), t; t.swap(x); sx_assert(t.size() == n, "size"); for (uint64_t i = 0; i < n; ++i) sx_assert(t[i] == (E)v[i], "operator[]");
    uint64_t a = sx_concretize(sx_range("a", 0, n - 1)), b = sx_concretize(sx_range("b", a, n - 1)); typename T::entry_vector_type o = t.topk(a, b, n); sx_assert(o.size() == b - a + 1, "number of entries"); std::vector<char> seen(n, 0); E pv = E(); uint64_t pi = 0;
    for (size_t j = 0; j < o.size(); ++j) { uint64_t i = sx_concretize(boost::get<1>(o[j])); E val = boost::get<0>(o[j]); sx_assert(i >= a && i <= b && !seen[i], "index"); seen[i] = 1; sx_assert(val == (E)v[i], "value"); if (j) sx_assert(val < pv || (val == pv && i > pi), "order"); pv = val; pi = i; } sx_reach("best");
}
SX_ENTRY(rg_tk8) { best<mapper::mappable_vector<uint8_t>, std::vector<uint8_t> >(0, 255); }
SX_ENTRY(rg_tk_i32) { best<mapper::mappable_vector<int32_t>, std::vector<int32_t> >(0, 0xffffffffu); }
SX_ENTRY(rg_tk_wide) { best<mapper::mappable_vector<uint64_t>, std::deque<uint32_t> >(0, 0xffffffffu); }
SX_ENTRY(rg_tk_efc) { best<elias_fano_compressed_list, std::vector<uint32_t> >(sx_param("lo", 0), sx_param("hi", 3)); }
// bit strings from ranges, with every setting of the select hints
template <class R, class B> static void rsbits(unsigned how) {
    uint64_t n = sx_param("n", 10), ones = 0; std::vector<B> e; std::vector<uint64_t> P(1, 0), b; for (uint64_t i = 0; i < n; ++i) { uint64_t x = sx_param("full", 1) || i + 6 >= n ? sx_range("b", 0, how) : sx_mix(i) % 3 == 0; e.push_back((B)x); b.push_back(sx_ite(x != 0, 1, 0)); ones += b[i]; P.push_back(ones); }
    R r(e.begin(), e.end()); uint64_t h = sx_concretize(sx_range("h", 0, 3)); rs_bit_vector x(r, h & 1, h >> 1), v; v.swap(x); sx_assert(v.size() == n && v.num_ones() == ones && v.num_zeros() == n - ones, "counts"); uint64_t i = sx_concretize(sx_range("i", 0, n - 1)); sx_assert(v[i] == (b[i] != 0), "operator[]"); sx_assert(v.rank(i) == P[i] && v.rank0(i) == i - P[i], "rank");
    if (b[i]) sx_assert(v.select(P[i]) == i, "select"); else sx_assert(v.select0(i - P[i]) == i, "select0"); sx_reach("rs");
}
SX_ENTRY(rg_rs_bool) { rsbits<std::vector<bool>, bool>(1); }
SX_ENTRY(rg_rs_char) { rsbits<std::deque<char>, char>(1); }
SX_ENTRY(rg_rs_node) { rsbits<std::list<bool>, bool>(1); }
SX_ENTRY(rg_bp) {
    uint64_t n = sx_param("n", 8); std::vector<bool> e; int64_t ex = 0; bool ok = true; std::vector<uint64_t> b; std::vector<int64_t> lev(1, 0); for (uint64_t i = 0; i < n; ++i) { uint64_t x = sx_range("b", 0, 1); e.push_back(x != 0); b.push_back(x); ex += (int64_t)(2 * x) - 1; ok &= ex >= 0; lev.push_back(ex); } sx_assume(ok && ex == 0);
    uint64_t h = sx_concretize(sx_range("h", 0, 3)); bp_vector x(e, h & 1, h >> 1), v; v.swap(x); sx_assert(v.size() == n, "size"); uint64_t i = sx_concretize(sx_range("i", 0, n - 1)); sx_assume(b[i] == 1); uint64_t j = i + 1; while (lev[j + 1] != lev[i]) ++j; sx_assert(v.find_close(i) == j, "find_close"); sx_assert(v.find_open(j) == i, "find_open"); sx_assert(v.excess(i) == lev[i], "excess"); sx_reach("bp");
}
