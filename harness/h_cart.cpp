// C11 Cartesian-tree range minimum, C12 top-k.
#include <cassert>
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "elias_fano_compressed_list.hpp"
#include "mappable_vector.hpp"
#include "bits.h"
using namespace succinct;
static uint64_t skel_val(uint64_t style, uint64_t i, uint64_t n) {
    switch (style) {
    case 0: return i;                                   // increasing
    case 1: return n - i;                               // decreasing
    case 2: return sx_mix(i) >> 44;                     // scattered
    case 3: return 7;                                   // all equal
    case 4: return (i / 16) % 2 ? 40 - i % 16 : i % 16; // sawtooth with ties
    case 5: return sx_mix(i) % 4;                       // many ties
    case 6: return i < n / 2 ? n - i : i;               // valley
    default: return i < n / 2 ? i : n - i; }            // ridge
}
struct Arr { std::vector<uint64_t> v; std::vector<char> sym; };
// n values: style 99 all symbolic, otherwise a skeleton with symbolic values (in [vlo, vhi]) at positions s0..s3
static void make_arr(Arr& A, uint64_t n) {
    uint64_t style = sx_param("style", 99), lo = sx_param("vlo", 0), hi = sx_param("vhi", ~uint64_t(0)); A.v.assign(n, 0); A.sym.assign(n, style == 99);
    for (uint64_t i = 0; i < n; ++i) A.v[i] = style == 99 ? sx_range("v", lo, hi) : skel_val(style, i, n);
    static const char* sn[] = {"s0", "s1", "s2", "s3"};
    for (int k = 0; k < 4; ++k) { uint64_t j = sx_param(sn[k], ~uint64_t(0)); if (j < n) { A.v[j] = sx_range("v", lo, hi); A.sym[j] = 1; } }
}
// r in [a, b] holds the first best value under comp, for a, b symbolic: checked in chunks of 32 positions
template <class C> static void best(Arr const& A, uint64_t a, uint64_t b, uint64_t r, C comp, const char* l1, const char* l2) {
    uint64_t n = A.v.size(), rc = sx_concretize(r), vr = A.v[rc]; uint64_t ac = sx_concretize(a / 32), bc = sx_concretize(b / 32);
    for (uint64_t c = ac; c <= bc; ++c) {
        bool edge = c == ac || c == bc; 
        for (uint64_t j = 32 * c; j < std::min(n, 32 * c + 32); ++j) {
            bool in = edge ? (sx_ite(j >= a, 1, 0) & sx_ite(j <= b, 1, 0)) : true;
            bool worse = j < rc ? comp(vr, A.v[j]) : !comp(A.v[j], vr);
            if (edge) sx_assert(sx_ite(in, worse, 1), j < rc ? l2 : l1); else if (!(A.sym[j] | A.sym[rc])) { if (!worse) sx_assert(false, j < rc ? l2 : l1); } else sx_assert(worse, j < rc ? l2 : l1);
        }
    }
}
template <class C> static void cart(C comp) {
    Arr A; uint64_t n = sx_param("n", 4); make_arr(A, n); cartesian_tree t;
    if (sx_param("via", 0)) { cartesian_tree::builder<uint64_t> b(sx_param("via", 0) == 2 ? n : 0); for (uint64_t i = 0; i < n; ++i) b.push_back(A.v[i], comp); cartesian_tree x(&b); t.swap(x); }
    else { cartesian_tree x(A.v, comp); t.swap(x); }
    sx_assert(t.size() == n, "size");
    uint64_t last = n - 1; uint64_t a = sx_range("a", std::min(last, sx_param("alo", 0)), std::min(last, sx_param("ahi", last))), b = sx_range("b", std::min(last, sx_param("blo", 0)), std::min(last, sx_param("bhi", last))); if (sx_param("conc", 0)) a = sx_concretize(a); sx_assume(a <= b);
    uint64_t r = t.rmq(a, b); sx_assert(r >= a && r <= b, "rmq: inside the range"); best(A, a, b, r, comp, "rmq: minimum", "rmq: leftmost"); sx_reach("rmq");
}
SX_ENTRY(ct_less) { cart(std::less<uint64_t>()); }
SX_ENTRY(ct_greater) { cart(std::greater<uint64_t>()); }
SX_ENTRY(ct_default) {
    Arr A; uint64_t n = sx_param("n", 4); make_arr(A, n); cartesian_tree t(A.v); sx_assert(t.size() == n, "size"); uint64_t a = sx_range("a", 0, n - 1), b = sx_range("b", 0, n - 1); sx_assume(a <= b);
    uint64_t r = t.rmq(a, b); sx_assert(r >= a && r <= b, "rmq: inside the range"); best(A, a, b, r, std::less<uint64_t>(), "rmq: minimum", "rmq: leftmost"); sx_reach("rmq");
}
template <class T> static void topk() {
    Arr A; uint64_t n = sx_param("n", 3); make_arr(A, n); T t(A.v); sx_assert(t.size() == n, "size"); { uint64_t i = sx_range("i", std::min(n - 1, sx_param("ilo", 0)), std::min(n - 1, sx_param("ihi", n - 1))); i = sx_concretize(i); sx_assert(t[i] == A.v[i], "operator[]"); }
    uint64_t last = n - 1, a = sx_concretize(sx_range("a", std::min(last, sx_param("alo", 0)), std::min(last, sx_param("ahi", last)))), b = sx_concretize(sx_range("b", std::max(a, std::min(last, sx_param("blo", 0))), std::max(a, std::min(last, sx_param("bhi", last))))), k = sx_concretize(sx_range("k", sx_param("klo", 0), std::min(sx_param("khi", n + 1), n + 1)));
    typename T::entry_vector_type r = t.topk(a, b, k); uint64_t m = std::min<uint64_t>(k, b - a + 1); sx_assert(r.size() == m, "number of entries");
    std::vector<char> seen(n, 0); uint64_t pv = 0, pi = 0;
    for (uint64_t j = 0; j < r.size(); ++j) {
        uint64_t val = boost::get<0>(r[j]), i = boost::get<1>(r[j]); sx_assert(i >= a && i <= b, "index in range"); i = sx_concretize(i); sx_assert(!seen[i], "no entry twice"); seen[i] = 1; sx_assert(val == A.v[i], "value of the entry");
        if (j) { uint64_t gt = sx_ite(val < pv, 1, 0), eq = sx_ite(val == pv, 1, 0) & sx_ite(i > pi, 1, 0); sx_assert((gt | eq) != 0, "descending values, ties by index"); } pv = val; pi = i;
    }
    if (m) for (uint64_t j = a; j <= b; ++j) if (!seen[j]) { uint64_t lt = sx_ite(A.v[j] < pv, 1, 0), eq = sx_ite(A.v[j] == pv, 1, 0) & sx_ite(j > pi, 1, 0); sx_assert((lt | eq) != 0, "nothing better is left out"); }
    if (sx_param("enum", 1)) { // the enumerator yields the same entries, then stops
        typename T::enumerator e; t.get_topk_enumerator(a, b, e); for (uint64_t j = 0; j < m; ++j) { bool h = e.next(); sx_assert(h, "enumerator: next"); sx_assert(boost::get<0>(e.value()) == boost::get<0>(r[j]) && boost::get<1>(e.value()) == boost::get<1>(r[j]), "enumerator: entry"); }
        if (m == b - a + 1) sx_assert(!e.next(), "enumerator: end");
    }
    sx_reach("topk");
}
SX_ENTRY(tk_vec) { topk<topk_vector<mapper::mappable_vector<uint64_t> > >(); }
SX_ENTRY(tk_ef) { topk<topk_vector<elias_fano_compressed_list> >(); }
// an enumerator object re-used for another range, swapped and cleared
template <class T> static void reuse() {
    Arr A; uint64_t n = sx_param("n", 3); make_arr(A, n); T t(A.v); uint64_t r[6]; for (int i = 0; i < 6; i += 2) { r[i] = sx_concretize(sx_range("a", 0, n - 1)); r[i + 1] = sx_concretize(sx_range("b", r[i], n - 1)); } uint64_t steps = sx_concretize(sx_range("steps", 0, n + 1));
    typename T::enumerator e, f; t.get_topk_enumerator(r[0], r[1], e); for (uint64_t j = 0; j < steps; ++j) e.next(); t.get_topk_enumerator(r[4], r[5], f); typename T::entry_vector_type x = t.topk(r[2], r[3], n), y = t.topk(r[4], r[5], n);
    t.get_topk_enumerator(r[2], r[3], e); 
    bool first = !y.empty() && f.next(); typename T::enumerator g; g.swap(f); f.swap(e); // f: the re-used one, g: the other one after one step
    if (first) sx_assert(boost::get<0>(g.value()) == boost::get<0>(y[0]) && boost::get<1>(g.value()) == boost::get<1>(y[0]), "swapped enumerator: current entry");
    for (size_t j = 0; j < x.size(); ++j) { bool h = f.next(); sx_assert(h, "re-used enumerator: next"); sx_assert(boost::get<0>(f.value()) == boost::get<0>(x[j]) && boost::get<1>(f.value()) == boost::get<1>(x[j]), "re-used enumerator: entry"); } sx_assert(!f.next(), "re-used enumerator: end");
    for (size_t j = 1; j < y.size(); ++j) { bool h = g.next(); sx_assert(h, "swapped enumerator: next"); sx_assert(boost::get<0>(g.value()) == boost::get<0>(y[j]) && boost::get<1>(g.value()) == boost::get<1>(y[j]), "swapped enumerator: entry"); } sx_assert(!g.next(), "swapped enumerator: end");
    g.clear(); sx_assert(!g.next(), "cleared enumerator: end"); sx_reach("reuse");
}
SX_ENTRY(tk_reuse) { reuse<topk_vector<mapper::mappable_vector<uint64_t> > >(); }

// two enumerators, each after any number of steps (also past the end), exchange their whole state
template <class T> static void eswap() {
    Arr A; uint64_t n = sx_param("n", 3); make_arr(A, n); T t(A.v); typename T::enumerator e[2]; typename T::entry_vector_type x[2]; uint64_t st[2];
    for (int i = 0; i < 2; ++i) { uint64_t a = sx_concretize(sx_range("a", 0, n - 1)), b = sx_concretize(sx_range("b", a, n - 1)); x[i] = t.topk(a, b, n); t.get_topk_enumerator(a, b, e[i]); st[i] = sx_concretize(sx_range("steps", 0, n + 1)); for (uint64_t j = 0; j < st[i]; ++j) { bool h = e[i].next(); sx_assert(h == (j < x[i].size()), "next"); } }
    if (sx_concretize(sx_range("dir", 0, 1))) e[0].swap(e[1]); else e[1].swap(e[0]);
    for (int i = 0; i < 2; ++i) { typename T::enumerator& g = e[1 - i]; uint64_t d = st[i] < x[i].size() ? st[i] : x[i].size(); if (d) sx_assert(boost::get<0>(g.value()) == boost::get<0>(x[i][d - 1]) && boost::get<1>(g.value()) == boost::get<1>(x[i][d - 1]), "swapped enumerator: current entry");
        for (uint64_t j = d; j < x[i].size(); ++j) { bool h = g.next(); sx_assert(h, "swapped enumerator: next"); sx_assert(boost::get<0>(g.value()) == boost::get<0>(x[i][j]) && boost::get<1>(g.value()) == boost::get<1>(x[i][j]), "swapped enumerator: entry"); } sx_assert(!g.next(), "swapped enumerator: end"); }
    sx_reach("eswap");
}
SX_ENTRY(tk_eswap) { eswap<topk_vector<mapper::mappable_vector<uint64_t> > >(); }
