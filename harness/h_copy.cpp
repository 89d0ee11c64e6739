// C32: enumerators are values. A copy, or an enumerator assigned over another one, goes on where the original stood, whatever happens to the others.
#include <cassert>
#include "bit_vector.hpp"
#include "elias_fano.hpp"
#include "elias_fano_compressed_list.hpp"
#include "elias_fano_list.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "forward_enumerator.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "mappable_vector.hpp"
#include "util.hpp"
#include "sx.h"
using namespace succinct;
// K::E enumerator type; K::at(start) a new one; K::step(e) one step, appended to o; K::steps(start) how many steps there are
// k2: the same over another structure, of another shape; K::now(e): what e shows without a step
template <class K> static void copies(K& k, K& k2) {
    typedef typename K::E E; uint64_t n = k.size(), a = sx_concretize(sx_range("start", 0, n ? n - 1 : 0)), b = sx_concretize(sx_range("other", 0, n ? n - 1 : 0)); std::vector<uint64_t> x; uint64_t N = k.steps(a);
    { E r(k.at(a)); for (uint64_t i = 0; i < N; ++i) x.push_back(k.step(r, i)); }
    uint64_t s = sx_concretize(sx_range("steps", 0, N)); E e(k.at(a)); for (uint64_t i = 0; i < s; ++i) sx_assert(k.step(e, i) == x[i], "the original");
    bool far = sx_concretize(sx_range("far", 0, 1)); K& kd = far ? k2 : k; if (far) b = 0; E d(kd.at(b)); if (kd.steps(b)) kd.step(d, 0); uint64_t now = s ? k.now(e) : 0; E c(e); d = e; if (s) sx_assert(k.now(c) == now && k.now(d) == now && k.now(e) == now, "copies show what the original shows"); E* p[3] = {&e, &c, &d}; uint64_t at[3] = {s, s, s};
    { E* h = new E(c); if (s < N) { sx_assert(k.step(*h, s) == x[s], "a copy of the copy"); if (s) sx_assert(k.now(e) == now, "a step of the copy leaves the original"); } delete h; }
    for (uint64_t q = 0; q < sx_param("depth", 3); ++q) { uint64_t w = sx_concretize(sx_range("which", 0, 2)); if (at[w] >= N) continue; sx_assert(k.step(*p[w], at[w]) == x[at[w]], "copied and assigned enumerators go on by themselves"); ++at[w]; }
    for (int w = 0; w < 3; ++w) if (at[w] < N) sx_assert(k.step(*p[w], at[w]) == x[at[w]], "each stands where it was left");
    E* u = p[sx_concretize(sx_range("self", 0, 2))]; *u = *u; sx_reach("copies");
}
static std::vector<uint64_t> words(uint64_t n) { std::vector<uint64_t> w; for (uint64_t j = 0; 64 * j < n; ++j) { uint64_t m = j == sx_param("w0", 0) ? sx_param("m0", 0xff) : j == sx_param("w1", 1) ? sx_param("m1", 0xff) : 0, base = sx_param("pat", 0) == 1 ? 0 : sx_mix(j + 3); w.push_back((base & ~m) | (sx_u64("w") & m)); if (n - 64 * j < 64) w.back() &= (uint64_t(1) << (n - 64 * j)) - 1; } return w; }
static void fill(bit_vector_builder& b, std::vector<uint64_t> const& w, uint64_t n) { for (size_t j = 0; j < w.size(); ++j) b.append_bits(w[j], std::min<uint64_t>(64, n - 64 * j)); }
struct bits_kit { // fields of 1 to 23 bits, then single bits
    typedef bit_vector::enumerator E; bit_vector const& v; bits_kit(bit_vector const& b) : v(b) {} uint64_t size() { return v.size() / 23; } E at(uint64_t i) { return E(v, 23 * i); } uint64_t steps(uint64_t i) { return std::min<uint64_t>(4, v.size() / 23 - i); } uint64_t step(E& e, uint64_t i) { uint64_t r = 0; if (i % 3 == 1) { for (int t = 0; t < 23; ++t) r |= uint64_t(e.next()) << t; } else r = e.take(23); return r * 1000 + e.position(); } uint64_t now(E& e) { return e.position(); } };
struct unary_kit { typedef bit_vector::unary_enumerator E; bit_vector const& v; uint64_t m; unary_kit(bit_vector const& b, uint64_t k) : v(b), m(k) {} uint64_t size() { return 1; } E at(uint64_t) { return E(v, sx_param("from", 0)); } uint64_t steps(uint64_t) { return m; } uint64_t step(E& e, uint64_t i) { if (i == 1) { uint64_t p = e.skip_no_move(0), q = e.next(); sx_assert(p == q, "skip_no_move, then next"); return q; } if (i == 2) { e.skip(0); return e.next() + 1000 * e.position(); } return e.next(); } uint64_t now(E& e) { return e.position(); } };
struct sel_kit { typedef elias_fano::select_enumerator E; elias_fano const& f; sel_kit(elias_fano const& x) : f(x) {} uint64_t size() { return f.num_ones(); } E at(uint64_t i) { return E(f, i); } uint64_t steps(uint64_t i) { return f.num_ones() - i; } uint64_t step(E& e, uint64_t) { return e.next(); } uint64_t now(E&) { return 0; } };
template <class L> struct fwd_kit { typedef forward_enumerator<L> E; L const& l; fwd_kit(L const& x) : l(x) {} uint64_t size() { return l.size(); } E at(uint64_t i) { return E(l, i); } uint64_t steps(uint64_t i) { return l.size() - i; } uint64_t step(E& e, uint64_t) { return e.next(); } uint64_t now(E&) { return 0; } };
template <class T> struct top_kit { typedef typename T::enumerator E; T const& t; top_kit(T const& x) : t(x) {} uint64_t size() { return t.size(); } E at(uint64_t i) { return t.get_topk_enumerator(i, t.size() - 1); } uint64_t steps(uint64_t i) { return t.size() - i; } uint64_t step(E& e, uint64_t) { bool h = e.next(); sx_assert(h, "next"); return now(e); } uint64_t now(E& e) { return boost::get<0>(e.value()) * 1000 + boost::get<1>(e.value()); } };
struct buf_kit { typedef util::buffer_line_iterator E; std::string const& s; uint64_t n; buf_kit(std::string const& x, uint64_t k) : s(x), n(k) {} uint64_t size() { return 1; } E at(uint64_t) { return E(s.data(), s.size()); } uint64_t steps(uint64_t) { return n; } uint64_t step(E& e, uint64_t) { std::string const& l = *e; uint64_t r = l.size() * 1000 + (l.size() ? (unsigned char)l[0] : 0); ++e; return r; } uint64_t now(E&) { return 0; } };
SX_ENTRY(cp_bits) { uint64_t n = sx_param("n", 150); std::vector<uint64_t> w = words(n); bit_vector_builder b; fill(b, w, n); bit_vector v(&b); bit_vector_builder b2; for (int i = 0; i < 200; ++i) b2.push_back(i % 3 == 1); bit_vector v2(&b2); bits_kit k(v), k2(v2); copies(k, k2); }
SX_ENTRY(cp_unary) { uint64_t n = sx_param("n", 150); std::vector<uint64_t> w = words(n); uint64_t c = 0; for (size_t j = 0; j < w.size(); ++j) c += spec_pop(w[j]); c = sx_concretize(c); bit_vector_builder b; fill(b, w, n); bit_vector v(&b); bit_vector_builder b2; for (int i = 0; i < 400; ++i) b2.push_back(i % 3 == 1); bit_vector v2(&b2); unary_kit k(v, std::min<uint64_t>(c, sx_param("most", 4))), k2(v2, 3); copies(k, k2); }
SX_ENTRY(cp_sel) { uint64_t m = sx_param("m", 3), n = sx_param("n", 300); elias_fano::elias_fano_builder b(n, m); uint64_t l = 0; for (uint64_t i = 0; i < m; ++i) { uint64_t x = sx_range("x", 0, n); sx_assume(x >= l); b.push_back(x); l = x; } elias_fano f(&b, false); elias_fano::elias_fano_builder b2(100000, 5); for (int i = 0; i < 5; ++i) b2.push_back(i * 19001); elias_fano f2(&b2, false); sel_kit k(f), k2(f2); copies(k, k2); }
template <class L> static void list(uint64_t bias) { uint64_t m = sx_param("m", 3); std::vector<uint64_t> v; for (uint64_t i = 0; i < m; ++i) { uint64_t l = sx_concretize(sx_range("l", sx_param("llo", 1), sx_param("lhi", 3))); v.push_back(((uint64_t(1) << l) | (sx_u64("x") & ((uint64_t(1) << l) - 1))) - bias); } std::vector<uint64_t> v2; for (uint64_t i = 0; i < 6; ++i) v2.push_back(i * i * 37 % 50); L s(v), s2(v2); fwd_kit<L> k(s), k2(s2); copies(k, k2); }
SX_ENTRY(cp_gv) { list<gamma_vector>(1); }
SX_ENTRY(cp_gb) { list<gamma_bit_vector>(2); }
SX_ENTRY(cp_efc) { list<elias_fano_compressed_list>(1); }
SX_ENTRY(cp_efl) { list<elias_fano_list>(1); }
template <class T> static void top() { uint64_t m = sx_param("m", 3); std::vector<uint64_t> v; for (uint64_t i = 0; i < m; ++i) v.push_back(sx_range("x", 0, sx_param("vhi", 255))); std::vector<uint64_t> v2; for (uint64_t i = 0; i < 6; ++i) v2.push_back(i * i * 37 % 50); T t(v), t2(v2); top_kit<T> k(t), k2(t2); copies(k, k2); }
SX_ENTRY(cp_tkv) { top<topk_vector<mapper::mappable_vector<uint64_t> > >(); }
SX_ENTRY(cp_tke) { top<topk_vector<elias_fano_compressed_list> >(); }
SX_ENTRY(cp_buf) { uint64_t n = sx_param("n", 4); std::string s; uint64_t c = 0; for (uint64_t i = 0; i < n; ++i) { uint64_t x = sx_range("c", 1, 255); s += (char)x; } bool open = false; for (uint64_t i = 0; i < n; ++i) { if (s[i] == '\n') { ++c; open = false; } else open = true; } if (open) ++c; std::string s2("one\ntwo\nthree\n"); buf_kit k(s, c), k2(s2, 3); copies(k, k2); }
// a reference handed out stands until its own iterator moves
SX_ENTRY(cp_held) { uint64_t n = sx_param("n", 4); std::string s("l\n"); for (uint64_t i = 0; i < n; ++i) { uint64_t x = sx_range("c", 1, 255); s += (char)x; } typedef util::buffer_line_iterator I; I end; I a(s.data(), s.size()), b(a); std::string const& la = *a; std::string ca(la); sx_assert(*b == ca, "the copy shows the line"); ++b; sx_assert(la == ca && *a == ca, "moving the copy leaves the line"); if (b != end) { std::string const& lb = *b; std::string cb(lb); sx_assert(&la != &lb || la == lb, "two lines at a time"); sx_assert(*a == ca && lb == cb, "reading one leaves the other"); a = b; sx_assert(*a == cb, "assigned"); ++b; sx_assert(*a == cb, "the assigned one stays"); I o = a++; sx_assert(*o == cb, "the old value of ++"); sx_assert((a == end) == (b == end) && (a == end || *a == *b), "at the same place"); } sx_reach("held"); }
SX_ENTRY(cp_topheld) { uint64_t m = sx_param("m", 3); std::vector<uint64_t> v; for (uint64_t i = 0; i < m; ++i) v.push_back(sx_range("x", 0, sx_param("vhi", 255))); typedef topk_vector<mapper::mappable_vector<uint64_t> > T; T t(v); T::enumerator a = t.get_topk_enumerator(0, m - 1); a.next(); T::entry_type const& r = a.value(); T::entry_type x = r; T::enumerator b(a); sx_assert(b.value() == x, "the copy shows the entry"); while (b.next()) { b.value(); sx_assert(r == x && a.value() == x, "the entry stays while another enumerator moves"); } T::enumerator c = t.get_topk_enumerator(m - 1, m - 1); c.next(); sx_assert(r == x, "another enumerator"); c = a; sx_assert(c.value() == x, "assigned"); sx_reach("held"); }
