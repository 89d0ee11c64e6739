// C21: operation sequences over mappable vectors.
#include <cassert>
#include "mappable_vector.hpp"
#include "mapper.hpp"
#include "sx.h"
using namespace succinct;
template <class T> static void fill(std::vector<T>& v, uint64_t mx) { uint64_t n = sx_concretize(sx_range("len", 0, mx)); for (uint64_t i = 0; i < n; ++i) v.push_back((T)sx_u64("x")); }
template <class T> static void check(mapper::mappable_vector<T> const& v, std::vector<T> const& m) {
    sx_assert(v.size() == m.size(), "size"); sx_assert((uint64_t)(v.end() - v.begin()) == m.size(), "begin/end"); for (size_t i = 0; i < m.size(); ++i) { sx_assert(v[i] == m[i], "operator[]"); sx_assert(v.begin()[i] == m[i], "iteration"); sx_assert(v.data()[i] == m[i], "data()"); }
}
template <class T> static void seq() {
    typedef mapper::mappable_vector<T> V; uint64_t live = sx_live_heap(), mx = sx_param("max", 2), D = sx_param("depth", 3);
    { std::vector<T> init; fill(init, mx); V a, b(init); std::vector<T> ma, mb(init); 
      for (uint64_t d = 0; d < D; ++d) {
        uint64_t f = d == 0 ? sx_param("op0", 99) : d == 1 ? sx_param("op1", 99) : 99, o = f != 99 ? f : sx_concretize(sx_range("op", 0, 8)); bool which = sx_concretize(sx_range("which", 0, 1)); V& v = which ? b : a; std::vector<T>& m = which ? mb : ma;
        switch (o) {
        case 0: { std::vector<T> x; fill(x, mx); v.assign(x); m = x; break; }
        case 1: { std::vector<T> x; fill(x, mx); std::vector<T> keep(x); v.steal(x); m = keep; sx_assert(x.empty(), "stolen-from vector is empty"); x.push_back(1); x.push_back(2); break; }
        case 2: a.swap(b); ma.swap(mb); break;
        case 3: v.swap(v); break;
        case 4: v.clear(); m.clear(); break;
        case 5: { std::vector<T> x; fill(x, mx); V t(x); v.swap(t); std::swap(m, x); check(t, x); break; }       // the old value dies in t
        case 6: { V t; t.swap(v); check(t, m); m.clear(); break; }
        case 7: { std::vector<T> x; x.reserve(9); fill(x, mx); std::vector<T> keep(x); v.steal(x); m = keep; break; } // spare capacity
        case 8: { T x[3]; for (int i = 0; i < 3; ++i) x[i] = (T)sx_u64("x"); v.assign(boost::make_iterator_range(x + 1, x + 3)); m.assign(x + 1, x + 3); break; }
        }
        if (sx_param("each", 0)) { check(a, ma); check(b, mb); }
      }
      check(a, ma); check(b, mb); }
    sx_assert(sx_live_heap() == live, "every buffer released once"); sx_reach("sequence");
}
SX_ENTRY(mv_8) { seq<uint8_t>(); }
SX_ENTRY(mv_16) { seq<uint16_t>(); }
SX_ENTRY(mv_64) { seq<uint64_t>(); }
SX_ENTRY(mv_i) { seq<int64_t>(); }
// the live-heap balance of every operation: a value replaced is released at once, not at the end
SX_ENTRY(mv_live) {
    typedef mapper::mappable_vector<uint64_t> V; std::vector<uint64_t> x; fill(x, sx_param("max", 3)); V v(x); uint64_t o = sx_concretize(sx_range("op", 0, 3)); uint64_t one = 0; { uint64_t l0 = sx_live_heap(); V t(x); one = sx_live_heap() - l0; } (void)one;
    uint64_t l1; { V e; l1 = sx_live_heap(); } uint64_t base = l1 - one; 
    if (o == 0) { v.clear(); sx_assert(sx_live_heap() == base, "clear releases"); sx_assert(v.size() == 0, "clear: size"); }
    if (o == 1) { v.assign(x); sx_assert(sx_live_heap() == base + one, "assign releases the old value"); }
    if (o == 2) { V t; t.swap(v); t.clear(); sx_assert(sx_live_heap() == base, "swap moves ownership"); }
    if (o == 3) { v.clear(); v.clear(); v.assign(x); sx_assert(sx_live_heap() == base + one, "clear twice, then assign"); }
    sx_reach("live");
}
// vectors mapped to one image: whatever is done to one of them, the image and the others keep their value
SX_ENTRY(mv_mapped) {
    typedef mapper::mappable_vector<uint32_t> V; uint64_t mx = sx_param("max", 3); std::vector<uint32_t> m, x; fill(m, mx); V src(m); sx_image_begin(); mapper::freeze(src, sx_image_path().c_str()); size_t n = sx_image_size(); char* img = (char*)malloc(n + 1); { const char* d = sx_image_data(); memcpy(img, d, n); } char* copy = (char*)malloc(n + 1); memcpy(copy, img, n);
    uint64_t live = sx_live_heap();
    { V a, b; mapper::map(a, img); mapper::map(b, img); check(a, m); uint64_t D = sx_param("depth", 2); std::vector<uint32_t> ma(m);
      for (uint64_t d = 0; d < D; ++d) { uint64_t o = sx_concretize(sx_range("op", 0, 6));
        if (o == 0) { std::vector<uint32_t> y; fill(y, mx); a.assign(y); ma = y; }
        if (o == 1) { std::vector<uint32_t> y; fill(y, mx); std::vector<uint32_t> keep(y); a.steal(y); ma = keep; sx_assert(y.empty(), "stolen-from vector is empty"); }
        if (o == 2) { a.clear(); ma.clear(); }
        if (o == 3) { std::vector<uint32_t> y; fill(y, mx); V t(y); a.swap(t); check(t, ma); ma = y; }
        if (o == 4) { V t; mapper::map(t, img); a.swap(t); ma = m; }
        if (o == 5) { mapper::map(a, img); ma = m; }
        if (o == 6) { V t; t.swap(a); mapper::map(a, img); ma = m; } }
      check(a, ma); check(b, m); sx_assert(memcmp(img, copy, n) == 0, "the image is unchanged"); }
    sx_assert(sx_live_heap() >= live, "the image is still there"); sx_assert(memcmp(img, copy, n) == 0, "the image is unchanged"); free(copy); free(img); x.clear(); sx_reach("mapped");
}
