// C18 gamma-coded vectors, C19 forward enumerators.
#include <cassert>
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "mappable_vector.hpp"
#include "bits.h"
using namespace succinct;
// m values; symbolic ones (style 99: all, else at s0..s2) have a code length in [llo, lhi] fixed per path and symbolic low bits; `bias` is 1 for the plain code, 2 for the bit variant
static std::vector<uint64_t> make_vals(uint64_t bias) {
    uint64_t m = sx_param("m", 2), llo = sx_param("llo", 0), lhi = sx_param("lhi", 63), style = sx_param("style", 99); std::vector<uint64_t> v; static const char* sn[] = {"s0", "s1", "s2"};
    if (bias == 2) llo = std::max<uint64_t>(llo, 1);
    for (uint64_t i = 0; i < m; ++i) {
        bool sy = style == 99; for (int j = 0; j < 3; ++j) if (sx_param(sn[j], ~uint64_t(0)) == i) sy = true;
        if (!sy) { v.push_back(style == 0 ? sx_mix(i) >> (30 + i % 34) : style == 1 ? 0 : style == 2 ? ~uint64_t(0) - 2 - i : i); continue; }
        uint64_t l = sx_concretize(sx_range("l", llo, lhi)), x = sx_u64("x") & ((uint64_t(1) << l) - 1); v.push_back(((uint64_t(1) << l) | x) - bias);
    }
    return v;
}
template <class G> static void index(uint64_t bias) {
    std::vector<uint64_t> v = make_vals(bias); uint64_t m = v.size(); G t(v), g; g.swap(t); sx_assert(g.size() == m, "size");
    if (m) { uint64_t lo = std::min(m - 1, sx_param("klo", 0)), hi = std::min(m - 1, sx_param("khi", ~uint64_t(0))), k = sx_range("k", lo, hi), w = v[lo]; for (uint64_t i = lo + 1; i <= hi; ++i) w = sx_ite(k == i, v[i], w); sx_assert(g[k] == w, "operator[]"); }
    sx_reach("index");
}
SX_ENTRY(ga_vec) { index<gamma_vector>(1); }
SX_ENTRY(ga_bit) { index<gamma_bit_vector>(2); }
template <class G> static void forward(uint64_t bias, std::vector<uint64_t> const& v) {
    uint64_t m = v.size(); G g(v); uint64_t lo = std::min(m, sx_param("klo", 0)), hi = std::min(m, sx_param("khi", ~uint64_t(0))), k = sx_concretize(sx_range("k", lo, hi)), take = sx_param("take", ~uint64_t(0)); (void)bias;
    forward_enumerator<G> e(g, k); for (uint64_t i = k; i < m && i - k < take; ++i) sx_assert(e.next() == v[i], "next"); sx_reach("forward");
}
SX_ENTRY(fw_vec) { forward<gamma_vector>(1, make_vals(1)); }
SX_ENTRY(fw_bit) { forward<gamma_bit_vector>(2, make_vals(2)); }
SX_ENTRY(fw_efc) { forward<elias_fano_compressed_list>(1, make_vals(1)); }
SX_ENTRY(fw_map) { forward<mapper::mappable_vector<uint64_t> >(1, make_vals(1)); }
SX_ENTRY(fw_skip) { // reads and skips interleaved
    std::vector<uint64_t> v = make_vals(2); uint64_t m = v.size(); gamma_bit_vector g(v); uint64_t lo = std::min(m, sx_param("klo", 0)), hi = std::min(m, sx_param("khi", ~uint64_t(0))), i = sx_concretize(sx_range("k", lo, hi)), smax = sx_param("smax", 3), steps = sx_param("steps", 3); forward_enumerator<gamma_bit_vector> e(g, i);
    for (uint64_t s = 0; s < steps && i < m; ++s) { uint64_t k = sx_concretize(sx_range("skip", 0, std::min(smax, m - i))); e.skip(k); i += k; if (i < m) { sx_assert(e.next() == v[i], "next after skip"); ++i; } } sx_reach("skip");
}
