// C07 rank, C08 select on rs_bit_vector.
#include <cassert>
#include "rs_bit_vector.hpp"
#include "bits.h"
using namespace succinct;
static void build(Ref const& r, rs_bit_vector& out) {
    bit_vector_builder b; for (size_t j = 0; j < r.w.size(); ++j) b.append_bits(r.w[j], std::min<uint64_t>(64, r.n - 64 * j));
    uint64_t h = sx_param("hints", 0); rs_bit_vector t(&b, h & 1, h & 2); out.swap(t);
}
SX_ENTRY(rs_rank) {
    Ref r; uint64_t n = sx_param("n", 200); make_inst(r, n); rs_bit_vector v; build(r, v); sx_assert(v.size() == n, "size"); sx_assert(v.num_ones() == r.ones(), "num_ones"); sx_assert(v.num_zeros() == n - r.ones(), "num_zeros"); sx_assert(v.rank(n) == r.ones(), "rank(size)"); sx_assert(v.rank0(n) == n - r.ones(), "rank0(size)");
    if (!n) return; Pos p = pick_pos(n); uint64_t e = rrank(r, p); sx_assert(v.rank(at(p)) == e, "rank"); sx_assert(v.rank0(at(p)) == at(p) - e, "rank0"); sx_reach("rank");
}
SX_ENTRY(rs_select) { Ref r; uint64_t n = sx_param("n", 200); make_inst(r, n); rs_bit_vector v; build(r, v); Pos p = pick_pos(n); sx_assume(rbit(r, p)); sx_assert(v.select(rrank(r, p)) == at(p), "select"); sx_reach("select"); }
SX_ENTRY(rs_select0) { Ref r; uint64_t n = sx_param("n", 200); make_inst(r, n); rs_bit_vector v; build(r, v); Pos p = pick_pos(n); sx_assume(!rbit(r, p)); sx_assert(v.select0(rrank0(r, p)) == at(p), "select0"); sx_reach("select0"); }
SX_ENTRY(rs_free) { // the query argument itself symbolic, no per-word split
    Ref r; uint64_t n = sx_param("n", 130); make_inst(r, n); rs_bit_vector v; build(r, v); uint64_t p = sx_range("p", 0, n); sx_assert(v.rank(p) == r.rank(p), "rank");
}
