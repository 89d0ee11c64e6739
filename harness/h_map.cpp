// C20 freeze/map, C26 swap/dispose, C27 exact-fit images, C28 size reports.
#include "kits.h"
// the frozen bytes in a heap block of exactly their size
static char* exact_image(size_t& n) { n = sx_image_size(); const char* d = sx_image_data(); char* p = (char*)malloc(n ? n : 1); memcpy(p, d, n); return p; }
template <class S> static uint64_t freeze_it(S& s) {
    sx_image_begin(); uint64_t how = sx_param("how", 0), flags = sx_param("fflags", 0);
    if (how == 0) return mapper::freeze(s, sx_image_path().c_str(), flags);
    std::ofstream f(sx_image_path().c_str(), std::ios::binary); uint64_t w = mapper::freeze(s, f, flags); f.close(); return w;
}
static std::vector<char> bytes() { size_t n = sx_image_size(); const char* d = sx_image_data(); std::vector<char> v(n); if (n) memcpy(&v[0], d, n); return v; }
static void same_bytes(std::vector<char> const& x, std::vector<char> const& y, const char* l) { sx_assert(x.size() == y.size(), l); size_t n = x.size(), i = 0; for (; i + 8 <= n; i += 8) { uint64_t a, b; memcpy(&a, &x[i], 8); memcpy(&b, &y[i], 8); sx_assert(a == b, l); } for (; i < n; ++i) sx_assert(x[i] == y[i], l); }
template <class S> static std::vector<char> frozen(S& s) { freeze_it(s); return bytes(); }
template <class K> static void roundtrip() {
    typename K::type s; Args a; K::make(s, sx_param("n", 3), a); Ans before; K::probe(s, a, before); uint64_t w = freeze_it(s); size_t n; char* img = exact_image(n);
    sx_assert(w == n, "freeze reports the bytes it wrote"); sx_assert(mapper::size_of(s) + 8 == n, "size_of + 8 is the number of bytes"); count_visitor c; c(s, ""); sx_assert(c.total + 8 == n, "number of bytes written");
    uint64_t live = sx_live_heap();
    { typename K::type t; uint64_t r = mapper::map(t, img, sx_param("warm", 0) ? (uint64_t)mapper::map_flags::warmup : 0); sx_assert(r == n, "map reports the bytes it read"); Ans after; K::probe(t, a, after); same(before, after, "the mapped object answers like the original"); 
      sx_assert(mapper::size_of(t) + 8 == n, "size_of of the mapped object"); Ans again; K::probe(s, a, again); same(before, again, "the original is unchanged by freezing"); }
    sx_assert(sx_live_heap() == live, "mapping owns nothing"); free(img); sx_reach("map");
}
// mapping a mapped file
template <class K> static void mapfile() {
    typename K::type s; Args a; K::make(s, sx_param("n", 3), a); Ans before; K::probe(s, a, before); uint64_t w = freeze_it(s); boost::iostreams::mapped_file_source m(sx_image_path()); sx_assert(m.size() == w, "bytes in the file");
    { typename K::type t; uint64_t r = mapper::map(t, m, sx_param("warm", 0) ? (uint64_t)mapper::map_flags::warmup : 0); sx_assert(r == w, "map reports the bytes it read"); Ans after; K::probe(t, a, after); same(before, after, "the mapped object answers like the original"); } sx_reach("mapfile");
}
// several structures written one after another to one stream, mapped at the reported offsets
template <class K, class K2> static void packed() {
    typename K::type s; typename K2::type t; Args a, b; K::make(s, sx_param("n", 3), a); K2::make(t, sx_param("n2", 2), b); Ans x, y; K::probe(s, a, x); K2::probe(t, b, y); uint64_t w[3];
    { sx_image_begin(); std::ofstream f(sx_image_path().c_str(), std::ios::binary); w[0] = mapper::freeze(s, f); w[1] = mapper::freeze(t, f, 5); w[2] = mapper::freeze(s, f, 0, "again"); f.close(); }
    size_t n; char* img = exact_image(n); sx_assert(w[0] + w[1] + w[2] == n && w[0] == w[2], "freeze reports the bytes it wrote");
    { typename K::type u, v; typename K2::type z; uint64_t r = mapper::map(u, img), q = mapper::map(z, img + r), o = mapper::map(v, img + r + q, mapper::map_flags::warmup); sx_assert(r == w[0] && q == w[1] && o == w[2], "map reports the bytes it read"); Ans x2, y2, x3; K::probe(u, a, x2); K2::probe(z, b, y2); K::probe(v, a, x3); same(x, x2, "first of the stream"); same(y, y2, "second of the stream"); same(x, x3, "third of the stream"); }
    free(img); sx_reach("packed");
}
// mapping over an object that already holds something releases it
template <class K> static void remap() {
    uint64_t live0 = sx_live_heap(); { typename K::type s; Args a; K::make(s, sx_param("n", 3), a); Ans before; K::probe(s, a, before); freeze_it(s); size_t n; char* img = exact_image(n); { typename K::type t; Args b; K::make(t, sx_param("n2", 2), b); mapper::map(t, img); Ans after; K::probe(t, a, after); same(before, after, "mapped over an old value"); } free(img); a = Args(); }
    (void)live0; sx_reach("remap");
}
template <class K, class K2> static void swapping() {
    in_place = true;
    typename K::type s; typename K2::type t; Args a, b; K::make(s, sx_param("n", 3), a); K2::make(t, sx_param("n2", 2), b); Ans x, y, x2, y2, x3, y3; K::probe(s, a, x); K2::probe(t, b, y); uint64_t zs = mapper::size_of(s), zt = mapper::size_of(t); std::vector<char> bs = frozen(s), bt = frozen(t);
    if (sx_param("rev", 0)) t.swap(s); else s.swap(t); same_bytes(frozen(t), bs, "after swap: bytes of the first value"); same_bytes(frozen(s), bt, "after swap: bytes of the second value"); K::probe(t, a, x2); K2::probe(s, b, y2); same(x, x2, "after swap: first value in the second object"); same(y, y2, "after swap: second value in the first object"); sx_assert(mapper::size_of(s) == zt && mapper::size_of(t) == zs, "after swap: sizes");
    s.swap(t); K::probe(s, a, x3); K2::probe(t, b, y3); same(x, x3, "swapped back: first"); same(y, y3, "swapped back: second"); sx_reach("swap");
}
template <class S> static uint64_t empty_size() { S s; return mapper::size_of(s); }
// an object without contents says so
template <class S> static auto empty_of(S const& s, int) -> decltype(s.size(), void()) { sx_assert(s.size() == 0, "empty: size"); }
template <class S> static void empty_of(S const&, long) {}
template <class S> static auto no_ones(S const& s, int) -> decltype(s.num_ones(), void()) { sx_assert(s.num_ones() == 0, "empty: no ones"); }
template <class S> static void no_ones(S const&, long) {}
template <class S> static auto no_positions(S const& s, int) -> decltype(s.num_positions(), void()) { sx_assert(s.num_positions() == 0, "empty: no positions"); }
template <class S> static void no_positions(S const&, long) {}
template <class S> static auto no_sum(S const& s, int) -> decltype(s.sum(), void()) { sx_assert(s.sum() == 0, "empty: sum"); }
template <class S> static void no_sum(S const&, long) {}
template <class S> static void more(S const&) {}
static void ranks(rs_bit_vector const& s) { sx_assert(s.num_zeros() == 0 && s.rank(0) == 0 && s.rank0(0) == 0, "empty: ranks"); }
static void more(rs_bit_vector const& s) { ranks(s); }
static void more(bp_vector const& s) { ranks(s); }
static void more(gamma_vector const& s) { forward_enumerator<gamma_vector> e(s); (void)e; }
static void more(gamma_bit_vector const& s) { forward_enumerator<gamma_bit_vector> e(s); (void)e; }
static void more(elias_fano_list const& s) { forward_enumerator<elias_fano_list> e(s); (void)e; }
static void more(elias_fano_compressed_list const& s) { forward_enumerator<elias_fano_compressed_list> e(s); (void)e; }
template <class S> static void is_empty(S const& s) { empty_of(s, 0); no_ones(s, 0); no_positions(s, 0); no_sum(s, 0); more(s); }
template <class K> static void disposing() {
    { typename K::type s; is_empty(s); typename K::type t; s.swap(t); is_empty(s); is_empty(t); util::dispose(s); is_empty(s); }
    typename K::type s; Args a; uint64_t e = empty_size<typename K::type>(); { uint64_t n = sx_param("n", 3); uint64_t live = sx_live_heap(); { Args tmp; K::make(s, n, tmp); a.n = tmp.n; } uint64_t held = sx_live_heap(); util::dispose(s); is_empty(s); sx_assert(mapper::size_of(s) == e, "disposed: like a default-constructed one"); sx_assert(sx_live_heap() == live, "disposed: storage released"); (void)held; }
    { Args b; K::make(s, sx_param("n2", 2), b); Ans x; K::probe(s, b, x); typename K::type u; Args c2 = b; u.swap(s); Ans y; K::probe(u, c2, y); same(x, y, "usable again after dispose"); is_empty(s); sx_assert(mapper::size_of(s) == e, "swapped with an empty one"); } sx_reach("dispose");
}
// re-owns every array of a structure in a heap block of exactly its size, so that any read past the end is an error
struct tighten_visitor {
    template <class T> tighten_visitor& operator()(mapper::mappable_vector<T>& v, const char*) { std::vector<T> c(v.begin(), v.end()); v.assign(c); return *this; }
    tighten_visitor& operator()(uint64_t&, const char*) { return *this; }
    tighten_visitor& operator()(uint32_t&, const char*) { return *this; }
    tighten_visitor& operator()(uint8_t&, const char*) { return *this; }
    template <class T> tighten_visitor& operator()(T& v, const char*) { v.map(*this); return *this; }
};
template <class K> static void exact() {
    typename K::type s; Args a; K::make(s, sx_param("n", 3), a); Ans before, after; if (sx_param("cmp", 0)) K::probe(s, a, before); tighten_visitor t; t(s, ""); K::probe(s, a, after); if (sx_param("cmp", 0)) same(before, after, "exact storage: same answers"); sx_reach("exact");
}
static void walk(mapper::size_node_ptr const& p, std::vector<uint64_t>& o) { o.push_back(p->size); for (size_t i = 0; i < p->children.size(); ++i) walk(p->children[i], o); }
static std::string decimal(uint64_t v) { std::string r; do r.insert(r.begin(), char(48 + v % 10)); while (v /= 10); return r; }
template <class K> static void sizes() {
    typename K::type s; Args a; K::make(s, sx_param("n", 3), a); count_visitor c; c(s, ""); sx_assert(mapper::size_of(s) == c.total, "size_of"); mapper::size_node_ptr t = mapper::size_tree_of(s); sx_assert(t->size == c.total, "size_tree_of: total"); std::vector<uint64_t> o; walk(t, o); sx_assert(o.size() == c.sizes.size(), "size_tree_of: nodes"); for (size_t i = 0; i < o.size(); ++i) sx_assert(o[i] == c.sizes[i], "size_tree_of: node size");
    if (sx_param("dump", 0)) { count_visitor d; d(s, "it"); t = mapper::size_tree_of(s, "it"); std::string e; for (size_t i = 0; i < d.sizes.size(); ++i) { e += std::string((d.depths[i] + 2) * 4, ' '); e += d.names[i]; e += ": "; e += decimal(d.sizes[i]); e += '\n'; }
      sx_image_begin(); { std::ofstream f(sx_image_path().c_str(), std::ios::binary); t->dump(f, 2); f.close(); } size_t n = sx_image_size(); const char* p = sx_image_data(); sx_assert(n == e.size() && memcmp(p, e.data(), n) == 0, "dump: every node, name and size, indented by its depth"); }
    sx_reach("sizes");
}
// C29: queries only read. Image, object and global variables are made read-only while they run.
#include <new>
template <class K> static void pure() {
    typedef typename K::type S; S s; Args a; K::make(s, sx_param("n", 3), a); freeze_it(s); size_t n = sx_image_size(); char* img = (char*)sx_ro_alloc(n); { const char* d = sx_image_data(); memcpy(img, d, n); } void* mem = sx_ro_alloc(sizeof(S)); S* t = new (mem) S; mapper::map(*t, img, 0);
    sx_protect(img, true); sx_protect(mem, true); sx_globals(true); Ans x, y, z; uint64_t m = sx_mark(); K::probe(*t, a, x); sx_rewind(m); K::probe(*t, a, y); sx_globals(false); sx_protect(mem, false); sx_protect(img, false);
    same(x, y, "asking again gives the same answers"); sx_rewind(m); K::probe(s, a, z); same(x, z, "the original gives the same answers"); t->~S(); sx_ro_free(mem); sx_ro_free(img); sx_reach("pure");
}
// C30: the frozen bytes are a function of the value
template <class K> static void det() {
    typedef typename K::type S; uint64_t what = sx_param("what", 0), n = sx_param("n", 3); std::vector<char> x, y;
    if (what == 0) { uint64_t m = sx_mark(); { S* s = new S; Args a; K::make(*s, n, a); freeze_it(*s); x = bytes(); delete s; } sx_rewind(m); S* s = new S; Args a; K::make(*s, n, a); freeze_it(*s); y = bytes(); same_bytes(x, y, "built twice from the same input: same bytes"); sx_image_begin(); freeze_it(*s); same_bytes(x, bytes(), "frozen again: same bytes");
        { S t; char* img = (char*)malloc(x.size()); memcpy(img, &x[0], x.size()); mapper::map(t, img, 0); freeze_it(t); same_bytes(x, bytes(), "mapped and frozen again: same bytes"); free(img); }
        util::dispose(*s); freeze_it(*s); x = bytes(); S* e = new S; freeze_it(*e); y = bytes(); same_bytes(x, y, "disposed: the bytes of an empty one"); delete s; delete e; }
    else { uint64_t m = sx_mark(); { S* s = new S; freeze_it(*s); x = bytes(); delete s; } sx_rewind(m); S* s = new S; freeze_it(*s); y = bytes(); same_bytes(x, y, "two empty ones: same bytes"); delete s; }
    sx_reach("det");
}
typedef da_kit<darray1, false> da1_kit; typedef da_kit<darray0, true> da0_kit; typedef code_kit<gamma_vector, 1> gv_kit; typedef code_kit<gamma_bit_vector, 2> gb_kit; typedef code_kit<elias_fano_compressed_list, 1> efc_kit; typedef vec_kit<uint64_t> v64_kit; typedef vec_kit<uint16_t> v16_kit; typedef vec_kit<uint8_t> v8_kit; typedef tk_kit<mapper::mappable_vector<uint64_t> > tkv_kit; typedef tk_kit<elias_fano_compressed_list> tke_kit;
SX_ENTRY(mp_bit) { roundtrip<bit_kit>(); }
SX_ENTRY(rm_bit) { remap<bit_kit>(); }
SX_ENTRY(sw_bit) { swapping<bit_kit, bit_kit>(); }
SX_ENTRY(dp_bit) { disposing<bit_kit>(); }
SX_ENTRY(sz_bit) { sizes<bit_kit>(); }
SX_ENTRY(ex_bit) { exact<bit_kit>(); }
SX_ENTRY(mp_rs) { roundtrip<rs_kit>(); }
SX_ENTRY(rm_rs) { remap<rs_kit>(); }
SX_ENTRY(sw_rs) { swapping<rs_kit, rs_kit2>(); }
SX_ENTRY(dp_rs) { disposing<rs_kit>(); }
SX_ENTRY(sz_rs) { sizes<rs_kit>(); }
SX_ENTRY(ex_rs) { exact<rs_kit>(); }
SX_ENTRY(mp_bp) { roundtrip<bp_kit>(); }
SX_ENTRY(rm_bp) { remap<bp_kit>(); }
SX_ENTRY(sw_bp) { swapping<bp_kit, bp_kit>(); }
SX_ENTRY(dp_bp) { disposing<bp_kit>(); }
SX_ENTRY(sz_bp) { sizes<bp_kit>(); }
SX_ENTRY(ex_bp) { exact<bp_kit>(); }
SX_ENTRY(mp_da1) { roundtrip<da1_kit>(); }
SX_ENTRY(rm_da1) { remap<da1_kit>(); }
SX_ENTRY(sw_da1) { swapping<da1_kit, da1_kit>(); }
SX_ENTRY(dp_da1) { disposing<da1_kit>(); }
SX_ENTRY(sz_da1) { sizes<da1_kit>(); }
SX_ENTRY(ex_da1) { exact<da1_kit>(); }
SX_ENTRY(mp_da0) { roundtrip<da0_kit>(); }
SX_ENTRY(rm_da0) { remap<da0_kit>(); }
SX_ENTRY(sw_da0) { swapping<da0_kit, da0_kit>(); }
SX_ENTRY(dp_da0) { disposing<da0_kit>(); }
SX_ENTRY(sz_da0) { sizes<da0_kit>(); }
SX_ENTRY(ex_da0) { exact<da0_kit>(); }
SX_ENTRY(mp_d64) { roundtrip<d64_kit>(); }
SX_ENTRY(rm_d64) { remap<d64_kit>(); }
SX_ENTRY(sw_d64) { swapping<d64_kit, d64_kit>(); }
SX_ENTRY(dp_d64) { disposing<d64_kit>(); }
SX_ENTRY(sz_d64) { sizes<d64_kit>(); }
SX_ENTRY(ex_d64) { exact<d64_kit>(); }
SX_ENTRY(mp_ef) { roundtrip<ef_kit>(); }
SX_ENTRY(rm_ef) { remap<ef_kit>(); }
SX_ENTRY(sw_ef) { swapping<ef_kit, ef_kit>(); }
SX_ENTRY(dp_ef) { disposing<ef_kit>(); }
SX_ENTRY(sz_ef) { sizes<ef_kit>(); }
SX_ENTRY(ex_ef) { exact<ef_kit>(); }
SX_ENTRY(mp_efl) { roundtrip<efl_kit>(); }
SX_ENTRY(rm_efl) { remap<efl_kit>(); }
SX_ENTRY(sw_efl) { swapping<efl_kit, efl_kit>(); }
SX_ENTRY(dp_efl) { disposing<efl_kit>(); }
SX_ENTRY(sz_efl) { sizes<efl_kit>(); }
SX_ENTRY(ex_efl) { exact<efl_kit>(); }
SX_ENTRY(mp_efc) { roundtrip<efc_kit>(); }
SX_ENTRY(rm_efc) { remap<efc_kit>(); }
SX_ENTRY(sw_efc) { swapping<efc_kit, efc_kit>(); }
SX_ENTRY(dp_efc) { disposing<efc_kit>(); }
SX_ENTRY(sz_efc) { sizes<efc_kit>(); }
SX_ENTRY(ex_efc) { exact<efc_kit>(); }
SX_ENTRY(mp_gv) { roundtrip<gv_kit>(); }
SX_ENTRY(rm_gv) { remap<gv_kit>(); }
SX_ENTRY(sw_gv) { swapping<gv_kit, gv_kit>(); }
SX_ENTRY(dp_gv) { disposing<gv_kit>(); }
SX_ENTRY(sz_gv) { sizes<gv_kit>(); }
SX_ENTRY(ex_gv) { exact<gv_kit>(); }
SX_ENTRY(mp_gb) { roundtrip<gb_kit>(); }
SX_ENTRY(rm_gb) { remap<gb_kit>(); }
SX_ENTRY(sw_gb) { swapping<gb_kit, gb_kit>(); }
SX_ENTRY(dp_gb) { disposing<gb_kit>(); }
SX_ENTRY(sz_gb) { sizes<gb_kit>(); }
SX_ENTRY(ex_gb) { exact<gb_kit>(); }
SX_ENTRY(mp_ct) { roundtrip<ct_kit>(); }
SX_ENTRY(rm_ct) { remap<ct_kit>(); }
SX_ENTRY(sw_ct) { swapping<ct_kit, ct_kit>(); }
SX_ENTRY(dp_ct) { disposing<ct_kit>(); }
SX_ENTRY(sz_ct) { sizes<ct_kit>(); }
SX_ENTRY(ex_ct) { exact<ct_kit>(); }
SX_ENTRY(mp_tkv) { roundtrip<tkv_kit>(); }
SX_ENTRY(rm_tkv) { remap<tkv_kit>(); }
SX_ENTRY(sw_tkv) { swapping<tkv_kit, tkv_kit>(); }
SX_ENTRY(dp_tkv) { disposing<tkv_kit>(); }
SX_ENTRY(sz_tkv) { sizes<tkv_kit>(); }
SX_ENTRY(ex_tkv) { exact<tkv_kit>(); }
SX_ENTRY(mp_tke) { roundtrip<tke_kit>(); }
SX_ENTRY(rm_tke) { remap<tke_kit>(); }
SX_ENTRY(sw_tke) { swapping<tke_kit, tke_kit>(); }
SX_ENTRY(dp_tke) { disposing<tke_kit>(); }
SX_ENTRY(sz_tke) { sizes<tke_kit>(); }
SX_ENTRY(ex_tke) { exact<tke_kit>(); }
SX_ENTRY(mp_nib) { roundtrip<nib_kit>(); }
SX_ENTRY(rm_nib) { remap<nib_kit>(); }
SX_ENTRY(sw_nib) { swapping<nib_kit, nib_kit>(); }
SX_ENTRY(dp_nib) { disposing<nib_kit>(); }
SX_ENTRY(sz_nib) { sizes<nib_kit>(); }
SX_ENTRY(ex_nib) { exact<nib_kit>(); }
SX_ENTRY(mp_v64) { roundtrip<v64_kit>(); }
SX_ENTRY(rm_v64) { remap<v64_kit>(); }
SX_ENTRY(sw_v64) { swapping<v64_kit, v64_kit>(); }
SX_ENTRY(dp_v64) { disposing<v64_kit>(); }
SX_ENTRY(sz_v64) { sizes<v64_kit>(); }
SX_ENTRY(ex_v64) { exact<v64_kit>(); }
SX_ENTRY(mp_v16) { roundtrip<v16_kit>(); }
SX_ENTRY(rm_v16) { remap<v16_kit>(); }
SX_ENTRY(sw_v16) { swapping<v16_kit, v16_kit>(); }
SX_ENTRY(dp_v16) { disposing<v16_kit>(); }
SX_ENTRY(sz_v16) { sizes<v16_kit>(); }
SX_ENTRY(ex_v16) { exact<v16_kit>(); }
SX_ENTRY(mp_v8) { roundtrip<v8_kit>(); }
SX_ENTRY(rm_v8) { remap<v8_kit>(); }
SX_ENTRY(sw_v8) { swapping<v8_kit, v8_kit>(); }
SX_ENTRY(dp_v8) { disposing<v8_kit>(); }
SX_ENTRY(sz_v8) { sizes<v8_kit>(); }
SX_ENTRY(ex_v8) { exact<v8_kit>(); }
SX_ENTRY(pu_bit) { pure<bit_kit>(); }
SX_ENTRY(dt_bit) { det<bit_kit>(); }
SX_ENTRY(pu_rs) { pure<rs_kit>(); }
SX_ENTRY(dt_rs) { det<rs_kit>(); }
SX_ENTRY(pu_bp) { pure<bp_kit>(); }
SX_ENTRY(dt_bp) { det<bp_kit>(); }
SX_ENTRY(pu_da1) { pure<da1_kit>(); }
SX_ENTRY(dt_da1) { det<da1_kit>(); }
SX_ENTRY(pu_da0) { pure<da0_kit>(); }
SX_ENTRY(dt_da0) { det<da0_kit>(); }
SX_ENTRY(pu_d64) { pure<d64_kit>(); }
SX_ENTRY(dt_d64) { det<d64_kit>(); }
SX_ENTRY(pu_ef) { pure<ef_kit>(); }
SX_ENTRY(dt_ef) { det<ef_kit>(); }
SX_ENTRY(pu_efl) { pure<efl_kit>(); }
SX_ENTRY(dt_efl) { det<efl_kit>(); }
SX_ENTRY(pu_efc) { pure<efc_kit>(); }
SX_ENTRY(dt_efc) { det<efc_kit>(); }
SX_ENTRY(pu_gv) { pure<gv_kit>(); }
SX_ENTRY(dt_gv) { det<gv_kit>(); }
SX_ENTRY(pu_gb) { pure<gb_kit>(); }
SX_ENTRY(dt_gb) { det<gb_kit>(); }
SX_ENTRY(pu_ct) { pure<ct_kit>(); }
SX_ENTRY(dt_ct) { det<ct_kit>(); }
SX_ENTRY(pu_tkv) { pure<tkv_kit>(); }
SX_ENTRY(dt_tkv) { det<tkv_kit>(); }
SX_ENTRY(pu_tke) { pure<tke_kit>(); }
SX_ENTRY(dt_tke) { det<tke_kit>(); }
SX_ENTRY(pu_nib) { pure<nib_kit>(); }
SX_ENTRY(dt_nib) { det<nib_kit>(); }
SX_ENTRY(pu_v64) { pure<v64_kit>(); }
SX_ENTRY(dt_v64) { det<v64_kit>(); }
SX_ENTRY(pu_v16) { pure<v16_kit>(); }
SX_ENTRY(dt_v16) { det<v16_kit>(); }
SX_ENTRY(pu_v8) { pure<v8_kit>(); }
SX_ENTRY(dt_v8) { det<v8_kit>(); }
SX_ENTRY(mf_rs) { mapfile<rs_kit>(); }
SX_ENTRY(mf_bp) { mapfile<bp_kit>(); }
SX_ENTRY(mf_ef) { mapfile<ef_kit>(); }
SX_ENTRY(mf_tkv) { mapfile<tkv_kit>(); }
SX_ENTRY(mf_v8) { mapfile<v8_kit>(); }
SX_ENTRY(pk_bit_ef) { packed<bit_kit, ef_kit>(); }
SX_ENTRY(pk_v8_rs) { packed<v8_kit, rs_kit>(); }
SX_ENTRY(pk_bp_gv) { packed<bp_kit, gv_kit>(); }
SX_ENTRY(pk_ef_v64) { packed<ef_kit, v64_kit>(); }
SX_ENTRY(pk_nib_ct) { packed<nib_kit, ct_kit>(); }
SX_ENTRY(pk_tkv_da1) { packed<tkv_kit, da1_kit>(); }
// the same value reached by different routes freezes to the same bytes
static void route_bits(uint64_t how, uint64_t n, std::vector<uint64_t> const& w, bit_vector_builder& o) {
    #define BIT(i) ((w[(i) / 64] >> ((i) % 64)) & 1)
    #define LEN(j) std::min<uint64_t>(64, n - 64 * (j))
    uint64_t W = w.size();
    switch (how) {
    case 0: for (uint64_t i = 0; i < n; ++i) o.push_back(BIT(i)); break;
    case 1: for (uint64_t j = 0; j < W; ++j) o.append_bits(w[j], LEN(j)); break;
    case 2: case 3: { bit_vector_builder b(n, how == 3); for (uint64_t i = 0; i < n; ++i) b.set(i, BIT(i)); o.swap(b); break; }
    case 4: case 5: { bit_vector_builder b; if (how == 4) b.zero_extend(n); else b.one_extend(n); for (uint64_t j = 0; j < W; ++j) b.set_bits(64 * j, w[j], LEN(j)); b.swap(o); break; }
    case 6: { bit_vector_builder b; for (uint64_t i = n; i--;) b.push_back(BIT(i)); b.reverse(); o.swap(b); break; }
    case 7: case 8: { uint64_t c = sx_concretize(sx_range("cut", 0, n)); bit_vector_builder a(how == 7 ? c : 0, true), b; if (how == 8) a.one_extend(c); for (uint64_t i = 0; i < c; ++i) a.set(i, BIT(i)); b.reserve(n); for (uint64_t i = c; i < n; ++i) b.push_back(BIT(i)); o.append(a); o.append(b); break; }
    case 9: { uint64_t c = sx_concretize(sx_range("cut", 0, n)); o.reserve(c); for (uint64_t i = 0; i < c; ++i) o.push_back(BIT(i)); o.reserve(0); while (c < n) { uint64_t l = std::min<uint64_t>(n - c, 37), v = w[c / 64] >> (c % 64); if (c % 64 && c / 64 + 1 < W) v |= w[c / 64 + 1] << (64 - c % 64); o.append_bits(v & ((uint64_t(1) << l) - 1), l); c += l; } break; }
    }
    #undef BIT
    #undef LEN
}
template <class S> struct from_builder { static std::vector<char> go(bit_vector_builder& b) { S s(&b); return frozen(s); } };
template <class D> struct from_bv { static std::vector<char> go(bit_vector_builder& b) { bit_vector v(&b); D s(v); return frozen(s); } };
template <class F> static void routes() {
    uint64_t n = sx_param("n", 10); std::vector<uint64_t> w; for (uint64_t j = 0; 64 * j < n; ++j) { uint64_t x = sx_u64("w") & spec_lowmask(std::min<uint64_t>(64, n - 64 * j)), sm = sx_param("mask", 0); w.push_back(sm ? (skel_word(2, j) & ~sm) | (x & sm) : x); if (sm) w.back() &= spec_lowmask(std::min<uint64_t>(64, n - 64 * j)); }
    bit_vector_builder a, b; route_bits(0, n, w, a); uint64_t how = sx_param("route", 99); if (how == 99) how = sx_concretize(sx_range("route", 1, 9)); route_bits(how, n, w, b);
    std::vector<char> x = F::go(a), y = F::go(b); same_bytes(x, y, "the same value built another way: same bytes"); sx_reach("routes");
}
SX_ENTRY(rt_bit) { routes<from_builder<bit_vector> >(); }
SX_ENTRY(rt_rs) { routes<from_builder<rs_bit_vector> >(); }
SX_ENTRY(rt_ef) { routes<from_builder<elias_fano> >(); }
SX_ENTRY(rt_da1) { routes<from_bv<darray1> >(); }
SX_ENTRY(rt_da0) { routes<from_bv<darray0> >(); }
// lists: another kind of range
template <class S> static void list_routes() {
    uint64_t n = sx_param("n", 2), top = sx_param("top", 200); std::vector<uint64_t> v; for (uint64_t i = 0; i < n; ++i) { uint64_t l = sx_concretize(sx_range("l", 0, sx_param("lhi", 6))); v.push_back((uint64_t(1) << l) - 1 + (sx_u64("x") & ((uint64_t(1) << l) - 1))); sx_assume(v.back() <= top); }
    S s(v); std::vector<char> x = frozen(s); uint64_t k = sx_concretize(sx_range("kind", 0, 2));
    if (k == 0) { std::vector<uint8_t> r(v.begin(), v.end()); S t(r); same_bytes(x, frozen(t), "built from narrow elements: same bytes"); }
    if (k == 1) { mapper::mappable_vector<uint64_t> r(v); S t(boost::make_iterator_range(r.begin(), r.end())); same_bytes(x, frozen(t), "built from a mappable vector: same bytes"); }
    if (k == 2) { std::vector<uint64_t> r(v); r.push_back(1); r.reserve(50); S t(boost::make_iterator_range(r.begin(), r.begin() + (ptrdiff_t)n)), u; u.swap(t); same_bytes(x, frozen(u), "built from a sub-range: same bytes"); }
    sx_reach("list routes");
}
SX_ENTRY(rt_gv) { list_routes<gamma_vector>(); }
SX_ENTRY(rt_gb) { list_routes<gamma_bit_vector>(); }
SX_ENTRY(rt_efl) { list_routes<elias_fano_list>(); }
SX_ENTRY(rt_efc) { list_routes<elias_fano_compressed_list>(); }
SX_ENTRY(rt_tke) { list_routes<topk_vector<elias_fano_compressed_list> >(); }
SX_ENTRY(rt_tkv) { list_routes<topk_vector<mapper::mappable_vector<uint64_t> > >(); }
SX_ENTRY(rt_nib) { list_routes<nibble_vector>(); }
SX_ENTRY(rt_v64) { list_routes<mapper::mappable_vector<uint64_t> >(); }
SX_ENTRY(rt_ct) { // a tree pushed element by element
    uint64_t n = sx_param("n", 3); std::vector<uint64_t> v; for (uint64_t i = 0; i < n; ++i) v.push_back(sx_u64("x")); cartesian_tree t(v); std::vector<char> x = frozen(t);
    uint64_t e = sx_concretize(sx_range("expected", 0, n + 2)); cartesian_tree::builder<uint64_t> b(e); for (uint64_t i = 0; i < n; ++i) b.push_back(v[i], std::less<uint64_t>()); cartesian_tree u(&b); same_bytes(x, frozen(u), "built from a builder: same bytes"); sx_reach("tree routes");
}
SX_ENTRY(rt_vec) { // assign, steal, construct
    typedef mapper::mappable_vector<uint64_t> V; uint64_t n = sx_concretize(sx_range("n", 0, sx_param("max", 4))); std::vector<uint64_t> v; for (uint64_t i = 0; i < n; ++i) v.push_back(sx_u64("x")); V a(v); std::vector<char> x = frozen(a); V b, c, d; b.assign(v); same_bytes(x, frozen(b), "assigned: same bytes"); std::vector<uint64_t> w(v); w.reserve(n + 7); c.steal(w); same_bytes(x, frozen(c), "stolen: same bytes"); std::vector<uint64_t> z(5, 9); d.assign(z); d.assign(v); same_bytes(x, frozen(d), "assigned over another value: same bytes"); sx_reach("vector routes");
}
