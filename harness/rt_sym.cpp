// Runtime for symbolic execution: models of the few library functions the code under test calls.
#include "sx.h"
#include <list>
#include <boost/iostreams/device/mapped_file.hpp>
extern "C" {
void* malloc(size_t); void free(void*);
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
void* sxrt_memchr(const void* a, int c, size_t n) asm("memchr"); void* sxrt_memchr(const void* a, int c, size_t n) { const unsigned char* p = (const unsigned char*)a; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }

// ---- std::ofstream: byte recorder
static char* img; static size_t img_n, img_cap;
void sxrt_put(const char* p, long n) {
    if (n <= 0) return;
    if (img_n + (size_t)n > img_cap) { size_t c = img_cap * 2 + (size_t)n + 64; char* q = (char*)malloc(c); for (size_t i = 0; i < img_n; i += 8) memcpy(q + i, img + i, img_n - i < 8 ? img_n - i : 8); img = q; img_cap = c; }
    memcpy(img + img_n, p, (size_t)n); img_n += (size_t)n;
}
// fake vtable: vbase offset of basic_ios inside basic_ofstream is 248
static long fake_vt[4] = {248, 0, 0, 0};
static void of_ctor(void* t) { memset(t, 0, 512); *(long**)t = fake_vt + 3; }
void sxrt_of1(void* t) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev"); void sxrt_of1(void* t) { of_ctor(t); }
void sxrt_of2(void* t, const char*, int) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode"); void sxrt_of2(void* t, const char*, int) { of_ctor(t); img_n = 0; }
void sxrt_of3(void* t, void*, int) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode"); void sxrt_of3(void* t, void*, int) { of_ctor(t); img_n = 0; }
void sxrt_of4(void*) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev"); void sxrt_of4(void*) {}
void sxrt_of5(void*) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv"); void sxrt_of5(void*) {}
void* sxrt_w(void* t, const char* p, long n) asm("_ZNSo5writeEPKcl"); void* sxrt_w(void* t, const char* p, long n) { sxrt_put(p, n); return t; }
void* sxrt_p(void* t, char c) asm("_ZNSo3putEc"); void* sxrt_p(void* t, char c) { sxrt_put(&c, 1); return t; }
void* sxrt_oi(void* t, const char* p, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); void* sxrt_oi(void* t, const char* p, long n) { sxrt_put(p, n); return t; }
void* sxrt_om(void* t, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_"); void* sxrt_om(void* t, unsigned long v) { char b[24]; int i = 24; v = sx_concretize(v); do b[--i] = (char)(48 + v % 10); while (v /= 10); sxrt_put(b + i, 24 - i); return t; }
void* sxrt_os(void* t, const std::string& v) asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"); void* sxrt_os(void* t, const std::string& v) { sxrt_put(v.data(), (long)v.size()); return t; }
void* sxrt_oc(void* t, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"); void* sxrt_oc(void* t, char c) { sxrt_put(&c, 1); return t; }
void* sxrt_ok(void* t, const char* v) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); void* sxrt_ok(void* t, const char* v) { sxrt_put(v, (long)strlen(v)); return t; }
void* sxrt_ol(void* t, unsigned long v) asm("_ZNSolsEm"); void* sxrt_ol(void* t, unsigned long v) { return sxrt_om(t, v); }
void* sxrt_oe(void* t, void* (*f)(void*)) asm("_ZNSolsEPFRSoS_E"); void* sxrt_oe(void* t, void* (*f)(void*)) { return f(t); }
void* sxrt_en(void* t) asm("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); void* sxrt_en(void* t) { sxrt_put("\n", 1); return t; }
void* sxrt_f(void* t) asm("_ZNSo5flushEv"); void* sxrt_f(void* t) { return t; }
struct sxrt_fpos { long off, state; };
sxrt_fpos sxrt_tp(void*) asm("_ZNSo5tellpEv"); sxrt_fpos sxrt_tp(void*) { sxrt_fpos r; r.off = (long)img_n; r.state = 0; return r; }
bool sxrt_gd(const void*) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv"); bool sxrt_gd(const void*) { return true; }
bool sxrt_fl(const void*) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv"); bool sxrt_fl(const void*) { return false; }
bool sxrt_bd(const void*) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv"); bool sxrt_bd(const void*) { return false; }
bool sxrt_nt(const void*) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv"); bool sxrt_nt(const void*) { return false; }
bool sxrt_cb(const void*) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv"); bool sxrt_cb(const void*) { return true; }

// ---- FILE: one in-memory input
struct sx_file { const char* p; size_t n, pos; int eof; };
int sx_fopen_count;
char* fgets(char* b, int n, FILE* f) {
    sx_file* s = (sx_file*)f; int i = 0; if (n <= 0) return 0;
    while (i < n - 1) { if (s->pos >= s->n) { s->eof = 1; break; } char c = s->p[s->pos++]; b[i++] = c; if (c == '\n') break; }
    if (i == 0) return 0; b[i] = 0; return b;
}
int feof(FILE* f) { return ((sx_file*)f)->eof; }
int ferror(FILE*) { return 0; }
int fgetc(FILE* f) { sx_file* s = (sx_file*)f; if (s->pos >= s->n) { s->eof = 1; return -1; } return (unsigned char)s->p[s->pos++]; }
int getc(FILE* f) { return fgetc(f); }
FILE* sx_open_bytes(const char* p, size_t n) { sx_file* s = (sx_file*)malloc(sizeof(sx_file)); s->p = p; s->n = n; s->pos = 0; s->eof = 0; return (FILE*)s; }
void sx_close_bytes(FILE*) {}

void* sx_ro_alloc(size_t n) { return malloc(n ? n : 1); }
void sx_ro_free(void* p) { free(p); }
// ---- verified substitutes (used only after the equivalence lemma was discharged in the same run)
uint64_t sxspec_popcount(uint64_t x) { return spec_pop(x); }
uint64_t sxspec_select_in_word(uint64_t x, uint64_t k) { sx_assert(k < spec_pop(x), "select_in_word: k < popcount(x)"); return spec_select64(x, k); }
}
void sx_image_begin() { img_n = 0; }
const char* sx_image_data() { return img; }
size_t sx_image_size() { return img_n; }
std::string sx_image_path() { return "x"; }
// ---- boost::iostreams::mapped_file_source: the bytes of the one file (sx_put_file), else of the recorded image, in a block of exactly their size
static const char* fb; static size_t fn; static bool fset;
void sx_put_file(const char* p, size_t n) { fb = p; fn = n; fset = true; }
std::string sx_file_path() { return "f"; }
// the same file through stdio
FILE* fopen(const char*, const char* mode) { if (mode[0] != 'r') { sx_assert(false, "fopen: only for reading"); return 0; } return fset ? sx_open_bytes(fb, fn) : 0; }
int fclose(FILE* f) { free(f); return 0; }
namespace boost { namespace iostreams {
namespace detail { class mapped_file_impl { public: char* p; size_t n; mapped_file_impl() : p(0), n(0) {} ~mapped_file_impl() { if (p) free(p); } }; }
mapped_file_source::mapped_file_source() : pimpl_(new detail::mapped_file_impl) {}
mapped_file_source::mapped_file_source(const mapped_file_source& o) : pimpl_(o.pimpl_) {}
void mapped_file_source::init() { pimpl_.reset(new detail::mapped_file_impl); }
void mapped_file_source::open_impl(const param_type& q) {
    const char* b = fset ? fb : img; size_t n = fset ? fn : img_n, off = (size_t)q.offset; sx_assert(off <= n, "mapped file: offset inside the file"); n -= off; if (q.length < n) n = q.length;
    char* p = (char*)malloc(n ? n : 1); sx_assert(n > 0, "an empty file cannot be mapped"); for (size_t i = 0; i < n; i += 8) memcpy(p + i, b + off + i, n - i < 8 ? n - i : 8); pimpl_->p = p; pimpl_->n = n;
}
bool mapped_file_source::is_open() const { return !!pimpl_->p; }
void mapped_file_source::close() { if (pimpl_->p) free(pimpl_->p); pimpl_->p = 0; pimpl_->n = 0; }
mapped_file_source::operator mapped_file_source::safe_bool() const { return pimpl_->p ? &safe_bool_helper::x : 0; }
bool mapped_file_source::operator!() const { return !pimpl_->p; }
mapped_file_source::size_type mapped_file_source::size() const { return pimpl_->n; }
const char* mapped_file_source::data() const { return pimpl_->p; }
mapped_file_source::iterator mapped_file_source::begin() const { return pimpl_->p; }
mapped_file_source::iterator mapped_file_source::end() const { return pimpl_->p + pimpl_->n; }
} }
// ---- std::list's out-of-line parts
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
} }
