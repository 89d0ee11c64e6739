// Native runtime: replays one counterexample against the real code.
#include "sx.h"
#include <map>
#include <stdlib.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
#include <new>
static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> m; return m; }
sx_reg::sx_reg(const char* n, void (*f)()) { reg()[n] = f; }
static struct { std::vector<uint64_t>* in; size_t pos; std::map<std::string, uint64_t>* par; std::string* scratch; long live; char* snap; } G; // all of the runtime's own state
#define in G.in
#define pos G.pos
#define par G.par
#define scratch G.scratch
#define live G.live
extern char __data_start, _end;
#if !defined(__SANITIZE_ADDRESS__)
void* operator new(size_t n) { ++live; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { ++live; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --live; free(p); }
#endif
extern "C" {
static uint64_t nextv() { if (pos >= in->size()) { fprintf(stderr, "SX-REPLAY: inputs exhausted\n"); _exit(78); } return (*in)[pos++]; }
uint64_t sx_u64(const char*) { return nextv(); }
uint64_t sx_range(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = nextv(); if (v < lo || v > hi) { fprintf(stderr, "SX-REPLAY: %s out of range\n", n); _exit(78); } return v; }
void sx_assume(bool c) { if (!c) { fprintf(stderr, "SX-REPLAY: assumption false\n"); _exit(77); } }
void sx_assert(bool c, const char* l) { if (!c) { fprintf(stderr, "SX-ASSERT-FAIL: %s\n", l); fflush(stderr); _exit(42); } }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_param(const char* n, uint64_t d) { auto it = par->find(n); return it == par->end() ? d : it->second; }
uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t sx_select(uint64_t x, uint64_t k) { for (unsigned i = 0; i < 64; ++i) if (x >> i & 1) { if (!k) return i; --k; } return 63; }
void sx_reach(const char*) {}
void sx_merge_begin() {}
void sx_merge_end() {}
int sx_symbolic() { return 0; }
uint64_t sx_live_heap() { return (uint64_t)live; }
void sx_stop() { _exit(0); }
void sx_print(const char* s, uint64_t v) { fprintf(stderr, "[print] %s %lu\n", s, v); }
FILE* sx_open_bytes(const char* p, size_t n) { std::string f = *scratch + "/in.bin"; FILE* o = fopen(f.c_str(), "wb"); fwrite(p, 1, n, o); fclose(o); return fopen(f.c_str(), "rb"); }
void sx_close_bytes(FILE* f) { fclose(f); }
}
extern "C" {
uint64_t sx_mark() { return pos; }
void sx_rewind(uint64_t m) { pos = m; mallopt(M_PERTURB, 0x3c); } // fresh memory looks different the second time
void* sx_ro_alloc(size_t n) { size_t z = (n + 4096 + 4095) & ~size_t(4095); char* p = (char*)mmap(0, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == (char*)MAP_FAILED) abort(); *(size_t*)p = z; return p + 4096 - 0; }
void sx_ro_free(void* q) { char* p = (char*)q - 4096; munmap(p, *(size_t*)p); }
void sx_protect(void* q, bool on) { char* p = (char*)q - 4096; size_t z = *(size_t*)p; if (z > 4096 && mprotect(q, z - 4096, on ? PROT_READ : PROT_READ | PROT_WRITE)) abort(); }
#if defined(__SANITIZE_ADDRESS__)
void sx_globals(bool) {}
#else
void sx_globals(bool on) { char *a = &__data_start, *b = &_end; size_t n = (size_t)(b - a); if (on) { if (!G.snap) G.snap = (char*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(G.snap, a, n); return; }
    for (size_t i = 0; i < n; ++i) { char* p = a + i; if (p >= (char*)&G && p < (char*)(&G + 1)) continue; if (*p != G.snap[i]) { fprintf(stderr, "SX-ASSERT-FAIL: a global variable was modified\n"); fflush(stderr); _exit(42); } } }
#endif
}
static std::string* img; 
void sx_image_begin() { unlink(sx_image_path().c_str()); }
static void load_img() { if (!img) img = new std::string; img->clear(); FILE* f = fopen(sx_image_path().c_str(), "rb"); if (!f) return; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) img->append(b, n); fclose(f); }
const char* sx_image_data() { load_img(); return img->data(); }
size_t sx_image_size() { load_img(); return img->size(); }
std::string sx_image_path() { return *scratch + "/img.bin"; }
void sx_put_file(const char* p, size_t n) { FILE* o = fopen(sx_file_path().c_str(), "wb"); fwrite(p, 1, n, o); fclose(o); }
std::string sx_file_path() { return *scratch + "/map.bin"; }
int main(int argc, char** argv) { // entry inputs-file scratch-dir k=v...
    in = new std::vector<uint64_t>; par = new std::map<std::string, uint64_t>; scratch = new std::string(argv[3]);
    FILE* f = fopen(argv[2], "r"); unsigned long v; while (fscanf(f, "%lu", &v) == 1) in->push_back(v); fclose(f);
    for (int i = 4; i < argc; ++i) { std::string s = argv[i]; size_t q = s.find('='); (*par)[s.substr(0, q)] = strtoull(s.c_str() + q + 1, 0, 0); }
    auto it = reg().find(argv[1]); if (it == reg().end()) { fprintf(stderr, "no entry\n"); return 79; }
    it->second(); fprintf(stderr, "SX-REPLAY: completed\n"); return 0;
}
