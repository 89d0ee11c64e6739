// Harness API. The same harness is executed symbolically (clang IR under sx) and natively (replay of counterexamples).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <cassert>
#include <vector>
#include <string>
#include <algorithm>
#include <iostream>
#include <fstream>

extern "C" {
uint64_t sx_u64(const char* name);                              // fresh 64-bit input
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi);  // fresh input in [lo, hi]
void sx_assume(bool c);
void sx_assert(bool c, const char* label);
uint64_t sx_concretize(uint64_t v);                             // fork over the feasible values
uint64_t sx_param(const char* name, uint64_t dflt);             // job parameter (a stated bound)
uint64_t sx_ite(bool c, uint64_t a, uint64_t b);                // branch-free selection
uint64_t sx_select(uint64_t x, uint64_t k);                      // position of the k-th one of x, for k < popcount(x)
void sx_reach(const char* label);                               // vacuity witness
void sx_merge_begin();
void sx_merge_end();
int sx_symbolic();
uint64_t sx_live_heap();                                        // live heap blocks
void sx_stop();
void sx_print(const char*, uint64_t);
uint64_t sx_mark();                                             // position in the input sequence
void sx_rewind(uint64_t mark);                                  // draw the inputs since the mark once more, with the same values
void* sx_ro_alloc(size_t n);                                    // a block of its own that sx_protect can make read-only
void sx_ro_free(void* p);
void sx_protect(void* p, bool on);                              // from here on, writing to the block is an error
void sx_globals(bool frozen);                                   // likewise for every global variable
}

#ifdef SX_NATIVE
struct sx_reg { sx_reg(const char* n, void (*f)()); };
#define SX_ENTRY(name) extern "C" void name(); static sx_reg reg_##name(#name, name); extern "C" void name()
#else
#define SX_ENTRY(name) extern "C" void name()
#endif

// ---------- frozen images ----------
// native: a real file in a scratch directory; symbolic: std::ofstream is a stub that records every byte given to write()/put()
std::string sx_image_path();
void sx_image_begin();
const char* sx_image_data();
size_t sx_image_size();
void sx_put_file(const char* p, size_t n);                      // the contents of the file sx_file_path() names
std::string sx_file_path();

// ---------- branch-free specification helpers ----------
static inline uint64_t spec_pop(uint64_t x) { return (uint64_t)__builtin_popcountll(x); }
static inline uint64_t spec_lowmask(uint64_t k) { // k low ones, k in 0..64, no oversized shift
    return sx_ite(k >= 64, ~uint64_t(0), (uint64_t(1) << (k & 63)) - 1);
}
// the k-th (0-based) one of x, defined when k < popcount(x)
static inline uint64_t spec_select64(uint64_t x, uint64_t k) { return sx_select(x, k); }

// A reference bit string: words (zero padded) and a size.
struct Ref {
    std::vector<uint64_t> w; uint64_t n;
    std::vector<uint64_t> P; // ones before word j
    Ref() : n(0) {}
    void finish() { P.assign(w.size() + 1, 0); for (size_t j = 0; j < w.size(); ++j) P[j + 1] = P[j] + spec_pop(w[j]); }
    uint64_t ones() const { return P[w.size()]; }
    bool bit(uint64_t i) const { return (w[i / 64] >> (i % 64)) & 1; }
    // ones in [0, i), i <= n
    uint64_t rank(uint64_t i) const {
        uint64_t j = i / 64; bool full = j >= w.size(); uint64_t jj = sx_ite(full, w.empty() ? 0 : w.size() - 1, j);
        if (w.empty()) return 0;
        uint64_t part = P[jj] + spec_pop(w[jj] & ((uint64_t(1) << (i % 64)) - 1));
        return sx_ite(full, P[w.size()], part);
    }
    uint64_t rank0(uint64_t i) const { return i - rank(i); }
    // position of the k-th (0-based) one / zero; defined when k < ones() / k < n - ones()
    uint64_t select(uint64_t k) const {
        uint64_t j = 0; for (size_t t = 1; t < w.size(); ++t) j += sx_ite(P[t] <= k, 1, 0);
        return 64 * j + spec_select64(w[j], k - P[j]);
    }
    uint64_t select0(uint64_t k) const {
        uint64_t j = 0; for (size_t t = 1; t < w.size(); ++t) j += sx_ite(64 * t - P[t] <= k, 1, 0);
        return 64 * j + spec_select64(~w[j], k - (64 * j - P[j]));
    }
    // bits [pos, pos+len) as an integer, len <= 64, pos + len <= n (or padded with zeros)
    uint64_t get(uint64_t pos, uint64_t len) const {
        uint64_t j = pos / 64, s = pos % 64; uint64_t a = j < w.size() ? w[j] : 0; uint64_t b = j + 1 < w.size() ? w[j + 1] : 0;
        return ((a >> s) | sx_ite(s == 0, 0, b << ((64 - s) & 63))) & spec_lowmask(len);
    }
    int64_t excess(uint64_t i) const { return 2 * (int64_t)rank(i) - (int64_t)i; }
};

static inline uint64_t sx_mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
