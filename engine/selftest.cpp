// Checks the expression rewriter against direct evaluation: random expressions are built through the simplifying constructors
// while their values on random assignments are computed independently. usage: selftest [rounds] [seed]
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <set>
#include <cassert>
#include <memory>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
#include "blast.hpp"
static u64 S; static u64 rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 0x2545F4914F6CDD1DULL; }
static u64 pick(u64 n) { return (rnd() >> 20) % n; }
static u64 konst(unsigned w) { u64 v; switch (pick(9)) { case 0: v = 0; break; case 1: v = ~u64(0); break; case 2: v = u64(1) << pick(64); break; case 3: v = (u64(1) << pick(64)) - 1; break; case 4: v = ~((u64(1) << pick(64)) - 1); break; case 5: v = pick(70); break; case 6: v = 0 - pick(70); break; case 7: v = 0x0101010101010101ULL * (pick(2) ? 1 : 0x80); break; default: v = rnd(); } return v & maskw(w); }
const int K = 10; struct N { Expr* e; u64 v[K]; };
int main(int argc, char** argv) {
    u64 rounds = argc > 1 ? strtoull(argv[1], 0, 0) : 2000, nodes = 0; u64 seed = argc > 2 ? strtoull(argv[2], 0, 0) : 1;
    for (u64 r = 0; r < rounds; ++r) {
        S = (seed << 32) + r + 88172645463325252ULL; for (int i = 0; i < 5; ++i) rnd(); ExprCtx X; Evaluator ev(X); std::vector<N> p; Model m[K];
        static const unsigned ws[] = {64, 64, 64, 32, 32, 16, 8, 1, 7}; unsigned nv = 3 + pick(4);
        for (unsigned i = 0; i < nv; ++i) { unsigned w = ws[pick(9)]; N n; u64 lo = 0, hi = maskw(w); if (w > 8 && pick(2)) { hi = pick(200); lo = pick(2) ? 0 : pick(hi + 1); n.e = X.var_range("v", w, lo, hi); if (n.e->k == K_CONST) { for (int k = 0; k < K; ++k) { n.v[k] = lo; m[k].v.push_back(lo); } p.push_back(n); continue; } } else n.e = X.var("v", w);
            for (int k = 0; k < K; ++k) { u64 v = hi - lo == ~u64(0) ? konst(64) : lo + (k == 0 ? 0 : k == 1 ? hi - lo : rnd() % (hi - lo + 1)); n.v[k] = v; m[k].v.push_back(v); } p.push_back(n); }
        unsigned cnt = 20 + pick(60);
        for (unsigned i = 0; i < cnt; ++i) {
            N n; N a = p[pick(2) ? p.size() - 1 - pick(std::min<size_t>(p.size(), 6)) : pick(p.size())]; unsigned w = a.e->w;
            auto same = [&](unsigned w) { std::vector<int> c; for (size_t j = 0; j < p.size(); ++j) if (p[j].e->w == w) c.push_back(j); N b; if (c.empty() || pick(3) == 0) { u64 k = konst(w); b.e = X.cst(k, w); for (int q = 0; q < K; ++q) b.v[q] = k; } else b = p[c[pick(c.size())]]; return b; };
            auto shamt = [&](unsigned w) { N b; for (int t = 0; t < 5; ++t) { b = same(w); if (b.e->hi < w) return b; } u64 k = pick(w); b.e = X.cst(k, w); for (int q = 0; q < K; ++q) b.v[q] = k; return b; };
            switch (pick(24)) {
            case 0: case 1: case 2: case 3: case 4: case 5: { static const Kind ks[] = {K_ADD, K_SUB, K_AND, K_OR, K_XOR, K_ADD, K_MUL, K_SUB}; Kind k = ks[pick(8)]; N b = same(w); if (k == K_MUL && b.e->k != K_CONST) k = K_ADD; if (pick(2)) std::swap(a, b); n.e = X.bin(k, a.e, b.e); for (int q = 0; q < K; ++q) n.v[q] = ExprCtx::op(k, w, a.v[q], b.v[q]); break; }
            case 6: case 7: case 8: { static const Kind ks[] = {K_EQ, K_ULT, K_SLT, K_SLT}; Kind k = ks[pick(4)]; N b = same(w); if (pick(2)) std::swap(a, b); n.e = X.bin(k, a.e, b.e); for (int q = 0; q < K; ++q) n.v[q] = ExprCtx::op(k, w, a.v[q], b.v[q]); break; }
            case 9: case 10: { if (w < 7) continue; static const Kind ks[] = {K_SHL, K_LSHR, K_ASHR}; Kind k = ks[pick(3)]; N b = shamt(w); n.e = X.bin(k, a.e, b.e); for (int q = 0; q < K; ++q) n.v[q] = ExprCtx::op(k, w, a.v[q], b.v[q]); break; }
            case 11: case 12: { N c = same(1), b = same(w); n.e = X.ite(c.e, a.e, b.e); for (int q = 0; q < K; ++q) n.v[q] = c.v[q] ? a.v[q] : b.v[q]; break; }
            case 13: case 14: case 15: { if (w == 1) continue; N b = same(w); if (pick(2)) { N t = a; u64 d = konst(w) & 63; if (pick(2)) d = 0 - d; b.e = X.bin(K_ADD, t.e, X.cst(d, w)); for (int q = 0; q < K; ++q) b.v[q] = (t.v[q] + d) & maskw(w); } if (pick(2)) std::swap(a, b); n.e = X.smin(a.e, b.e); for (int q = 0; q < K; ++q) n.v[q] = sextw(b.v[q], w) < sextw(a.v[q], w) ? b.v[q] : a.v[q]; break; }
            case 16: { unsigned nw = ws[pick(9)]; if (nw < w) { unsigned lo = pick(2) ? 0 : pick(w - nw + 1); n.e = X.extract(a.e, lo, nw); for (int q = 0; q < K; ++q) n.v[q] = (a.v[q] >> lo) & maskw(nw); } else if (pick(2)) { n.e = X.sext(a.e, nw); for (int q = 0; q < K; ++q) n.v[q] = (u64)sextw(a.v[q], w) & maskw(nw); } else { n.e = X.zext(a.e, nw); for (int q = 0; q < K; ++q) n.v[q] = a.v[q]; } break; }
            case 17: { n.e = X.lnot(same(1).e); N b = same(1); n.e = X.lnot(b.e); for (int q = 0; q < K; ++q) n.v[q] = !b.v[q]; break; }
            case 18: case 19: { if (w < 7) continue; Kind k = pick(3) ? K_CTPOP : pick(2) ? K_CTTZ : K_CTLZ; n.e = X.un(k, a.e); for (int q = 0; q < K; ++q) { u64 v = a.v[q]; n.v[q] = k == K_CTPOP ? __builtin_popcountll(v) : k == K_CTTZ ? (v ? __builtin_ctzll(v) : w) : (v ? __builtin_clzll(v) - (64 - w) : w); } break; }
            case 20: { N b = same(pick(2) ? 8 : 16); if (w + b.e->w > 64) continue; n.e = X.concat(a.e, b.e); for (int q = 0; q < K; ++q) n.v[q] = (a.v[q] << b.e->w) | b.v[q]; break; }
            case 21: { N s = shamt(64); Expr* one = X.cst(pick(2) ? 1 : ~u64(0), 64); u64 o = one->c; n.e = X.bin(K_SHL, one, s.e); for (int q = 0; q < K; ++q) n.v[q] = o << s.v[q]; if (pick(2)) { n.e = X.bin(K_ADD, n.e, X.cst(~u64(0), 64)); for (int q = 0; q < K; ++q) n.v[q] -= 1; } if (pick(2)) { n.e = X.bin(K_XOR, n.e, X.cst(~u64(0), 64)); for (int q = 0; q < K; ++q) n.v[q] = ~n.v[q]; } break; }
            case 22: { if (w < 7) continue; u64 d = 1 + pick(pick(2) ? 8 : 300); d &= maskw(w); if (!d) d = 1; Kind k = pick(2) ? K_UDIV : K_UREM; n.e = X.bin(k, a.e, X.cst(d, w)); for (int q = 0; q < K; ++q) n.v[q] = ExprCtx::op(k, w, a.v[q], d); break; }
            default: { if (w != 64) continue; n.e = X.bin(K_XOR, a.e, X.cst(~u64(0), 64)); for (int q = 0; q < K; ++q) n.v[q] = ~a.v[q]; break; }
            }
            ++nodes; Expr* e = n.e;
            for (int q = 0; q < K; ++q) { ev.begin(&m[q]); u64 g = ev.eval(e); u64 v = n.v[q]; bool f = !(v & e->k0) && (v & e->k1) == e->k1 && v >= e->lo && v <= e->hi && sextw(v, e->w) >= e->slo && sextw(v, e->w) <= e->shi;
                if (g != v || !f) { printf("MISMATCH round %lu node %u width %u: rewritten %lx, direct %lx, facts %s [%lx %lx] s[%ld %ld] k0 %lx k1 %lx\n%s\n", r, i, e->w, g, v, f ? "ok" : "WRONG", e->lo, e->hi, e->slo, e->shi, e->k0, e->k1, show(e, 12).c_str()); return 1; } }
            p.push_back(n);
        }
        // the circuit of every node, simulated
        Blaster B(X); std::vector<std::vector<Lit>> bits; for (N& n : p) bits.push_back(B.blast(n.e));
        for (int q = 0; q < K; ++q) { std::vector<char> v(B.nodes.size(), 0); std::vector<int> seen(m[q].v.size(), 0);
            for (size_t x = 0; x < m[q].v.size(); ++x) if (x < B.var_bits.size()) for (size_t i = 0; i < B.var_bits[x].size(); ++i) { Lit l = B.var_bits[x][i]; if (l > 1) v[l >> 1] = (m[q].v[x] >> i & 1) ^ (l & 1); }
            auto L = [&](Lit l) { return (char)(v[l >> 1] ^ (l & 1)); };
            for (size_t i = 1; i < B.nodes.size(); ++i) { Node& d = B.nodes[i]; switch (d.k) { case N_AND: v[i] = L(d.a) & L(d.b); break; case N_XOR: v[i] = L(d.a) ^ L(d.b); break; case N_MUX: v[i] = L(d.a) ? L(d.b) : L(d.c); break; case N_MAJ: v[i] = (L(d.a) + L(d.b) + L(d.c)) >= 2; break; default: break; } }
            for (size_t j = 0; j < p.size(); ++j) { u64 g = 0; for (size_t i = 0; i < bits[j].size(); ++i) g |= u64(L(bits[j][i])) << i; if (g != p[j].v[q]) { printf("CIRCUIT MISMATCH round %lu node %zu: %lx, direct %lx\n%s\n", r, j, g, p[j].v[q], show(p[j].e, 6).c_str()); return 1; } } }
    }
    printf("selftest: %lu rounds, %lu nodes, no mismatch\n", rounds, nodes); return 0;
}
