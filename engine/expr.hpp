// Word-level bit-vector expressions (hash-consed), known bits and intervals, concrete evaluation.
#pragma once
#include <stdint.h>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <cstdio>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

enum Kind : uint8_t { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_UREM, K_SDIV, K_SREM, K_AND, K_OR, K_XOR,
    K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_CTPOP, K_CTTZ, K_CTLZ, K_SELECT };
static const char* const kind_names[] = {"const","var","add","sub","mul","udiv","urem","sdiv","srem","and","or","xor",
    "shl","lshr","ashr","eq","ult","slt","ite","concat","extract","zext","sext","ctpop","cttz","ctlz","select"};

static inline uint64_t select_word(uint64_t x, uint64_t k) { // position of the k-th one; total: the circuit's value also for k >= popcount
    uint64_t pos = 0; for (unsigned h = 32; h >= 1; h /= 2) { uint64_t lo = x & ((uint64_t(1) << h) - 1); uint64_t c = (uint64_t)__builtin_popcountll(lo); if (k >= c) { pos += h; k -= c; x >>= h; } else x = lo; } return pos; }

struct Expr {
    Kind k; uint8_t nops; bool nw; uint16_t w; u32 id; u32 x; // x: extract low bit / variable index
    Expr* o[3];
    u64 c, ch;          // constant (low, high 64 bits)
    u64 k0, k1;         // bits known to be 0 / 1 (low 64 bits; only meaningful for w <= 64)
    u64 lo, hi;         // unsigned interval (w <= 64)
    i64 slo, shi;       // signed interval (w <= 64)
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~u64(0) : ((u64(1) << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }

struct VarInfo { std::string name; unsigned w; };

struct ExprCtx {
    std::vector<Expr*> all;
    std::vector<VarInfo> vars;
    struct Key { Kind k; uint16_t w; u32 x; Expr* a; Expr* b; Expr* d; u64 c, ch;
        bool operator==(Key const& r) const { return k==r.k&&w==r.w&&x==r.x&&a==r.a&&b==r.b&&d==r.d&&c==r.c&&ch==r.ch; } };
    struct KeyHash { size_t operator()(Key const& q) const {
        u64 h = q.k * 0x9E3779B97F4A7C15ULL + q.w;
        auto mix=[&](u64 v){ h ^= v + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdULL; h ^= h>>33; };
        mix(q.x); mix((u64)q.a>>4); mix((u64)q.b>>4); mix((u64)q.d>>4); mix(q.c); mix(q.ch); return h; } };
    std::unordered_map<Key, Expr*, KeyHash> tab;
    char* arena = 0; size_t arena_left = 0;

    Expr* alloc() {
        if (arena_left < sizeof(Expr)) { arena_left = sizeof(Expr) * 16384; arena = (char*)malloc(arena_left); }
        Expr* e = (Expr*)arena; arena += sizeof(Expr); arena_left -= sizeof(Expr); return e;
    }

    Expr* raw(Kind k, unsigned w, Expr* a = 0, Expr* b = 0, Expr* d = 0, u32 x = 0, u64 c = 0, u64 ch = 0) {
        Key key{k,(uint16_t)w,x,a,b,d,c,ch};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Expr* e = alloc();
        e->k = k; e->w = (uint16_t)w; e->x = x; e->o[0]=a; e->o[1]=b; e->o[2]=d; e->nops = d?3:b?2:a?1:0; e->nw=false;
        e->c = c; e->ch = ch; e->id = (u32)all.size(); all.push_back(e);
        facts(e);
        // everything known: it is a constant
        if (k != K_CONST && w <= 64 && ((e->k0 | e->k1) & maskw(w)) == maskw(w)) { Expr* r = cst(e->k1, w); tab[key] = r; return r; }
        if (k != K_CONST && w <= 64 && e->lo == e->hi) { Expr* r = cst(e->lo, w); tab[key] = r; return r; }
        tab[key] = e; return e;
    }

    void facts(Expr* e) {
        unsigned w = e->w; u64 m = maskw(w);
        e->k0 = e->k1 = 0; e->lo = 0; e->hi = m; e->slo = INT64_MIN; e->shi = INT64_MAX;
        if (w > 64) return;
        Expr *a = e->o[0], *b = e->o[1], *d = e->o[2];
        switch (e->k) {
        case K_CONST: e->k1 = e->c; e->k0 = ~e->c & m; e->lo = e->hi = e->c; e->slo=e->shi=sextw(e->c,w); return;
        case K_VAR: sfacts(e); return;
        case K_AND: e->k1 = a->k1 & b->k1; e->k0 = a->k0 | b->k0; e->hi = std::min(a->hi, b->hi); break;
        case K_OR: e->k1 = a->k1 | b->k1; e->k0 = a->k0 & b->k0; e->lo = std::max(a->lo, b->lo); break;
        case K_XOR: { u64 kn = (a->k0|a->k1)&(b->k0|b->k1); u64 v = a->k1 ^ b->k1; e->k1 = v & kn; e->k0 = ~v & kn & m; break; }
        case K_ADD: {
            // ripple with known carries
            u64 c0 = 1, c1 = 0, k0 = 0, k1 = 0; // carry known 0 / known 1
            for (unsigned i = 0; i < w; ++i) {
                bool a0=a->k0>>i&1,a1=a->k1>>i&1,b0=b->k0>>i&1,b1=b->k1>>i&1;
                int n0=a0+b0+(c0?1:0), n1=a1+b1+(c1?1:0);
                if (n0+n1==3) { if (n1&1) k1|=u64(1)<<i; else k0|=u64(1)<<i; }
                bool nc0 = n0>=2, nc1 = n1>=2; c0=nc0; c1=nc1;
            }
            e->k0=k0; e->k1=k1;
            if (a->hi <= m - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
            else if (a->lo > m - b->lo) { // always wraps exactly once
                e->lo = (a->lo + b->lo) & m; e->hi = (a->hi + b->hi) & m; }
            break; }
        case K_SUB: {
            unsigned tz = 0; while (tz < w && (a->k0>>tz&1) && (b->k0>>tz&1)) ++tz;
            e->k0 = tz ? maskw(tz) : 0;
            if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
            break; }
        case K_MUL: {
            unsigned ta=0,tb=0; while (ta<w && (a->k0>>ta&1)) ++ta; while (tb<w && (b->k0>>tb&1)) ++tb;
            unsigned t = std::min(w, ta+tb); e->k0 = t ? maskw(t) : 0;
            unsigned __int128 p = (unsigned __int128)a->hi * b->hi;
            if (p <= m) { e->lo = a->lo * b->lo; e->hi = (u64)p; }
            break; }
        case K_UDIV: if (b->lo) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
        case K_UREM: if (b->lo) { e->hi = std::min(a->hi, b->hi - 1); if (a->hi < b->lo) e->lo = a->lo; } break;
        case K_SHL:
            if (b->k == K_CONST && b->c < w) { unsigned s=(unsigned)b->c; e->k1=(a->k1<<s)&m; e->k0=((a->k0<<s)|maskw(s)*(s?1:0))&m;
                if (a->hi <= (m >> s)) { e->lo=a->lo<<s; e->hi=a->hi<<s; } }
            else { unsigned ta=0; while (ta<w && (a->k0>>ta&1)) ++ta; unsigned t = ta; if (b->lo + t < w) t += (unsigned)b->lo; else t = w; e->k0 = t ? maskw(t) : 0; }
            break;
        case K_LSHR:
            if (b->k == K_CONST && b->c < w) { unsigned s=(unsigned)b->c; e->k1=a->k1>>s; e->k0=(a->k0>>s)|(m & ~(m>>s)); e->lo=a->lo>>s; e->hi=a->hi>>s; }
            else { e->hi = b->lo < w ? a->hi >> b->lo : 0; u64 t = e->hi; unsigned n=0; while (t) { ++n; t>>=1; } e->k0 = m & ~maskw(n); if(!n) e->k0=m; }
            break;
        case K_ASHR:
            if (b->k == K_CONST && b->c < w) { unsigned s=(unsigned)b->c; u64 top = u64(1)<<(w-1);
                e->k1=a->k1>>s; e->k0=a->k0>>s; u64 fill = m & ~(m>>s);
                if (a->k0 & top) e->k0|=fill; else { e->k0&=~fill; } if (a->k1 & top) e->k1|=fill; else e->k1&=~fill;
            } break;
        case K_EQ: case K_ULT: case K_SLT: break;
        case K_ITE: e->k0=b->k0&d->k0; e->k1=b->k1&d->k1; e->lo=std::min(b->lo,d->lo); e->hi=std::max(b->hi,d->hi); break;
        case K_CONCAT: { unsigned wl=b->w; e->k0=(a->k0<<wl)|b->k0; e->k1=(a->k1<<wl)|b->k1; e->lo=(a->lo<<wl)|b->lo; e->hi=(a->hi<<wl)|b->hi; break; }
        case K_EXTRACT: { if (a->w <= 64) { e->k0=(a->k0>>e->x)&m; e->k1=(a->k1>>e->x)&m;
                if ((a->hi >> e->x) <= m) { e->lo=a->lo>>e->x; e->hi=a->hi>>e->x; } } break; }
        case K_ZEXT: e->k0=a->k0|(m&~maskw(a->w)); e->k1=a->k1; e->lo=a->lo; e->hi=a->hi; break;
        case K_SEXT: { u64 top=u64(1)<<(a->w-1); u64 fill=m&~maskw(a->w); e->k0=a->k0; e->k1=a->k1;
            if (a->k0&top) { e->k0|=fill; e->lo=a->lo; e->hi=a->hi; } else if (a->k1&top) { e->k1|=fill; e->lo=a->lo|fill; e->hi=a->hi|fill; } break; }
        case K_CTPOP: { unsigned mx = 0; u64 t = ~a->k0 & maskw(a->w); mx=(unsigned)__builtin_popcountll(t); e->lo=(unsigned)__builtin_popcountll(a->k1); e->hi=mx;
            if (a->k==K_AND) for (int i=0;i<2;++i) { Expr* q=a->o[i]; if (q->k==K_ADD && isc(q->o[1]) && q->o[1]->c==maskw(w) && q->o[0]->k==K_SHL && isc(q->o[0]->o[0],1) && q->o[0]->o[1]->hi<e->hi) e->hi=q->o[0]->o[1]->hi; }
            break; }
        case K_CTTZ: case K_CTLZ: e->hi = a->w; break;
        case K_SELECT: e->hi = 63; break;
        }
        // reconcile
        e->lo = std::max(e->lo, e->k1); e->hi = std::min(e->hi, m & ~e->k0);
        if (e->hi != m) { unsigned n = e->hi ? 64 - (unsigned)__builtin_clzll(e->hi) : 0; e->k0 |= m & ~maskw(n); if (!n) e->k0 = m; }
        if (e->lo > e->hi) { e->lo = e->k1; e->hi = m & ~e->k0; } // inconsistent facts cannot happen; stay safe
        sfacts(e);
        if (e->slo >= 0 && w > 1) { e->lo = std::max(e->lo,(u64)e->slo); e->hi = std::min(e->hi,(u64)e->shi); if (e->hi != m) { unsigned n = e->hi ? 64 - (unsigned)__builtin_clzll(e->hi) : 0; e->k0 |= m & ~maskw(n); if (!n) e->k0 = m; } }
    }
    static i64 smin_of(unsigned w) { return w>=64?INT64_MIN:-(i64(1)<<(w-1)); }
    static i64 smax_of(unsigned w) { return w>=64?INT64_MAX:(i64(1)<<(w-1))-1; }
    static bool sfits(__int128 lo, __int128 hi, unsigned w) { return lo>=smin_of(w) && hi<=smax_of(w); }
    void sfacts(Expr* e) {
        unsigned w=e->w; u64 t=u64(1)<<(w-1); Expr *a=e->o[0],*b=e->o[1],*d=e->o[2];
        if (e->hi<t) { e->slo=(i64)e->lo; e->shi=(i64)e->hi; } else if (e->lo>=t) { e->slo=sextw(e->lo,w); e->shi=sextw(e->hi,w); } else { e->slo=smin_of(w); e->shi=smax_of(w); }
        __int128 l=smin_of(w),h=smax_of(w);
        switch (e->k) {
        case K_ADD: { __int128 x=(__int128)a->slo+b->slo,y=(__int128)a->shi+b->shi; if (sfits(x,y,w)) { l=x; h=y; } break; }
        case K_SUB: { __int128 x=(__int128)a->slo-b->shi,y=(__int128)a->shi-b->slo; if (sfits(x,y,w)) { l=x; h=y; } break; }
        case K_ITE: l=std::min(b->slo,d->slo); h=std::max(b->shi,d->shi); break;
        case K_SEXT: l=a->slo; h=a->shi; break;
        case K_EXTRACT: if (e->x==0 && a->w<=64 && sfits(a->slo,a->shi,w)) { l=a->slo; h=a->shi; } break;
        case K_SHL: case K_MUL: if (isc(b)) { if (e->k==K_SHL ? b->c<24 : b->c<(1<<24)) { __int128 f=e->k==K_SHL?(__int128)1<<b->c:(__int128)b->c,x=a->slo*f,y=a->shi*f; if (sfits(x,y,w)) { l=x; h=y; } } } break;
        default: break; }
        if (l>e->slo) e->slo=(i64)l; if (h<e->shi) e->shi=(i64)h; if (e->slo>e->shi) { e->slo=smin_of(w); e->shi=smax_of(w); }
    }

    Expr* cst(u64 v, unsigned w, u64 ch = 0) {
        if (w <= 64) { v &= maskw(w); ch = 0; } else ch &= maskw(w - 64);
        return raw(K_CONST, w, 0, 0, 0, 0, v, ch);
    }
    Expr* tru() { return cst(1,1); }
    Expr* fls() { return cst(0,1); }
    Expr* var(std::string const& name, unsigned w) {
        vars.push_back({name, w});
        return raw(K_VAR, w, 0, 0, 0, (u32)vars.size() - 1);
    }
    Expr* var_range(std::string const& name, unsigned w, u64 lo, u64 hi) {
        Expr* e = var(name, w); // facts set once, before anyone uses it
        if (e->k != K_VAR) return e;
        e->lo = lo; e->hi = hi; unsigned n = hi ? 64-(unsigned)__builtin_clzll(hi) : 0; e->k0 = n ? maskw(w) & ~maskw(n) : maskw(w); e->slo=INT64_MIN; e->shi=INT64_MAX; sfacts(e);
        if (lo == hi) return cst(lo, w);
        return e;
    }
    static bool isc(Expr* e) { return e->k == K_CONST; }
    static bool isc(Expr* e, u64 v) { return e->k == K_CONST && e->c == v && e->ch == 0; }
    bool allones(Expr* e) { return e->k==K_CONST && (e->w<=64 ? e->c==maskw(e->w) : (e->c==~u64(0) && e->ch==maskw(e->w-64))); }

    // concrete semantics for w <= 64
    static u64 op(Kind k, unsigned w, u64 a, u64 b) {
        u64 m = maskw(w);
        switch (k) {
        case K_ADD: return (a+b)&m; case K_SUB: return (a-b)&m; case K_MUL: return (a*b)&m;
        case K_UDIV: return b ? a/b : m; case K_UREM: return b ? a%b : a;
        case K_SDIV: { i64 x=sextw(a,w),y=sextw(b,w); if(!y) return x<0?1:m; if (y==-1) return (0-a)&m; return (u64)(x/y)&m; }
        case K_SREM: { i64 x=sextw(a,w),y=sextw(b,w); if(!y) return a; if (y==-1) return 0; return (u64)(x%y)&m; }
        case K_AND: return a&b; case K_OR: return a|b; case K_XOR: return a^b;
        case K_SHL: return b>=w?0:(a<<b)&m; case K_LSHR: return b>=w?0:a>>b;
        case K_ASHR: { i64 x=sextw(a,w); return (u64)(b>=w? (x<0?-1:0) : (x>>b))&m; }
        case K_SELECT: return select_word(a,b); case K_EQ: return a==b; case K_ULT: return a<b; case K_SLT: return sextw(a,w)<sextw(b,w);
        default: abort();
        }
    }

    // ---- linear forms: sums of terms with coefficients modulo 2^w, kept in one canonical order
    static const u64 SUM_MAX = u64(1) << 32;
    static unsigned blen(u64 v) { return v ? 64-(unsigned)__builtin_clzll(v) : 1; }
    Expr* fitw(Expr* e, unsigned w) { return e->w==w ? e : e->w<w ? zext(e,w) : extract(e,0,w); }
    bool sub_exact(Expr* e) { return e->o[0]->lo>=e->o[1]->hi || e->nw; }
    struct Lin { std::vector<std::pair<Expr*,i64>> t; u64 c=0; bool ok=true; }; // signed coefficients; constant modulo 2^64
    // exact: only steps through which the integer value (not just the residue) is the sum of its parts
    void lcollect(Expr* e, i64 f, unsigned w, bool exact, Lin& L) {
        if (!L.ok) return;
        if (e->k==K_ZEXT) { exact=true; while (e->k==K_ZEXT) e=e->o[0]; }
        if (e->w>64) { L.ok=false; return; }
        if (e->w<w) exact=true;
        if (isc(e)) { if (exact && w==64 && e->c>=(u64(1)<<40)) { L.ok=false; return; } L.c+=(u64)f*e->c; return; }
        u64 m=maskw(e->w);
        if (e->k==K_ADD && (!exact || e->o[0]->hi<=m-e->o[1]->hi)) { lcollect(e->o[0],f,w,exact,L); lcollect(e->o[1],f,w,exact,L); return; }
        if (exact && e->k==K_ADD && isc(e->o[1]) && (e->o[1]->c>>(e->w-1)&1) && e->o[0]->lo>=((0-e->o[1]->c)&m)) { lcollect(e->o[0],f,w,exact,L); L.c+=(u64)f*(u64)sextw(e->o[1]->c,e->w); return; }
        if (e->k==K_SUB && (!exact || sub_exact(e))) { lcollect(e->o[0],f,w,exact,L); lcollect(e->o[1],-f,w,exact,L); return; }
        if ((e->k==K_SHL||e->k==K_MUL) && isc(e->o[1]) && e->o[0]->hi<=(m>>12)) { u64 q=e->k==K_SHL?(e->o[1]->c<12?u64(1)<<e->o[1]->c:0):e->o[1]->c; if (q&&q<=4096&&(f<0?-f:f)*(i64)q<=(i64(1)<<24)) { lcollect(e->o[0],f*(i64)q,w,exact,L); return; } }
        if (e->k==K_CONCAT && isc(e->o[1],0) && e->o[1]->w<=12 && (f<0?-f:f)<=4096) { lcollect(e->o[0],f*(i64(1)<<e->o[1]->w),w,true,L); return; }
        if (e->k==K_ITE && isc(e->o[1]) && isc(e->o[2]) && e->w>1) { i64 df=exact?(i64)(e->o[1]->c-e->o[2]->c):sextw((e->o[1]->c-e->o[2]->c)&m,e->w); if (df>=-4096&&df<=4096&&(f<0?-f:f)<=4096&&(!exact||e->hi<(u64(1)<<40))) { L.t.push_back({e->o[0],f*df}); L.c+=(u64)f*e->o[2]->c; return; } }
        L.t.push_back({e,f}); if (L.t.size()>400) L.ok=false;
    }
    // the signed integer value of e as a sum of unsigned values of terms
    void scollect(Expr* e, i64 f, Lin& L) {
        if (!L.ok) return; unsigned w=e->w; if (w>64||(f<0?-f:f)>(1<<20)) { L.ok=false; return; }
        if (isc(e)) { i64 v=sextw(e->c,w); if (v>(i64(1)<<40)||v<-(i64(1)<<40)) { L.ok=false; return; } L.c+=(u64)(f*v); return; }
        if (e->k==K_SEXT) { scollect(e->o[0],f,L); return; }
        if (e->k==K_ZEXT && e->o[0]->slo>=0 && e->o[0]->w>1) { scollect(e->o[0],f,L); return; }
        if (e->k==K_ADD && sfits((__int128)e->o[0]->slo+e->o[1]->slo,(__int128)e->o[0]->shi+e->o[1]->shi,w)) { scollect(e->o[0],f,L); scollect(e->o[1],f,L); return; }
        if (e->k==K_SUB && sfits((__int128)e->o[0]->slo-e->o[1]->shi,(__int128)e->o[0]->shi-e->o[1]->slo,w)) { scollect(e->o[0],f,L); scollect(e->o[1],-f,L); return; }
        if ((e->k==K_SHL||e->k==K_MUL) && isc(e->o[1])) { u64 q=e->k==K_SHL?(e->o[1]->c<12?u64(1)<<e->o[1]->c:0):e->o[1]->c; if (q&&q<=4096&&sfits((__int128)e->o[0]->slo*q,(__int128)e->o[0]->shi*q,w)) { scollect(e->o[0],f*(i64)q,L); return; } }
        if (e->k==K_CONCAT && isc(e->o[1],0) && e->o[1]->w<=12 && e->slo>=0 && (f<0?-f:f)<=4096) { unsigned s=e->o[1]->w; if (e->o[0]->slo>=0 && e->o[0]->w>1) { scollect(e->o[0],f*(i64(1)<<s),L); return; } }
        if (e->k==K_ITE && isc(e->o[1]) && isc(e->o[2])) { i64 x=sextw(e->o[1]->c,w),y=sextw(e->o[2]->c,w); if (x-y>=-4096&&x-y<=4096&&y>-(i64(1)<<40)&&y<(i64(1)<<40)) { L.t.push_back({e->o[0],f*(x-y)}); L.c+=(u64)(f*y); return; } }
        if (e->slo>=0) { Expr* t=e; while (t->k==K_ZEXT) t=t->o[0]; L.t.push_back({t,f}); }
        else { if (e->slo<-(i64(1)<<40)||e->shi>(i64(1)<<40)) { L.ok=false; return; } L.t.push_back({raw(K_ADD,64,sext(e,64),cst((u64)-e->slo,64)),f}); L.c+=(u64)(f*e->slo); }
        if (L.t.size()>400) L.ok=false;
    }
    // ---- minima of several candidates
    std::unordered_map<Expr*,std::vector<Expr*>> minl;
    static bool pmin(Expr* x, Expr* y) { return x==y; }
    Expr* smin(Expr* a, Expr* b) {
        auto lv=[&](Expr* e){ auto it=minl.find(e); return it!=minl.end()?it->second:std::vector<Expr*>{e}; };
        std::vector<Expr*> la=lv(a),lb=lv(b),out=la; bool changed=false;
        for (Expr* l:lb) { bool drop=false; for (size_t i=0;i<out.size()&&!drop;) { if (out[i]==l) { drop=true; break; } Expr* r=bin(K_SLT,l,out[i]); if (isc(r)) { if (r->c) { out.erase(out.begin()+i); changed=true; continue; } drop=true; break; } Expr* q=bin(K_SLT,out[i],l); if (isc(q)) { if (q->c) drop=true; else { out.erase(out.begin()+i); changed=true; continue; } } ++i; } if (!drop) { out.push_back(l); changed=true; } }
        if (!changed) return a; if (out.size()==1) return out[0];
        Expr* acc=out[0]; std::vector<Expr*> cur{acc}; for (size_t i=1;i<out.size();++i) { Expr* c=slt_raw(out[i],acc); if (isc(c)) { if (c->c) { acc=out[i]; cur.assign(1,acc); } continue; } acc=raw(K_ITE,a->w,c,out[i],acc); cur.push_back(out[i]); if (acc->k==K_ITE && out.size()<=48) { bool older=true; for (Expr* x:cur) older&=x->id<acc->id; if (older) minl.emplace(acc,cur); } }
        return acc;
    }
    Expr* slt_raw(Expr* a, Expr* b) { if (a==b) return fls(); if (a->shi<b->slo) return tru(); if (a->slo>=b->shi) return fls(); u64 t=u64(1)<<(a->w-1); if ((a->k0&t)&&(b->k0&t)) return bin(K_ULT,a,b); return raw(K_SLT,1,a,b); }
    void lnorm(Lin& L) {
        std::sort(L.t.begin(),L.t.end(),[](auto& x, auto& y){ return x.first->id<y.first->id; });
        size_t j=0; for (size_t i=0;i<L.t.size();) { Expr* e=L.t[i].first; i64 f=0; while (i<L.t.size()&&L.t[i].first==e) f+=L.t[i++].second; if (f) L.t[j++]={e,f}; } L.t.resize(j);
    }
    // sum of f*e over the terms of one sign, plus a non-negative constant, at width w (modulo 2^w); *exact tells whether it cannot wrap
    Expr* lside(Lin const& L, int sign, u64 c, unsigned w, bool* exact) {
        unsigned __int128 hi=c; for (auto& p:L.t) if ((p.second>0)==(sign>0)) hi+=(unsigned __int128)(u64)(p.second<0?-p.second:p.second)*p.first->hi;
        bool ex=hi<=maskw(w); if (exact) *exact=ex; bool narrow=ex && hi<SUM_MAX; Expr* acc=0; u64 h=0;
        for (auto& p:L.t) if ((p.second>0)==(sign>0)) { u64 f=(u64)(p.second<0?-p.second:p.second); unsigned ww=w;
            Expr* term=p.first; u64 th=0; if (narrow) { th=f*term->hi; ww=std::min(w,blen(th)); }
            Expr* te=fitw(term,ww); if (f!=1) te=(f&(f-1))==0?raw(K_SHL,ww,te,cst((u64)__builtin_ctzll(f),ww)):raw(K_MUL,ww,te,cst(f,ww));
            if (!acc) { acc=te; h=th; } else { h+=th; if (narrow) ww=std::min(w,blen(h)); else ww=w; acc=raw(K_ADD,ww,fitw(acc,ww),fitw(te,ww)); if (narrow) h=std::min(h,acc->hi); }
            if (isc(acc)) { c+=acc->c; acc=0; h=0; } }
        if (!acc) return cst(c,w);
        if (c) { unsigned ww=w; if (narrow) ww=std::min(w,blen(acc->hi+c)); acc=raw(K_ADD,ww,fitw(acc,ww),cst(c,ww)); }
        return fitw(acc,w);
    }
    Expr* lbuild(Lin& L, unsigned w) {
        bool neg=false; for (auto& p:L.t) neg|=p.second<0; u64 c=L.c&maskw(w); bool cneg=w>1 && (c>>(w-1)&1);
        bool pos=false; for (auto& p:L.t) pos|=p.second>0;
        if (!neg) { if (!cneg || !pos) return lside(L,1,c,w,0); // all positive, constant negative
            Expr* s=lside(L,1,0,w,0); return raw(K_ADD,w,s,cst(c,w)); }
        Expr* P=lside(L,1,cneg?0:c,w,0); Expr* N=lside(L,-1,0,w,0); if (isc(P)&&isc(N)) return cst(P->c-N->c+(cneg?c:0),w); Expr* r=isc(N,0)?P:raw(K_SUB,w,P,N); if (cneg) r=raw(K_ADD,w,r,cst(c,w)); return r;
    }
    static bool sane(Expr* e) { return e->slo>-(i64(1)<<40) && e->shi<(i64(1)<<40); }
    static bool slin(Expr* e) { while (e->k==K_SEXT||e->k==K_ZEXT) e=e->o[0]; return e->k==K_ADD||e->k==K_SUB||(e->k==K_ITE&&isc(e->o[1])&&isc(e->o[2])); }
    static bool linish(Expr* e) { while (e->k==K_ZEXT) e=e->o[0]; return e->k==K_ADD||e->k==K_SUB; }

    int depth = 0; struct Deep { int& d; Deep(int& x) : d(x) { ++d; } ~Deep() { --d; } };
    Expr* bin(Kind k, Expr* a, Expr* b, bool nolin=false) {
        Deep dd(depth); if (depth > 3000) { if (depth == 3001) fprintf(stderr, "rewrite depth: %s\n", kind_names[k]); return raw(k, (k==K_EQ||k==K_ULT||k==K_SLT)?1:a->w, a, b); }
        if (k==K_SUB && a->w<=64 && !(isc(a)&&isc(b))) for (int i=0;i<2;++i) { // fields that cannot borrow from each other
            Expr* q=i?b:a; if (q->k!=K_CONCAT || isc(q->o[1])) continue; unsigned s=q->o[1]->w; Expr *la=extract(a,0,s),*lb=extract(b,0,s); if (la->lo<lb->hi) continue; return concat(bin(K_SUB,extract(a,s,a->w-s),extract(b,s,a->w-s)),bin(K_SUB,la,lb)); }
        if (!nolin && a->w<=64 && a->w>1 && !(isc(a)&&isc(b)) && a!=b) {
            unsigned lw=a->w;
            if ((k==K_ADD||k==K_SUB) && !minl.empty()) for (int i=0;i<(k==K_ADD?2:1);++i) { Expr *p=i?b:a,*q=i?a:b; auto it=minl.find(p); if (it==minl.end()||it->second.size()>24||minl.count(q)) continue; bool ok=true; for (Expr* x:it->second) ok&=k==K_ADD?sfits((__int128)x->slo+q->slo,(__int128)x->shi+q->shi,lw):sfits((__int128)x->slo-q->shi,(__int128)x->shi-q->slo,lw); if (!ok) continue;
                std::vector<Expr*> l=it->second; Expr* r=bin(k,l[0],q); for (size_t j=1;j<l.size();++j) r=smin(r,bin(k,l[j],q)); return r; }
            if (k==K_ADD||k==K_SUB) { Lin L; lcollect(a,1,lw,false,L); lcollect(b,k==K_ADD?1:-1,lw,false,L); if (L.ok) { lnorm(L); return lbuild(L,lw); } }
            else if (k==K_SLT && a->shi>=b->slo && a->slo<b->shi) {
                auto ib=minl.find(b); if (ib!=minl.end()) { std::vector<Expr*> l=ib->second; Expr* r=tru(); for (Expr* x:l) { r=land(r,bin(K_SLT,a,x)); if (isc(r,0)) break; } return r; }
                auto ia=minl.find(a); if (ia!=minl.end()) { std::vector<Expr*> l=ia->second; Expr* r=fls(); for (Expr* x:l) { r=lor(r,bin(K_SLT,x,b)); if (isc(r,1)) break; } return r; }
                if ((sane(a)&&sane(b)) && (slin(a)||slin(b))) { Lin L; scollect(a,1,L); scollect(b,-1,L);
                if (L.ok) { lnorm(L); i64 c=(i64)L.c; if (c>-(i64(1)<<60)&&c<(i64(1)<<60)) { bool e1,e2; Expr* P=lside(L,1,c>0?(u64)c:0,64,&e1); Expr* N=lside(L,-1,c<0?(u64)-c:0,64,&e2); if (e1&&e2) { unsigned ww=blen(std::max(P->hi,N->hi)); P=fitw(P,ww); N=fitw(N,ww); return bin(K_ULT,P,N,true); } } } } }
            else if (k==K_EQ && (linish(a)||linish(b))) { Lin L; lcollect(a,1,lw,false,L); lcollect(b,-1,lw,false,L);
                if (L.ok) { lnorm(L); u64 c=L.c&maskw(lw); bool cneg=c>>(lw-1)&1; bool e1,e2; Expr* P=lside(L,1,cneg?0:c,lw,&e1); Expr* N=lside(L,-1,cneg?(0-c)&maskw(lw):0,lw,&e2);
                    if (e1&&e2) { unsigned ww=blen(std::max(P->hi,N->hi)); if (ww<lw) { P=fitw(P,ww); N=fitw(N,ww); } } return bin(K_EQ,P,N,true); } }
            else if (k==K_ULT && (linish(a)||linish(b))) { Lin L; lcollect(a,1,lw,true,L); lcollect(b,-1,lw,true,L); 
                if (L.ok) { lnorm(L); i64 c=(i64)L.c; bool small=c>-(i64(1)<<60)&&c<(i64(1)<<60); if (small) { bool e1,e2; Expr* P=lside(L,1,c>0?(u64)c:0,64,&e1); Expr* N=lside(L,-1,c<0?(u64)-c:0,64,&e2); if (e1&&e2) { unsigned ww=blen(std::max(P->hi,N->hi)); P=fitw(P,ww); N=fitw(N,ww); return bin(K_ULT,P,N,true); } } } }
        }
        unsigned w = a->w; assert(a->w == b->w);
        if (k==K_OR && w<=64) for (int i=0;i<2;++i) { Expr *p=i?b:a,*q=i?a:b; if (p->k==K_SHL && isc(p->o[1]) && p->o[1]->c<w && p->o[1]->c>0) { unsigned s=(unsigned)p->o[1]->c; if ((q->k0>>s)==(maskw(w)>>s)) return concat(extract(p->o[0],0,w-s),extract(q,0,s)); } }
        if ((k==K_AND||k==K_OR||k==K_XOR) && w<=64 && !isc(a) && !isc(b) && a!=b) for (int i=0;i<2;++i) { Expr *p=i?b:a,*q=i?a:b; if (p->k==K_CONCAT && (q->k==K_CONCAT||(q->k==K_XOR&&isc(q->o[1])))) { unsigned s=p->o[1]->w; return concat(bin(k,extract(p,s,w-s),extract(q,s,w-s)),bin(k,extract(p,0,s),extract(q,0,s))); } }
        if ((k==K_AND||k==K_OR||k==K_XOR) && w<=64) { if (isc(a)&&!isc(b)) std::swap(a,b); if (isc(b) && a->k==K_CONCAT) { unsigned wl=a->o[1]->w; return concat(bin(k,a->o[0],cst(b->c>>wl,w-wl)),bin(k,a->o[1],cst(b->c,wl))); } }
        if (isc(a) && isc(b) && w <= 64) return cst(op(k, w, a->c, b->c), (k==K_EQ||k==K_ULT||k==K_SLT)?1:w);
        switch (k) {
        case K_SELECT: break;
        case K_ADD:
            if (isc(a)) std::swap(a,b);
            if (isc(b,0)) return a;
            if (isc(b) && w<=64) {
                if (a->k==K_ADD && isc(a->o[1])) return bin(K_ADD, a->o[0], cst(a->o[1]->c + b->c, w));
                if (a->k==K_ITE && isc(a->o[1]) && isc(a->o[2])) return ite(a->o[0], bin(K_ADD,a->o[1],b), bin(K_ADD,a->o[2],b));
            }
            if (!isc(b) && a->id > b->id) std::swap(a,b);
            if (a->k==K_SUB && isc(a->o[0],0) && w<=64) return bin(K_SUB,b,a->o[1]);
            if (b->k==K_SUB && isc(b->o[0],0) && w<=64) return bin(K_SUB,a,b->o[1]);
            if (a->k==K_SUB && a->o[1]==b) return a->o[0];
            if (b->k==K_SUB && b->o[1]==a) return b->o[0];
            if (w<=64 && !isc(b)) { // float constants outwards
                if (a->k==K_ADD && isc(a->o[1])) return bin(K_ADD, bin(K_ADD, a->o[0], b), a->o[1]);
                if (b->k==K_ADD && isc(b->o[1])) return bin(K_ADD, bin(K_ADD, a, b->o[0]), b->o[1]);
            }
            break;
        case K_SUB:
            if (a==b) return cst(0,w);
            if (isc(b) && w<=64) return bin(K_ADD, a, cst(0-b->c, w));
            if (a->k==K_ADD) { if (a->o[0]==b) return a->o[1]; if (a->o[1]==b) return a->o[0]; }
            if (b->k==K_ADD && w<=64) { if (b->o[0]==a) return bin(K_SUB,cst(0,w),b->o[1]); if (b->o[1]==a) return bin(K_SUB,cst(0,w),b->o[0]); }
            if (w<=64 && a->k==K_ADD && isc(a->o[1])) { 
                if (b->k==K_ADD && isc(b->o[1])) return bin(K_ADD, bin(K_SUB,a->o[0],b->o[0]), cst(a->o[1]->c - b->o[1]->c, w));
                return bin(K_ADD, bin(K_SUB,a->o[0],b), a->o[1]); }
            if (w<=64 && b->k==K_ADD && isc(b->o[1])) return bin(K_ADD, bin(K_SUB,a,b->o[0]), cst(0-b->o[1]->c,w));
            break;
        case K_MUL:
            if (isc(a)) std::swap(a,b);
            if (isc(b,0)) return b;
            if (isc(b,1)) return a;
            if (isc(b) && w<=64 && (b->c & (b->c-1))==0) return bin(K_SHL, a, cst((u64)__builtin_ctzll(b->c), w));
            if (isc(b) && w<=64 && a->k==K_MUL && isc(a->o[1])) return bin(K_MUL, a->o[0], cst(a->o[1]->c*b->c, w));
            // field-wise prefix sums: a * 0x0101...01 (8-bit fields) or the 9-bit analogue, when no field can overflow
            if (w==64 && isc(b)) for (int sg=0;sg<2;++sg) { u64 cc=sg?0-b->c:b->c; unsigned st=0,nf=0; if (cc==0x0101010101010101ULL) { st=8; nf=8; } else if (cc==0x0040201008040201ULL) { st=9; nf=7; } if (!st) continue;
                u64 tot=0; for (unsigned i=0;i<nf;++i) tot+=(~a->k0>>(st*i))&maskw(st); bool top0 = st*nf>=64 || (a->k0>>(st*nf))==(maskw(64)>>(st*nf));
                if (!top0 || tot>maskw(st)) continue;
                // a field i contributes to every field >= i; with 9-bit fields bit 63 receives field 1.. shifted out of the top, low bit only
                Expr* by[8]; for (unsigned i=0;i<nf;++i) by[i]=extract(a,st*i,st); Expr* acc=by[0]; Expr* r=acc; for (unsigned i=1;i<nf;++i) { acc=bin(K_ADD,acc,by[i]); r=concat(acc,r); }
                if (st*nf<64) { Expr* t=cst(0,st); for (unsigned i=1;i<nf;++i) t=bin(K_ADD,t,by[i]); r=concat(extract(t,0,64-st*nf),r); }
                return sg?bin(K_SUB,cst(0,64),r):r; }
            if (!isc(b) && a->id > b->id) std::swap(a,b);
            break;
        case K_UDIV:
            if (isc(b,1)) return a;
            if (isc(b) && w<=64 && b->c && (b->c&(b->c-1))==0) return bin(K_LSHR, a, cst((u64)__builtin_ctzll(b->c), w));
            break;
        case K_UREM:
            if (isc(b,1)) return cst(0,w);
            if (isc(b) && w<=64 && b->c && (b->c&(b->c-1))==0) return bin(K_AND, a, cst(b->c-1, w));
            break;
        case K_AND:
            if (isc(a)) std::swap(a,b);
            if (a==b) return a;
            if (isc(b,0)) return b; if (allones(b)) return a;
            if (w<=64) { if (isc(b) && ((b->c | a->k0) & maskw(w)) == maskw(w)) return a;
                if (isc(b) && a->k==K_AND && isc(a->o[1])) return bin(K_AND, a->o[0], cst(a->o[1]->c & b->c, w));
                if (isc(b)) { u64 c=b->c; if ((c&(c+1))==0) { unsigned n=(unsigned)__builtin_popcountll(c); return zext(extract(a,0,n), w); } } 
                if ((~a->k0 & maskw(w) & ~b->k1)==0) return a;
                if ((~b->k0 & maskw(w) & ~a->k1)==0) return b;
                for (int i=0;i<2;++i) { Expr *p=i?b:a,*q=i?a:b; if (p->k==K_XOR && allones(p->o[1]) && p->o[0]->k==K_AND) { Expr* t=p->o[0]; if (t->o[0]==q) return bin(K_AND,bin(K_XOR,t->o[1],p->o[1]),q); if (t->o[1]==q) return bin(K_AND,bin(K_XOR,t->o[0],p->o[1]),q); }
                    if (p->k==K_AND && (p->o[0]==q||p->o[1]==q)) return p; } }
            if (!isc(b) && a->id > b->id) std::swap(a,b);
            break;
        case K_OR:
            if (isc(a)) std::swap(a,b);
            if (a==b) return a;
            if (isc(b,0)) return a; if (allones(b)) return b;
            if (w<=64) { if ((~b->k0 & maskw(w) & ~a->k1)==0) return a; if ((~a->k0 & maskw(w) & ~b->k1)==0) return b; }
            if (w==64 && !isc(b)) for (int i=0;i<2;++i) { Expr *p=i?b:a,*q=i?a:b; if (p->k==K_XOR && allones(p->o[1])) { Expr* nq=bin(K_XOR,q,p->o[1]); return bin(K_XOR,bin(K_AND,p->o[0],nq),p->o[1]); } }
            if (!isc(b) && a->id > b->id) std::swap(a,b);
            break;
        case K_XOR:
            if (isc(a)) std::swap(a,b);
            if (a==b) return cst(0,w);
            if (isc(b,0)) return a;
            if (isc(b) && w<=64 && a->k==K_XOR && isc(a->o[1])) return bin(K_XOR, a->o[0], cst(a->o[1]->c ^ b->c, w));
            if (w==64 && allones(b)) { if (a->k==K_SHL && allones(a->o[0]) && a->o[1]->hi<64) return bin(K_ADD,bin(K_SHL,cst(1,64),a->o[1]),b);
                if (a->k==K_ADD && allones(a->o[1]) && a->o[0]->k==K_SHL && isc(a->o[0]->o[0],1) && a->o[0]->o[1]->hi<64) return bin(K_SHL,b,a->o[0]->o[1]); }
            if (!isc(b) && a->id > b->id) std::swap(a,b);
            break;
        case K_SHL: case K_LSHR:
            if (isc(b,0)) return a; if (isc(a,0)) return a;
            if (a->k==k && w<=64 && !(isc(b)&&isc(a->o[1])) && a->o[1]->hi<=255 && b->hi<=255 && w>=9) return bin(k,a->o[0],bin(K_ADD,a->o[1],b));
            if (isc(b) && w<=64) { if (b->c >= w) return cst(0,w);
                if (a->k==k && isc(a->o[1])) { u64 t=a->o[1]->c+b->c; return t>=w?cst(0,w):bin(k,a->o[0],cst(t,w)); }
                if (k==K_LSHR) return zext(extract(a,(unsigned)b->c,w-(unsigned)b->c), w); }
            break;
        case K_ASHR:
            if (isc(b,0)) return a; if (isc(a,0)) return a;
            if (w<=64 && (a->k0>>(w-1)&1)) return bin(K_LSHR,a,b);
            break;
        case K_EQ:
            if (a==b) return tru();
            if (isc(a)) std::swap(a,b);
            if (w<=64) {
                if ((a->k0&b->k1)||(a->k1&b->k0)) return fls();
                if (a->hi<b->lo || b->hi<a->lo) return fls();
                if (w==1) { if (isc(b,1)) return a; if (isc(b,0)) return lnot(a); }
                if (isc(b)) {
                    if (a->k==K_ADD && isc(a->o[1])) return bin(K_EQ,a->o[0],cst(b->c-a->o[1]->c,w),nolin);
                    if (a->k==K_XOR && isc(a->o[1])) return bin(K_EQ,a->o[0],cst(b->c^a->o[1]->c,w),nolin);
                    if (a->k==K_ZEXT) return bin(K_EQ,a->o[0],cst(b->c,a->o[0]->w),nolin);
                    if (a->k==K_SEXT) { u64 n=b->c&maskw(a->o[0]->w); if (((u64)sextw(n,a->o[0]->w)&maskw(w))!=b->c) return fls(); return bin(K_EQ,a->o[0],cst(n,a->o[0]->w),nolin); }
                    if (a->k==K_ITE && isc(a->o[1]) && isc(a->o[2])) { bool t=a->o[1]->c==b->c,f=a->o[2]->c==b->c; if(t&&f) return tru(); if(!t&&!f) return fls(); return t?a->o[0]:lnot(a->o[0]); }
                }
                if (a->k==K_ZEXT && b->k==K_ZEXT && a->o[0]->w==b->o[0]->w) return bin(K_EQ,a->o[0],b->o[0],nolin);
            }
            if (!isc(b) && a->id > b->id) std::swap(a,b);
            return raw(K_EQ,1,a,b);
        case K_ULT:
            if (a==b) return fls();
            if (w<=64) { if (a->hi<b->lo) return tru(); if (a->lo>=b->hi) return fls();
                if (isc(b,1)) return bin(K_EQ,a,cst(0,w),nolin);
                if (isc(a,0)) return lnot(bin(K_EQ,b,cst(0,w),nolin));
                if (w==1) return bin(K_AND, lnot(a), b);
                if (a->k==K_ZEXT && b->k==K_ZEXT && a->o[0]->w==b->o[0]->w) return bin(K_ULT,a->o[0],b->o[0],nolin);
                if (a->k==K_ZEXT && isc(b)) { if (b->c>maskw(a->o[0]->w)) return tru(); return bin(K_ULT,a->o[0],cst(b->c,a->o[0]->w),nolin); }
                if (b->k==K_ZEXT && isc(a)) { if (a->c>=maskw(b->o[0]->w)) return fls(); return bin(K_ULT,cst(a->c,b->o[0]->w),b->o[0],nolin); }
            }
            return raw(K_ULT,1,a,b);
        case K_SLT:
            if (a==b) return fls();
            if (w<=64) { u64 t=u64(1)<<(w-1); if ((a->k0&t)&&(b->k0&t)) return bin(K_ULT,a,b); if ((a->k1&t)&&(b->k1&t)) return bin(K_ULT,a,b);
                if ((a->k1&t)&&(b->k0&t)) return tru(); if ((a->k0&t)&&(b->k1&t)) return fls();
                if (isc(b,0)) return extract(a,w-1,1); }
            return raw(K_SLT,1,a,b);
        default: break;
        }
        return raw(k, w, a, b);
    }
    Expr* lnot(Expr* a) {
        if (isc(a)) return cst(!a->c,1);
        if (a->k==K_XOR && isc(a->o[1],1)) return a->o[0];
        return raw(K_XOR, 1, a, cst(1,1));
    }
    Expr* land(Expr* a, Expr* b) { return bin(K_AND,a,b); }
    Expr* lor(Expr* a, Expr* b) { return bin(K_OR,a,b); }
    Expr* ite(Expr* c, Expr* a, Expr* b) {
        assert(c->w==1 && a->w==b->w);
        if (isc(c)) return c->c ? a : b;
        if (a==b) return a;
        if (c->k==K_XOR && isc(c->o[1],1)) return ite(c->o[0], b, a);
        if (a->w==1) {
            if (isc(a) && isc(b)) return a->c ? c : lnot(c);
            if (isc(a)) return a->c ? lor(c,b) : land(lnot(c),b);
            if (isc(b)) return b->c ? lor(lnot(c),a) : land(c,a);
        }
        if (c->k==K_SLT && a->w>1 && a->w<=64 && c->o[0]==a && c->o[1]==b) return smin(b,a);
        if (a->k==K_ITE && a->o[0]==c) a=a->o[1];
        if (b->k==K_ITE && b->o[0]==c) b=b->o[2];
        if (a==b) return a;
        return raw(K_ITE, a->w, c, a, b);
    }
    Expr* extract(Expr* a, unsigned lo, unsigned n) {
        assert(lo+n<=a->w && n>0);
        if (lo==0 && n==a->w) return a;
        if (isc(a)) { if (a->w<=64) return cst(a->c>>lo, n);
            unsigned __int128 v=((unsigned __int128)a->ch<<64)|a->c; v>>=lo; return cst((u64)v,n,(u64)(v>>64)); }
        switch (a->k) {
        case K_EXTRACT: return extract(a->o[0], a->x+lo, n);
        case K_ZEXT: { unsigned iw=a->o[0]->w; if (lo>=iw) return cst(0,n); if (lo+n<=iw) return extract(a->o[0],lo,n); return zext(extract(a->o[0],lo,iw-lo),n); }
        case K_SEXT: { unsigned iw=a->o[0]->w; if (lo+n<=iw) return extract(a->o[0],lo,n); break; }
        case K_CONCAT: { unsigned wl=a->o[1]->w; if (lo+n<=wl) return extract(a->o[1],lo,n); if (lo>=wl) return extract(a->o[0],lo-wl,n);
            return concat(extract(a->o[0],0,lo+n-wl), extract(a->o[1],lo,wl-lo)); }
        case K_SHL: if (isc(a->o[1]) && a->w<=64) { unsigned s=(unsigned)a->o[1]->c; if (lo>=s) return extract(a->o[0],lo-s,n); if (lo+n<=s) return cst(0,n); } break;
        case K_AND: case K_OR: case K_XOR: if (isc(a->o[1]) || n==1) return bin(a->k, extract(a->o[0],lo,n), extract(a->o[1],lo,n)); break;
        case K_ITE: if (isc(a->o[1]) || isc(a->o[2])) return ite(a->o[0], extract(a->o[1],lo,n), extract(a->o[2],lo,n)); break;
        case K_ADD: case K_SUB: case K_MUL: if (lo==0 && n<a->w && a->w<=64) return bin(a->k, extract(a->o[0],0,n), extract(a->o[1],0,n)); break;
        default: break;
        }
        return raw(K_EXTRACT, n, a, 0, 0, lo);
    }
    Expr* concat(Expr* a, Expr* b) { // a high, b low
        unsigned w=a->w+b->w;
        if (isc(a) && isc(b)) { unsigned __int128 v=((unsigned __int128)a->ch<<64)|a->c, l=((unsigned __int128)b->ch<<64)|b->c; v=(v<<b->w)|l; return cst((u64)v,w,(u64)(v>>64)); }
        if (isc(a,0)) return zext(b,w);
        if (a->k==K_EXTRACT && b->k==K_EXTRACT && a->o[0]==b->o[0] && a->x==b->x+b->w) return extract(a->o[0], b->x, w);
        if (a->k==K_ZEXT && a->o[0]->k==K_EXTRACT && b->k==K_EXTRACT && a->o[0]->o[0]==b->o[0] && a->o[0]->x==b->x+b->w) return zext(concat(a->o[0],b),w);
        if (b->k==K_CONCAT && a->k==K_EXTRACT && b->o[0]->k==K_EXTRACT && a->o[0]==b->o[0]->o[0] && a->x==b->o[0]->x+b->o[0]->w) return concat(concat(a,b->o[0]),b->o[1]);
        if (a->k==K_CONCAT && !isc(b)) { Expr* al=a->o[1]; if (al->k==K_EXTRACT && b->k==K_EXTRACT && al->o[0]==b->o[0] && al->x==b->x+b->w) return concat(a->o[0],concat(al,b)); }
        // zext(x) extended again by its own sign bits etc. is left alone
        return raw(K_CONCAT, w, a, b);
    }
    Expr* zext(Expr* a, unsigned w) {
        if (a->w==w) return a; assert(w>a->w);
        if (isc(a)) return cst(a->c,w,a->ch);
        if (a->k==K_ZEXT) return zext(a->o[0],w);
        return raw(K_ZEXT,w,a);
    }
    Expr* sext(Expr* a, unsigned w) {
        if (a->w==w) return a;
        if (isc(a) && w<=64) return cst((u64)sextw(a->c,a->w),w);
        if (a->w<=64 && (a->k0>>(a->w-1)&1)) return zext(a,w);
        if (a->k==K_SEXT) return sext(a->o[0],w);
        if (a->w<=64 && w<=64 && a->w>1) {
            if (a->k==K_EXTRACT && a->x==0 && a->o[0]->w<=64 && sfits(a->o[0]->slo,a->o[0]->shi,a->w)) { Expr* e=a->o[0]; return e->w==w?e:e->w>w?extract(e,0,w):sext(e,w); }
            if ((a->k==K_ADD||a->k==K_SUB)) { Expr *x=a->o[0],*y=a->o[1]; bool ok=a->k==K_ADD?sfits((__int128)x->slo+y->slo,(__int128)x->shi+y->shi,a->w):sfits((__int128)x->slo-y->shi,(__int128)x->shi-y->slo,a->w); if (ok) return bin(a->k,sext(x,w),sext(y,w)); }
            auto it=minl.find(a); if (it!=minl.end()) { std::vector<Expr*> l=it->second; Expr* r=sext(l[0],w); for (size_t j=1;j<l.size();++j) r=smin(r,sext(l[j],w)); return r; }
        }
        return raw(K_SEXT,w,a);
    }
    std::unordered_map<Expr*,Expr*> pop_memo;
    Expr* un(Kind k, Expr* a) {
        if (k==K_CTPOP && a->k==K_ITE) { auto it=pop_memo.find(a); if (it!=pop_memo.end()) return it->second; Expr* r=ite(a->o[0],un(k,a->o[1]),un(k,a->o[2])); pop_memo[a]=r; return r; }
        if (isc(a) && a->w<=64) {
            u64 v=a->c; unsigned w=a->w;
            if (k==K_CTPOP) return cst((u64)__builtin_popcountll(v),w);
            if (k==K_CTTZ) return cst(v?(u64)__builtin_ctzll(v):w,w);
            if (k==K_CTLZ) return cst(v?(u64)__builtin_clzll(v)-(64-w):w,w);
        }
        if (k==K_CTPOP && a->w<=64) {
            if (a->k==K_XOR && allones(a->o[1])) return bin(K_SUB, cst(a->w,a->w), un(K_CTPOP,a->o[0]));
            // low masks and complements within a mask
            if (a->k==K_ADD && a->w==64 && allones(a->o[1]) && a->o[0]->k==K_SHL && isc(a->o[0]->o[0],1) && a->o[0]->o[1]->hi<64) return a->o[0]->o[1];
            if ((a->k==K_LSHR||a->k==K_SHL) && a->w==64 && allones(a->o[0]) && a->o[1]->hi<64) return bin(K_SUB,cst(64,64),a->o[1]);
            if (a->k==K_AND && a->w==64) for (int i=0;i<2;++i) { Expr *n=a->o[i],*m=a->o[1-i]; if (n->k==K_XOR && allones(n->o[1])) { Expr* cm=un(K_CTPOP,m); if (cm->k!=K_CTPOP) { Expr* r=bin(K_SUB,cm,un(K_CTPOP,bin(K_AND,n->o[0],m))); if (r->k==K_SUB) r->nw=true; return r; } } }
            // a logical shift only drops bits: count the bits that stay
            if (a->k==K_SHL && !isc(a->o[0])) return un(K_CTPOP, bin(K_AND, a->o[0], bin(K_LSHR, cst(maskw(a->w),a->w), a->o[1])));
            if (a->k==K_LSHR && !isc(a->o[0])) return un(K_CTPOP, bin(K_AND, a->o[0], bin(K_SHL, cst(maskw(a->w),a->w), a->o[1])));
            if (a->k==K_ZEXT) { Expr* in=a->o[0]; if (in->w>=7||in->w==a->w) return fitw(un(K_CTPOP,in),a->w); }
        }
        return raw(k,a->w,a);
    }
};

static inline std::string show(Expr* e, int depth = 6) {
    char b[64]; if (e->k==K_CONST) { sprintf(b,"%lu:%u",e->c,e->w); return b; } if (e->k==K_VAR) { sprintf(b,"v%u:%u",e->x,e->w); return b; }
    if (!depth) { sprintf(b,"#%u:%u",e->id,e->w); return b; } std::string r="("; r+=kind_names[e->k]; sprintf(b,":%u",e->w); r+=b; if (e->k==K_EXTRACT) { sprintf(b,"@%u",e->x); r+=b; } for (int i=0;i<e->nops;++i) r+=" "+show(e->o[i],depth-1); return r+")";
}
// ---------- evaluation under a model ----------
struct Model { std::vector<u64> v; };

struct Evaluator {
    ExprCtx& X;
    Evaluator(ExprCtx& x) : X(x) {}
    std::vector<u64> val; std::vector<u32> stamp; u32 cur = 0; Model const* m = 0;
    void begin(Model const* mm) { m = mm; ++cur; if (val.size() < X.all.size()) { val.resize(X.all.size()+1024); stamp.resize(val.size(),0); } }
    // only for w<=64; wide nodes are evaluated through u128
    typedef unsigned __int128 u128;
    u128 evalw(Expr* e) {
        if (e->w<=64) return eval(e);
        switch (e->k) {
        case K_CONST: return ((u128)e->ch<<64)|e->c;
        case K_CONCAT: return (evalw(e->o[0])<<e->o[1]->w)|evalw(e->o[1]);
        case K_ZEXT: return evalw(e->o[0]);
        case K_SEXT: { u128 v=evalw(e->o[0]); unsigned w=e->o[0]->w; if (v>>(w-1)&1) v|=~(u128)0<<w; return trunc(v,e->w); }
        case K_EXTRACT: return trunc(evalw(e->o[0])>>e->x,e->w);
        case K_ITE: return eval(e->o[0])?evalw(e->o[1]):evalw(e->o[2]);
        case K_ADD: return trunc(evalw(e->o[0])+evalw(e->o[1]),e->w);
        case K_SUB: return trunc(evalw(e->o[0])-evalw(e->o[1]),e->w);
        case K_MUL: return trunc(evalw(e->o[0])*evalw(e->o[1]),e->w);
        case K_AND: return evalw(e->o[0])&evalw(e->o[1]);
        case K_OR: return evalw(e->o[0])|evalw(e->o[1]);
        case K_XOR: return evalw(e->o[0])^evalw(e->o[1]);
        case K_SHL: { u128 s=evalw(e->o[1]); return s>=e->w?0:trunc(evalw(e->o[0])<<(unsigned)s,e->w); }
        case K_LSHR: { u128 s=evalw(e->o[1]); return s>=e->w?0:evalw(e->o[0])>>(unsigned)s; }
        case K_VAR: return e->x<m->v.size()?m->v[e->x]:0;
        default: fprintf(stderr,"evalw: unsupported kind %s\n",kind_names[e->k]); abort();
        }
    }
    static u128 trunc(u128 v, unsigned w) { return w>=128?v:(v&((((u128)1)<<w)-1)); }
    u64 eval(Expr* e) {
        if (e->k==K_CONST) return e->c;
        if (e->id>=val.size()) { val.resize(X.all.size()+1024); stamp.resize(val.size(),0); }
        if (stamp[e->id]==cur) return val[e->id];
        u64 r;
        switch (e->k) {
        case K_VAR: r = (e->x<m->v.size()?m->v[e->x]:0)&maskw(e->w); break;
        case K_ITE: r = eval(e->o[0]) ? eval(e->o[1]) : eval(e->o[2]); break;
        case K_CONCAT: r = (eval(e->o[0])<<e->o[1]->w)|eval(e->o[1]); break;
        case K_EXTRACT: r = e->o[0]->w<=64 ? (eval(e->o[0])>>e->x)&maskw(e->w) : (u64)trunc(evalw(e->o[0])>>e->x,e->w); break;
        case K_ZEXT: r = eval(e->o[0]); break;
        case K_SEXT: r = (u64)sextw(eval(e->o[0]),e->o[0]->w)&maskw(e->w); break;
        case K_CTPOP: r = (u64)__builtin_popcountll(eval(e->o[0])); break;
        case K_CTTZ: { u64 t=eval(e->o[0]); r=t?(u64)__builtin_ctzll(t):e->w; break; }
        case K_CTLZ: { u64 t=eval(e->o[0]); r=t?(u64)__builtin_clzll(t)-(64-e->w):e->w; break; }
        case K_EQ: case K_ULT: case K_SLT:
            if (e->o[0]->w>64) { u128 p=evalw(e->o[0]),q=evalw(e->o[1]);
                if (e->k==K_EQ) r=p==q; else if (e->k==K_ULT) r=p<q; else { u128 t=(u128)1<<(e->o[0]->w-1); r=(p^t)<(q^t); } break; }
            r = ExprCtx::op(e->k, e->o[0]->w, eval(e->o[0]), eval(e->o[1])); break;
        default: r = ExprCtx::op(e->k, e->w, eval(e->o[0]), eval(e->o[1])); break;
        }
        val[e->id]=r; stamp[e->id]=cur; return r;
    }
};
