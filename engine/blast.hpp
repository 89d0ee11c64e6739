// AIG-style bit blasting of word expressions, incremental MiniSat, external kissat / z3 for hard queries.
#pragma once
#include "expr.hpp"
#include <set>
#include <minisat/core/Solver.h>
#undef l_True
#undef l_False
#undef l_Undef
static const Minisat::lbool MS_TRUE((uint8_t)0), MS_FALSE((uint8_t)1);
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <string.h>

typedef int Lit; // 2*node + negated; 0 = false, 1 = true
static inline Lit neg(Lit l) { return l ^ 1; }

enum NodeKind : uint8_t { N_CONST, N_INPUT, N_AND, N_XOR, N_MUX, N_MAJ };
struct Node { NodeKind k; Lit a, b, c; };

enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };

static inline double now_s() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

struct Blaster {
    ExprCtx& X;
    std::vector<Node> nodes;
    struct NKey { u32 k; Lit a, b, c; bool operator==(NKey const& r) const { return k==r.k&&a==r.a&&b==r.b&&c==r.c; } };
    struct NHash { size_t operator()(NKey const& q) const { u64 h=q.k; h=h*0x9E3779B97F4A7C15ULL+(u32)q.a; h^=h>>29; h=h*0xff51afd7ed558ccdULL+(u32)q.b; h^=h>>31; h=h*0xc4ceb9fe1a85ec53ULL+(u32)q.c; h^=h>>33; return h; } };
    std::unordered_map<NKey, Lit, NHash> tab;
    std::vector<std::vector<Lit>*> cache; // by expr id
    std::vector<std::vector<Lit>> var_bits; // by variable index
    std::vector<Lit> var_axiom;              // by variable index
    std::vector<int> input_var;              // node -> variable index (or -1)
    // abstraction: wide popcounts and selects become opaque variables with their range and a few exact axioms
    bool opaque=false; struct Opq { Expr* e; std::vector<Lit> a, k, r; std::vector<Lit> ax; };
    std::vector<Opq> opq;
    bool is_opaque(Expr* e) { if (e->k==K_SELECT) return true; if (e->k!=K_CTPOP) return false; u64 unk=~(e->o[0]->k0|e->o[0]->k1)&maskw(e->o[0]->w); return __builtin_popcountll(unk)>=10; }
    std::vector<Lit> opaque_bits(Expr* e) {
        unsigned w=e->w; Opq q; q.e=e; q.a=blast(e->o[0]); if (e->k==K_SELECT) q.k=blast(e->o[1]);
        std::vector<Lit> r(w,0); u64 unk=~(e->k0|e->k1)&maskw(w); int tag=-2-(int)opq.size();
        for (unsigned i=0;i<w;++i) r[i]=(e->k1>>i&1)?1:(unk>>i&1)?input(tag):0;
        std::vector<Lit> l(w),h(w); for (unsigned i=0;i<w;++i) { l[i]=(Lit)(e->lo>>i&1); h[i]=(Lit)(e->hi>>i&1); }
        q.r=r; Lit x1=neg(ult(r,l)),x2=neg(ult(h,r)); if (x1!=1) q.ax.push_back(x1); if (x2!=1) q.ax.push_back(x2);
        if (e->k==K_CTPOP) { // zero iff no bit, full iff all bits
            Lit any=0,all=1; for (Lit b:q.a) { any=Or(any,b); all=And(all,b); } Lit z=1; for (Lit b:r) z=And(z,neg(b)); q.ax.push_back(neg(Xor(any,neg(z))));
            std::vector<Lit> full(w); for (unsigned i=0;i<w;++i) full[i]=(Lit)(i<16?(w>>i&1):0); q.ax.push_back(neg(Xor(all,eq(r,full)))); }
        opq.push_back(q); return r;
    }
    bool has_opaque(Expr* e) { // does the expression contain an abstractable node
        if (e->id>=hop.size()) hop.resize(X.all.size()+1024,0); if (hop[e->id]) return hop[e->id]==2; bool r=is_opaque(e); for (int i=0;i<e->nops&&!r;++i) r=has_opaque(e->o[i]); hop[e->id]=r?2:1; return r; }
    std::vector<char> hop;
    Blaster(ExprCtx& x) : X(x) { nodes.push_back({N_CONST,0,0,0}); input_var.push_back(-1); }

    Lit mk(NodeKind k, Lit a, Lit b, Lit c = 0) {
        NKey q{(u32)k,a,b,c}; auto it=tab.find(q); if (it!=tab.end()) return it->second;
        Lit l=(Lit)(nodes.size()*2); nodes.push_back({k,a,b,c}); input_var.push_back(-1); tab.emplace(q,l); return l;
    }
    Lit input(int var) { Lit l=(Lit)(nodes.size()*2); nodes.push_back({N_INPUT,0,0,0}); input_var.push_back(var); return l; }
    Lit And(Lit a, Lit b) {
        if (a==0||b==0||a==neg(b)) return 0; if (a==1) return b; if (b==1||a==b) return a;
        if (a>b) std::swap(a,b);
        // one-level simplifications
        for (int r=0;r<2;++r) { Lit p=r?b:a,q=r?a:b; Node const& n=nodes[(size_t)(p>>1)];
            if (n.k==N_AND) {
                if (!(p&1)) { if (n.a==q||n.b==q) return p; if (n.a==neg(q)||n.b==neg(q)) return 0; }
                else { if (n.a==neg(q)||n.b==neg(q)) return q; if (n.a==q) return And(q,neg(n.b)); if (n.b==q) return And(q,neg(n.a)); }
            } }
        return mk(N_AND,a,b);
    }
    Lit Or(Lit a, Lit b) { return neg(And(neg(a),neg(b))); }
    Lit Xor(Lit a, Lit b) {
        if (a==b) return 0; if (a==neg(b)) return 1; if (a<2) return a?neg(b):b; if (b<2) return b?neg(a):a;
        Lit s=(a&1)^(b&1); a&=~1; b&=~1; if (a>b) std::swap(a,b);
        for (int r=0;r<2;++r) { Lit p=r?b:a,q=r?a:b; Node const& n=nodes[(size_t)(p>>1)]; if (n.k==N_XOR) { if (n.a==q) return n.b^s; if (n.b==q) return n.a^s; } }
        return mk(N_XOR,a,b)^s;
    }
    Lit Mux(Lit c, Lit a, Lit b) { // c ? a : b
        if (c==1) return a; if (c==0) return b; if (a==b) return a;
        if (c&1) { c=neg(c); std::swap(a,b); }
        if (a==neg(b)) return Xor(c,b);
        if (a==c||a==1) return Or(c,b);
        if (a==neg(c)||a==0) return And(neg(c),b);
        if (b==c||b==0) return And(c,a);
        if (b==neg(c)||b==1) return Or(neg(c),a);
        Lit s=0; if (a&1) { s=1; a=neg(a); b=neg(b); }
        return mk(N_MUX,c,a,b)^s;
    }
    Lit Maj(Lit a, Lit b, Lit c) {
        if (a==b) return a; if (a==c) return a; if (b==c) return b;
        if (a==neg(b)) return c; if (a==neg(c)) return b; if (b==neg(c)) return a;
        if (a<2) return a?Or(b,c):And(b,c); if (b<2) return b?Or(a,c):And(a,c); if (c<2) return c?Or(a,b):And(a,b);
        if (a>b) std::swap(a,b); if (b>c) std::swap(b,c); if (a>b) std::swap(a,b);
        Lit s=0; if (a&1) { s=1; a=neg(a); b=neg(b); c=neg(c); }
        return mk(N_MAJ,a,b,c)^s;
    }
    typedef std::vector<Lit> V;
    V add(V const& a, V const& b, Lit cin = 0) {
        V r(a.size()); Lit c=cin;
        for (size_t i=0;i<a.size();++i) { r[i]=Xor(Xor(a[i],b[i]),c); if (i+1<a.size()) c=Maj(a[i],b[i],c); }
        return r;
    }
    V inv(V const& a) { V r(a); for (auto& l:r) l=neg(l); return r; }
    V sub(V const& a, V const& b) { return add(a,inv(b),1); }
    Lit ult(V const& a, V const& b) { // a < b
        Lit lt=0; for (size_t i=0;i<a.size();++i) lt=Mux(Xor(a[i],b[i]),b[i],lt); return lt;
    }
    Lit eq(V const& a, V const& b) { // balanced conjunction
        V t; for (size_t i=0;i<a.size();++i) { Lit x=neg(Xor(a[i],b[i])); if (x==0) return 0; if (x!=1) t.push_back(x); }
        while (t.size()>1) { V u; for (size_t i=0;i+1<t.size();i+=2) u.push_back(And(t[i],t[i+1])); if (t.size()&1) u.push_back(t.back()); t.swap(u); }
        return t.empty()?1:t[0];
    }
    V mux(Lit c, V const& a, V const& b) { V r(a.size()); for (size_t i=0;i<a.size();++i) r[i]=Mux(c,a[i],b[i]); return r; }
    V shift(V const& a, V const& s, int kind) { // 0 shl 1 lshr 2 ashr
        size_t w=a.size(); V r(a); Lit fill = kind==2?a[w-1]:0;
        for (size_t k=0;k<s.size();++k) {
            if (s[k]==0) continue;
            u64 d = k<20 ? (u64(1)<<k) : w; V t(w);
            for (size_t i=0;i<w;++i) { if (kind==0) t[i]= i>=d ? r[i-d] : 0; else t[i]= (d<w&&i+d<w) ? r[i+d] : fill; }
            r=mux(s[k],t,r);
        }
        return r;
    }
    V mulc(V const& a, V const& b) {
        size_t w=a.size(); V r(w,0);
        // use the operand with more constant zeros as multiplier
        auto nz=[&](V const& v){ int n=0; for (Lit l:v) n+=l!=0; return n; };
        V const& x = nz(a)>=nz(b)?a:b; V const& y = nz(a)>=nz(b)?b:a;
        bool allc=true; for (Lit l:y) allc&=l<2;
        if (allc && w<=64) { // canonical signed digits when that is shorter
            u64 c=0; for (size_t i=0;i<w;++i) c|=u64(y[i])<<i;
            int pc=__builtin_popcountll(c); std::vector<int> dig(w+1,0); u64 t=c; int nd=0;
            for (size_t i=0;i<w&&t;++i) { if (t&1) { int d=(t&2)?-1:1; dig[i]=d; ++nd; if (d<0) { u64 o=t; t+=1; if (t<o) { t=0; } } else t-=1; } t>>=1; }
            if (nd*2<pc) {
                // carry out of the top is irrelevant modulo 2^w
                bool first=true;
                for (size_t i=0;i<w;++i) if (dig[i]) { V s(w,0); for (size_t j=i;j<w;++j) s[j]=x[j-i];
                    if (first&&dig[i]>0) r=s; else r = dig[i]>0?add(r,s):sub(r,s); first=false; }
                // verify the recoding (cheap): value mod 2^w
                u64 chk=0; for (size_t i=0;i<w;++i) { if (dig[i]>0) chk+=u64(1)<<i; else if (dig[i]<0) chk-=u64(1)<<i; }
                if ((chk&maskw((unsigned)w))==c) return r;
                r.assign(w,0);
            }
        }
        for (size_t i=w;i-->0;) { if (y[i]==0) continue; V s(w,0); for (size_t j=i;j<w;++j) s[j]=And(x[j-i],y[i]); r=add(r,s); }
        return r;
    }
    void udivrem(V const& a, V const& b, V& q, V& r) {
        size_t w=a.size(); q.assign(w,0); V rem(w+1,0); V bb(b); bb.push_back(0);
        for (size_t i=w;i-->0;) {
            for (size_t j=w;j>0;--j) rem[j]=rem[j-1]; rem[0]=a[i];
            Lit lt=ult(rem,bb); V d=sub(rem,bb); q[i]=neg(lt); rem=mux(lt,rem,d);
        }
        Lit z=1; for (Lit l:b) z=And(z,neg(l));
        for (size_t i=0;i<w;++i) { q[i]=Or(q[i],z); }
        r.assign(rem.begin(),rem.begin()+(long)w); r=mux(z,a,r);
    }
    // pairs, nibbles, bytes, then the bytes from low to high: the shape word-parallel code has
    V ctpop(V const& a) {
        size_t w=a.size(); auto trim=[&](V v, size_t mx){ size_t n=0; while ((mx>>n)) ++n; v.resize(n,0); return v; };
        auto addw=[&](V x, V y, size_t mx){ size_t n=0; while (mx>>n) ++n; x.resize(n,0); y.resize(n,0); return add(x,y); };
        std::vector<std::pair<V,size_t>> cur; for (Lit l:a) cur.push_back({V{l},1});
        for (int lv=0;lv<3&&cur.size()>1;++lv) { std::vector<std::pair<V,size_t>> nx; for (size_t i=0;i<cur.size();i+=2) { if (i+1==cur.size()) { nx.push_back(cur[i]); break; } size_t m=cur[i].second+cur[i+1].second; nx.push_back({addw(cur[i].first,cur[i+1].first,m),m}); } cur.swap(nx); }
        V acc=cur[0].first; size_t m=cur[0].second; for (size_t i=1;i<cur.size();++i) { m+=cur[i].second; acc=addw(acc,cur[i].first,m); }
        acc=trim(acc,m); acc.resize(w,0); return acc;
    }
    V cttz(V const& a) { // value w when zero
        size_t w=a.size(); size_t p=1; while (p<w) p<<=1;
        V cur(a); cur.resize(p,1); // pad with ones: zero input then stops at w when w<p
        V r; // from MSB down
        Lit zero=1; for (Lit l:a) zero=And(zero,neg(l));
        std::vector<Lit> bits;
        for (size_t h=p/2;h>=1;h/=2) { Lit any=0; for (size_t i=0;i<h;++i) any=Or(any,cur[i]); bits.push_back(neg(any)); V lo(cur.begin(),cur.begin()+(long)h),hi(cur.begin()+(long)h,cur.begin()+(long)(2*h)); cur=mux(any,lo,hi); if (h==1) break; }
        V res(w,0); size_t nb=bits.size(); for (size_t i=0;i<nb&&i<w;++i) res[i]=bits[nb-1-i];
        V wc(w,0); for (size_t i=0;i<w&&i<16;++i) wc[i]=(w>>i)&1;
        return mux(zero,wc,res);
    }

    V const& blast(Expr* e) {
        if (e->id>=cache.size()) cache.resize(std::max(X.all.size(),(size_t)e->id+1)+1024,0);
        if (cache[e->id]) return *cache[e->id];
        V r; unsigned w=e->w;
        switch (e->k) {
        case K_CONST: r.resize(w); for (unsigned i=0;i<w;++i) r[i]=(Lit)(i<64?(e->c>>i&1):(e->ch>>(i-64)&1)); break;
        case K_VAR: {
            if (var_bits.size()<=e->x) { var_bits.resize(e->x+1); var_axiom.resize(e->x+1,1); }
            r.resize(w); for (unsigned i=0;i<w;++i) { if (w<=64&&(e->k0>>i&1)) r[i]=0; else if (w<=64&&(e->k1>>i&1)) r[i]=1; else r[i]=input((int)e->x); }
            var_bits[e->x]=r;
            if (w<=64 && (e->lo!=0||e->hi!=maskw(w))) { V l(w),h(w); for (unsigned i=0;i<w;++i) { l[i]=(Lit)(e->lo>>i&1); h[i]=(Lit)(e->hi>>i&1); } var_axiom[e->x]=And(neg(ult(r,l)),neg(ult(h,r))); }
            break; }
        case K_ADD: { V a=blast(e->o[0]),b=blast(e->o[1]); r=add(a,b); break; }
        case K_SUB: { V a=blast(e->o[0]),b=blast(e->o[1]); r=sub(a,b); break; }
        case K_MUL: { V a=blast(e->o[0]),b=blast(e->o[1]); r=mulc(a,b); break; }
        case K_UDIV: case K_UREM: { V a=blast(e->o[0]),b=blast(e->o[1]); V q,m; udivrem(a,b,q,m); r=e->k==K_UDIV?q:m; break; }
        case K_SDIV: case K_SREM: { V a=blast(e->o[0]),b=blast(e->o[1]); Lit sa=a[w-1],sb=b[w-1]; V z(w,0);
            V ua=mux(sa,sub(z,a),a),ub=mux(sb,sub(z,b),b),q,m; udivrem(ua,ub,q,m);
            if (e->k==K_SDIV) r=mux(Xor(sa,sb),sub(z,q),q); else r=mux(sa,sub(z,m),m); break; }
        case K_AND: { V a=blast(e->o[0]),b=blast(e->o[1]); r.resize(w); for (unsigned i=0;i<w;++i) r[i]=And(a[i],b[i]); break; }
        case K_OR: { V a=blast(e->o[0]),b=blast(e->o[1]); r.resize(w); for (unsigned i=0;i<w;++i) r[i]=Or(a[i],b[i]); break; }
        case K_XOR: { V a=blast(e->o[0]),b=blast(e->o[1]); r.resize(w); for (unsigned i=0;i<w;++i) r[i]=Xor(a[i],b[i]); break; }
        case K_SHL: case K_LSHR: case K_ASHR: { V a=blast(e->o[0]),b=blast(e->o[1]); r=shift(a,b,e->k==K_SHL?0:e->k==K_LSHR?1:2); break; }
        case K_EQ: { V a=blast(e->o[0]),b=blast(e->o[1]); r={eq(a,b)}; break; }
        case K_ULT: { V a=blast(e->o[0]),b=blast(e->o[1]); r={ult(a,b)}; break; }
        case K_SLT: { V a=blast(e->o[0]),b=blast(e->o[1]); a.back()=neg(a.back()); b.back()=neg(b.back()); r={ult(a,b)}; break; }
        case K_ITE: { Lit c=blast(e->o[0])[0]; if (c==1) r=blast(e->o[1]); else if (c==0) r=blast(e->o[2]); else { V a=blast(e->o[1]),b=blast(e->o[2]); r=mux(c,a,b); } break; }
        case K_CONCAT: { V a=blast(e->o[0]); r=blast(e->o[1]); r.insert(r.end(),a.begin(),a.end()); break; }
        case K_EXTRACT: { V const& a=blast(e->o[0]); r.assign(a.begin()+e->x,a.begin()+e->x+w); break; }
        case K_ZEXT: r=blast(e->o[0]); r.resize(w,0); break;
        case K_SEXT: { r=blast(e->o[0]); Lit s=r.back(); r.resize(w,s); break; }
        case K_CTPOP: { if (opaque && is_opaque(e)) { r=opaque_bits(e); break; } V a=blast(e->o[0]); r=ctpop(a); break; }
        case K_SELECT: { if (opaque) { r=opaque_bits(e); break; } V a=blast(e->o[0]),k=blast(e->o[1]); V x(a),kk(k); V pos(64,0);
            for (unsigned h=32,lv=5;h>=1;h/=2,--lv) { V lo(x.begin(),x.begin()+h); V c=ctpop(lo); c.resize(64,0); Lit up=neg(ult(kk,c)); pos[lv]=up; kk=mux(up,sub(kk,c),kk); V hi(x.begin()+h,x.begin()+2*h); x=mux(up,hi,lo); if (h==1) break; }
            r=pos; break; }
        case K_CTTZ: { V a=blast(e->o[0]); r=cttz(a); break; }
        case K_CTLZ: { V a=blast(e->o[0]); std::reverse(a.begin(),a.end()); r=cttz(a); break; }
        }
        if (e->k!=K_VAR && e->k!=K_CONST && w<=64) for (unsigned i=0;i<w;++i) { if (e->k0>>i&1) r[i]=0; else if (e->k1>>i&1) r[i]=1; }
        if (e->id>=cache.size()) cache.resize(X.all.size()+1024,0);
        cache[e->id]=new V(std::move(r)); return *cache[e->id];
    }
};

struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, minisat=0, kissat=0, z3=0, trivial=0, abs_unsat=0, abs_lemmas=0, sweep_ties=0; double time=0, ext_time=0, max_time=0; u64 max_cone=0; };

// one bit-blasted view of the expressions with its incremental MiniSat
struct Back {
    ExprCtx& X; Blaster B; Minisat::Solver* S = 0; std::vector<char> enc, dec; std::vector<u32> declist; std::vector<u32> seen; u32 mark=0; size_t encoded=0;
    std::vector<Lit> lemmas; // extra unit facts (abstract view only)
    Back(ExprCtx& x, bool opaque) : X(x), B(x) { B.opaque=opaque; reset(); }
    void reset() { delete S; S=new Minisat::Solver(); S->verbosity=0; enc.clear(); dec.clear(); declist.clear(); encoded=0; ties.clear(); swept.clear(); }
    void cone(std::vector<Lit> const& roots, std::vector<u32>& out) {
        ++mark; if (seen.size()<B.nodes.size()) seen.resize(B.nodes.size()+1024,0);
        std::vector<u32> stk; auto push=[&](Lit l){ u32 n=(u32)(l>>1); if (n && seen[n]!=mark) { seen[n]=mark; stk.push_back(n); } };
        for (Lit l:roots) push(l);
        while (!stk.empty()) {
            u32 n=stk.back(); stk.pop_back(); out.push_back(n); Node const& d=B.nodes[n];
            if (d.k==N_INPUT) { int v=B.input_var[n]; if (v>=0) push(B.var_axiom[(size_t)v]); else { auto& q=B.opq[(size_t)(-2-v)]; for (Lit l:q.a) push(l); for (Lit l:q.k) push(l); for (Lit l:q.r) push(l); for (Lit l:q.ax) push(l); } }
            else if (d.k!=N_CONST) { push(d.a); push(d.b); if (d.k==N_MUX||d.k==N_MAJ) push(d.c); }
        }
    }
    template <class F> static void clauses(Node const& d, int o, F f) {
        Lit y=(Lit)(o*2);
        switch (d.k) {
        case N_AND: f(neg(y),d.a); f(neg(y),d.b); f(y,neg(d.a),neg(d.b)); break;
        case N_XOR: f(neg(y),d.a,d.b); f(neg(y),neg(d.a),neg(d.b)); f(y,neg(d.a),d.b); f(y,d.a,neg(d.b)); break;
        case N_MUX: f(neg(d.a),neg(d.b),y); f(neg(d.a),d.b,neg(y)); f(d.a,neg(d.c),y); f(d.a,d.c,neg(y)); f(neg(d.b),neg(d.c),y); f(d.b,d.c,neg(y)); break;
        case N_MAJ: f(neg(d.a),neg(d.b),y); f(neg(d.a),neg(d.c),y); f(neg(d.b),neg(d.c),y); f(d.a,d.b,neg(y)); f(d.a,d.c,neg(y)); f(d.b,d.c,neg(y)); break;
        default: break;
        }
    }
    template <class F> void axioms(u32 n, F f) { // unit facts attached to an input node
        int v=B.input_var[n]; if (v>=0) { Lit ax=B.var_axiom[(size_t)v]; if (ax!=1) f(ax); } else for (Lit ax:B.opq[(size_t)(-2-v)].ax) if (ax!=1) f(ax); }
    Minisat::Lit ml(Lit l) { return Minisat::mkLit((l>>1),(l&1)); }
    struct Emit { Back* s; void operator()(Lit a, Lit b) { s->S->addClause(s->ml(a),s->ml(b)); } void operator()(Lit a, Lit b, Lit c) { s->S->addClause(s->ml(a),s->ml(b),s->ml(c)); } };
    void encode(std::vector<u32> const& c) {
        while (S->nVars()<(int)B.nodes.size()) S->newVar(Minisat::lbool((uint8_t)2),false);
        if (enc.size()<B.nodes.size()) { enc.resize(B.nodes.size()+1024,0); dec.resize(enc.size(),0); }
        for (u32 n:c) if (!enc[n]) { enc[n]=1; ++encoded; clauses(B.nodes[n],(int)n,Emit{this}); if (B.nodes[n].k==N_INPUT) axioms(n,[&](Lit ax){ S->addClause(ml(ax)); }); }
    }
    // blast the constraints; false when one of them is constant false
    bool roots_of(std::vector<Expr*> const& cs, std::vector<Lit>& roots) {
        for (Expr* e:cs) { Lit l=B.blast(e)[0]; if (l==0) return false; if (l!=1) roots.push_back(l); }
        std::sort(roots.begin(),roots.end()); roots.erase(std::unique(roots.begin(),roots.end()),roots.end());
        for (size_t i=0;i+1<roots.size();++i) if (roots[i+1]==neg(roots[i])&&!(roots[i]&1)) return false;
        return true;
    }
    Minisat::lbool solve(std::vector<Lit> const& roots, std::vector<u32> const& cn, long budget) {
        if (encoded>400000 && encoded>8*cn.size()) reset();
        encode(cn);
        for (u32 n:declist) if (dec[n]) { dec[n]=0; S->setDecisionVar((int)n,false); }
        declist.clear(); for (u32 n:cn) { dec[n]=1; S->setDecisionVar((int)n,true); declist.push_back(n); }
        Minisat::vec<Minisat::Lit> as; for (Lit l:roots) as.push(ml(l));
        S->setConfBudget(budget); Minisat::lbool r=S->solveLimited(as); S->budgetOff(); return r;
    }
    // SAT sweeping: nodes that agree on random patterns are proved equal (unconditionally) and tied together
    std::vector<std::pair<Lit,Lit>> ties; std::set<u64> swept; u64 rng=88172645463325252ULL; u64 rnd() { rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
    size_t sweep(std::vector<u32> const& cn0, double tmax, std::vector<Expr*> const& varexpr) {
        double t0=now_s(); std::vector<u32> cn(cn0); std::sort(cn.begin(),cn.end()); encode(cn0); size_t proved=0; const int W=16; 
        std::unordered_map<u32,u32> ix; for (u32 i=0;i<cn.size();++i) ix[cn[i]]=i; std::vector<u64> sim(cn.size()*(size_t)W,0); std::vector<u64> extra(cn.size(),0); int nextra=0; std::vector<std::vector<u64>> extras;
        // input patterns; ranged variables get values in range
        for (u32 i=0;i<cn.size();++i) if (B.nodes[cn[i]].k==N_INPUT) for (int w=0;w<W;++w) { u64 r=rnd(); if (w<4) r&=rnd(); else if (w<8) r|=rnd(); else if (w<10) r=r&rnd()&rnd(); sim[i*(size_t)W+(size_t)w]=r; }
        std::set<int> vs; for (u32 n:cn) if (B.nodes[n].k==N_INPUT&&B.input_var[n]>=0) vs.insert(B.input_var[n]);
        for (int v:vs) { Expr* e=(size_t)v<varexpr.size()?varexpr[(size_t)v]:0; if (!e||B.var_axiom[(size_t)v]==1) continue; auto& bits=B.var_bits[(size_t)v]; for (int w=0;w<W;++w) { std::vector<u64> col(bits.size(),0); for (int p=0;p<64;++p) { u64 span=e->hi-e->lo; u64 x=e->lo+(span==~u64(0)?rnd():rnd()%(span+1)); for (size_t b=0;b<bits.size();++b) col[b]|=(x>>b&1)<<p; } for (size_t b=0;b<bits.size();++b) if (bits[b]>1) { auto it=ix.find((u32)(bits[b]>>1)); if (it!=ix.end()) sim[it->second*(size_t)W+(size_t)w]=(bits[b]&1)?~col[b]:col[b]; } } }
        auto val=[&](std::vector<u64>& a, size_t st, size_t w, Lit l)->u64 { if (l<2) return l?~u64(0):0; u64 v=a[ix[(u32)(l>>1)]*st+w]; return (l&1)?~v:v; };
        auto simall=[&](std::vector<u64>& a, size_t st, size_t w){ for (u32 i=0;i<cn.size();++i) { Node const& d=B.nodes[cn[i]]; if (d.k==N_INPUT||d.k==N_CONST) continue; u64 x=val(a,st,w,d.a),y=val(a,st,w,d.b),r=0; switch (d.k) { case N_AND: r=x&y; break; case N_XOR: r=x^y; break; case N_MUX: r=(x&y)|(~x&val(a,st,w,d.c)); break; case N_MAJ: { u64 z=val(a,st,w,d.c); r=(x&y)|(x&z)|(y&z); break; } default: break; } a[i*st+w]=r; } };
        for (size_t w=0;w<(size_t)W;++w) simall(sim,(size_t)W,w);
        std::unordered_map<u64,std::vector<u32>> bucket; 
        auto ph=[&](u32 i){ return sim[i*(size_t)W]&1; };
        auto key=[&](u32 i){ u64 f=ph(i)?~u64(0):0,h=1; for (int w=0;w<W;++w) { h^=sim[i*(size_t)W+(size_t)w]^f; h*=0x9E3779B97F4A7C15ULL; h^=h>>29; } return h; };
        { u64 h=1; for (int w=0;w<W;++w) { h*=0x9E3779B97F4A7C15ULL; h^=h>>29; } bucket[h].push_back(~u32(0)); }
        for (u32 i=0;i<cn.size();++i) {
            if (B.nodes[cn[i]].k==N_CONST) continue; if (now_s()-t0>tmax) break; auto& bk=bucket[key(i)]; bool tied=false;
            if (B.nodes[cn[i]].k!=N_INPUT) for (u32 j:bk) {
                u64 f=((j==~u32(0)?0:ph(j))!=ph(i))?~u64(0):0; bool same=true; for (int w=0;w<W&&same;++w) same=(j==~u32(0)?0:sim[j*(size_t)W+(size_t)w])==(sim[i*(size_t)W+(size_t)w]^f); for (auto& xx:extras) if (same) same=(j==~u32(0)?0:xx[j])==(xx[i]^f); if (same&&nextra) { u64 m=nextra>=64?~u64(0):((u64(1)<<nextra)-1); same=(((j==~u32(0)?0:extra[j])^extra[i]^f)&m)==0; }
                if (!same) continue; Lit a=(Lit)(cn[i]*2),b=(j==~u32(0)?0:(Lit)(cn[j]*2))^(f?1:0); u64 pk=((u64)(u32)a<<32)|(u32)b; if (swept.count(pk)) { tied=true; break; }
                std::vector<u32> pc; cone({a,b},pc); bool unsat=true,unk=false; 
                for (int side=0;side<2&&unsat;++side) { std::vector<Lit> rt; rt.push_back(side?neg(a):a); if (b<2) { if ((b==1)==(side==0)) continue; } else rt.push_back(side?b:neg(b)); Minisat::lbool r=solve(rt,pc,500);
                    if (r==MS_TRUE) { unsat=false; if (nextra>=64) { extras.push_back(extra); nextra=0; } for (u32 t=0;t<cn.size();++t) if (B.nodes[cn[t]].k==N_INPUT) { u64 bit=mval((Lit)(cn[t]*2)); extra[t]=(extra[t]&~(u64(1)<<nextra))|(bit<<nextra); } ++nextra; simall(extra,1,0); } else if (r!=MS_FALSE) { unsat=false; unk=true; } }
                if (unsat) { ++proved; tied=true; swept.insert(pk); ties.push_back({a,b}); if (b<2) S->addClause(ml(b?a:neg(a))); else { S->addClause(ml(neg(a)),ml(b)); S->addClause(ml(a),ml(neg(b))); } break; }
                if (unk) break;
            }
            if (!tied && bk.size()<8) bk.push_back(i);
        }
        return proved;
    }
    bool mval(Lit l) { if (l<2) return l==1; int n=l>>1; bool v=n<S->model.size()&&S->model[n]==MS_TRUE; return v!=(bool)(l&1); }
    u64 mword(std::vector<Lit> const& v) { u64 x=0; for (size_t i=0;i<v.size()&&i<64;++i) x|=u64(mval(v[i]))<<i; return x; }
};

struct Solver {
    ExprCtx& X; Back E, A; Blaster& B; Evaluator EV;
    SolverStats st; double ext_timeout=60; long conf_budget=2000; std::string workdir="."; bool crosscheck=false; double deadline=0; bool use_abs=true; int verbose=0;
    bool do_sweep=true; bool quick=false; double sweep_time=10; u64 cross_checked=0, cross_disagree=0;
    Solver(ExprCtx& x) : X(x), E(x,false), A(x,true), B(E.B), EV(x) {}
    template <class F> static void clauses(Node const& d, int o, F f) { Back::clauses(d,o,f); }
    // read model of inputs
    template <class G> void get_model(Model& m, G val) {
        m.v.assign(X.vars.size(),0);
        for (size_t v=0;v<B.var_bits.size();++v) { auto& bits=B.var_bits[v]; if (bits.empty()) continue; u64 x=0; for (size_t i=0;i<bits.size()&&i<64;++i) { Lit l=bits[i]; bool b= l<2 ? l==1 : (val((u32)(l>>1))!=(l&1)); x|=u64(b)<<i; } m.v[v]=x; }
        fix_ranges(m);
    }
    // variables the query does not mention must still respect their declared range
    std::vector<Expr*> ranged; 
    void fix_ranges(Model& m) { for (Expr* e:ranged) { if (e->x>=m.v.size()) m.v.resize(e->x+1,0); u64& x=m.v[e->x]; if (x<e->lo||x>e->hi) x=e->lo; } }

    Res check(std::vector<Expr*> const& cs, Model* out) {
        double t0=now_s(); ++st.queries; Res r=check_(cs,out); double dt=now_s()-t0; st.time+=dt; if (dt>st.max_time) st.max_time=dt;
        if (r==R_SAT) ++st.sat; else if (r==R_UNSAT) ++st.unsat; else ++st.unknown;
        return r;
    }
    // the abstract view: R_UNSAT is a proof, R_SAT with *real set is a checked model of the original constraints
    Res check_abs(std::vector<Expr*> const& cs, long budget, int rounds, Model* out) {
        std::vector<Lit> roots; if (!A.roots_of(cs,roots)) return R_UNSAT;
        std::vector<Lit> lem; std::set<int> selx;
        for (int it=0;it<rounds;++it) {
            std::vector<u32> cn; std::vector<Lit> all; bool dead=false;
            while (true) { // the defining property of every select in the cone: within range, bit set, that many ones below
                all=roots; all.insert(all.end(),lem.begin(),lem.end()); cn.clear(); A.cone(all,cn); std::vector<int> fresh;
                for (u32 n:cn) { int v=A.B.input_var[n]; if (A.B.nodes[n].k==N_INPUT&&v<-1) { size_t qi=(size_t)(-2-v); if (A.B.opq[qi].e->k==K_SELECT && !selx.count((int)qi)) { selx.insert((int)qi); fresh.push_back((int)qi); } } }
                if (fresh.empty()) break;
                for (int qi:fresh) { Expr* e=A.B.opq[(size_t)qi].e; Expr *a=e->o[0],*k=e->o[1]; Expr* one=X.cst(1,64);
                    Expr* ok=X.land(X.bin(K_EQ,X.extract(X.bin(K_LSHR,a,e),0,1),X.cst(1,1)), X.bin(K_EQ,X.un(K_CTPOP,X.bin(K_AND,a,X.bin(K_SUB,X.bin(K_SHL,one,e),one))),k));
                    Expr* ax=X.lor(X.lnot(X.bin(K_ULT,k,X.un(K_CTPOP,a))),ok); Lit l=A.B.blast(ax)[0]; if (l==0) dead=true; else if (l!=1) lem.push_back(l); } }
            if (dead) return R_UNSAT;
            Minisat::lbool r=A.solve(all,cn,budget); ++st.minisat;
            if (r==MS_FALSE) return R_UNSAT; if (r!=MS_TRUE) { if (verbose) fprintf(stderr,"[abs] budget at round %d\n",it); return R_UNKNOWN; }
            // candidate inputs: do they satisfy the real constraints?
            Model m; m.v.assign(X.vars.size(),0); for (size_t v=0;v<A.B.var_bits.size();++v) if (!A.B.var_bits[v].empty()) m.v[v]=A.mword(A.B.var_bits[v]); fix_ranges(m);
            EV.begin(&m); bool ok=true; for (Expr* e:cs) if (!(EV.eval(e)&1)) { ok=false; break; } if (ok) { if (out) *out=m; return R_SAT; }
            // refine with instances of: x subset of y -> pop(x) <= pop(y);  same arguments -> same select
            std::vector<int> use; std::vector<char> in(A.B.opq.size(),0); for (u32 n:cn) { int v=A.B.input_var[n]; if (A.B.nodes[n].k==N_INPUT&&v<-1&&!in[(size_t)(-2-v)]) { in[(size_t)(-2-v)]=1; use.push_back(-2-v); } }
            size_t before=lem.size(); std::vector<u64> xa(use.size()),ka(use.size()),ra(use.size()); for (size_t i=0;i<use.size();++i) { auto& q=A.B.opq[(size_t)use[i]]; xa[i]=A.mword(q.a); ka[i]=A.mword(q.k); ra[i]=A.mword(q.r); }
            for (size_t i=0;i<use.size()&&lem.size()<before+24;++i) for (size_t j=0;j<use.size()&&lem.size()<before+24;++j) { if (i==j) continue; auto p=A.B.opq[(size_t)use[i]], q=A.B.opq[(size_t)use[j]]; if (p.e->k!=q.e->k||p.e->w!=q.e->w) continue;
                if (p.e->k==K_CTPOP) { if (!(xa[i]&~xa[j]) && (ra[i]>ra[j] || (xa[i]!=xa[j] && ra[i]==ra[j]))) { // subset: smaller or equal count, strictly smaller unless equal sets
                        Lit sub=1; for (size_t b=0;b<p.a.size();++b) sub=A.B.And(sub,neg(A.B.And(p.a[b],neg(q.a[b])))); Lit le=neg(A.B.ult(q.r,p.r)); lem.push_back(A.B.Or(neg(sub),le)); Lit lt=A.B.ult(p.r,q.r); lem.push_back(A.B.Or(neg(sub),A.B.Or(A.B.eq(p.a,q.a),lt))); } }
                else if (i<j && xa[i]==xa[j]&&ka[i]==ka[j]&&ra[i]!=ra[j]) { Lit same=A.B.And(A.B.eq(p.a,q.a),A.B.eq(p.k,q.k)); lem.push_back(A.B.Or(neg(same),A.B.eq(p.r,q.r))); } }
            st.abs_lemmas+=lem.size()-before; if (lem.size()==before) { if (verbose) fprintf(stderr,"[abs] no lemma after %d rounds, %zu opaque\n",it,use.size()); return R_UNKNOWN; }
            for (size_t i=before;i<lem.size();) { if (lem[i]==1) { lem[i]=lem.back(); lem.pop_back(); } else if (lem[i]==0) return R_UNSAT; else ++i; }
        }
        return R_UNKNOWN;
    }
    Res check_(std::vector<Expr*> const& cs, Model* out) {
        bool opq=false; if (use_abs) for (Expr* e:cs) if (B.has_opaque(e)) { opq=true; break; }
        if (opq) { Res r=check_abs(cs,conf_budget,12,out); if (r==R_UNSAT) { ++st.abs_unsat; return r; } if (r==R_SAT) return r; }
        std::vector<Lit> roots; if (!E.roots_of(cs,roots)) { ++st.trivial; return R_UNSAT; }
        std::vector<u32> cn; E.cone(roots,cn); st.max_cone=std::max(st.max_cone,(u64)cn.size());
        ++st.minisat; Minisat::lbool res=E.solve(roots,cn,conf_budget);
        if (res==MS_TRUE) { if (out) get_model(*out,[&](u32 n)->bool{ return (int)n<E.S->model.size() && E.S->model[(int)n]==MS_TRUE; }); return R_SAT; }
        if (res==MS_FALSE) { if (crosscheck && (st.queries%7==0)) cross(cs,R_UNSAT); return R_UNSAT; }
        if (quick) return R_UNKNOWN;
        if (opq) { Res r=check_abs(cs,conf_budget*10,40,out); if (r==R_UNSAT) { ++st.abs_unsat; return r; } if (r==R_SAT) return r; }
        if (do_sweep && cn.size()<300000) { double ts=now_s(); std::vector<Expr*> ve(X.vars.size(),0); for (Expr* e:ranged) if (e->x<ve.size()) ve[e->x]=e; size_t before=E.ties.size(); size_t k=E.sweep(cn,sweep_time,ve); (void)before; st.sweep_ties+=k; if (verbose) fprintf(stderr,"[sweep] %zu ties in %.2fs of cone %zu\n",k,now_s()-ts,cn.size());
            ++st.minisat; res=E.solve(roots,cn,conf_budget*5); if (res==MS_TRUE) { if (out) get_model(*out,[&](u32 n)->bool{ return (int)n<E.S->model.size() && E.S->model[(int)n]==MS_TRUE; }); return R_SAT; } if (res==MS_FALSE) return R_UNSAT; }
        double te=now_s(); Res xr=external(cs,roots,cn,out); if (verbose) fprintf(stderr,"[ext] %.2fs res=%d cone=%zu opq=%d last=%s\n",now_s()-te,(int)xr,cn.size(),(int)opq,show(cs.back(),verbose).c_str()); return xr;
    }
    void write_cnf(std::string const& path, std::vector<Lit> const& roots, std::vector<u32> const& cn, std::vector<int>& num) {
        num.assign(B.nodes.size(),0); int nv=0; for (u32 n:cn) num[n]=++nv;
        std::string s; size_t nc=0; char buf[64];
        auto d=[&](Lit l){ int v=num[(size_t)(l>>1)]; return (l&1)?-v:v; };
        struct F { std::string& s; size_t& nc; decltype(d)& dd; char* buf; 
            void operator()(Lit a){ s.append(buf,(size_t)sprintf(buf,"%d 0\n",dd(a))); ++nc; }
            void operator()(Lit a,Lit b){ s.append(buf,(size_t)sprintf(buf,"%d %d 0\n",dd(a),dd(b))); ++nc; }
            void operator()(Lit a,Lit b,Lit c){ s.append(buf,(size_t)sprintf(buf,"%d %d %d 0\n",dd(a),dd(b),dd(c))); ++nc; } } f{s,nc,d,buf};
        for (u32 n:cn) { clauses(B.nodes[n],(int)n,f); if (B.nodes[n].k==N_INPUT) E.axioms(n,f); }
        for (Lit l:roots) f(l);
        for (auto& t:E.ties) if (num[(size_t)(t.first>>1)] && (t.second<2||num[(size_t)(t.second>>1)])) { if (t.second<2) f(t.second?t.first:neg(t.first)); else { f(neg(t.first),t.second); f(t.first,neg(t.second)); } }
        FILE* o=fopen(path.c_str(),"w"); fprintf(o,"p cnf %d %zu\n",nv,nc); fwrite(s.data(),1,s.size(),o); fclose(o);
    }
    void write_smt(std::string const& path, std::vector<Expr*> const& cs, bool model) {
        FILE* o=fopen(path.c_str(),"w"); fprintf(o,"(set-logic QF_BV)\n"); std::vector<char> done(X.all.size(),0);
        std::vector<u32> vs;
        for (Expr* root:cs) {
            std::vector<std::pair<Expr*,int>> stk{{root,0}};
            while (!stk.empty()) {
                Expr* e=stk.back().first; int& i=stk.back().second;
                if (done[e->id]) { stk.pop_back(); continue; }
                if (i<e->nops) { Expr* q=e->o[i++]; if (!done[q->id]) stk.push_back({q,0}); continue; }
                emit(o,e); done[e->id]=1; if (e->k==K_VAR) vs.push_back(e->x); stk.pop_back();
            }
            fprintf(o,"(assert (= n%u #b1))\n",root->id);
        }
        fprintf(o,"(check-sat)\n"); if (model) fprintf(o,"(get-model)\n"); fclose(o);
    }
    void emit(FILE* o, Expr* e) {
        unsigned w=e->w; auto N=[&](int i){ return e->o[i]->id; };
        if (e->k==K_VAR) { fprintf(o,"(declare-const v%u (_ BitVec %u))\n(define-fun n%u () (_ BitVec %u) v%u)\n",e->x,w,e->id,w,e->x);
            if (w<=64&&(e->lo!=0||e->hi!=maskw(w))) fprintf(o,"(assert (and (bvule (_ bv%lu %u) v%u) (bvule v%u (_ bv%lu %u))))\n",e->lo,w,e->x,e->x,e->hi,w); return; }
        fprintf(o,"(define-fun n%u () (_ BitVec %u) ",e->id,w);
        const char* op=0;
        switch (e->k) {
        case K_CONST: if (w<=64) fprintf(o,"(_ bv%lu %u)",e->c,w); else fprintf(o,"(concat (_ bv%lu %u) (_ bv%lu 64))",e->ch,w-64,e->c); break;
        case K_ADD: op="bvadd"; break; case K_SUB: op="bvsub"; break; case K_MUL: op="bvmul"; break; case K_UDIV: op="bvudiv"; break; case K_UREM: op="bvurem"; break;
        case K_SDIV: op="bvsdiv"; break; case K_SREM: op="bvsrem"; break; case K_AND: op="bvand"; break; case K_OR: op="bvor"; break; case K_XOR: op="bvxor"; break;
        case K_SHL: op="bvshl"; break; case K_LSHR: op="bvlshr"; break; case K_ASHR: op="bvashr"; break; case K_CONCAT: op="concat"; break;
        case K_EQ: fprintf(o,"(ite (= n%u n%u) #b1 #b0)",N(0),N(1)); break;
        case K_ULT: fprintf(o,"(ite (bvult n%u n%u) #b1 #b0)",N(0),N(1)); break;
        case K_SLT: fprintf(o,"(ite (bvslt n%u n%u) #b1 #b0)",N(0),N(1)); break;
        case K_ITE: fprintf(o,"(ite (= n%u #b1) n%u n%u)",N(0),N(1),N(2)); break;
        case K_EXTRACT: fprintf(o,"((_ extract %u %u) n%u)",e->x+w-1,e->x,N(0)); break;
        case K_ZEXT: fprintf(o,"((_ zero_extend %u) n%u)",w-e->o[0]->w,N(0)); break;
        case K_SEXT: fprintf(o,"((_ sign_extend %u) n%u)",w-e->o[0]->w,N(0)); break;
        case K_CTPOP: if (w==1) { fprintf(o,"n%u",N(0)); break; } fprintf(o,"(bvadd"); for (unsigned i=0;i<w;++i) fprintf(o," ((_ zero_extend %u) ((_ extract %u %u) n%u))",w-1,i,i,N(0)); fprintf(o,")"); break;
        case K_CTTZ: for (unsigned i=0;i<w;++i) fprintf(o,"(ite (= ((_ extract %u %u) n%u) #b1) (_ bv%u %u) ",i,i,N(0),i,w); fprintf(o,"(_ bv%u %u)",w,w); for (unsigned i=0;i<w;++i) fputc(')',o); break;
        case K_CTLZ: for (unsigned i=0;i<w;++i) fprintf(o,"(ite (= ((_ extract %u %u) n%u) #b1) (_ bv%u %u) ",w-1-i,w-1-i,N(0),i,w); fprintf(o,"(_ bv%u %u)",w,w); for (unsigned i=0;i<w;++i) fputc(')',o); break;
        case K_SELECT: { // descend by halves
            fprintf(o,"(let ((x5 n%u) (k5 n%u) (p5 (_ bv0 64))) ",N(0),N(1)); for (int l=5;l>=0;--l) { unsigned h=1u<<l; unsigned long m=(1ul<<h)-1; fprintf(o,"(let ((l%d (bvand x%d (_ bv%lu 64)))) (let ((c%d (bvadd",l,l,m,l); for (unsigned i=0;i<h;++i) fprintf(o," ((_ zero_extend 63) ((_ extract %u %u) l%d))",i,i,l); if (h==1) fprintf(o," (_ bv0 64)"); fprintf(o,"))) (let ((u%d (bvuge k%d c%d))) (let ((x%d (ite u%d (bvlshr x%d (_ bv%u 64)) l%d)) (k%d (ite u%d (bvsub k%d c%d) k%d)) (p%d (ite u%d (bvadd p%d (_ bv%u 64)) p%d))) ",l,l,l,l-1,l,l,h,l,l-1,l,l,l,l,l-1,l,l,h,l); } fprintf(o,"p-1"); for (int i=0;i<25;++i) fputc(')',o); break; }
        default: break;
        }
        if (op) fprintf(o,"(%s n%u n%u)",op,N(0),N(1));
        fprintf(o,")\n");
    }
    static pid_t spawn(std::vector<std::string> const& a, std::string const& outp) {
        pid_t p=fork();
        if (p==0) { int fd=open(outp.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); dup2(fd,1); int nul=open("/dev/null",O_RDWR); dup2(nul,2); dup2(nul,0);
            std::vector<char*> v; for (auto& s:a) v.push_back((char*)s.c_str()); v.push_back(0); execvp(v[0],v.data()); _exit(127); }
        return p;
    }
    static std::string slurp(std::string const& p) { std::string s; FILE* f=fopen(p.c_str(),"r"); if (!f) return s; char b[65536]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
    unsigned seq=0;
    Res external(std::vector<Expr*> const& cs, std::vector<Lit> const& roots, std::vector<u32> const& cn, Model* out) {
        double t0=now_s(); double lim=ext_timeout; if (deadline>0) lim=std::min(lim,deadline-t0); if (lim<=0) return R_UNKNOWN;
        std::string base=workdir+"/q"+std::to_string(getpid())+"_"+std::to_string(seq++);
        std::vector<int> num; write_cnf(base+".cnf",roots,cn,num);
        char tl[32]; sprintf(tl,"--time=%d",(int)lim+1);
        pid_t pk=spawn({"kissat","-q",tl,base+".cnf"},base+".ko"); pid_t pz=0; ++st.kissat;
        Res r=R_UNKNOWN; bool kdone=false,zdone=false; bool zst=false;
        while (true) {
            double el=now_s()-t0;
            if (!zst && (el>4 || kdone)) { zst=true; write_smt(base+".smt2",cs,true); char tz[32]; sprintf(tz,"-T:%d",(int)lim+1); pz=spawn({"z3-new",tz,base+".smt2"},base+".zo"); ++st.z3; }
            int ws; 
            if (!kdone && waitpid(pk,&ws,WNOHANG)==pk) { kdone=true; int c=WIFEXITED(ws)?WEXITSTATUS(ws):-1;
                if (c==20) { r=R_UNSAT; break; }
                if (c==10) { r=R_SAT; if (out) { std::vector<char> val(cn.size()+1,0); std::string s=slurp(base+".ko"); char* p=(char*)s.c_str(); char* sv; for (char* ln=strtok_r(p,"\n",&sv);ln;ln=strtok_r(0,"\n",&sv)) if (ln[0]=='v') { char* q=ln+1; while (*q) { long x=strtol(q,&q,10); if (x>0&&(size_t)x<val.size()) val[(size_t)x]=1; while (*q==' ') ++q; } }
                        get_model(*out,[&](u32 n)->bool{ return n<num.size()&&num[n]&&val[(size_t)num[n]]; }); } break; } }
            if (zst && !zdone && pz>0 && waitpid(pz,&ws,WNOHANG)==pz) { zdone=true; std::string s=slurp(base+".zo");
                if (s.compare(0,6,"unsat\n")==0 && s.find("(error")==s.find("(error \"line")) { r=R_UNSAT; break; }
                if (s.compare(0,4,"sat\n")==0) { r=R_SAT; if (out) { out->v.assign(X.vars.size(),0); size_t p=0; while ((p=s.find("(define-fun v",p))!=std::string::npos) { u32 vi=(u32)atoi(s.c_str()+p+13); size_t h=s.find('#',p); u64 x=0; if (s[h+1]=='x') x=strtoull(s.c_str()+h+2,0,16); else x=strtoull(s.c_str()+h+2,0,2); if (vi<out->v.size()) out->v[vi]=x; p=h; } fix_ranges(*out); } break; } }
            if (kdone&&zdone) break;
            if (el>lim) break;
            usleep(el<0.05?500:el<1?3000:20000);
        }
        if (!kdone) { kill(pk,SIGKILL); waitpid(pk,0,0); }
        if (zst&&!zdone&&pz>0) { kill(pz,SIGKILL); waitpid(pz,0,0); }
        for (const char* e:{".cnf",".ko",".smt2",".zo"}) unlink((base+e).c_str());
        st.ext_time+=now_s()-t0; return r;
    }
    void cross(std::vector<Expr*> const& cs, Res expect) {
        std::string base=workdir+"/x"+std::to_string(getpid())+"_"+std::to_string(seq++); write_smt(base+".smt2",cs,false);
        pid_t p=spawn({"z3-new","-T:20",base+".smt2"},base+".zo"); waitpid(p,0,0); std::string s=slurp(base+".zo"); unlink((base+".smt2").c_str()); unlink((base+".zo").c_str());
        if (s.compare(0,6,"unsat\n")==0||s.compare(0,4,"sat\n")==0) { ++cross_checked; bool u=s[0]=='u'; if (u!=(expect==R_UNSAT)) { ++cross_disagree; fprintf(stderr,"CROSS-CHECK DISAGREEMENT\n"); } }
    }
};
