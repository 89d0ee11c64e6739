// sx: symbolic execution of LLVM IR produced from /repo's sources, bit-precise, solver-decided.
#include "blast.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <sstream>
#include <pthread.h>
#include <sys/resource.h>

using namespace llvm;
typedef ::Expr SE;

struct Val { SE* e; u64 c; };
struct Agg { std::vector<Val> v; };
static inline Val cv(u64 c) { return Val{0, c}; }
static inline Val av(Agg* a) { return Val{0, (u64)a}; }
static inline Agg* ag(Val v) { return (Agg*)v.c; }

// ---------------- memory ----------------
enum ObjKind : uint8_t { O_GLOBAL, O_STACK, O_MALLOC, O_NEW, O_NEWARR, O_FN };
struct Obj {
    u32 refs; ObjKind kind; bool ro; u64 size;
    std::vector<uint8_t> data; std::vector<uint8_t> stt; std::vector<SE*> sym; std::vector<SE*> whole; std::vector<uint8_t> widx; // whole/widx: the stored word a byte came from; stt empty: everything concrete
};
struct ObjRef {
    Obj* p; ObjRef() : p(0) {} explicit ObjRef(Obj* q) : p(q) { if (p) ++p->refs; } ObjRef(ObjRef const& r) : p(r.p) { if (p) ++p->refs; }
    ~ObjRef() { if (p && !--p->refs) delete p; }
    ObjRef& operator=(ObjRef const& r) { if (r.p) ++r.p->refs; if (p && !--p->refs) delete p; p = r.p; return *this; }
};
static inline u64 obj_addr(u32 id) { return (u64)(id + 1) << 32; }

// ---------------- decoded code ----------------
struct Op { int slot; Val v; };
struct FnInfo;
struct Ins {
    unsigned opc; Instruction* I; int dst; unsigned w; std::vector<Op> ops; bool hit = false;
    unsigned sub = 0; u64 imm = 0; std::vector<std::pair<Op, std::pair<i64, unsigned>>> gep; // var index, (scale, width)
    FnInfo* callee = 0; int builtin = 0; std::vector<u32> succ; Type* ty = 0; u64 size = 0; bool isagg = false;
};
struct BBInfo { u32 first; u32 nphi; BasicBlock* bb; };
struct FnInfo { Function* F; bool decoded = false; int nslots = 0; std::vector<Ins> code; std::vector<BBInfo> bbs; std::map<BasicBlock*, u32> bbidx; u32 objid = 0; u64 calls = 0; std::string name; };

struct Frame { FnInfo* fn; u32 bb, ip; std::vector<Val> regs; std::vector<u32> allocas; };
struct InputRec { SE* e; u64 c; };
struct State {
    std::vector<Frame> stack; std::vector<ObjRef> mem; std::vector<SE*> pc; std::shared_ptr<Model> model; std::vector<InputRec> inputs;
    u64 instrs = 0; long heap_live = 0; u64 cursor = ~u64(0); bool gro = false; std::vector<std::pair<SE*,u64>> conc; 
};
struct Region { size_t work; size_t pclen; size_t depth; std::vector<State*> parked; };

struct AssertStat { u64 total = 0, trivial = 0, proved = 0, violated = 0, unknown = 0; };
struct Violation { std::string kind, label, where; std::vector<u64> inputs; bool uses_uninit=false; };

enum Builtin { B_NONE, B_MARK, B_REWIND, B_PROTECT, B_GLOBALS, B_U64, B_RANGE, B_ASSUME, B_ASSERT, B_CONCRETIZE, B_PARAM, B_ITE, B_REACH, B_MBEGIN, B_MEND, B_SYMBOLIC, B_LIVE, B_STOP, B_NEW, B_NEWARR, B_MALLOC, B_CALLOC, B_REALLOC, B_DEL, B_DELARR, B_FREE,
    B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ASSERTFAIL, B_ABORT, B_THROW, B_NOP, B_NOP0, B_CXA_ALLOC, B_FAIL, B_BYTES, B_PRINT, B_OBJSIZE, B_SELECT };

struct PathEnd {};   // thrown to end the current path
struct Refork {};    // current instruction must be re-executed later by a pushed state (never thrown across states)

struct Exec {
    LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL = 0;
    ExprCtx X; Solver S; 
    std::map<Function*, FnInfo*> fns; std::map<GlobalVariable*, u32> gids; std::vector<FnInfo*> fn_by_obj;
    std::map<std::string,u64> params; std::set<std::string> params_used;
    std::vector<State*> work; std::vector<Region> regions; State* st = 0;
    u64 paths = 0, paths_cut = 0, forks = 0, instrs = 0, merges = 0; double t0 = now_s(), tlimit = 60; u64 max_path_instr = 200000000ULL; u64 max_viol = 3;
    std::map<std::string,AssertStat> asserts; std::map<std::string,u64> reach; std::vector<Violation> viols; std::set<std::string> viol_keys;
    std::set<std::string> unsupported; bool timed_out = false; u64 unknown_branch = 0; u64 oob_queries = 0; u64 mux_loads = 0; bool stop_all = false;
    std::map<std::string,std::string> subst; bool shift_mod = false; bool trace=false;
    std::map<FnInfo*,FnInfo*> substf;
    u64 fresh_id = 0;

    Exec() : S(X) {}

    // ---- values
    static unsigned widthOf(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; return 0; }
    SE* ex(Val v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
    Val wrap(SE* e) { if (e->k == K_CONST && e->w <= 64) return cv(e->c); return Val{e, 0}; }
    [[noreturn]] void die(std::string const& m) { unsupported.insert(m); throw PathEnd(); }

    // ---- constants
    u32 new_obj_raw(State& s, u64 size, ObjKind k, bool uninit) {
        Obj* o = new Obj(); o->refs = 0; o->kind = k; o->ro = false; o->size = size; o->data.resize(size); if (uninit && size) o->stt.assign(size, 2);
        s.mem.push_back(ObjRef(o)); return (u32)s.mem.size() - 1;
    }
    FnInfo* fninfo(Function* F) {
        auto it = fns.find(F); if (it != fns.end()) return it->second;
        FnInfo* f = new FnInfo(); f->F = F; f->name = F->getName().str(); fns[F] = f; f->objid = 0; return f;
    }
    State* init_state = 0;
    u64 fn_addr(Function* F) { FnInfo* f = fninfo(F); if (!f->objid) { fn_by_obj.push_back(f); f->objid = (u32)fn_by_obj.size(); } return 0x7fff000000000000ULL + ((u64)f->objid << 4); }
    u32 gid(GlobalVariable* G) {
        auto it = gids.find(G); if (it != gids.end()) return it->second;
        if (init_state==0) abort();
        u64 sz = G->getValueType()->isSized() ? DL->getTypeAllocSize(G->getValueType()).getFixedValue() : 64; if (!G->hasInitializer() && sz < 512) sz = 512;
        // globals must exist in every state: they are all created up front
        u32 id = new_obj_raw(*init_state, sz, O_GLOBAL, false); gids[G] = id;
        return id;
    }
    Val constVal(Constant* C) {
        if (auto* I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() <= 64) return cv(I->getZExtValue()); if (I->getBitWidth() > 128) die("wide constant"); APInt const& a = I->getValue(); return Val{X.cst(a.getRawData()[0], I->getBitWidth(), a.getNumWords() > 1 ? a.getRawData()[1] : 0), 0}; }
        if (isa<ConstantPointerNull>(C)) return cv(0);
        if (isa<UndefValue>(C)) { Type* t = C->getType(); if (widthOf(t)) { if (widthOf(t) > 64) return Val{X.cst(0, widthOf(t)), 0}; return cv(0); } if (t->isFloatingPointTy()) return cv(0); return zeroAgg(t); }
        if (auto* F = dyn_cast<Function>(C)) return cv(fn_addr(F));
        if (auto* G = dyn_cast<GlobalVariable>(C)) return cv(obj_addr(gid(G)));
        if (auto* A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
        if (isa<ConstantAggregateZero>(C)) return zeroAgg(C->getType());
        if (auto* A = dyn_cast<ConstantAggregate>(C)) { Agg* g = new Agg(); for (unsigned i = 0; i < A->getNumOperands(); ++i) g->v.push_back(constVal(A->getOperand(i))); return av(g); }
        if (auto* D = dyn_cast<ConstantDataSequential>(C)) { Agg* g = new Agg(); for (unsigned i = 0; i < D->getNumElements(); ++i) g->v.push_back(constVal(D->getElementAsConstant(i))); return av(g); }
        if (auto* fp = dyn_cast<ConstantFP>(C)) return cv(fp->getValueAPF().bitcastToAPInt().getZExtValue());
        if (auto* E = dyn_cast<ConstantExpr>(C)) {
            unsigned w = widthOf(E->getType());
            switch (E->getOpcode()) {
            case Instruction::GetElementPtr: { APInt off(64, 0); auto* G = cast<GEPOperator>(E); if (!G->accumulateConstantOffset(*DL, off)) die("const gep"); return cv(constVal(cast<Constant>(G->getPointerOperand())).c + off.getZExtValue()); }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: { Val v = constVal(E->getOperand(0)); return cv(v.c & maskw(w)); }
            case Instruction::Add: return cv((constVal(E->getOperand(0)).c + constVal(E->getOperand(1)).c) & maskw(w));
            case Instruction::Sub: return cv((constVal(E->getOperand(0)).c - constVal(E->getOperand(1)).c) & maskw(w));
            default: break;
            }
        }
        std::string s; raw_string_ostream os(s); C->print(os); die("constant: " + os.str().substr(0, 200));
    }
    Val zeroAgg(Type* t) {
        Agg* g = new Agg(); unsigned n = 0;
        if (auto* st_ = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < st_->getNumElements(); ++i) g->v.push_back(zeroVal(st_->getElementType(i))); return av(g); }
        if (auto* at = dyn_cast<ArrayType>(t)) n = (unsigned)at->getNumElements(); else if (auto* vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements(); else die("zero of odd type");
        Type* el = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        for (unsigned i = 0; i < n; ++i) g->v.push_back(zeroVal(el)); return av(g);
    }
    Val zeroVal(Type* t) { unsigned w = widthOf(t); if (w > 64) return Val{X.cst(0, w), 0}; if (w || t->isFloatingPointTy()) return cv(0); return zeroAgg(t); }
    void writeConst(Obj* o, u64 off, Constant* C) {
        Type* t = C->getType();
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
        if (auto* S_ = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(S_->getType()); for (unsigned i = 0; i < S_->getNumOperands(); ++i) writeConst(o, off + L->getElementOffset(i), S_->getOperand(i)); return; }
        if (auto* A = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); ++i) writeConst(o, off + i * es, A->getOperand(i)); return; }
        if (auto* D = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(D->getElementType()); for (unsigned i = 0; i < D->getNumElements(); ++i) writeConst(o, off + i * es, D->getElementAsConstant(i)); return; }
        if (auto* V_ = dyn_cast<ConstantVector>(C)) { u64 es = DL->getTypeAllocSize(V_->getType()->getElementType()); for (unsigned i = 0; i < V_->getNumOperands(); ++i) writeConst(o, off + i * es, V_->getOperand(i)); return; }
        u64 n = DL->getTypeStoreSize(t); Val v = constVal(C); if (v.e) { u64 a[2] = {v.e->c, v.e->ch}; memcpy(&o->data[off], a, n); } else { u64 c = v.c; memcpy(&o->data[off], &c, n); }
    }
    void init_globals() {
        init_state = new State(); init_state->model = std::make_shared<Model>();
        new_obj_raw(*init_state, 16, O_GLOBAL, false); // id 0 unused padding
        for (auto& G : M->globals()) gid(&G);
        for (auto& G : M->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) { Obj* o = init_state->mem[gids[&G]].p; writeConst(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
    }

    // ---- decoding
    Op op(FnInfo* f, std::map<Value*, int>& slots, Value* v) { if (auto* C = dyn_cast<Constant>(v)) return Op{-1, constVal(C)}; auto it = slots.find(v); if (it == slots.end()) return Op{-1, cv(0)}; return Op{it->second, cv(0)}; }
    int builtinOf(std::string const& n);
    void decode(FnInfo* f) {
        f->decoded = true; Function* F = f->F; std::map<Value*, int> slots; int ns = 0;
        for (auto& A : F->args()) slots[&A] = ns++;
        for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) slots[&I] = ns++;
        f->nslots = ns; u32 bi = 0; for (auto& B : *F) f->bbidx[&B] = bi++;
        for (auto& B : *F) {
            BBInfo b{(u32)f->code.size(), 0, &B}; 
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                Ins n; n.opc = I.getOpcode(); n.I = &I; n.dst = I.getType()->isVoidTy() ? -1 : slots[&I]; n.ty = I.getType(); n.w = widthOf(n.ty); n.isagg = n.dst >= 0 && !n.w && !n.ty->isFloatingPointTy();
                if (auto* P = dyn_cast<PHINode>(&I)) { ++b.nphi; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) { n.ops.push_back(op(f, slots, P->getIncomingValue(i))); n.succ.push_back(f->bbidx[P->getIncomingBlock(i)]); } }
                else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                    n.ops.push_back(op(f, slots, G->getPointerOperand())); MapVector<Value*, APInt> vo; APInt co(64, 0);
                    if (!cast<GEPOperator>(G)->collectOffset(*DL, 64, vo, co)) { n.opc = 0; }
                    n.imm = co.getZExtValue(); for (auto& kv : vo) n.gep.push_back({op(f, slots, kv.first), {kv.second.getSExtValue(), widthOf(kv.first->getType())}});
                }
                else if (auto* BI = dyn_cast<BranchInst>(&I)) { if (BI->isConditional()) n.ops.push_back(op(f, slots, BI->getCondition())); for (unsigned i = 0; i < BI->getNumSuccessors(); ++i) n.succ.push_back(f->bbidx[BI->getSuccessor(i)]); }
                else if (auto* SI = dyn_cast<SwitchInst>(&I)) { n.ops.push_back(op(f, slots, SI->getCondition())); n.w = widthOf(SI->getCondition()->getType()); n.succ.push_back(f->bbidx[SI->getDefaultDest()]); for (auto& c : SI->cases()) { n.ops.push_back(Op{-1, constVal(c.getCaseValue())}); n.succ.push_back(f->bbidx[c.getCaseSuccessor()]); } }
                else if (auto* CB = dyn_cast<CallBase>(&I)) {
                    for (auto& a : CB->args()) { if (a->getType()->isMetadataTy()) n.ops.push_back(Op{-1, cv(0)}); else n.ops.push_back(op(f, slots, a)); }
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) n.succ.push_back(f->bbidx[inv->getNormalDest()]);
                    Value* cvv = CB->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cvv)) cvv = al->getAliaseeObject();
                    if (auto* cf = dyn_cast<Function>(cvv)) {
                        n.callee = fninfo(cf); n.sub = cf->getIntrinsicID(); n.builtin = builtinOf(n.callee->name); if (substf.count(n.callee)) n.callee = substf[n.callee];
                    } else if (CB->isInlineAsm()) n.builtin = -2;
                    else { n.builtin = -1; n.ops.push_back(op(f, slots, CB->getCalledOperand())); }
                    if (n.sub == Intrinsic::assume || n.sub == Intrinsic::experimental_noalias_scope_decl || n.sub==Intrinsic::lifetime_start || n.sub==Intrinsic::lifetime_end || n.sub==Intrinsic::prefetch || n.sub==Intrinsic::donothing || n.sub==Intrinsic::var_annotation) continue;
                }
                else if (auto* EV_ = dyn_cast<ExtractValueInst>(&I)) { n.ops.push_back(op(f, slots, EV_->getAggregateOperand())); for (unsigned i : EV_->indices()) n.succ.push_back(i); }
                else if (auto* IV = dyn_cast<InsertValueInst>(&I)) { n.ops.push_back(op(f, slots, IV->getAggregateOperand())); n.ops.push_back(op(f, slots, IV->getInsertedValueOperand())); for (unsigned i : IV->indices()) n.succ.push_back(i); }
                else if (auto* AI = dyn_cast<AllocaInst>(&I)) { n.ops.push_back(op(f, slots, AI->getArraySize())); n.size = DL->getTypeAllocSize(AI->getAllocatedType()); }
                else if (auto* LI = dyn_cast<LoadInst>(&I)) { n.ops.push_back(op(f, slots, LI->getPointerOperand())); n.size = DL->getTypeStoreSize(I.getType()); }
                else if (auto* SI2 = dyn_cast<StoreInst>(&I)) { n.ops.push_back(op(f, slots, SI2->getValueOperand())); n.ops.push_back(op(f, slots, SI2->getPointerOperand())); n.ty = SI2->getValueOperand()->getType(); n.w = widthOf(n.ty); n.size = DL->getTypeStoreSize(n.ty); n.isagg = !n.w && !n.ty->isFloatingPointTy(); }
                else { for (auto& o : I.operands()) n.ops.push_back(op(f, slots, o.get())); if (auto* C = dyn_cast<CmpInst>(&I)) { n.sub = C->getPredicate(); n.w = widthOf(I.getOperand(0)->getType()); n.isagg=false; } else if (isa<CastInst>(I)) n.imm = widthOf(I.getOperand(0)->getType());
                    else if (auto* RM = dyn_cast<AtomicRMWInst>(&I)) { n.sub = RM->getOperation(); n.size = DL->getTypeStoreSize(I.getType()); } else if (isa<AtomicCmpXchgInst>(I)) n.size = DL->getTypeStoreSize(I.getOperand(1)->getType()); }
                f->code.push_back(std::move(n));
            }
            f->bbs.push_back(b);
        }
        // blocks that received their phi count while decoding
    }

    // ---- path conditions and models
    bool holds(State& s, SE* c) { S.EV.begin(s.model.get()); return S.EV.eval(c) & 1; }
    bool in_pc(State& s, SE* c) { for (size_t i = s.pc.size(); i-- > 0;) if (s.pc[i] == c) return true; return false; }
    void verify_model(std::vector<SE*> const& cs, Model const& m) { S.EV.begin(&m); for (SE* e : cs) if (!(S.EV.eval(e) & 1)) { fprintf(stderr, "INTERNAL: model does not satisfy constraint\n"); unsupported.insert("internal: bad model"); stop_all = true; return; } }
    Res query(State& s, SE* c, std::shared_ptr<Model>* out) {
        if (c->k == K_CONST) { if (!c->c) return R_UNSAT; if (s.model) { if (out) *out = s.model; return R_SAT; } }
        if (in_pc(s, X.lnot(c))) return R_UNSAT;
        if (s.model && holds(s, c)) { if (out) *out = s.model; return R_SAT; }
        // a few recent models
        for (auto& m : recent) { if (m->v.size() < X.vars.size()) { m->v.resize(X.vars.size(), 0); S.fix_ranges(*m); } S.EV.begin(m.get()); bool ok = S.EV.eval(c) & 1; for (size_t i = s.pc.size(); ok && i-- > 0;) ok = S.EV.eval(s.pc[i]) & 1; if (ok) { if (out) *out = std::make_shared<Model>(*m); return R_SAT; } }
        std::vector<SE*> cs(s.pc); cs.push_back(c); auto m = std::make_shared<Model>(); if (tlimit > 0) S.deadline = t0 + tlimit;
        Res r = S.check(cs, m.get()); if (r == R_SAT) { m->v.resize(X.vars.size(), 0); S.fix_ranges(*m); verify_model(cs, *m); recent.push_front(m); if (recent.size() > 6) recent.pop_back(); if (out) *out = m; }
        return r;
    }
    std::deque<std::shared_ptr<Model>> recent; std::vector<std::vector<u64>> wits;
    void add_pc(State& s, SE* c) { if (c->k == K_CONST) return; if (c->k == K_AND) { add_pc(s, c->o[0]); add_pc(s, c->o[1]); return; } if (!in_pc(s, c)) s.pc.push_back(c); }
    State* clone(State& s) { ++forks; return new State(s); }
    // decide a condition; forks if both feasible. The clone (other side) is returned through `other`; the current state takes the returned side.
    bool decide(SE* c, State** other) {
        State& s = *st; *other = 0;
        if (c->k == K_CONST) return c->c;
        if (in_pc(s, c)) return true; SE* nc = X.lnot(c); if (in_pc(s, nc)) return false;
        bool side; 
        if (s.model) side = holds(s, c); else { std::shared_ptr<Model> m; Res r = query(s, c, &m); if (r == R_SAT) { s.model = m; side = true; } else { if (r == R_UNSAT) { add_pc(s, nc); return false; } side = true; ++unknown_branch; } }
        SE* mine = side ? c : nc; SE* oth = side ? nc : c; std::shared_ptr<Model> m; Res r = query(s, oth, &m);
        if (r == R_UNSAT) { return side; }
        State* o = clone(s); add_pc(*o, oth); o->model = m; if (r == R_UNKNOWN) { ++unknown_branch; o->model.reset(); }
        add_pc(s, mine); *other = o; return side;
    }
    // make a symbolic value concrete, enumerating the alternatives by re-executing this instruction
    u64 concretize(SE* e, u64 limit_hint = 0) {
        if (e->k == K_CONST) return e->c;
        State& s = *st;
        for (auto& p : s.conc) if (p.first == e) return p.second;
        if (!s.model) { std::shared_ptr<Model> m; Res r = query(s, X.tru(), &m); if (r != R_SAT) { if (r == R_UNKNOWN) unsupported.insert("concretize without model"); throw PathEnd(); } s.model = m; }
        S.EV.begin(s.model.get()); u64 v = S.EV.eval(e); SE* eq = X.bin(K_EQ, e, X.cst(v, e->w)); SE* ne = X.lnot(eq);
        std::shared_ptr<Model> m; Res r = query(s, ne, &m);
        if (r != R_UNSAT) { State* o = clone(s); add_pc(*o, ne); o->model = m; if (r == R_UNKNOWN) { ++unknown_branch; o->model.reset(); } work.push_back(o); }
        add_pc(s, eq); s.conc.push_back({e, v}); return v;
    }

    // ---- violations
    std::string where(State& s) {
        for (size_t i = s.stack.size(); i-- > 0;) { Frame& f = s.stack[i]; if (f.ip >= f.fn->code.size()) continue; Instruction* I = f.fn->code[f.ip].I; if (auto& L = I->getDebugLoc()) { DILocation* d = L.get(); std::string fn = d->getFilename().str(); std::ostringstream o; o << fn.substr(fn.rfind('/') + 1) << ":" << d->getLine(); for (DILocation* q = d->getInlinedAt(); q; q = q->getInlinedAt()) { std::string g = q->getFilename().str(); o << " < " << g.substr(g.rfind('/') + 1) << ":" << q->getLine(); } for (size_t j = i; j-- > 0;) { Frame& ff = s.stack[j]; if (ff.ip < ff.fn->code.size()) if (auto& LL = ff.fn->code[ff.ip].I->getDebugLoc()) { std::string g = LL->getFilename().str(); o << " < " << g.substr(g.rfind('/') + 1) << ":" << LL->getLine(); } } return o.str(); } }
        return "?";
    }
    void report(std::string const& kind, std::string const& label, Model const& m) {
        State& s = *st; std::string w = where(s); std::string key = kind + "|" + label + "|" + w; 
        if (viol_keys.count(key)) return; viol_keys.insert(key);
        Violation v; v.kind = kind; v.label = label; v.where = w; S.EV.begin(&m); for (auto& r : s.inputs) v.inputs.push_back(r.e ? S.EV.eval(r.e) : r.c);
        viols.push_back(v); fprintf(stderr, "[candidate] %s: %s at %s\n", kind.c_str(), label.c_str(), w.c_str());
        if (viols.size() >= max_viol) stop_all = true;
    }
    [[noreturn]] void fail(std::string const& kind, std::string const& label) { // unconditional failure on this path
        State& s = *st; if (!s.model) { std::shared_ptr<Model> m; Res r = query(s, X.tru(), &m); if (r == R_SAT) s.model = m; else { if (r == R_UNKNOWN) asserts[kind].unknown++; throw PathEnd(); } }
        report(kind, label, *s.model); throw PathEnd();
    }

    // ---- memory access
    Obj* wobj(u32 id) { ObjRef& r = st->mem[id]; if (r.p->refs > 1) { Obj* n = new Obj(*r.p); n->refs = 0; r = ObjRef(n); } return r.p; }
    Val byte_at(u32 id, u64 off) {
        Obj* o = st->mem[id].p; if (o->stt.empty() || o->stt[off] == 0) return cv(o->data[off]);
        if (o->stt[off] == 2) { o = wobj(id); SE* v = X.var("uninit" + std::to_string(fresh_id++), 8); if (o->sym.empty()) o->sym.assign(o->size, 0); o->sym[off] = v; o->stt[off] = 1; return Val{v, 0}; }
        return Val{o->sym[off], 0};
    }
    Val load_at(u32 id, u64 off, unsigned nbytes, unsigned w) { // in bounds
        Obj* o = st->mem[id].p; bool conc = o->stt.empty();
        if (!conc) { conc = true; for (unsigned i = 0; i < nbytes; ++i) if (o->stt[off + i]) { conc = false; break; } }
        if (nbytes <= 8 && conc) { u64 v = 0; memcpy(&v, &o->data[off], nbytes); return cv(w ? v & maskw(w) : v); }
        if (!o->whole.empty() && o->whole[off] && o->widx[off] == 0) { SE* W = o->whole[off]; bool all = W->w == nbytes * 8; for (unsigned i = 1; i < nbytes && all; ++i) all = o->whole[off + i] == W && o->widx[off + i] == i; if (all) { SE* r = W; if (w && w < r->w) r = X.extract(r, 0, w); return wrap(r); } }
        SE* r = 0; for (unsigned i = 0; i < nbytes; ++i) { Val b = byte_at(id, off + i); SE* e = ex(b, 8); r = r ? X.concat(e, r) : e; }
        if (w && w < r->w) r = X.extract(r, 0, w);
        return wrap(r);
    }
    void store_at(u32 id, u64 off, Val v, unsigned nbytes, unsigned w) {
        Obj* o = wobj(id);
        if (!v.e) { u64 c = v.c; memcpy(&o->data[off], &c, nbytes); if (!o->stt.empty()) memset(&o->stt[off], 0, nbytes); if (!o->whole.empty()) for (unsigned i = 0; i < nbytes; ++i) o->whole[off + i] = 0; return; }
        SE* e = v.e; if (e->w < nbytes * 8) e = X.zext(e, nbytes * 8);
        if (o->stt.empty()) o->stt.assign(o->size, 0); if (o->sym.empty()) o->sym.assign(o->size, 0);
        if (nbytes > 1 && o->whole.empty()) { o->whole.assign(o->size, 0); o->widx.assign(o->size, 0); } if (!o->whole.empty()) for (unsigned i = 0; i < nbytes; ++i) { o->whole[off + i] = nbytes > 1 ? e : 0; o->widx[off + i] = (uint8_t)i; }
        for (unsigned i = 0; i < nbytes; ++i) { SE* b = X.extract(e, i * 8, 8); if (b->k == K_CONST) { o->data[off + i] = (uint8_t)b->c; o->stt[off + i] = 0; } else { o->sym[off + i] = b; o->stt[off + i] = 1; } }
    }
    // checks a concrete access
    u32 resolve(u64 a, u64 n, bool write, u64& off) {
        u64 id1 = a >> 32; off = a & 0xffffffffULL; State& s = *st;
        if (id1 == 0 || id1 > s.mem.size()) { fail("memory", (a < 4096 ? std::string("null pointer ") : std::string("invalid pointer ")) + (write ? "write" : "read")); }
        u32 id = (u32)id1 - 1; Obj* o = s.mem[id].p; if (!o) fail("memory", std::string("use after free or of a dead object, ") + (write ? "write" : "read"));
        if (off > o->size || n > o->size - off) fail("memory", std::string("out-of-bounds ") + (write ? "write" : "read"));
        if (write && (o->ro || (s.gro && o->kind == O_GLOBAL))) fail("memory", "write to read-only memory");
        return id;
    }
    // find the object a symbolic address points to, proving the access in bounds (or forking / reporting)
    u32 resolve_sym(SE* a, u64 n, bool write) {
        State& s = *st;
        u64 rep; 
        if ((a->lo >> 32) == (a->hi >> 32)) rep = a->lo;
        else { if (!s.model) { std::shared_ptr<Model> m; if (query(s, X.tru(), &m) != R_SAT) throw PathEnd(); s.model = m; } S.EV.begin(s.model.get()); rep = S.EV.eval(a); }
        u64 id1 = rep >> 32; bool good = id1 && id1 <= s.mem.size() && s.mem[id1 - 1].p && s.mem[id1 - 1].p->size >= n;
        if (!good) { // this model value is itself a bad access, unless the interval representative is unreachable
            if ((a->lo >> 32) == (a->hi >> 32)) { std::shared_ptr<Model> m; Res r = query(s, X.tru(), &m); if (r == R_SAT) { s.model = m; } else throw PathEnd(); }
            fail("memory", std::string("symbolic access to invalid object, ") + (write ? "write" : "read")); }
        u32 id = (u32)id1 - 1; Obj* o = s.mem[id].p; u64 lo = obj_addr(id), hi = lo + o->size - n;
        if (a->lo >= lo && a->hi <= hi) return id;
        ++oob_queries;
        SE* bad = X.lor(X.bin(K_ULT, a, X.cst(lo, 64)), X.bin(K_ULT, X.cst(hi, 64), a)); std::shared_ptr<Model> m; Res r = query(s, bad, &m);
        if (r == R_UNSAT) return id;
        if (r == R_UNKNOWN) { asserts["memory-bounds"].unknown++; add_pc(s, X.lnot(bad)); return id; }
        S.EV.begin(m.get()); u64 v = S.EV.eval(a); u64 id2 = v >> 32; u64 off2 = v & 0xffffffffULL;
        if (id2 && id2 != id1 && id2 <= s.mem.size() && s.mem[id2 - 1].p && off2 + n <= s.mem[id2 - 1].p->size) { // may point to another object: fork
            State* o2 = clone(s); add_pc(*o2, bad); o2->model = m; work.push_back(o2); SE* ok = X.lnot(bad); add_pc(s, ok); if (s.model && !holds(s, ok)) s.model.reset(); return id; }
        report("memory", std::string("out-of-bounds ") + (write ? "write" : "read"), *m);
        SE* ok = X.lnot(bad); std::shared_ptr<Model> m2; r = query(s, ok, &m2); if (r == R_UNSAT) throw PathEnd(); add_pc(s, ok); s.model = r == R_SAT ? m2 : nullptr; return id;
    }
    Val load(Val addr, unsigned nbytes, unsigned w) {
        if (!addr.e) { u64 off; u32 id = resolve(addr.c, nbytes, false, off); return load_at(id, off, nbytes, w); }
        SE* a = addr.e;
        // push loads through pointer ites
        SE* base = a; u64 add = 0; if (a->k == K_ADD && a->o[1]->k == K_CONST) { base = a->o[0]; add = a->o[1]->c; }
        if (base->k == K_ITE && base->o[1]->k == K_CONST && base->o[2]->k == K_CONST) {
            State* other; SE* c = base->o[0]; u64 p = base->o[1]->c + add, q = base->o[2]->c + add; u64 po = p & 0xffffffffULL, qo = q & 0xffffffffULL; State& s = *st;
            auto okp = [&](u64 x, u64 off) { u64 i = x >> 32; return i && i <= s.mem.size() && s.mem[i - 1].p && off + nbytes <= s.mem[i - 1].p->size; };
            if (okp(p, po) && okp(q, qo) && w) { Val x = load_at((u32)(p >> 32) - 1, po, nbytes, w), y = load_at((u32)(q >> 32) - 1, qo, nbytes, w); (void)other; return wrap(X.ite(c, ex(x, w), ex(y, w))); }
        }
        u32 id = resolve_sym(a, nbytes, false);
        if (!w) { u64 v = concretize(a); u64 off; id = resolve(v, nbytes, false, off); return load_at(id, off, nbytes, 0); }
        return mux_load(id, a, nbytes, w);
    }
    // index decomposition: address = konst + sym, sym with t known-zero low bits
    void split(SE* a, SE*& sym, u64& k, unsigned& t) {
        sym = a; k = 0; if (a->k == K_ADD && a->o[1]->k == K_CONST) { sym = a->o[0]; k = a->o[1]->c; }
        t = 0; while (t < 63 && (sym->k0 >> t & 1)) ++t;
    }
    // does the path condition leave a single value? (in-bounds addresses only)
    bool unique_value(SE* a, u64& v) {
        State& s = *st; if (a->k == K_CONST) { v = a->c; return true; } for (auto& p : s.conc) if (p.first == a) { v = p.second; return true; }
        if (!s.model) return false; S.EV.begin(s.model.get()); v = S.EV.eval(a); if (multi.count(a) && multi[a] == s.pc.size()) return false;
        SE* ne = X.lnot(X.bin(K_EQ, a, X.cst(v, a->w))); long cb = S.conf_budget; S.quick = true; Res r = query(s, ne, 0); S.quick = false; S.conf_budget = cb; if (r == R_UNSAT) { s.conc.push_back({a, v}); return true; } multi[a] = s.pc.size(); return false;
    }
    std::map<SE*, size_t> multi;
    Val mux_load(u32 id, SE* a, unsigned nbytes, unsigned w) {
        ++mux_loads; { u64 uq; if (unique_value(a, uq)) return load_at(id, uq - obj_addr(id), nbytes, w); }
        Obj* o = st->mem[id].p; u64 lo = obj_addr(id), hi = lo + o->size - nbytes; lo = std::max(lo, a->lo); hi = std::min(hi, a->hi);
        SE* sym; u64 k; unsigned t; split(a, sym, k, t);
        u64 slo, shi; // range of sym (possibly wrapping)
        slo = lo - k; shi = hi - k;
        if (slo > shi) { // wraps around zero: fall back on bits of the whole address
            sym = a; k = 0; slo = lo; shi = hi; t = 0; while (t < 63 && (sym->k0 >> t & 1)) ++t; }
        u64 step = u64(1) << t; u64 first = (slo + step - 1) & ~(step - 1); if (first > shi) fail("memory", "no aligned candidate");
        bool junk = false; if (!o->stt.empty() && shi > first) { u64 f = first + k - obj_addr(id), l = shi + k - obj_addr(id); for (u64 x = f; x < l + nbytes && x < o->size && !junk; ++x) junk = o->stt[x] == 2; }
        if (junk || (shi - first) / step > 4096) { // tighten with the solver
            tighten(sym, first, shi);
            first = (first + step - 1) & ~(step - 1);
            if ((shi - first) / step > 70000) { u64 v = concretize(a); u64 off; u32 i2 = resolve(v, nbytes, false, off); return load_at(i2, off, nbytes, w); } }
        u64 last = shi & ~(step - 1); unsigned top = 0; { u64 d = first ^ last; top = d ? 64 - (unsigned)__builtin_clzll(d) : 0; }
        u64 prefix = top >= 64 ? 0 : (first >> top) << top; 
        u64 objbase = obj_addr(id);
        std::function<SE*(unsigned, u64)> rec = [&](unsigned bit, u64 pre) -> SE* { // candidates pre .. pre + 2^bit - 1
            if (bit <= t) { u64 off = pre + k - objbase; Val v = load_at(id, off, nbytes, w); return ex(v, w); }
            u64 half = u64(1) << (bit - 1); u64 mid = pre + half; bool L = mid - 1 >= first && pre <= last, H = mid <= last && pre + 2 * half - 1 >= first;
            // does a half contain an aligned candidate in range?
            L = L && std::max(pre, first) <= std::min(mid - 1, last); H = H && std::max(mid, first) <= std::min(pre + 2 * half - 1, last);
            if (L && !H) return rec(bit - 1, pre); if (H && !L) return rec(bit - 1, mid); if (!L && !H) return X.cst(0, w);
            SE* c = X.extract(sym, bit - 1, 1); if (c->k == K_CONST) return rec(bit - 1, c->c ? mid : pre);
            SE* h = rec(bit - 1, mid); SE* l = rec(bit - 1, pre); return X.ite(c, h, l);
        };
        return wrap(rec(top, prefix));
    }
    void tighten(SE* e, u64& lo, u64& hi) {
        State& s = *st; auto feas_le = [&](u64 b) { return query(s, X.lnot(X.bin(K_ULT, X.cst(b, 64), e)), 0) != R_UNSAT; }; auto feas_ge = [&](u64 b) { return query(s, X.lnot(X.bin(K_ULT, e, X.cst(b, 64))), 0) != R_UNSAT; };
        u64 a = lo, b = hi; while (a < b) { u64 m = a + (b - a) / 2; if (feas_le(m)) b = m; else a = m + 1; } lo = a;
        a = lo; b = hi; while (a < b) { u64 m = a + (b - a + 1) / 2; if (feas_ge(m)) a = m; else b = m - 1; } hi = a;
    }
    void store(Val addr, Val v, unsigned nbytes, unsigned w) {
        if (!addr.e) { u64 off; u32 id = resolve(addr.c, nbytes, true, off); store_at(id, off, v, nbytes, w); return; }
        SE* a = addr.e; u32 id = resolve_sym(a, nbytes, true); Obj* o = st->mem[id].p; if (o->ro || (st->gro && o->kind == O_GLOBAL)) fail("memory", "write to read-only memory");
        u64 lo = std::max(obj_addr(id), a->lo), hi = std::min(obj_addr(id) + o->size - nbytes, a->hi); SE* sym; u64 k; unsigned t; split(a, sym, k, t); u64 step = u64(1) << t;
        if (step >= nbytes && w && hi >= lo) {
            u64 first = lo - k; first = ((first + step - 1) & ~(step - 1)) + k; 
            if (first >= lo && (hi - first) / step > 300) { u64 l2 = lo, h2 = hi; tighten(a, l2, h2); lo = l2; hi = h2; first = lo - k; first = ((first + step - 1) & ~(step - 1)) + k; }
            if (first >= lo && (hi - first) / step <= 300) {
                SE* ve = ex(v, w);
                for (u64 p = first; p <= hi; p += step) { u64 off = p - obj_addr(id); SE* c = X.bin(K_EQ, a, X.cst(p, 64)); if (c->k == K_CONST && !c->c) continue; Val old = load_at(id, off, nbytes, w); store_at(id, off, wrap(X.ite(c, ve, ex(old, w))), nbytes, w); }
                return;
            }
        }
        u64 c = concretize(a); u64 off; id = resolve(c, nbytes, true, off); store_at(id, off, v, nbytes, w);
    }
    Val load_ty(Val addr, Type* t) {
        unsigned w = widthOf(t); if (w || t->isFloatingPointTy()) return load(addr, (unsigned)DL->getTypeStoreSize(t).getFixedValue(), w);
        Agg* g = new Agg();
        if (auto* s_ = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s_); for (unsigned i = 0; i < s_->getNumElements(); ++i) g->v.push_back(load_ty(addo(addr, L->getElementOffset(i)), s_->getElementType(i))); return av(g); }
        Type* el; unsigned n; if (t->isArrayTy()) { el = t->getArrayElementType(); n = (unsigned)t->getArrayNumElements(); } else if (auto* vt = dyn_cast<FixedVectorType>(t)) { el = vt->getElementType(); n = vt->getNumElements(); } else die("load type");
        u64 es = DL->getTypeAllocSize(el); for (unsigned i = 0; i < n; ++i) g->v.push_back(load_ty(addo(addr, i * es), el)); return av(g);
    }
    void store_ty(Val addr, Val v, Type* t) {
        unsigned w = widthOf(t); if (w || t->isFloatingPointTy()) { store(addr, v, (unsigned)DL->getTypeStoreSize(t).getFixedValue(), w); return; }
        Agg* g = ag(v);
        if (auto* s_ = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s_); for (unsigned i = 0; i < s_->getNumElements(); ++i) store_ty(addo(addr, L->getElementOffset(i)), g->v[i], s_->getElementType(i)); return; }
        Type* el = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); u64 es = DL->getTypeAllocSize(el); for (size_t i = 0; i < g->v.size(); ++i) store_ty(addo(addr, i * es), g->v[i], el);
    }
    Val addo(Val a, u64 k) { if (!a.e) return cv(a.c + k); return wrap(X.bin(K_ADD, a.e, X.cst(k, 64))); }
    void copy_bytes(u64 d, u64 s_, u64 n) {
        if (!n) return; u64 so, dof; u32 si = resolve(s_, n, false, so); u32 di = resolve(d, n, true, dof); Obj* o = wobj(di); Obj* q = st->mem[si].p; // same object possible
        bool sc = q->stt.empty(); 
        if (sc && o->stt.empty()) { memmove(&o->data[dof], &q->data[so], n); return; }
        std::vector<uint8_t> tb(q->data.begin() + (long)so, q->data.begin() + (long)(so + n)), ts; std::vector<SE*> te;
        if (!sc) { ts.assign(q->stt.begin() + (long)so, q->stt.begin() + (long)(so + n)); if (!q->sym.empty()) te.assign(q->sym.begin() + (long)so, q->sym.begin() + (long)(so + n)); }
        if (o->stt.empty()) o->stt.assign(o->size, 0); if (!te.empty() && o->sym.empty()) o->sym.assign(o->size, 0);
        std::vector<SE*> tw; std::vector<uint8_t> ti; if (!q->whole.empty()) { tw.assign(q->whole.begin() + (long)so, q->whole.begin() + (long)(so + n)); ti.assign(q->widx.begin() + (long)so, q->widx.begin() + (long)(so + n)); if (o->whole.empty()) { o->whole.assign(o->size, 0); o->widx.assign(o->size, 0); } }
        if (!o->whole.empty()) for (u64 i = 0; i < n; ++i) { o->whole[dof + i] = tw.empty() ? 0 : tw[i]; if (!tw.empty()) o->widx[dof + i] = ti[i]; }
        for (u64 i = 0; i < n; ++i) { o->data[dof + i] = tb[i]; o->stt[dof + i] = sc ? 0 : ts[i]; if (!sc && ts[i] == 1) o->sym[dof + i] = te[i]; }
    }
    Val alloc_heap(Val size, ObjKind k, bool zero) {
        u64 n = size.e ? concretize(size.e) : size.c; if (n > (u64(1) << 31)) fail("memory", "allocation of more than 2^31 bytes");
        u32 id = new_obj_raw(*st, n, k, !zero); ++st->heap_live; return cv(obj_addr(id));
    }
    void free_heap(Val p, ObjKind k, const char* what) {
        u64 a = p.e ? concretize(p.e) : p.c; if (!a) return; u64 id1 = a >> 32; if (id1 == 0 || id1 > st->mem.size() || (a & 0xffffffffULL)) fail("memory", std::string("invalid ") + what);
        ObjRef& r = st->mem[id1 - 1]; if (!r.p) fail("memory", std::string("double ") + what); if (r.p->kind != k) fail("memory", std::string("mismatched ") + what); r = ObjRef(); --st->heap_live;
    }
    std::string cstr(Val p) { std::string r; if (p.e) return "?"; u64 a = p.c; u64 id1 = a >> 32; if (!id1 || id1 > st->mem.size() || !st->mem[id1 - 1].p) return "?"; Obj* o = st->mem[id1 - 1].p; for (u64 i = a & 0xffffffffULL; i < o->size && o->data[i]; ++i) r += (char)o->data[i]; return r; }

    // ---- arithmetic
    Val binop(Kind k, Val a, Val b, unsigned w) { if (!a.e && !b.e && w <= 64) return cv(ExprCtx::op(k, w, a.c, b.c)); return wrap(X.bin(k, ex(a, w), ex(b, w))); }
    Val shiftop(Kind k, Val a, Val b, unsigned w) {
        if (!b.e) { if (b.c >= w) { if (shift_mod) b.c &= w - 1; else return Val{X.var("ovshift" + std::to_string(fresh_id++), w), 0}; } return binop(k, a, b, w); }
        SE* be = ex(b, w); if (be->hi < w || w > 64) return binop(k, a, b, w);
        if ((w & (w - 1)) == 0 && shift_mod) return binop(k, a, wrap(X.bin(K_AND, be, X.cst(w - 1, w))), w);
        SE* big = X.lnot(X.bin(K_ULT, be, X.cst(w, w))); std::shared_ptr<Model> m; if (query(*st, big, &m) == R_UNSAT) return binop(k, a, b, w);
        SE* f = X.var("ovshift" + std::to_string(fresh_id++), w); return wrap(X.ite(big, f, X.bin(k, ex(a, w), be)));
    }
    Val icmp(unsigned p, Val a, Val b, unsigned w) {
        switch (p) {
        case CmpInst::ICMP_EQ: return binop(K_EQ, a, b, w); case CmpInst::ICMP_NE: return notv(binop(K_EQ, a, b, w));
        case CmpInst::ICMP_ULT: return binop(K_ULT, a, b, w); case CmpInst::ICMP_UGT: return binop(K_ULT, b, a, w);
        case CmpInst::ICMP_ULE: return notv(binop(K_ULT, b, a, w)); case CmpInst::ICMP_UGE: return notv(binop(K_ULT, a, b, w));
        case CmpInst::ICMP_SLT: return binop(K_SLT, a, b, w); case CmpInst::ICMP_SGT: return binop(K_SLT, b, a, w);
        case CmpInst::ICMP_SLE: return notv(binop(K_SLT, b, a, w)); case CmpInst::ICMP_SGE: return notv(binop(K_SLT, a, b, w));
        default: die("icmp");
        }
    }
    Val notv(Val v) { if (!v.e) return cv(!v.c); return wrap(X.lnot(v.e)); }
    Val itev(Val c, Val a, Val b, unsigned w) { if (!c.e) return c.c ? a : b; return wrap(X.ite(c.e, ex(a, w), ex(b, w))); }

    Frame& top() { return st->stack.back(); }
    Val get(Op const& o) { return o.slot < 0 ? o.v : top().regs[(size_t)o.slot]; }
    void set(Ins const& n, Val v) { if (n.dst >= 0) top().regs[(size_t)n.dst] = v; }
    void jump(u32 to) {
        Frame& f = top(); u32 from = f.bb; BBInfo& b = f.fn->bbs[to]; 
        if (b.nphi) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (b.nphi > 64) { big.resize(b.nphi); t = big.data(); }
            for (u32 i = 0; i < b.nphi; ++i) { Ins& p = f.fn->code[b.first + i]; p.hit = true; size_t j = 0; while (j < p.succ.size() && p.succ[j] != from) ++j; if (j == p.succ.size()) die("phi"); t[i] = get(p.ops[j]); }
            for (u32 i = 0; i < b.nphi; ++i) { Ins& p = f.fn->code[b.first + i]; f.regs[(size_t)p.dst] = t[i]; } }
        f.bb = to; f.ip = b.first + b.nphi;
    }
    void push_fn(FnInfo* g, std::vector<Val> const& args) {
        if (!g->decoded) decode(g); ++g->calls; if (st->stack.size() > 2000) fail("resource", "call depth above 2000");
        st->stack.emplace_back(); Frame& f = st->stack.back(); f.fn = g; f.bb = 0; f.regs.assign((size_t)g->nslots, cv(0)); for (size_t i = 0; i < args.size() && i < g->F->arg_size(); ++i) f.regs[i] = args[i]; f.ip = g->bbs[0].first;
    }
    void do_ret(Val v) {
        Frame& f = top(); for (u32 id : f.allocas) st->mem[id] = ObjRef(); while (!st->mem.empty() && !st->mem.back().p) st->mem.pop_back();
        st->stack.pop_back(); if (st->stack.empty()) return; Frame& g = top(); Ins& n = g.fn->code[g.ip]; if (n.dst >= 0) g.regs[(size_t)n.dst] = v; after_call(n);
    }
    void after_call(Ins& n) { if (n.opc == Instruction::Invoke) jump(n.succ[0]); else ++top().ip; }

    Val input(std::string const& name, unsigned w, u64 lo, u64 hi) {
        if (st->cursor < st->inputs.size()) { InputRec r = st->inputs[st->cursor++]; return Val{r.e, r.e ? 0 : r.c}; } // replaying inputs after sx_rewind
        SE* e; if (lo == 0 && hi == maskw(w)) e = X.var(name, w); else { if (lo > hi) die("sx_range: empty range " + name); if (lo == hi) { st->inputs.push_back({0, lo}); return cv(lo); } e = X.var_range(name, w, lo, hi); if (e->k == K_VAR) { S.ranged.push_back(e); auto m = std::make_shared<Model>(st->model ? *st->model : Model()); if (st->model) { m->v.resize(X.vars.size(), 0); m->v[e->x] = lo; st->model = m; } } }
        st->inputs.push_back({e, 0}); return Val{e, 0};
    }
    void do_assert(Val c, std::string const& label) {
        AssertStat& a = asserts[label]; ++a.total; State& s = *st;
        if (!c.e) { if (c.c & 1) { ++a.trivial; return; } ++a.violated; fail("assert", label); }
        SE* nc = X.lnot(c.e); std::shared_ptr<Model> m; Res r = query(s, nc, &m);
        if (r == R_UNSAT) { ++a.proved; return; }
        if (r == R_UNKNOWN) { ++a.unknown; add_pc(s, c.e); if (s.model && !holds(s, c.e)) s.model.reset(); return; }
        ++a.violated; report("assert", label, *m);
        std::shared_ptr<Model> m2; r = query(s, c.e, &m2); if (r == R_UNSAT) throw PathEnd(); add_pc(s, c.e); s.model = r == R_SAT ? m2 : nullptr;
    }
    void do_assume(Val c) {
        if (!c.e) { if (!(c.c & 1)) throw PathEnd(); return; } std::shared_ptr<Model> m; Res r = query(*st, c.e, &m); if (r == R_UNSAT) throw PathEnd(); add_pc(*st, c.e); st->model = r == R_SAT ? m : nullptr;
    }
    bool builtin_call(Ins& n, std::vector<Val>& a);
    bool intrinsic(Ins& n, std::vector<Val>& a);
    void step();
    void run_state();
    void run(Function* entry);
    void merge_region();
    bool try_merge(State* A, State* B, size_t pclen);
    void write_json(std::string const& path, std::string const& entry);
};

int Exec::builtinOf(std::string const& n) {
    static const std::map<std::string, int> m = {
        {"sx_u64", B_U64}, {"sx_range", B_RANGE}, {"sx_assume", B_ASSUME}, {"sx_assert", B_ASSERT}, {"sx_concretize", B_CONCRETIZE}, {"sx_param", B_PARAM}, {"sx_ite", B_ITE}, {"sx_reach", B_REACH}, {"sx_merge_begin", B_MBEGIN}, {"sx_merge_end", B_MEND}, {"sx_symbolic", B_SYMBOLIC}, {"sx_live_heap", B_LIVE}, {"sx_stop", B_STOP}, {"sx_fail", B_FAIL}, {"sx_print", B_PRINT}, {"sx_objsize", B_OBJSIZE}, {"sx_select", B_SELECT}, {"sx_mark", B_MARK}, {"sx_rewind", B_REWIND}, {"sx_protect", B_PROTECT}, {"sx_globals", B_GLOBALS},
        {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"__assert_fail", B_ASSERTFAIL}, {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"exit", B_ABORT}, {"__cxa_pure_virtual", B_ABORT},
        {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_THROW}, {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_NOP}, {"__cxa_atexit", B_NOP0}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP} };
    auto it = m.find(n); if (it != m.end()) return it->second; if (n.compare(0, 9, "_ZSt") == 0) {}
    if (n.find("__throw_") != std::string::npos && n.compare(0, 4, "_ZSt") == 0) return B_THROW;
    return B_NONE;
}

bool Exec::builtin_call(Ins& n, std::vector<Val>& a) { // false: the instruction handled control itself
    State& s = *st;
    switch (n.builtin) {
    case B_U64: set(n, input(cstr(a[0]), 64, 0, ~u64(0))); break;
    case B_RANGE: { u64 lo = a[1].e ? concretize(a[1].e) : a[1].c, hi = a[2].e ? concretize(a[2].e) : a[2].c; set(n, input(cstr(a[0]), 64, lo, hi)); break; }
    case B_ASSUME: do_assume(a[0]); break;
    case B_ASSERT: do_assert(a[0], cstr(a[1])); break;
    case B_CONCRETIZE: set(n, a[0].e ? cv(concretize(a[0].e)) : a[0]); break;
    case B_PARAM: { std::string k = cstr(a[0]); params_used.insert(k); auto it = params.find(k); set(n, it == params.end() ? a[1] : cv(it->second)); break; }
    case B_ITE: set(n, itev(a[0].e ? Val{a[0].e->w == 1 ? a[0].e : X.extract(a[0].e, 0, 1), 0} : a[0], a[1], a[2], 64)); break;
    case B_REACH: reach[cstr(a[0])]++; break;
    case B_MBEGIN: { regions.push_back(Region{work.size(), s.pc.size(), s.stack.size(), {}}); break; }
    case B_MEND: { if (regions.empty() || regions.back().depth != s.stack.size()) die("unbalanced merge region"); ++top().ip; regions.back().parked.push_back(st); st = 0; return false; }
    case B_SYMBOLIC: set(n, cv(1)); break;
    case B_LIVE: set(n, cv((u64)s.heap_live)); break;
    case B_MARK: set(n, cv(std::min<u64>(s.cursor, s.inputs.size()))); break;
    case B_REWIND: s.cursor = a[0].c; break;
    case B_PROTECT: { u64 ad = a[0].e ? concretize(a[0].e) : a[0].c; u64 id1 = ad >> 32; if (id1 == 0 || id1 > st->mem.size() || !st->mem[id1 - 1].p) fail("memory", "sx_protect: no object"); wobj((u32)id1 - 1)->ro = a[1].c & 1; break; }
    case B_GLOBALS: s.gro = a[0].c & 1; break;
    case B_STOP: throw PathEnd();
    case B_FAIL: fail("assert", cstr(a[0]));
    case B_PRINT: { fprintf(stderr, "[print] %s ", cstr(a[0]).c_str()); if (a[1].e) fprintf(stderr, "sym id%u w%u [%lu,%lu] %s\n", a[1].e->id, a[1].e->w, a[1].e->lo, a[1].e->hi, show(a[1].e, 40).c_str()); else fprintf(stderr, "%lu\n", a[1].c); break; }
    case B_OBJSIZE: { u64 ad = a[0].e ? concretize(a[0].e) : a[0].c; u64 id1 = ad >> 32; set(n, cv(id1 && id1 <= s.mem.size() && s.mem[id1 - 1].p ? s.mem[id1 - 1].p->size : 0)); break; }
    case B_SELECT: set(n, binop(K_SELECT, a[0], a[1], 64)); break;
    case B_NEW: set(n, alloc_heap(a[0], O_NEW, false)); break;
    case B_NEWARR: set(n, alloc_heap(a[0], O_NEWARR, false)); break;
    case B_MALLOC: set(n, alloc_heap(a[0], O_MALLOC, false)); break;
    case B_CALLOC: set(n, alloc_heap(binop(K_MUL, a[0], a[1], 64), O_MALLOC, true)); break;
    case B_DEL: free_heap(a[0], O_NEW, "delete"); break;
    case B_DELARR: free_heap(a[0], O_NEWARR, "delete[]"); break;
    case B_FREE: free_heap(a[0], O_MALLOC, "free"); break;
    case B_MEMCPY: case B_MEMMOVE: { u64 d = a[0].e ? concretize(a[0].e) : a[0].c, q = a[1].e ? concretize(a[1].e) : a[1].c, l = a[2].e ? concretize(a[2].e) : a[2].c; copy_bytes(d, q, l); if (n.dst >= 0) set(n, cv(d)); break; }
    case B_MEMSET: { u64 d = a[0].e ? concretize(a[0].e) : a[0].c, l = a[2].e ? concretize(a[2].e) : a[2].c; if (l) { u64 off; u32 id = resolve(d, l, true, off); Val b = a[1]; if (!b.e) { Obj* o = wobj(id); memset(&o->data[off], (int)(b.c & 255), l); if (!o->stt.empty()) memset(&o->stt[off], 0, l); } else { Val bb = wrap(X.extract(b.e, 0, 8)); for (u64 i = 0; i < l; ++i) store_at(id, off + i, bb, 1, 8); } } if (n.dst >= 0) set(n, cv(d)); break; }
    case B_ASSERTFAIL: { std::string f = cstr(a[1]); fail("code-assert", "assertion `" + cstr(a[0]) + "' at " + f.substr(f.rfind('/') + 1) + ":" + std::to_string(a[2].c)); }
    case B_ABORT: fail("abort", n.callee ? n.callee->name : "abort");
    case B_THROW: fail("exception", n.callee ? n.callee->name : "throw");
    case B_CXA_ALLOC: { u32 id = new_obj_raw(s, (a[0].e ? 1024 : a[0].c) + 128, O_MALLOC, false); set(n, cv(obj_addr(id))); break; }
    case B_NOP: if (n.dst >= 0 && !n.isagg) set(n, cv(0)); break;
    case B_NOP0: set(n, cv(0)); break;
    default: die("builtin");
    }
    after_call(n); return true;
}

bool Exec::intrinsic(Ins& n, std::vector<Val>& a) {
    unsigned w = n.w;
    switch (n.sub) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: n.builtin = B_MEMMOVE; { int d = n.dst; (void)d; } builtin_call(n, a); return true;
    case Intrinsic::memset: n.builtin = B_MEMSET; builtin_call(n, a); return true;
    case Intrinsic::ctpop: set(n, a[0].e ? wrap(X.un(K_CTPOP, a[0].e)) : cv((u64)__builtin_popcountll(a[0].c))); break;
    case Intrinsic::cttz: case Intrinsic::ctlz: { Val v = a[0]; SE* e = X.un(n.sub == Intrinsic::cttz ? K_CTTZ : K_CTLZ, ex(v, w)); set(n, wrap(e)); break; }
    case Intrinsic::bswap: { SE* e = ex(a[0], w); SE* r = 0; for (unsigned i = 0; i < w; i += 8) { SE* b = X.extract(e, i, 8); r = r ? X.concat(r, b) : b; } set(n, wrap(r)); break; }
    case Intrinsic::bitreverse: { SE* e = ex(a[0], w); SE* r = 0; for (unsigned i = 0; i < w; ++i) { SE* b = X.extract(e, i, 1); r = r ? X.concat(r, b) : b; } set(n, wrap(r)); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { SE *x = ex(a[0], w), *y = ex(a[1], w), *s = X.bin(K_UREM, ex(a[2], w), X.cst(w, w)); bool l = n.sub == Intrinsic::fshl;
        SE* z = X.bin(K_EQ, s, X.cst(0, w)); SE* inv = X.bin(K_SUB, X.cst(w, w), s); SE* r = l ? X.bin(K_OR, X.bin(K_SHL, x, s), X.bin(K_LSHR, y, inv)) : X.bin(K_OR, X.bin(K_SHL, x, inv), X.bin(K_LSHR, y, s)); set(n, wrap(X.ite(z, l ? x : y, r))); break; }
    case Intrinsic::umin: set(n, itev(binop(K_ULT, a[0], a[1], w), a[0], a[1], w)); break;
    case Intrinsic::umax: set(n, itev(binop(K_ULT, a[0], a[1], w), a[1], a[0], w)); break;
    case Intrinsic::smin: if ((a[0].e || a[1].e) && w > 1 && w <= 64) { set(n, wrap(X.smin(ex(a[0], w), ex(a[1], w)))); break; } set(n, itev(binop(K_SLT, a[0], a[1], w), a[0], a[1], w)); break;
    case Intrinsic::smax: set(n, itev(binop(K_SLT, a[0], a[1], w), a[1], a[0], w)); break;
    case Intrinsic::abs: set(n, itev(binop(K_SLT, a[0], cv(0), w), binop(K_SUB, cv(0), a[0], w), a[0], w)); break;
    case Intrinsic::usub_sat: set(n, itev(binop(K_ULT, a[0], a[1], w), cv(0), binop(K_SUB, a[0], a[1], w), w)); break;
    case Intrinsic::uadd_sat: { Val s = binop(K_ADD, a[0], a[1], w); set(n, itev(binop(K_ULT, s, a[0], w), cv(maskw(w)), s, w)); break; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned ww = widthOf(cast<StructType>(n.ty)->getElementType(0)); Agg* g = new Agg(); Val r, o;
        if (n.sub == Intrinsic::uadd_with_overflow) { r = binop(K_ADD, a[0], a[1], ww); o = binop(K_ULT, r, a[0], ww); }
        else if (n.sub == Intrinsic::usub_with_overflow) { r = binop(K_SUB, a[0], a[1], ww); o = binop(K_ULT, a[0], a[1], ww); }
        else if (n.sub == Intrinsic::umul_with_overflow) { SE* p = X.bin(K_MUL, X.zext(ex(a[0], ww), 2 * ww > 128 ? 128 : 2 * ww), X.zext(ex(a[1], ww), 2 * ww > 128 ? 128 : 2 * ww)); if (!a[0].e && !a[1].e && ww <= 64) { unsigned __int128 q = (unsigned __int128)a[0].c * a[1].c; r = cv((u64)q & maskw(ww)); o = cv(q > maskw(ww)); } else { r = wrap(X.extract(p, 0, ww)); o = notv(wrap(X.bin(K_EQ, X.extract(p, ww, ww), X.cst(0, ww)))); } }
        else { bool sub = n.sub == Intrinsic::ssub_with_overflow; SE *x = X.sext(ex(a[0], ww), ww + 1), *y = X.sext(ex(a[1], ww), ww + 1); if (ww >= 64) { x = X.sext(ex(a[0], ww), 65); y = X.sext(ex(a[1], ww), 65); } SE* p = X.bin(sub ? K_SUB : K_ADD, x, y); r = wrap(X.extract(p, 0, ww)); o = notv(wrap(X.bin(K_EQ, X.extract(p, ww, 1), X.extract(p, ww - 1, 1)))); }
        g->v = {r, o}; set(n, av(g)); break; }
    case Intrinsic::expect: set(n, a[0]); break;
    case Intrinsic::is_constant: set(n, cv(0)); break;
    case Intrinsic::objectsize: set(n, cv(~u64(0))); break;
    case Intrinsic::trap: fail("abort", "trap");
    case Intrinsic::stacksave: set(n, cv(0)); break;
    case Intrinsic::stackrestore: break;
    default: return false;
    }
    after_call(n); return true;
}

void Exec::step() {
    Frame& f = top(); Ins& n = f.fn->code[f.ip]; n.hit = true; ++st->instrs; ++instrs; unsigned w = n.w;
    switch (n.opc) {
    case Instruction::Add: set(n, binop(K_ADD, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::Sub: set(n, binop(K_SUB, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::Mul: set(n, binop(K_MUL, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::And: set(n, binop(K_AND, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::Or: set(n, binop(K_OR, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::Xor: set(n, binop(K_XOR, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::Shl: set(n, shiftop(K_SHL, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::LShr: set(n, shiftop(K_LSHR, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::AShr: set(n, shiftop(K_ASHR, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        Val b = get(n.ops[1]); if (!b.e) { if (!b.c) fail("arith", "division by zero"); } else if (b.e->lo == 0) { State* o; SE* z = X.bin(K_EQ, b.e, X.cst(0, w)); std::shared_ptr<Model> m; Res r = query(*st, z, &m); (void)o; if (r == R_SAT) { report("arith", "division by zero", *m); do_assume(wrap(X.lnot(z))); } }
        set(n, binop(n.opc == Instruction::UDiv ? K_UDIV : n.opc == Instruction::URem ? K_UREM : n.opc == Instruction::SDiv ? K_SDIV : K_SREM, get(n.ops[0]), b, w)); break; }
    case Instruction::ICmp: if (!n.w) { die("vector icmp"); } set(n, icmp(n.sub, get(n.ops[0]), get(n.ops[1]), w)); break;
    case Instruction::ZExt: { Val a = get(n.ops[0]); if (!a.e && w <= 64) set(n, a); else set(n, wrap(X.zext(ex(a, (unsigned)n.imm), w))); break; }
    case Instruction::SExt: { Val a = get(n.ops[0]); if (!a.e && w <= 64) set(n, cv((u64)sextw(a.c, (unsigned)n.imm) & maskw(w))); else set(n, wrap(X.sext(ex(a, (unsigned)n.imm), w))); break; }
    case Instruction::Trunc: { Val a = get(n.ops[0]); if (!a.e) set(n, cv(a.c & maskw(w))); else set(n, wrap(X.extract(a.e, 0, w))); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val a = get(n.ops[0]); unsigned sw = (unsigned)n.imm; if (!sw || !w) { die("bitcast"); } if (sw == w) set(n, a); else if (sw < w) set(n, wrap(X.zext(ex(a, sw), w))); else set(n, wrap(X.extract(ex(a, sw), 0, w))); break; }
    case Instruction::Freeze: set(n, get(n.ops[0])); break;
    case Instruction::Select: { Val c = get(n.ops[0]); Val a = get(n.ops[1]), b = get(n.ops[2]); if (!c.e) set(n, c.c ? a : b); else if (w) set(n, wrap(X.ite(c.e, ex(a, w), ex(b, w)))); else { u64 v = concretize(c.e); set(n, v ? a : b); } break; }
    case Instruction::Alloca: { Val c = get(n.ops[0]); u64 cnt = c.e ? concretize(c.e) : c.c; u32 id = new_obj_raw(*st, n.size * cnt, O_STACK, true); top().allocas.push_back(id); set(n, cv(obj_addr(id))); break; }
    case Instruction::Load: { Val a = get(n.ops[0]); Val v = n.isagg ? load_ty(a, n.ty) : load(a, (unsigned)n.size, w); set(n, v); break; }
    case Instruction::Store: { Val v = get(n.ops[0]), a = get(n.ops[1]); if (n.isagg) store_ty(a, v, n.ty); else store(a, v, (unsigned)n.size, w); break; }
    case Instruction::GetElementPtr: {
        Val p = get(n.ops[0]); if (n.isagg) die("vector gep"); Val r = addo(p, n.imm);
        for (auto& g : n.gep) { Val i = get(g.first); unsigned iw = g.second.second; if (iw < 64) i = i.e ? wrap(X.sext(i.e, 64)) : cv((u64)sextw(i.c, iw)); Val m = binop(K_MUL, i, cv((u64)g.second.first), 64); r = binop(K_ADD, r, m, 64); }
        set(n, r); break; }
    case Instruction::ExtractValue: { Val v = get(n.ops[0]); for (u32 i : n.succ) v = ag(v)->v[i]; set(n, v); break; }
    case Instruction::InsertValue: { Val v = get(n.ops[0]); std::function<Val(Val, size_t)> rec = [&](Val b, size_t d) -> Val { if (d == n.succ.size()) return get(n.ops[1]); Agg* g = new Agg(*ag(b)); g->v[n.succ[d]] = rec(g->v[n.succ[d]], d + 1); return av(g); }; set(n, rec(v, 0)); break; }
    case Instruction::Br: {
        if (n.succ.size() == 1) { jump(n.succ[0]); return; }
        Val c = get(n.ops[0]); if (!c.e) { jump(c.c ? n.succ[0] : n.succ[1]); return; }
        State* o; bool t = decide(c.e, &o); if (o) { State* me = st; st = o; jump(t ? n.succ[1] : n.succ[0]); work.push_back(o); st = me; }
        jump(t ? n.succ[0] : n.succ[1]); return; }
    case Instruction::Switch: {
        Val c = get(n.ops[0]); if (!c.e) { for (size_t i = 1; i < n.ops.size(); ++i) if (n.ops[i].v.c == c.c) { jump(n.succ[i]); return; } jump(n.succ[0]); return; }
        // group cases by target
        std::map<u32, SE*> tg; SE* any = X.fls(); for (size_t i = 1; i < n.ops.size(); ++i) { SE* q = X.bin(K_EQ, c.e, X.cst(n.ops[i].v.c, w)); any = X.lor(any, q); SE*& t = tg[n.succ[i]]; t = t ? X.lor(t, q) : q; }
        SE*& d = tg[n.succ[0]]; d = d ? X.lor(d, X.lnot(any)) : X.lnot(any);
        std::vector<std::pair<u32, SE*>> v(tg.begin(), tg.end());
        for (size_t i = 0; i < v.size(); ++i) { if (i + 1 == v.size()) { jump(v[i].first); return; } State* o; bool t = decide(v[i].second, &o);
            if (o) { // the other side continues
                if (t) { State* me = st; st = o; // o: not this target; re-executes the switch later under its stronger condition
                    work.push_back(o); st = me; jump(v[i].first); return; }
                else { State* me = st; st = o; jump(v[i].first); work.push_back(o); st = me; continue; } }
            if (t) { jump(v[i].first); return; } }
        return; }
    case Instruction::Ret: { Val v = n.ops.empty() ? cv(0) : get(n.ops[0]); do_ret(v); return; }
    case Instruction::Unreachable: fail("unreachable", "control reached a point the compiler considers undefined");
    case Instruction::Call: case Instruction::Invoke: {
        std::vector<Val> a; a.reserve(n.ops.size()); for (auto& o : n.ops) a.push_back(get(o));
        if (n.builtin == -2) die("inline asm");
        FnInfo* g = n.callee;
        if (n.builtin == -1) { Val t = a.back(); a.pop_back(); u64 p = t.e ? concretize(t.e) : t.c; if ((p >> 48) != 0x7fff || ((p & 0xffffffffffffULL) >> 4) == 0 || ((p & 0xffffffffffffULL) >> 4) > fn_by_obj.size()) fail("memory", "call through an invalid function pointer"); g = fn_by_obj[((p & 0xffffffffffffULL) >> 4) - 1]; if (substf.count(g)) g = substf[g];
            int b = builtinOf(g->name); if (b) { int sv = n.builtin; FnInfo* sc = n.callee; n.builtin = b; n.callee = g; struct Restore { Ins& n; int b; FnInfo* c; ~Restore() { n.builtin = b; n.callee = c; } } rs{n, sv, sc}; builtin_call(n, a); return; } }
        else if (n.builtin > 0) { if (n.sub) { if (intrinsic(n, a)) return; } builtin_call(n, a); return; }
        else if (n.sub) { if (intrinsic(n, a)) return; die("intrinsic " + n.callee->name); }
        if (g->F->isDeclaration()) die("external function " + g->name);
        push_fn(g, a); return; }
    case Instruction::AtomicRMW: { Val p = get(n.ops[0]), v = get(n.ops[1]); Val old = load(p, (unsigned)n.size, w); Val nv; switch (n.sub) { case AtomicRMWInst::Add: nv = binop(K_ADD, old, v, w); break; case AtomicRMWInst::Sub: nv = binop(K_SUB, old, v, w); break; case AtomicRMWInst::Xchg: nv = v; break; default: die("atomicrmw"); } store(p, nv, (unsigned)n.size, w); set(n, old); break; }
    case Instruction::AtomicCmpXchg: { Val p = get(n.ops[0]), c = get(n.ops[1]), v = get(n.ops[2]); unsigned ww = widthOf(cast<StructType>(n.ty)->getElementType(0)); Val old = load(p, (unsigned)n.size, ww); Val e = binop(K_EQ, old, c, ww); store(p, itev(e, v, old, ww), (unsigned)n.size, ww); Agg* g = new Agg(); g->v = {old, e}; set(n, av(g)); break; }
    case Instruction::Fence: break;
    case Instruction::ExtractElement: { Val i = get(n.ops[1]); if (i.e) die("extractelement"); set(n, ag(get(n.ops[0]))->v[i.c]); break; }
    case Instruction::InsertElement: { Val i = get(n.ops[2]); if (i.e) die("insertelement"); Agg* g = new Agg(*ag(get(n.ops[0]))); g->v[i.c] = get(n.ops[1]); set(n, av(g)); break; }
    default: die(std::string("instruction ") + n.I->getOpcodeName());
    }
    ++top().ip;
}

void Exec::run_state() {
    u64 cnt = 0;
    try {
        while (st && !st->stack.empty()) {
            step();
            if ((++cnt & 1023) == 0) { if (tlimit > 0 && now_s() - t0 > tlimit) { timed_out = true; stop_all = true; } if (st && st->instrs > max_path_instr) fail("resource", "path does not terminate within the instruction bound"); }
            if (stop_all) break;
        }
        if (st && st->stack.empty()) { ++paths; if (wits.size() < 3 && st->model) { std::vector<u64> v; S.EV.begin(st->model.get()); bool ok = true; for (SE* e : st->pc) if (!(S.EV.eval(e) & 1)) { ok = false; break; } if (ok) { for (auto& r : st->inputs) v.push_back(r.e ? S.EV.eval(r.e) : r.c); wits.push_back(v); } } }
    } catch (PathEnd&) { ++paths_cut; }
}

bool Exec::try_merge(State* A, State* B, size_t pclen) { // merge B into A
    if (A->stack.size() != B->stack.size() || A->inputs.size() != B->inputs.size() || A->heap_live != B->heap_live || std::min<u64>(A->cursor, A->inputs.size()) != std::min<u64>(B->cursor, B->inputs.size()) || A->gro != B->gro) return false;
    for (size_t i = 0; i < A->inputs.size(); ++i) if (A->inputs[i].e != B->inputs[i].e || A->inputs[i].c != B->inputs[i].c) return false;
    for (size_t i = 0; i < A->stack.size(); ++i) { Frame &f = A->stack[i], &g = B->stack[i]; if (f.fn != g.fn || f.ip != g.ip || f.allocas != g.allocas) return false; }
    size_t nm = std::max(A->mem.size(), B->mem.size());
    for (size_t i = 0; i < nm; ++i) { Obj* p = i < A->mem.size() ? A->mem[i].p : 0; Obj* q = i < B->mem.size() ? B->mem[i].p : 0; if (p == q) continue; if (!p || !q || p->size != q->size || p->kind != q->kind) return false; }
    SE* a = X.tru(); for (size_t i = pclen; i < A->pc.size(); ++i) a = X.land(a, A->pc[i]); SE* b = X.tru(); for (size_t i = pclen; i < B->pc.size(); ++i) b = X.land(b, B->pc[i]);
    for (size_t i = 0; i < pclen; ++i) if (A->pc[i] != B->pc[i]) return false;
    // values: b ? B : A
    for (size_t i = 0; i < A->stack.size(); ++i) { Frame &f = A->stack[i], &g = B->stack[i]; if (!f.fn->decoded) return false; std::map<int, unsigned> wd; 
        for (size_t r = 0; r < f.regs.size(); ++r) { Val &x = f.regs[r], &y = g.regs[r]; if (x.e == y.e && x.c == y.c) continue; unsigned w = 0; if (x.e) w = x.e->w; else if (y.e) w = y.e->w; else { // both concrete: need the width
                if (wd.empty()) { int s_ = 0; for (auto& AA : f.fn->F->args()) wd[s_++] = widthOf(AA.getType()); for (auto& BB : *f.fn->F) for (auto& I : BB) if (!I.getType()->isVoidTy()) wd[s_++] = widthOf(I.getType()); }
                w = wd[(int)r]; if (!w) { continue; } }
            if (x.e && y.e && x.e->w != y.e->w) return false; 
            x = wrap(X.ite(b, ex(y, w), ex(x, w))); } }
    State* save = st;
    for (size_t i = 0; i < nm; ++i) { Obj* p = i < A->mem.size() ? A->mem[i].p : 0; Obj* q = i < B->mem.size() ? B->mem[i].p : 0; if (p == q) continue;
        u64 sz = p->size; for (u64 o = 0; o < sz;) { unsigned n = (o % 8 == 0 && o + 8 <= sz) ? 8 : 1; bool same = true; for (unsigned j = 0; j < n; ++j) { int sp = p->stt.empty() ? 0 : p->stt[o + j], sq = q->stt.empty() ? 0 : q->stt[o + j]; if (sp != sq || (sp == 0 && p->data[o + j] != q->data[o + j]) || (sp == 1 && p->sym[o + j] != q->sym[o + j])) { same = false; break; } }
            if (!same) { st = B; Val y = load_at((u32)i, o, n, n * 8); q = B->mem[i].p; st = A; Val x = load_at((u32)i, o, n, n * 8); store_at((u32)i, o, wrap(X.ite(b, ex(y, n * 8), ex(x, n * 8))), n, n * 8); p = A->mem[i].p; }
            o += n; } }
    st = save;
    A->pc.resize(pclen); SE* ab = X.lor(a, b); if (ab->k != K_CONST) A->pc.push_back(ab); if (!A->model) A->model = B->model; A->conc.clear(); A->instrs = std::max(A->instrs, B->instrs); ++merges; return true;
}
void Exec::merge_region() {
    Region r = regions.back(); regions.pop_back(); std::vector<State*> out;
    for (State* s : r.parked) { bool ok = false; for (State* o : out) if (try_merge(o, s, r.pclen)) { ok = true; break; } if (ok) delete s; else out.push_back(s); }
    // if the disjunction of the suffixes covers everything, drop it
    for (State* o : out) if (out.size() == 1 && o->pc.size() == r.pclen + 1) { State tmp; std::vector<SE*> cs(o->pc.begin(), o->pc.begin() + (long)r.pclen); cs.push_back(X.lnot(o->pc.back())); if (S.check(cs, 0) == R_UNSAT) o->pc.pop_back(); }
    for (State* o : out) work.push_back(o);
}

void Exec::run(Function* entry) {
    init_globals(); st = init_state;
    // static constructors
    if (auto* G = M->getGlobalVariable("llvm.global_ctors", true)) if (G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
        std::vector<std::pair<u64, Function*>> cs; for (auto& o : A->operands()) { auto* s_ = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(s_->getOperand(0))->getZExtValue(), cast<Function>(s_->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) { push_fn(fninfo(c.second), {}); run_state(); if (!st || !st->stack.empty()) { unsupported.insert("static constructor " + c.second->getName().str()); return; } }
    }
    paths = 0; st->instrs = 0; st->heap_live = 0; push_fn(fninfo(entry), {}); work.push_back(st);
    while (!stop_all) {
        while (!regions.empty() && work.size() == regions.back().work) merge_region();
        if (work.empty()) { if (!regions.empty()) continue; break; }
        st = work.back(); work.pop_back(); run_state(); if (st) { delete st; st = 0; }
        if (tlimit > 0 && now_s() - t0 > tlimit) { if (!work.empty() || !regions.empty()) timed_out = true; break; }
    }
}

static std::string js(std::string const& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
void Exec::write_json(std::string const& path, std::string const& entry) {
    FILE* o = fopen(path.c_str(), "w"); bool unk = unknown_branch; for (auto& a : asserts) unk |= a.second.unknown > 0;
    const char* status = !unsupported.empty() ? "unsupported" : !viols.empty() ? "violation" : timed_out ? "timeout" : unk ? "unknown" : "proved";
    fprintf(o, "{\"entry\":%s,\"status\":\"%s\",\"paths\":%lu,\"paths_cut\":%lu,\"forks\":%lu,\"merges\":%lu,\"instructions\":%lu,\"time\":%.2f,\n", js(entry).c_str(), status, paths, paths_cut, forks, merges, instrs, now_s() - t0);
    auto& q = S.st; fprintf(o, "\"solver\":{\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"trivial\":%lu,\"minisat\":%lu,\"kissat\":%lu,\"z3\":%lu,\"abstraction_unsat\":%lu,\"abstraction_lemmas\":%lu,\"time\":%.2f,\"external_time\":%.2f,\"max_query_time\":%.2f,\"max_cone\":%lu,\"cross_checked\":%lu,\"cross_disagree\":%lu},\n", q.queries, q.sat, q.unsat, q.unknown, q.trivial, q.minisat, q.kissat, q.z3, q.abs_unsat, q.abs_lemmas, q.time, q.ext_time, q.max_time, q.max_cone, S.cross_checked, S.cross_disagree);
    fprintf(o, "\"vars\":%zu,\"exprs\":%zu,\"aig_nodes\":%zu,\"mux_loads\":%lu,\"oob_queries\":%lu,\n\"asserts\":{", X.vars.size(), X.all.size(), S.B.nodes.size(), mux_loads, oob_queries);
    bool f = true; for (auto& a : asserts) { fprintf(o, "%s%s:{\"total\":%lu,\"trivial\":%lu,\"proved\":%lu,\"violated\":%lu,\"unknown\":%lu}", f ? "" : ",", js(a.first).c_str(), a.second.total, a.second.trivial, a.second.proved, a.second.violated, a.second.unknown); f = false; }
    fprintf(o, "},\n\"reach\":{"); f = true; for (auto& a : reach) { fprintf(o, "%s%s:%lu", f ? "" : ",", js(a.first).c_str(), a.second); f = false; }
    fprintf(o, "},\n\"params\":{"); f = true; for (auto& a : params) { fprintf(o, "%s%s:%lu", f ? "" : ",", js(a.first).c_str(), a.second); f = false; }
    fprintf(o, "},\n\"unsupported\":["); f = true; for (auto& a : unsupported) { fprintf(o, "%s%s", f ? "" : ",", js(a).c_str()); f = false; }
    fprintf(o, "],\n\"violations\":["); f = true; for (auto& v : viols) { fprintf(o, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"inputs\":[", f ? "" : ",", js(v.kind).c_str(), js(v.label).c_str(), js(v.where).c_str()); for (size_t i = 0; i < v.inputs.size(); ++i) fprintf(o, "%s%lu", i ? "," : "", v.inputs[i]); fprintf(o, "]}"); f = false; }
    // coverage
    std::map<std::string, std::set<unsigned>> lines; std::set<std::string> funcs;
    for (auto& kv : fns) { FnInfo* fi = kv.second; if (!fi->decoded) continue; for (auto& n : fi->code) if (n.hit) if (auto& L = n.I->getDebugLoc()) for (DILocation* d = L.get(); d; d = d->getInlinedAt()) { std::string fn = d->getFilename().str(); if (fn.compare(0, 6, "/repo/") != 0) continue; lines[fn].insert(d->getLine()); if (auto* sp = d->getScope()->getSubprogram()) { std::string nm = sp->getLinkageName().str(); if (nm.empty()) nm = sp->getName().str(); funcs.insert(nm); } } }
    fprintf(o, "],\n\"witnesses\":["); f = true; for (auto& v : wits) { fprintf(o, "%s[", f ? "" : ","); for (size_t i = 0; i < v.size(); ++i) fprintf(o, "%s%lu", i ? "," : "", v[i]); fprintf(o, "]"); f = false; }
    fprintf(o, "],\n\"functions\":["); f = true; for (auto& a : funcs) { fprintf(o, "%s%s", f ? "" : ",", js(llvm::demangle(a)).c_str()); f = false; }
    fprintf(o, "],\n\"lines\":{"); f = true; for (auto& a : lines) { fprintf(o, "%s%s:[", f ? "" : ",", js(a.first).c_str()); bool g = true; for (unsigned l : a.second) { fprintf(o, "%s%u", g ? "" : ",", l); g = false; } fprintf(o, "]"); f = false; }
    fprintf(o, "}}\n"); fclose(o);
}

static std::string fn_plain(std::string const& mangled) { // demangled name without parameters
    std::string d = llvm::demangle(mangled); size_t p = d.find('('); return p == std::string::npos ? d : d.substr(0, p);
}

static int prepare(std::string in, std::string out, std::vector<std::string> entries, std::vector<std::string> noinl) {
    LLVMContext ctx; SMDiagnostic e; auto M = parseIRFile(in, e, ctx); if (!M) { e.print("sx", errs()); return 2; }
    std::set<std::string> keep(entries.begin(), entries.end());
    for (auto& F : *M) { for (auto& p : noinl) if (!F.isDeclaration() && fn_plain(F.getName().str()) == p) { F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); keep.insert(F.getName().str()); } }
    for (auto& F : *M) if (F.getName().starts_with("sxspec_")) { F.addFnAttr(Attribute::NoInline); keep.insert(F.getName().str()); }
    internalizeModule(*M, [&](GlobalValue const& g) { return keep.count(g.getName().str()) > 0; });
    const char* args[] = {"sx", "--phi-node-folding-threshold=12", "--two-entry-phi-node-folding-threshold=12"}; cl::ParseCommandLineOptions(3, args);
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.MergeFunctions = false;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB(nullptr, pto);
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager P; P.addPass(GlobalDCEPass()); P.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1)); P.addPass(GlobalDCEPass()); P.run(*M, MAM);
    std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); return 0;
}

struct Args { int argc; char** argv; int rc; };
static void* real_main(void* p) {
    Args* A = (Args*)p; int argc = A->argc; char** argv = A->argv; A->rc = 2;
    if (argc < 2) return 0; std::string mode = argv[1];
    if (mode == "prepare") { std::vector<std::string> en, ni; std::string in, out; for (int i = 2; i < argc; ++i) { std::string a = argv[i]; if (a == "--entry") en.push_back(argv[++i]); else if (a == "--noinline") ni.push_back(argv[++i]); else if (a == "-o") out = argv[++i]; else in = a; } A->rc = prepare(in, out, en, ni); return 0; }
    if (mode != "run") return 0;
    Exec* E = new Exec(); std::string in, entry, out = "out.json"; std::vector<std::pair<std::string, std::string>> sub;
    for (int i = 2; i < argc; ++i) { std::string a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") E->tlimit = atof(argv[++i]); else if (a == "--workdir") E->S.workdir = argv[++i];
        else if (a == "--ext-timeout") E->S.ext_timeout = atof(argv[++i]); else if (a == "--conf") E->S.conf_budget = atol(argv[++i]); else if (a == "--verbose") E->S.verbose = atoi(argv[++i]); else if (a == "--cross") E->S.crosscheck = true; else if (a == "--max-viol") E->max_viol = (u64)atol(argv[++i]); else if (a == "--shift-mod") E->shift_mod = true; else if (a == "--max-instr") E->max_path_instr = (u64)atoll(argv[++i]);
        else if (a == "--param") { std::string kv = argv[++i]; size_t q = kv.find('='); E->params[kv.substr(0, q)] = strtoull(kv.c_str() + q + 1, 0, 0); } else if (a == "--subst") { std::string kv = argv[++i]; size_t q = kv.find('='); sub.push_back({kv.substr(0, q), kv.substr(q + 1)}); } else in = a; }
    SMDiagnostic e; E->M = parseIRFile(in, e, E->ctx); if (!E->M) { e.print("sx", errs()); return 0; } E->DL = &E->M->getDataLayout();
    for (auto& s : sub) { Function* to = E->M->getFunction(s.second); if (!to || to->isDeclaration()) continue; for (auto& F : *E->M) if (!F.isDeclaration() && fn_plain(F.getName().str()) == s.first) E->substf[E->fninfo(&F)] = E->fninfo(to); }
    Function* F = E->M->getFunction(entry); if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 0; }
    try { E->run(F); } catch (PathEnd&) {} 
    E->write_json(out, entry); A->rc = E->viols.empty() ? 0 : 1; return 0;
}
int main(int argc, char** argv) {
    Args a{argc, argv, 2}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30); pthread_t t; if (pthread_create(&t, &at, real_main, &a)) { real_main(&a); } else pthread_join(t, 0);
    fflush(0); _exit(a.rc);
}
