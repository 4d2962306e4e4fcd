// vsym: a bounded symbolic executor for LLVM IR (clang 18), deciding path feasibility and assertions with z3.
// usage: vsym MODULE.bc OUTDIR [key=value ...]
// The module must contain vs_main(), the harness. See ../harness/vsym.h for the harness interface.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- shared statistics
struct Shared {
    std::atomic<int> workers, stop;
    std::atomic<long> paths, assumed, failed, insts, queries, z3calls, z3us, z3sat, z3unsat, unknown, branches, forks, viols, samples, unsupported, maxpc, maxinst, asserts, assertq, crashed, memchecks;
    std::atomic<long> pathSerial;
    char unsup[2048];
    char reach[512];
    unsigned char cover[1]; // flexible
};
static Shared* S;
static struct { long memchecks, branches, queries, forks; } L; // flushed to S at the end of each path
static std::string outdir;
static int maxWorkers = 8;
static long maxViol = 6, maxSamples = 200, sampleStride = 1;
static long instLimit = 3000000;
static double deadline = 0;
static u64 rlimitPerQuery = 200000000;
static std::string libPrefix;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- values and memory
struct Val { u64 c; E e; };
static inline Val CV(u64 c) { return {c, nullptr}; }
static inline Val EV(E e) { if (isC(e)) return {e->v, nullptr}; return {0, e}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static const E UNINIT = (E)1;

enum Kind : uint8_t { GLOBAL, HEAP, STACK };
struct Obj {
    int rc; u64 base; uint32_t size; Kind kind; bool ro;
    uint8_t* d; E* s;
    ~Obj() { free(d); free(s); }
};
static Obj* newObj(u64 base, uint32_t size, Kind k, bool uninit) {
    Obj* o = new Obj();
    o->rc = 1; o->base = base; o->size = size; o->kind = k; o->ro = false;
    o->d = (uint8_t*)calloc(size ? size : 1, 1);
    o->s = nullptr;
    if (uninit && size) { o->s = (E*)malloc(size * sizeof(E)); for (uint32_t i = 0; i < size; i++) o->s[i] = UNINIT; }
    return o;
}
struct Slot { u64 base; uint32_t size; Obj* o; const char* what; }; // o == null: freed
static void ref(Obj* o) { if (o) o->rc++; }
static void unref(Obj* o) { if (o && --o->rc == 0) delete o; }

static const u64 FBASE = 0x100000, GBASE = 0x10000000ull, HBASE = 0x1000000000ull, SBASE = 0x7000000000ull, SEND = 0x9000000000ull;

struct MemMap {
    std::vector<Slot> v;
    MemMap() {}
    MemMap(const MemMap& o) : v(o.v) { for (auto& s : v) ref(s.o); }
    MemMap& operator=(const MemMap&) = delete;
    ~MemMap() { for (auto& s : v) unref(s.o); }
    int find(u64 a) const { // last slot with base <= a
        int lo = 0, hi = (int)v.size();
        while (lo < hi) { int m = (lo + hi) / 2; if (v[m].base <= a) lo = m + 1; else hi = m; }
        return lo - 1;
    }
};

// ---------------------------------------------------------------- decoded program
enum IOp : uint8_t { I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_FPTRUNC, I_FPEXT, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_UNREACH, I_INSERTV };
struct Opnd { int kind; uint32_t reg; u64 c; unsigned w; }; // kind 0 const, 1 reg, 2 undef
struct Leaf { unsigned w; u64 off; };
struct Edge { uint32_t target; std::vector<std::pair<uint32_t, Opnd>> phis; };
struct Func;
struct Inst {
    IOp op; unsigned sub = 0; unsigned w = 0, w2 = 0; bool nsw = false, nuw = false;
    int dst = -1; unsigned nslots = 0;
    Opnd a{}, b{}, c{};
    std::vector<Opnd> args; std::vector<u64> scales; u64 off = 0;
    std::vector<Edge> edges; std::vector<u64> cases;
    std::vector<Leaf> leaves;
    Func* callee = nullptr; int builtin = 0; unsigned cover = 0;
    const Instruction* I = nullptr;
};
struct Func {
    Function* F; std::string name; u64 addr; bool decl; bool lib; unsigned nregs = 0, nargs = 0; bool va = false;
    std::vector<Inst> code; int builtin = 0; bool decoded = false; bool inscope = false;
    unsigned coverBase = 0;
};
static Module* M; static const DataLayout* DL;
static std::map<const Function*, Func*> funcs; static std::map<u64, Func*> funcByAddr; static std::vector<Func*> funcList;
static std::map<const GlobalVariable*, u64> globalAddr;
static unsigned coverTotal = 0;
static std::vector<std::string> reachLabels;

enum Builtin { B_NONE, B_MALLOC = 1, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ABORT, B_EXIT, B_ASSERTFAIL, B_SETJMP, B_LONGJMP,
    B_VASTART, B_VAEND, B_VACOPY, B_NOP, B_ABS, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_EXPECT, B_TRAP,
    B_BYTES, B_INT, B_CHOOSE, B_ASSUME, B_ASSERT, B_REACH, B_OUT, B_OUTS, B_LIVE, B_MAYFAIL, B_LIMIT, B_EXITOK, B_ITE, B_MUST, B_DONE, B_CEIL, B_FLOOR, B_FABS, B_OBJSIZE, B_SYMBOLIC, B_HEAPID, B_READABLE, B_FAIL, B_CONCRETE, B_FMTDBL, B_STRTODC, B_FRESH64 };
static const std::map<std::string, int> builtinNames = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
    {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL}, {"_setjmp", B_SETJMP}, {"setjmp", B_SETJMP}, {"__sigsetjmp", B_SETJMP}, {"longjmp", B_LONGJMP}, {"_longjmp", B_LONGJMP}, {"siglongjmp", B_LONGJMP},
    {"vs_bytes", B_BYTES}, {"vs_int", B_INT}, {"vs_choose", B_CHOOSE}, {"vs_assume", B_ASSUME}, {"vs_assert_", B_ASSERT}, {"vs_reach", B_REACH}, {"vs_out", B_OUT}, {"vs_outs", B_OUTS},
    {"vs_live_heap", B_LIVE}, {"vs_malloc_may_fail", B_MAYFAIL}, {"vs_limit", B_LIMIT}, {"vs_exit_ok", B_EXITOK}, {"vs_ite", B_ITE}, {"vs_must", B_MUST}, {"vs_done", B_DONE},
    {"ceil", B_CEIL}, {"floor", B_FLOOR}, {"fabs", B_FABS}, {"vs_symbolic", B_SYMBOLIC}, {"vs_readable", B_READABLE}, {"vs_concrete", B_CONCRETE}, {"vs_fmtdbl", B_FMTDBL}, {"vs_strtodc", B_STRTODC}, {"vs_fresh64", B_FRESH64},
};

static unsigned bits(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static void die(const std::string& s) { fprintf(stderr, "vsym: %s\n", s.c_str()); _exit(3); }

static void leavesOf(Type* t, u64 off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * es, out);
    } else {
        unsigned b = bits(t);
        if (!b || b > 64) { std::string s; raw_string_ostream o(s); t->print(o); die("unsupported type " + o.str()); }
        out.push_back({b, off});
    }
}
static unsigned nslots(Type* t) {
    if (t->isVoidTy()) return 0;
    if (bits(t)) return 1;
    std::vector<Leaf> l; leavesOf(t, 0, l);
    return l.size();
}

static Func* getFunc(const Function* F) {
    auto it = funcs.find(F);
    if (it == funcs.end()) die("unknown function " + F->getName().str());
    return it->second;
}

static bool isUndef(const Constant* c) { return isa<UndefValue>(c); }
static u64 evalConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide constant"); return ci->getZExtValue(); }
    if (isa<ConstantPointerNull>(c)) return 0;
    if (isa<UndefValue>(c)) return 0;
    if (isa<ConstantAggregateZero>(c)) return 0;
    if (auto* f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
    if (auto* fn = dyn_cast<Function>(c)) return getFunc(fn)->addr;
    if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = globalAddr.find(g); if (it == globalAddr.end()) die("global " + g->getName().str()); return it->second; }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = bits(ce->getType());
        auto op = [&](int i) { return evalConst(cast<Constant>(ce->getOperand(i))); };
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("gep const");
                return op(0) + off.getSExtValue();
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return op(0);
            case Instruction::PtrToInt: case Instruction::Trunc: return op(0) & mask(w);
            case Instruction::ZExt: return op(0);
            case Instruction::SExt: return (u64)sx(op(0), bits(ce->getOperand(0)->getType())) & mask(w);
            case Instruction::Add: return (op(0) + op(1)) & mask(w);
            case Instruction::Sub: return (op(0) - op(1)) & mask(w);
            case Instruction::Mul: return (op(0) * op(1)) & mask(w);
            case Instruction::And: return op(0) & op(1);
            case Instruction::Or: return op(0) | op(1);
            default: break;
        }
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    die("unsupported constant " + o.str());
    return 0;
}

static void initBytes(const Constant* c, uint8_t* p) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(ds->getElementType());
        for (unsigned i = 0; i < ds->getNumElements(); i++) { u64 v = evalConst(ds->getElementAsConstant(i)); memcpy(p + i * es, &v, es); }
        return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(c->getAggregateElement(i), p + sl->getElementOffset(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) initBytes(c->getAggregateElement(i), p + i * es);
        return;
    }
    u64 v = evalConst(c);
    memcpy(p, &v, DL->getTypeStoreSize(t));
}

static void decode(Func* fn) {
    if (fn->decoded || fn->decl) return;
    fn->decoded = true;
    Function& F = *fn->F;
    std::map<const Value*, uint32_t> reg;
    uint32_t n = 0;
    for (auto& A : F.args()) { reg[&A] = n; unsigned k = nslots(A.getType()); if (k != 1) die("aggregate parameter in " + fn->name); n += k; }
    fn->nargs = n;
    for (auto& B : F) for (auto& I : B) { unsigned k = nslots(I.getType()); if (k) { reg[&I] = n; n += k; } }
    fn->nregs = n;
    auto opnd = [&](const Value* v) -> Opnd {
        Opnd o{}; o.w = bits(v->getType());
        if (auto* c = dyn_cast<Constant>(v)) {
            if (isUndef(c)) { o.kind = 2; return o; }
            o.kind = 0;
            if (o.w) o.c = evalConst(c) & mask(o.w);
            return o;
        }
        if (isa<MetadataAsValue>(v)) { o.kind = 0; return o; }
        if (isa<InlineAsm>(v)) die("inline asm");
        o.kind = 1; o.reg = reg.at(v);
        return o;
    };
    std::map<const BasicBlock*, uint32_t> start;
    // count
    uint32_t pc = 0;
    auto skip = [&](const Instruction& I) { return isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I); };
    for (auto& B : F) { start[&B] = pc; for (auto& I : B) if (!skip(I)) pc++; }
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.target = start.at(to);
        for (auto& P : to->phis()) {
            const Value* v = P.getIncomingValueForBlock(from);
            unsigned k = nslots(P.getType());
            Opnd o = opnd(v);
            for (unsigned i = 0; i < k; i++) { Opnd q = o; if (q.kind == 1) q.reg += i; q.w = k == 1 ? o.w : 64; e.phis.push_back({reg.at(&P) + i, q}); }
        }
        return e;
    };
    for (auto& B : F)
        for (auto& I : B) {
            if (skip(I)) continue;
            Inst d; d.I = &I; d.cover = coverTotal++;
            d.nslots = nslots(I.getType());
            if (d.nslots) { d.dst = reg.at(&I); d.w = bits(I.getType()); }
            auto unsupported = [&] { std::string s; raw_string_ostream o(s); I.print(o); die("unsupported instruction in " + fn->name + ": " + o.str()); };
            switch (I.getOpcode()) {
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
                    static const std::map<unsigned, Op> m = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}};
                    d.op = I_BIN; d.sub = m.at(I.getOpcode());
                    if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) { d.nsw = o->hasNoSignedWrap(); d.nuw = o->hasNoUnsignedWrap(); }
                    d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1));
                    if (d.w == 0 || d.w > 64) unsupported();
                    break;
                }
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
                    d.op = I_FBIN; d.sub = I.getOpcode(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
                case Instruction::FNeg: d.op = I_FNEG; d.a = opnd(I.getOperand(0)); break;
                case Instruction::ICmp: d.op = I_ICMP; d.sub = cast<ICmpInst>(I).getPredicate(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
                case Instruction::FCmp: d.op = I_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
                case Instruction::ZExt: d.op = I_ZEXT; d.a = opnd(I.getOperand(0)); break;
                case Instruction::SExt: d.op = I_SEXT; d.a = opnd(I.getOperand(0)); break;
                case Instruction::Trunc: case Instruction::PtrToInt: d.op = I_TRUNC; d.a = opnd(I.getOperand(0)); break;
                case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: d.op = I_COPY; d.a = opnd(I.getOperand(0)); if (!d.a.w) unsupported(); if (d.a.w < d.w) d.op = I_ZEXT; break;
                case Instruction::FPTrunc: d.op = I_FPTRUNC; d.a = opnd(I.getOperand(0)); break;
                case Instruction::FPExt: d.op = I_FPEXT; d.a = opnd(I.getOperand(0)); break;
                case Instruction::FPToSI: d.op = I_FPTOSI; d.a = opnd(I.getOperand(0)); break;
                case Instruction::FPToUI: d.op = I_FPTOUI; d.a = opnd(I.getOperand(0)); break;
                case Instruction::SIToFP: d.op = I_SITOFP; d.a = opnd(I.getOperand(0)); break;
                case Instruction::UIToFP: d.op = I_UITOFP; d.a = opnd(I.getOperand(0)); break;
                case Instruction::Load: d.op = I_LOAD; d.a = opnd(I.getOperand(0)); leavesOf(I.getType(), 0, d.leaves); break;
                case Instruction::Store: d.op = I_STORE; d.a = opnd(I.getOperand(1)); d.b = opnd(I.getOperand(0)); leavesOf(I.getOperand(0)->getType(), 0, d.leaves); d.w = DL->getTypeStoreSize(I.getOperand(0)->getType()); break;
                case Instruction::GetElementPtr: {
                    d.op = I_GEP; d.a = opnd(I.getOperand(0)); d.off = 0;
                    for (auto gi = gep_type_begin(&I), ge = gep_type_end(&I); gi != ge; ++gi) {
                        Value* idx = gi.getOperand();
                        if (StructType* st = gi.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                        u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) d.off += ci->getSExtValue() * sz;
                        else { d.args.push_back(opnd(idx)); d.scales.push_back(sz); }
                    }
                    break;
                }
                case Instruction::Alloca: {
                    auto& A = cast<AllocaInst>(I);
                    d.op = I_ALLOCA; d.a = opnd(A.getArraySize()); d.off = DL->getTypeAllocSize(A.getAllocatedType()); break;
                }
                case Instruction::Br: {
                    auto& Br = cast<BranchInst>(I);
                    if (Br.isConditional()) { d.op = I_CBR; d.a = opnd(Br.getCondition()); d.edges.push_back(edge(&B, Br.getSuccessor(0))); d.edges.push_back(edge(&B, Br.getSuccessor(1))); }
                    else { d.op = I_BR; d.edges.push_back(edge(&B, Br.getSuccessor(0))); }
                    break;
                }
                case Instruction::Switch: {
                    auto& Sw = cast<SwitchInst>(I);
                    d.op = I_SWITCH; d.a = opnd(Sw.getCondition());
                    d.edges.push_back(edge(&B, Sw.getDefaultDest()));
                    // group the cases by successor so that one symbolic query decides each target
                    std::map<const BasicBlock*, unsigned> idx;
                    for (auto& c : Sw.cases()) {
                        d.cases.push_back(c.getCaseValue()->getZExtValue());
                        auto it = idx.find(c.getCaseSuccessor());
                        if (it == idx.end()) { it = idx.insert({c.getCaseSuccessor(), (unsigned)d.edges.size()}).first; d.edges.push_back(edge(&B, c.getCaseSuccessor())); }
                        d.scales.push_back(it->second);
                    }
                    break;
                }
                case Instruction::Ret: d.op = I_RET; if (I.getNumOperands()) { d.a = opnd(I.getOperand(0)); d.nslots = nslots(I.getOperand(0)->getType()); } break;
                case Instruction::Select: d.op = I_SELECT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); if (!d.w) unsupported(); break;
                case Instruction::Unreachable: d.op = I_UNREACH; break;
                case Instruction::ExtractValue: {
                    auto& X = cast<ExtractValueInst>(I);
                    Type* t = X.getAggregateOperand()->getType(); unsigned pos = 0;
                    for (unsigned ix : X.indices()) {
                        for (unsigned i = 0; i < ix; i++) pos += nslots(ExtractValueInst::getIndexedType(t, {i}));
                        t = ExtractValueInst::getIndexedType(t, {ix});
                    }
                    if (nslots(t) != 1) unsupported();
                    d.op = I_COPY; d.a = opnd(X.getAggregateOperand()); d.a.reg += pos; d.a.w = d.w; break;
                }
                case Instruction::InsertValue: {
                    auto& X = cast<InsertValueInst>(I);
                    Type* t = X.getAggregateOperand()->getType(); unsigned pos = 0;
                    for (unsigned ix : X.indices()) {
                        for (unsigned i = 0; i < ix; i++) pos += nslots(ExtractValueInst::getIndexedType(t, {i}));
                        t = ExtractValueInst::getIndexedType(t, {ix});
                    }
                    if (nslots(t) != 1) unsupported();
                    d.op = I_INSERTV; d.a = opnd(X.getAggregateOperand()); d.b = opnd(X.getInsertedValueOperand()); d.off = pos; break;
                }
                case Instruction::Call: {
                    auto& C = cast<CallInst>(I);
                    d.op = I_CALL;
                    for (auto& a : C.args()) d.args.push_back(opnd(a));
                    const Function* cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
                    if (cf) {
                        std::string nm = cf->getName().str();
                        if (cf->isIntrinsic()) {
                            auto id = cf->getIntrinsicID();
                            switch (id) {
                                case Intrinsic::memcpy: d.builtin = B_MEMCPY; break;
                                case Intrinsic::memmove: d.builtin = B_MEMMOVE; break;
                                case Intrinsic::memset: d.builtin = B_MEMSET; break;
                                case Intrinsic::vastart: d.builtin = B_VASTART; break;
                                case Intrinsic::vaend: d.builtin = B_NOP; break;
                                case Intrinsic::vacopy: d.builtin = B_VACOPY; break;
                                case Intrinsic::abs: d.builtin = B_ABS; break;
                                case Intrinsic::smax: d.builtin = B_SMAX; break;
                                case Intrinsic::smin: d.builtin = B_SMIN; break;
                                case Intrinsic::umax: d.builtin = B_UMAX; break;
                                case Intrinsic::umin: d.builtin = B_UMIN; break;
                                case Intrinsic::expect: d.builtin = B_EXPECT; break;
                                case Intrinsic::trap: case Intrinsic::debugtrap: d.builtin = B_TRAP; break;
                                case Intrinsic::fabs: d.builtin = B_FABS; break;
                                case Intrinsic::ceil: d.builtin = B_CEIL; break;
                                case Intrinsic::floor: d.builtin = B_FLOOR; break;
                                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: d.builtin = B_NOP; break;
                                default: unsupported();
                            }
                        } else d.callee = getFunc(cf);
                    } else d.a = opnd(C.getCalledOperand());
                    break;
                }
                default: unsupported();
            }
            fn->code.push_back(std::move(d));
        }
}

// ---------------------------------------------------------------- states
struct Frame { Func* f; uint32_t pc; uint32_t regs; uint32_t stackMark; int retDst; unsigned retN; std::vector<Val> va; };
struct In { const char* name; uint32_t var; uint32_t n; };
struct Out { std::string label; std::vector<Val> bytes; bool isStr; unsigned w; };
struct Jmp { u64 buf; uint32_t depth; uint32_t pc; int dst; Func* f; u64 serial; };
struct State {
    std::vector<Frame> fr; std::vector<Val> regs;
    MemMap glob, heap, stack;
    std::vector<E> pc; Model model;
    u64 heapTop, stackTop; uint32_t nvars, nuninit;
    std::vector<In> ins; std::vector<Out> outs; std::vector<Jmp> jmps;
    long insts, limit; int mayfail; int exitOk; u64 serial;
    std::vector<std::pair<Func*, std::string>> dummy;
};
struct PathEnd { int kind; }; // 0 finished, 1 assumed away, 2 failed
static std::deque<State*> queue_;
static MemMap constGlobals;

// ---------------------------------------------------------------- solver
static Z3_context Z; static Z3_solver Sol;
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { u64 h = v.size(); for (auto x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return h; } };
struct QRes { bool sat; std::vector<std::pair<uint32_t, uint8_t>> m; };
static std::unordered_map<std::vector<uint32_t>, QRes, VecHash> qcache;
static long nUnknown = 0;

static void sliceOf(const std::vector<E>& pc, E cond, std::vector<E>& out, std::vector<uint32_t>& vars) {
    static std::vector<u64> bs; 
    unsigned need = 0;
    for (auto v : *cond->vars) need = std::max(need, v + 1);
    for (E c : pc) if (!c->vars->empty()) need = std::max(need, c->vars->back() + 1);
    bs.assign((need + 63) / 64 + 1, 0);
    vars.clear(); out.clear();
    for (auto v : *cond->vars) { bs[v / 64] |= 1ull << (v % 64); vars.push_back(v); }
    static std::vector<char> used; used.assign(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : *pc[i]->vars) if (bs[v / 64] >> (v % 64) & 1) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; out.push_back(pc[i]);
            for (auto v : *pc[i]->vars) if (!(bs[v / 64] >> (v % 64) & 1)) { bs[v / 64] |= 1ull << (v % 64); vars.push_back(v); ch = true; }
        }
    }
}

// is pc && cond satisfiable? on success, m gets an assignment extending `base`
static bool sat(const std::vector<E>& pc, E cond, const Model& base, Model* m) {
    if (isC(cond)) { if (cond->v && m) *m = base; return cond->v; }
    L.queries++;
    static std::vector<E> sl; static std::vector<uint32_t> vars;
    sliceOf(pc, cond, sl, vars);
    std::vector<uint32_t> key;
    for (E c : sl) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = qcache.find(key);
    if (it == qcache.end()) {
        double t0 = now();
        Z3_solver_reset(Z, Sol);
        for (E c : sl) Z3_solver_assert(Z, Sol, toBool(Z, c));
        Z3_solver_assert(Z, Sol, toBool(Z, cond));
        Z3_lbool r = Z3_solver_check(Z, Sol);
        S->z3calls++;
        QRes q; q.sat = r == Z3_L_TRUE;
        if (r == Z3_L_UNDEF) { S->unknown++; nUnknown++; throw PathEnd{3}; }
        if (r == Z3_L_TRUE) {
            S->z3sat++;
            Z3_model zm = Z3_solver_get_model(Z, Sol);
            Z3_model_inc_ref(Z, zm);
            for (auto v : vars) {
                Z3_ast a = nullptr; Z3_model_eval(Z, zm, toBV(Z, mkVar(v, v & 1)), true, &a);
                Z3_inc_ref(Z, a);
                unsigned x = 0; Z3_get_numeral_uint(Z, a, &x);
                Z3_dec_ref(Z, a);
                q.m.push_back({v, (uint8_t)x});
            }
            Z3_model_dec_ref(Z, zm);
        } else S->z3unsat++;
        S->z3us += (long)((now() - t0) * 1e6);
        it = qcache.emplace(std::move(key), std::move(q)).first;
    }
    if (it->second.sat && m) {
        *m = base;
        for (auto& p : it->second.m) { if (m->size() <= p.first) m->resize(p.first + 1, 0); (*m)[p.first] = p.second; }
    }
    return it->second.sat;
}

static void addPC(State& s, E c) {
    if (isC(c)) return;
    if (c->op == AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    s.pc.push_back(c);
}

// ---------------------------------------------------------------- reporting
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string where(const State& s) {
    std::string r;
    bool lib = false;
    for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
        auto& f = s.fr[i];
        std::string l = f.f->name;
        if (f.pc < f.f->code.size()) {
            auto& dl = f.f->code[f.pc].I->getDebugLoc();
            if (dl) l += "@" + dl->getFilename().str().substr(dl->getFilename().str().rfind('/') + 1) + ":" + std::to_string(dl.getLine());
        }
        if (!r.empty()) r += " < ";
        r += l;
        if (f.f->lib) lib = true;
        (void)lib;
    }
    return r;
}
static std::string topSite(const State& s) { // innermost library frame
    for (int i = (int)s.fr.size() - 1; i >= 0; i--)
        if (s.fr[i].f->lib) {
            auto& f = s.fr[i];
            unsigned ln = 0;
            if (f.pc < f.f->code.size()) { auto& dl = f.f->code[f.pc].I->getDebugLoc(); if (dl) ln = dl.getLine(); }
            return f.f->name + ":" + std::to_string(ln);
        }
    return "harness";
}
static void writeInputs(FILE* f, const State& s, const Model& m) {
    fprintf(f, "\"inputs\":[");
    for (size_t i = 0; i < s.ins.size(); i++) {
        fprintf(f, "%s[\"%s\",\"", i ? "," : "", s.ins[i].name);
        for (uint32_t k = 0; k < s.ins[i].n; k++) { uint32_t v = (s.ins[i].var + k) * 2; fprintf(f, "%02x", v < m.size() ? m[v] : 0); }
        fprintf(f, "\"]");
    }
    fprintf(f, "]");
}
static void writeOuts(FILE* f, const State& s, const Model& m) {
    fprintf(f, "\"outs\":[");
    bool first = true;
    for (auto& o : s.outs) {
        fprintf(f, "%s[%s,", first ? "" : ",", jstr(o.label).c_str()); first = false;
        if (o.isStr) {
            std::string t;
            for (auto& b : o.bytes) { uint8_t c = b.e ? evalExpr(b.e, m) : b.c; if (!c) break; t += (char)c; }
            fprintf(f, "%s]", jstr(t).c_str());
        } else { u64 v = o.bytes[0].e ? evalExpr(o.bytes[0].e, m) : o.bytes[0].c; fprintf(f, "%lld]", (long long)sx(v, o.w)); }
    }
    fprintf(f, "]");
}
static std::map<std::string, int> violSeen;
static void violation(State& s, const Model& m, const std::string& kind, const std::string& msg) {
    std::string key = kind + "|" + topSite(s) + "|" + (kind == "assert" ? msg : "");
    if (violSeen[key]++ >= 3) return;
    long n = S->viols++;
    if (n >= 64) return;
    std::string fn = outdir + "/viol." + std::to_string(n) + ".json";
    FILE* f = fopen((fn + ".t").c_str(), "w");
    fprintf(f, "{\"kind\":%s,\"msg\":%s,\"site\":%s,\"where\":%s,", jstr(kind).c_str(), jstr(msg).c_str(), jstr(topSite(s)).c_str(), jstr(where(s)).c_str());
    writeInputs(f, s, m);
    fprintf(f, ",");
    writeOuts(f, s, m);
    fprintf(f, "}\n");
    fclose(f);
    rename((fn + ".t").c_str(), fn.c_str());
    if (n + 1 >= maxViol) S->stop = 1;
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) {
    violation(s, s.model, kind, msg);
    throw PathEnd{2};
}
[[noreturn]] static void unsupported(State& s, const std::string& msg) {
    if (S->unsupported++ == 0) snprintf(S->unsup, sizeof S->unsup, "%s at %s", msg.c_str(), where(s).c_str());
    throw PathEnd{3};
}

// ---------------------------------------------------------------- memory access
static MemMap& region(State& s, u64 a) { return a >= SBASE ? s.stack : a >= HBASE ? s.heap : s.glob; }
// find the object holding [a, a+n); reports an error and ends the path if there is none
static Obj* access(State& s, u64 a, u64 n, bool write, uint32_t& off, int* slotOut = nullptr) {
    L.memchecks++;
    if (a < HBASE) {
        int i = constGlobals.find(a);
        if (i >= 0) {
            Slot& sl = constGlobals.v[i];
            if (a + n <= sl.base + sl.size && a + n >= a) {
                if (write) fail(s, "memory", std::string("write to constant ") + sl.what);
                off = a - sl.base;
                if (slotOut) *slotOut = -1;
                return sl.o;
            }
        }
    }
    MemMap& mm = region(s, a);
    int i = mm.find(a);
    if (i >= 0) {
        Slot& sl = mm.v[i];
        if (a + n >= a && a + n <= sl.base + sl.size && (sl.o || n == 0)) {
            if (!sl.o) { static Obj* z = newObj(0, 0, HEAP, false); off = 0; return z; }
            off = a - sl.base;
            if (slotOut) *slotOut = i;
            if (write && sl.o->rc > 1) {
                Obj* o = sl.o;
                Obj* c = new Obj();
                c->rc = 1; c->base = o->base; c->size = o->size; c->kind = o->kind; c->ro = o->ro;
                c->d = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(c->d, o->d, o->size);
                c->s = nullptr;
                if (o->s) { c->s = (E*)malloc(o->size * sizeof(E) + 1); memcpy(c->s, o->s, o->size * sizeof(E)); }
                unref(o); sl.o = c;
            }
            return sl.o;
        }
        char b[256];
        if (!sl.o && a < sl.base + sl.size) { snprintf(b, sizeof b, "use after free: %s of %llu byte(s) at offset %lld of a freed block of %u", write ? "write" : "read", (unsigned long long)n, (long long)(a - sl.base), sl.size); fail(s, "memory", b); }
        if (a - sl.base <= sl.size + 64) { snprintf(b, sizeof b, "out of bounds %s of %llu byte(s) at offset %lld of a %s of %u byte(s)", write ? "write" : "read", (unsigned long long)n, (long long)(a - sl.base), sl.what, sl.size); fail(s, "memory", b); }
    }
    if (n == 0) { static Obj* z = newObj(0, 0, HEAP, false); off = 0; return z; }
    char b[128];
    snprintf(b, sizeof b, "%s through invalid pointer 0x%llx", write ? "write" : "read", (unsigned long long)a);
    fail(s, "memory", b);
}
static E freshUninit(State& s) { return mkVar(2 * (s.nuninit++) + 1, true); }
static Val load(State& s, u64 a, unsigned w) {
    unsigned n = (w + 7) / 8; uint32_t off; int slot;
    Obj* o = access(s, a, n, false, off, &slot);
    bool sym = false;
    if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) { u64 v = 0; memcpy(&v, o->d + off, n); return CV(v & mask(w)); }
    bool un = false;
    for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNINIT) un = true;
    if (un) {
        o = access(s, a, n, slot >= 0, off);
        for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNINIT) o->s[off + i] = freshUninit(s);
    }
    E e = nullptr;
    for (int i = n - 1; i >= 0; i--) { E b = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8); e = e ? mkConcat(e, b) : b; }
    if (e->w != w) e = mkExtract(e, 0, w);
    return EV(e);
}
static void store(State& s, u64 a, unsigned w, Val v) {
    unsigned n = (w + 7) / 8; uint32_t off;
    Obj* o = access(s, a, n, true, off);
    if (!v.e) {
        u64 c = v.c & mask(w);
        memcpy(o->d + off, &c, n);
        if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    if (!o->s) o->s = (E*)calloc(o->size + 1, sizeof(E));
    E e = v.e;
    if (e->w != n * 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        E b = mkExtract(e, i * 8, 8);
        if (isC(b)) { o->d[off + i] = b->v; o->s[off + i] = nullptr; }
        else o->s[off + i] = b;
    }
}
static void copyMem(State& s, u64 dst, u64 src, u64 n) {
    if (!n) return;
    if (n > (1u << 24)) fail(s, "memory", "copy of a huge size");
    uint32_t so, d;
    access(s, dst, n, true, d);
    Obj* a = access(s, src, n, false, so);
    std::vector<uint8_t> tb(a->d + so, a->d + so + n);
    std::vector<E> ts;
    bool sym = false;
    if (a->s) { ts.assign(a->s + so, a->s + so + n); for (E e : ts) if (e) { sym = true; break; } }
    Obj* b = access(s, dst, n, true, d);
    memcpy(b->d + d, tb.data(), n);
    if (sym && !b->s) b->s = (E*)calloc(b->size + 1, sizeof(E));
    if (b->s) { if (sym) memcpy(b->s + d, ts.data(), n * sizeof(E)); else memset(b->s + d, 0, n * sizeof(E)); }
}

static u64 allocHeap(State& s, u64 n, bool zero) {
    u64 a = s.heapTop;
    if (n > (1u << 26)) return 0; // as a real allocator would refuse; recorded as an assumption
    s.heapTop += ((n + 15) & ~15ull) + 128;
    Obj* o = newObj(a, (uint32_t)n, HEAP, !zero);
    s.heap.v.push_back({a, (uint32_t)n, o, "heap block"});
    return a;
}
static u64 allocStack(State& s, u64 n) {
    u64 a = s.stackTop;
    s.stackTop += ((n + 15) & ~15ull) + 128;
    s.stack.v.push_back({a, (uint32_t)n, newObj(a, (uint32_t)n, STACK, true), "local variable"});
    return a;
}
static void freeHeap(State& s, u64 a) {
    if (!a) return;
    if (a >= HBASE && a < SBASE) {
        int i = s.heap.find(a);
        if (i >= 0 && s.heap.v[i].base == a) {
            if (!s.heap.v[i].o) fail(s, "memory", "double free");
            unref(s.heap.v[i].o); s.heap.v[i].o = nullptr;
            return;
        }
    }
    fail(s, "memory", "free of a pointer that is not the start of a live heap block");
}

// ---------------------------------------------------------------- execution
static Val get(State& s, const Frame& f, const Opnd& o) {
    if (o.kind == 1) return s.regs[f.regs + o.reg];
    if (o.kind == 0) return CV(o.c);
    E e = nullptr; // undef: an uninitialised local promoted to a register
    for (unsigned i = 0; i < (o.w + 7) / 8; i++) { E b = freshUninit(s); e = e ? mkConcat(b, e) : b; }
    return EV(mkExtract(e, 0, o.w));
}
static State* cloneState(State& s) { L.forks++; return new State(s); }
static void push(State* s) { queue_.push_back(s); }

static void checkUninit(State& s, E c, const char* what) {
    if (!c->uninit) return;
    // does the value really vary with the uninitialised bytes, the defined ones being fixed as in the model?
    std::vector<E> pins;
    for (auto v : *c->vars) if (!(v & 1)) pins.push_back(mkBin(EQ, mkVar(v, false), mkConst(v < s.model.size() ? s.model[v] : 0, 8)));
    u64 cur = evalExpr(c, s.model);
    E q = mkNot(mkBin(EQ, c, mkConst(cur, c->w)));
    for (E p : pins) q = mkBin(AND, q, p);
    std::vector<E> pc = s.pc;
    if (sat(pc, q, s.model, nullptr)) fail(s, "uninit", std::string("uninitialised value used as ") + what);
}

// Make v concrete in this state; every other feasible value is explored by a clone that re-executes the instruction.
static u64 concretize(State& s, Val v, const char* what) {
    if (!v.e) return v.c;
    checkUninit(s, v.e, what);
    u64 x = evalExpr(v.e, s.model);
    E eq = mkBin(EQ, v.e, mkConst(x, v.e->w));
    Model m;
    if (sat(s.pc, mkNot(eq), s.model, &m)) {
        State* c = cloneState(s);
        addPC(*c, mkNot(eq)); c->model = m;
        push(c);
        addPC(s, eq);
    }
    return x;
}
static bool mayBe(State& s, E c, Model* m) { // may c be true?
    if (isC(c)) { if (c->v) *m = s.model; return c->v; }
    if (evalExpr(c, s.model)) { *m = s.model; return true; }
    return sat(s.pc, c, s.model, m);
}
// an error condition: report if feasible, then continue with its negation
static void check(State& s, E bad, const char* kind, const std::string& msg) {
    if (isC(bad)) { if (bad->v) fail(s, kind, msg); return; }
    Model m;
    if (mayBe(s, bad, &m)) {
        violation(s, m, kind, msg);
        E ok = mkNot(bad);
        Model g;
        if (!mayBe(s, ok, &g)) throw PathEnd{2};
        addPC(s, ok); s.model = g;
    }
}

static void takeEdge(State& s, const Edge& e) {
    Frame& f = s.fr.back();
    if (!e.phis.empty()) {
        static std::vector<Val> tmp; tmp.clear();
        for (auto& p : e.phis) tmp.push_back(get(s, f, p.second));
        for (size_t i = 0; i < e.phis.size(); i++) s.regs[f.regs + e.phis[i].first] = tmp[i];
    }
    f.pc = e.target;
}

static double asD(u64 c, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)c; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 c; memcpy(&c, &d, 8); return c; }

static Val binop(State& s, const Inst& d, Val a, Val b, bool checks) {
    unsigned w = d.a.w; Op op = (Op)d.sub;
    if (checks) {
        if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
            E be = toE(b, w);
            check(s, mkBin(EQ, be, mkConst(0, w)), "arith", "division by zero");
            if (op == SDIV || op == SREM) check(s, mkBin(AND, mkBin(EQ, be, mkConst(~0ull, w)), mkBin(EQ, toE(a, w), mkConst(1ull << (w - 1), w))), "arith", "signed division overflow");
        }
        if (op == SHL || op == LSHR || op == ASHR) check(s, mkNot(mkBin(ULT, toE(b, w), mkConst(w, w))), "arith", "shift amount out of range");
        if (d.nsw && (op == ADD || op == SUB || op == MUL)) {
            int64_t tmin = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), tmax = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
            if (!a.e && !b.e) {
                __int128 r = op == ADD ? (__int128)sx(a.c, w) + sx(b.c, w) : op == SUB ? (__int128)sx(a.c, w) - sx(b.c, w) : (__int128)sx(a.c, w) * sx(b.c, w);
                if (r < tmin || r > tmax) fail(s, "arith", "signed integer overflow");
            } else {
                E x = toE(a, w), y = toE(b, w);
                __int128 c[4];
                if (op == ADD) { c[0] = c[2] = (__int128)x->slo + y->slo; c[1] = c[3] = (__int128)x->shi + y->shi; }
                else if (op == SUB) { c[0] = c[2] = (__int128)x->slo - y->shi; c[1] = c[3] = (__int128)x->shi - y->slo; }
                else { c[0] = (__int128)x->slo * y->slo; c[1] = (__int128)x->slo * y->shi; c[2] = (__int128)x->shi * y->slo; c[3] = (__int128)x->shi * y->shi; }
                __int128 mn = c[0], mx = c[0];
                for (int i = 1; i < 4; i++) { mn = std::min(mn, c[i]); mx = std::max(mx, c[i]); }
                if (mn < tmin || mx > tmax) {
                    E bad;
                    E z = mkConst(0, w);
                    if (op == ADD) { E r = mkBin(ADD, x, y); bad = mkBin(SLT, mkBin(AND, mkBin(XOR, x, r), mkBin(XOR, y, r)), z); }
                    else if (op == SUB) { E r = mkBin(SUB, x, y); bad = mkBin(SLT, mkBin(AND, mkBin(XOR, x, y), mkBin(XOR, x, r)), z); }
                    else if (w <= 32) { E r = mkBin(MUL, mkSext(x, 64), mkSext(y, 64)); bad = mkNot(mkBin(AND, mkBin(SLE, mkConst((u64)tmin, 64), r), mkBin(SLE, r, mkConst((u64)tmax, 64)))); }
                    else {
                        if (!isC(y)) std::swap(x, y);
                        if (isC(y)) {
                            int64_t k = sx(y->v, w);
                            if (k == 0 || k == 1) bad = mkConst(0, 1);
                            else if (k == -1) bad = mkBin(EQ, x, mkConst(1ull << 63, 64));
                            else { int64_t lo = k > 0 ? INT64_MIN / k : INT64_MAX / k, hi = k > 0 ? INT64_MAX / k : INT64_MIN / k; bad = mkNot(mkBin(AND, mkBin(SLE, mkConst((u64)lo, 64), x), mkBin(SLE, x, mkConst((u64)hi, 64)))); }
                        } else { E r = mkBin(MUL, x, y); bad = mkBin(AND, mkNot(mkBin(EQ, y, z)), mkNot(mkBin(EQ, mkBin(SDIV, r, y), x))); }
                    }
                    check(s, bad, "arith", "signed integer overflow");
                }
            }
        }
    }
    if (!a.e && !b.e) return CV(foldBin(op, a.c, b.c, w));
    return EV(mkBin(op, toE(a, w), toE(b, w)));
}
static E icmp(unsigned p, E a, E b) {
    switch (p) {
        case CmpInst::ICMP_EQ: return mkBin(EQ, a, b);
        case CmpInst::ICMP_NE: return mkNot(mkBin(EQ, a, b));
        case CmpInst::ICMP_ULT: return mkBin(ULT, a, b);
        case CmpInst::ICMP_ULE: return mkBin(ULE, a, b);
        case CmpInst::ICMP_UGT: return mkBin(ULT, b, a);
        case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
        case CmpInst::ICMP_SLT: return mkBin(SLT, a, b);
        case CmpInst::ICMP_SLE: return mkBin(SLE, a, b);
        case CmpInst::ICMP_SGT: return mkBin(SLT, b, a);
        case CmpInst::ICMP_SGE: return mkBin(SLE, b, a);
    }
    abort();
}
static u64 icmpC(unsigned p, u64 a, u64 b, unsigned w) {
    int64_t x = sx(a, w), y = sx(b, w);
    switch (p) {
        case CmpInst::ICMP_EQ: return a == b;
        case CmpInst::ICMP_NE: return a != b;
        case CmpInst::ICMP_ULT: return a < b;
        case CmpInst::ICMP_ULE: return a <= b;
        case CmpInst::ICMP_UGT: return a > b;
        case CmpInst::ICMP_UGE: return a >= b;
        case CmpInst::ICMP_SLT: return x < y;
        case CmpInst::ICMP_SLE: return x <= y;
        case CmpInst::ICMP_SGT: return x > y;
        case CmpInst::ICMP_SGE: return x >= y;
    }
    abort();
}
static Val fcmp(State& s, unsigned p, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
        double x = asD(a.c, w), y = asD(b.c, w);
        bool un = std::isnan(x) || std::isnan(y), r;
        bool lt = x < y, gt = x > y, eq = x == y;
        r = ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un);
        return CV(r);
    }
    // IEEE comparison over the bit patterns: map to a total order
    unsigned mb = w == 64 ? 52 : 23;
    E x = toE(a, w), y = toE(b, w);
    auto isnan_ = [&](E v) { return mkBin(ULT, mkConst((w == 64 ? 0x7ffull : 0xffull) << mb, w), mkBin(AND, v, mkConst(mask(w - 1), w))); };
    auto key = [&](E v) { E mag = mkBin(AND, v, mkConst(mask(w - 1), w)); E neg = mkBin(SLT, v, mkConst(0, w)); return mkIte(neg, mkBin(SUB, mkConst(0, w), mag), mag); };
    E un = mkBin(OR, isnan_(x), isnan_(y)), ok = mkNot(un), kx = key(x), ky = key(y), r = mkConst(0, 1);
    if (p & 1) r = mkBin(OR, r, mkBin(AND, ok, mkBin(EQ, kx, ky)));
    if (p & 2) r = mkBin(OR, r, mkBin(AND, ok, mkBin(SLT, ky, kx)));
    if (p & 4) r = mkBin(OR, r, mkBin(AND, ok, mkBin(SLT, kx, ky)));
    if (p & 8) r = mkBin(OR, r, un);
    return EV(r);
}

static void pushFrame(State& s, Func* f, const std::vector<Val>& args, int dst, unsigned nret) {
    decode(f);
    if (s.fr.size() > 3000) fail(s, "termination", "call depth exceeds 3000");
    Frame n; n.f = f; n.pc = 0; n.regs = (uint32_t)s.regs.size(); n.stackMark = (uint32_t)s.stack.v.size(); n.retDst = dst; n.retN = nret;
    s.regs.resize(s.regs.size() + f->nregs, CV(0));
    unsigned i = 0;
    for (; i < f->nargs; i++) s.regs[n.regs + i] = args[i];
    for (; i < args.size(); i++) n.va.push_back(args[i]);
    s.fr.push_back(std::move(n));
}

static std::string cstr(State& s, u64 a, unsigned max = 200) {
    std::string r;
    for (unsigned i = 0; i < max; i++) { Val v = load(s, a + i, 8); u64 c = v.e ? evalExpr(v.e, s.model) : v.c; if (!c) break; r += (char)c; }
    return r;
}
static const char* intern(const std::string& t) { static std::set<std::string> st; return st.insert(t).first->c_str(); }

static void finishInst(State& s, const Inst& d, Val r) { Frame& f = s.fr.back(); if (d.dst >= 0) s.regs[f.regs + d.dst] = r; f.pc++; }

// fork on a fresh input byte in [0,n): this state continues with 0, clones get 1..n-1 with `res(k)` as the result
template <class R> static void forkFresh(State& s, const Inst& d, const char* name, unsigned n, R res) {
    uint32_t v = s.nvars++;
    s.ins.push_back({name, v, 1});
    E ve = mkVar(2 * v, false);
    if (s.model.size() <= 2 * v) s.model.resize(2 * v + 1, 0);
    for (unsigned k = n; k-- > 1;) {
        State* c = cloneState(s);
        c->model[2 * v] = k;
        c->pc.push_back(mkBin(EQ, ve, mkConst(k, 8)));
        res(*c, k);
        push(c);
    }
    s.model[2 * v] = 0;
    s.pc.push_back(mkBin(EQ, ve, mkConst(0, 8)));
    res(s, 0);
}

static void pathDone(State& s, int how);

static bool doBuiltin(State& s, const Inst& d, int b, const std::vector<Val>& a, bool libCall) {
    auto A = [&](unsigned i, const char* w) { return concretize(s, a.at(i), w); };
    switch (b) {
        case B_NOP: case B_VAEND: finishInst(s, d, CV(0)); return true;
        case B_EXPECT: finishInst(s, d, a[0]); return true;
        case B_MALLOC: case B_CALLOC: {
            u64 n;
            if (b == B_CALLOC) { u64 x = A(0, "allocation size"), y = A(1, "allocation size"); if (x && y > ~0ull / x) n = ~0ull; else n = x * y; }
            else n = A(0, "allocation size");
            bool zero = b == B_CALLOC;
            if (s.mayfail > 0) {
                forkFresh(s, d, "alloc", 2, [&](State& t, unsigned k) { if (k) { t.mayfail--; finishInst(t, d, CV(0)); } else finishInst(t, d, CV(allocHeap(t, n, zero))); });
                return true;
            }
            finishInst(s, d, CV(allocHeap(s, n, zero)));
            return true;
        }
        case B_REALLOC: {
            u64 p = A(0, "pointer"), n = A(1, "allocation size");
            uint32_t osz = 0;
            if (p) {
                int i = p >= HBASE && p < SBASE ? s.heap.find(p) : -1;
                if (i < 0 || s.heap.v[i].base != p || !s.heap.v[i].o) fail(s, "memory", "realloc of a pointer that is not the start of a live heap block");
                osz = s.heap.v[i].size;
            }
            auto ok = [&](State& t) {
                u64 q = allocHeap(t, n, false);
                if (p && q) { copyMem(t, q, p, std::min<u64>(osz, n)); freeHeap(t, p); }
                finishInst(t, d, CV(q));
            };
            if (s.mayfail > 0) { forkFresh(s, d, "alloc", 2, [&](State& t, unsigned k) { if (k) { t.mayfail--; finishInst(t, d, CV(0)); } else ok(t); }); return true; }
            ok(s);
            return true;
        }
        case B_FREE: freeHeap(s, A(0, "pointer")); finishInst(s, d, CV(0)); return true;
        case B_MEMCPY: case B_MEMMOVE: {
            u64 x = A(0, "pointer"), y = A(1, "pointer"), n = A(2, "copy length");
            if (b == B_MEMCPY && n && x != y && x < y + n && y < x + n) fail(s, "memory", "memcpy with overlapping ranges");
            copyMem(s, x, y, n);
            finishInst(s, d, CV(x));
            return true;
        }
        case B_MEMSET: {
            u64 x = A(0, "pointer"), n = A(2, "fill length");
            if (n > (1u << 24)) fail(s, "memory", "memset of a huge size");
            if (n) {
                uint32_t off; Obj* o = access(s, x, n, true, off);
                Val v = a[1];
                if (v.e) { E e = mkExtract(v.e, 0, 8); for (u64 i = 0; i < n; i++) store(s, x + i, 8, EV(e)); }
                else { memset(o->d + off, (int)v.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(E)); }
            }
            finishInst(s, d, CV(x));
            return true;
        }
        case B_ABORT: if (s.exitOk == 134) throw PathEnd{0}; fail(s, "abort", "abort() called");
        case B_TRAP: fail(s, "abort", "trap");
        case B_EXIT: {
            u64 c = A(0, "exit code");
            if (s.exitOk >= 0 && (s.exitOk == 1000 || (int)(c & 255) == s.exitOk)) throw PathEnd{0};
            fail(s, "exit", "exit(" + std::to_string((int)c) + ") called");
        }
        case B_ASSERTFAIL: fail(s, "libassert", "library assertion failed: " + cstr(s, A(0, "pointer")));
        case B_SETJMP: {
            u64 buf = A(0, "pointer");
            static u64 ser = 0x5a5a000000;
            u64 id = ++ser;
            store(s, buf, 64, CV(id));
            for (auto it = s.jmps.begin(); it != s.jmps.end();) if (it->buf == buf || it->depth > s.fr.size()) it = s.jmps.erase(it); else ++it;
            s.jmps.push_back({buf, (uint32_t)s.fr.size(), s.fr.back().pc, d.dst, s.fr.back().f, id});
            finishInst(s, d, CV(0));
            return true;
        }
        case B_LONGJMP: {
            u64 buf = A(0, "pointer"); u64 v = A(1, "longjmp value");
            Val id = load(s, buf, 64);
            if ((int)v == 0) v = 1;
            for (auto& j : s.jmps)
                if (!id.e && j.serial == id.c && j.depth <= s.fr.size() && s.fr[j.depth - 1].f == j.f) {
                    while (s.fr.size() > j.depth) {
                        Frame& f = s.fr.back();
                        while (s.stack.v.size() > f.stackMark) { unref(s.stack.v.back().o); s.stack.v.pop_back(); }
                        s.regs.resize(f.regs);
                        s.fr.pop_back();
                    }
                    Frame& f = s.fr.back();
                    if (j.dst >= 0) s.regs[f.regs + j.dst] = CV(v & mask(32));
                    f.pc = j.pc + 1;
                    return true;
                }
            fail(s, "memory", "longjmp to an inactive frame");
        }
        case B_VASTART: {
            u64 ap = A(0, "pointer");
            Frame& f = s.fr.back();
            size_t n = f.va.size();
            std::vector<Val> va = f.va;
            u64 area = allocStack(s, n * 8);
            for (size_t i = 0; i < n; i++) store(s, area + 8 * i, 64, va[i].e && va[i].e->w < 64 ? EV(mkZext(va[i].e, 64)) : va[i]);
            store(s, ap, 32, CV(48)); store(s, ap + 4, 32, CV(176)); store(s, ap + 8, 64, CV(area)); store(s, ap + 16, 64, CV(0));
            finishInst(s, d, CV(0));
            return true;
        }
        case B_VACOPY: { u64 x = A(0, "pointer"), y = A(1, "pointer"); copyMem(s, x, y, 24); finishInst(s, d, CV(0)); return true; }
        case B_ABS: { unsigned w = d.w; Val v = a[0]; if (!v.e) finishInst(s, d, CV((u64)(sx(v.c, w) < 0 ? -(u64)sx(v.c, w) : v.c) & mask(w))); else finishInst(s, d, EV(mkIte(mkBin(SLT, v.e, mkConst(0, w)), mkBin(SUB, mkConst(0, w), v.e), v.e))); return true; }
        case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: {
            E x = toE(a[0], d.w), y = toE(a[1], d.w); Op op = b == B_SMAX || b == B_SMIN ? SLT : ULT;
            E lt = mkBin(op, x, y);
            finishInst(s, d, EV(b == B_SMAX || b == B_UMAX ? mkIte(lt, y, x) : mkIte(lt, x, y)));
            return true;
        }
        case B_CEIL: case B_FLOOR: case B_FABS: {
            if (b == B_FABS && a[0].e) { finishInst(s, d, EV(mkBin(AND, a[0].e, mkConst(mask(63), 64)))); return true; }
            if (a[0].e) unsupported(s, "symbolic floating point");
            double x = asD(a[0].c, 64);
            finishInst(s, d, CV(fromD(b == B_CEIL ? std::ceil(x) : b == B_FLOOR ? std::floor(x) : std::fabs(x), 64)));
            return true;
        }
        // ---- harness interface
        case B_BYTES: {
            u64 p = A(0, "pointer"), n = A(1, "length");
            const char* nm = intern(cstr(s, A(2, "pointer")));
            s.ins.push_back({nm, s.nvars, (uint32_t)n});
            for (u64 i = 0; i < n; i++) store(s, p + i, 8, EV(mkVar(2 * s.nvars++, false)));
            finishInst(s, d, CV(0));
            return true;
        }
        case B_INT: {
            const char* nm = intern(cstr(s, A(0, "pointer")));
            s.ins.push_back({nm, s.nvars, 4});
            E e = nullptr;
            for (int i = 0; i < 4; i++) { E x = mkVar(2 * s.nvars++, false); e = e ? mkConcat(x, e) : x; }
            finishInst(s, d, EV(e));
            return true;
        }
        case B_CHOOSE: {
            u64 n = A(0, "choice count");
            const char* nm = intern(cstr(s, A(1, "pointer")));
            if (n == 0 || n > 256) unsupported(s, "vs_choose range");
            forkFresh(s, d, nm, (unsigned)n, [&](State& t, unsigned k) { finishInst(t, d, CV(k)); });
            return true;
        }
        case B_ASSUME: {
            E c = mkNot(mkBin(EQ, toE(a[0], 32), mkConst(0, 32)));
            if (!isC(c)) {
                if (!evalExpr(c, s.model)) { Model m; if (!sat(s.pc, c, s.model, &m)) throw PathEnd{1}; s.model = m; }
                addPC(s, c);
            } else if (!c->v) throw PathEnd{1};
            finishInst(s, d, CV(0));
            return true;
        }
        case B_ASSERT: {
            E c = mkNot(mkBin(EQ, toE(a[0], 32), mkConst(0, 32)));
            S->asserts++;
            if (!isC(c)) { S->assertq++; checkUninit(s, c, "asserted condition"); }
            check(s, mkNot(c), "assert", cstr(s, A(1, "pointer")));
            finishInst(s, d, CV(0));
            return true;
        }
        case B_REACH: {
            std::string l = cstr(s, A(0, "pointer"));
            for (size_t i = 0; i < reachLabels.size(); i++) if (reachLabels[i] == l && i < 512) S->reach[i] = 1;
            finishInst(s, d, CV(0));
            return true;
        }
        case B_OUT: { Out o; o.label = cstr(s, A(0, "pointer")); o.isStr = false; o.w = 64; o.bytes.push_back(a[1]); s.outs.push_back(o); finishInst(s, d, CV(0)); return true; }
        case B_OUTS: {
            Out o; o.label = cstr(s, A(0, "pointer")); o.isStr = true; o.w = 8;
            u64 p = A(1, "pointer");
            if (!p) o.bytes = {CV('('), CV('n'), CV('i'), CV('l'), CV(')')};
            else for (unsigned i = 0; i < 4000; i++) { Val v = load(s, p + i, 8); if (!v.e && !v.c) break; o.bytes.push_back(v); if (v.e && !evalExpr(v.e, s.model)) break; }
            s.outs.push_back(o); finishInst(s, d, CV(0)); return true;
        }
        case B_LIVE: { long n = 0; for (auto& sl : s.heap.v) if (sl.o) n++; finishInst(s, d, CV(n)); return true; }
        case B_MAYFAIL: { int old = s.mayfail; s.mayfail = (int)A(0, "count"); finishInst(s, d, CV((u64)old)); return true; }
        case B_LIMIT: s.limit = s.insts + (long)A(0, "limit"); finishInst(s, d, CV(0)); return true;
        case B_EXITOK: s.exitOk = (int)A(0, "code"); finishInst(s, d, CV(0)); return true;
        case B_ITE: {
            unsigned w = d.w;
            E c = mkNot(mkBin(EQ, toE(a[0], 32), mkConst(0, 32)));
            finishInst(s, d, EV(mkIte(c, toE(a[1], w), toE(a[2], w))));
            return true;
        }
        case B_MUST: { // 1 when the condition holds in every execution of this path
            E c = mkNot(mkBin(EQ, toE(a[0], 32), mkConst(0, 32)));
            bool r;
            if (isC(c)) r = c->v;
            else if (!evalExpr(c, s.model)) r = false;
            else r = !sat(s.pc, mkNot(c), s.model, nullptr);
            finishInst(s, d, CV(r));
            return true;
        }
        case B_SYMBOLIC: finishInst(s, d, CV(a[0].e != nullptr)); return true;
        case B_CONCRETE: { u64 x = A(0, "value"); finishInst(s, d, CV(x)); return true; }
        case B_READABLE: { // does the byte lie inside a live object?
            u64 p = A(0, "pointer"); bool ok = false;
            if (p < HBASE) { int i = constGlobals.find(p); if (i >= 0 && p < constGlobals.v[i].base + constGlobals.v[i].size) ok = true; }
            if (!ok) { MemMap& mm = region(s, p); int i = mm.find(p); ok = i >= 0 && mm.v[i].o && p < mm.v[i].base + mm.v[i].size; }
            finishInst(s, d, CV(ok));
            return true;
        }
        case B_FMTDBL: { // vs_fmtdbl(char* out, int cap, const char* fmt, double v): concrete formatting
            u64 p = A(0, "pointer"), cap = A(1, "n"); std::string fm = cstr(s, A(2, "pointer"));
            if (a[3].e) unsupported(s, "formatting a symbolic floating point value");
            char buf[512]; int n = snprintf(buf, sizeof buf, fm.c_str(), asD(a[3].c, 64));
            for (int i = 0; i <= n && i < (int)cap && i < 511; i++) store(s, p + i, 8, CV((uint8_t)buf[i]));
            finishInst(s, d, CV((u64)n & mask(32)));
            return true;
        }
        case B_STRTODC: { std::string t = cstr(s, A(0, "pointer")); finishInst(s, d, CV(fromD(strtod(t.c_str(), nullptr), 64))); return true; }
        case B_DONE: throw PathEnd{0};
        default: unsupported(s, "builtin");
    }
    return false;
}

static void run(State& s) {
    for (;;) {
        Frame& f = s.fr.back();
        const Inst& d = f.f->code[f.pc];
        if (!S->cover[d.cover]) S->cover[d.cover] = 1;
        if (++s.insts > s.limit) fail(s, "termination", "instruction budget exceeded: the call does not terminate within the bound");
        if ((s.insts & 0x3ff) == 0) { if (S->stop) throw PathEnd{4}; if (deadline && now() > deadline) { S->stop = 2; throw PathEnd{4}; } }
        auto set = [&](Val v) { s.regs[f.regs + d.dst] = v; f.pc++; };
        switch (d.op) {
            case I_BIN: {
                Val a = get(s, f, d.a), b = get(s, f, d.b);
                if (!a.e && !b.e && !f.f->lib) { set(CV(foldBin((Op)d.sub, a.c, b.c, d.a.w))); break; }
                set(binop(s, d, a, b, f.f->lib));
                break;
            }
            case I_ICMP: {
                Val a = get(s, f, d.a), b = get(s, f, d.b);
                if (!a.e && !b.e) { set(CV(icmpC(d.sub, a.c, b.c, d.a.w))); break; }
                set(EV(icmp(d.sub, toE(a, d.a.w), toE(b, d.a.w))));
                break;
            }
            case I_FCMP: set(fcmp(s, d.sub, get(s, f, d.a), get(s, f, d.b), d.a.w)); break;
            case I_FBIN: {
                Val a = get(s, f, d.a), b = get(s, f, d.b);
                if (a.e || b.e) unsupported(s, "symbolic floating point arithmetic");
                double x = asD(a.c, d.w), y = asD(b.c, d.w), r = 0;
                switch (d.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = std::fmod(x, y); break; }
                set(CV(fromD(r, d.w)));
                break;
            }
            case I_FNEG: { Val a = get(s, f, d.a); if (a.e) set(EV(mkBin(XOR, a.e, mkConst(1ull << (d.w - 1), d.w)))); else set(CV(a.c ^ (1ull << (d.w - 1)))); break; }
            case I_ZEXT: { Val a = get(s, f, d.a); set(a.e ? EV(mkZext(a.e, d.w)) : CV(a.c & mask(d.a.w))); break; }
            case I_SEXT: { Val a = get(s, f, d.a); set(a.e ? EV(mkSext(a.e, d.w)) : CV((u64)sx(a.c, d.a.w) & mask(d.w))); break; }
            case I_TRUNC: { Val a = get(s, f, d.a); set(a.e ? EV(mkExtract(a.e, 0, d.w)) : CV(a.c & mask(d.w))); break; }
            case I_COPY: set(get(s, f, d.a)); break;
            case I_FPTRUNC: { Val a = get(s, f, d.a); if (a.e) unsupported(s, "symbolic floating point"); set(CV(fromD(asD(a.c, d.a.w), d.w))); break; }
            case I_FPEXT: { Val a = get(s, f, d.a); if (a.e) unsupported(s, "symbolic floating point"); set(CV(fromD(asD(a.c, d.a.w), d.w))); break; }
            case I_FPTOSI: { Val a = get(s, f, d.a); if (a.e) unsupported(s, "symbolic floating point"); set(CV((u64)(int64_t)asD(a.c, d.a.w) & mask(d.w))); break; }
            case I_FPTOUI: { Val a = get(s, f, d.a); if (a.e) unsupported(s, "symbolic floating point"); set(CV((u64)asD(a.c, d.a.w) & mask(d.w))); break; }
            case I_SITOFP: { Val a = get(s, f, d.a); if (a.e) { u64 x = concretize(s, a, "number"); a = CV(x); } set(CV(fromD((double)sx(a.c, d.a.w), d.w))); break; }
            case I_UITOFP: { Val a = get(s, f, d.a); if (a.e) { u64 x = concretize(s, a, "number"); a = CV(x); } set(CV(fromD((double)a.c, d.w))); break; }
            case I_LOAD: {
                u64 p = concretize(s, get(s, f, d.a), "address");
                if (d.leaves.size() == 1) set(load(s, p, d.leaves[0].w));
                else { for (size_t i = 0; i < d.leaves.size(); i++) { Val v = load(s, p + d.leaves[i].off, d.leaves[i].w); s.regs[f.regs + d.dst + i] = v; } f.pc++; }
                break;
            }
            case I_STORE: {
                u64 p = concretize(s, get(s, f, d.a), "address");
                if (d.leaves.size() == 1) {
                    if (d.b.kind == 2) { uint32_t off; Obj* o = access(s, p, (d.leaves[0].w + 7) / 8, true, off); (void)o; }
                    else store(s, p, d.leaves[0].w, get(s, f, d.b));
                } else
                    for (size_t i = 0; i < d.leaves.size(); i++) { Val v = d.b.kind == 1 ? s.regs[f.regs + d.b.reg + i] : CV(0); store(s, p + d.leaves[i].off, d.leaves[i].w, v); }
                f.pc++;
                break;
            }
            case I_GEP: {
                Val b = get(s, f, d.a);
                bool sym = b.e != nullptr;
                for (auto& o : d.args) if (o.kind == 1 && s.regs[f.regs + o.reg].e) sym = true;
                if (!sym) {
                    u64 r = b.c + d.off;
                    for (size_t i = 0; i < d.args.size(); i++) { Val v = get(s, f, d.args[i]); r += (u64)sx(v.c, d.args[i].w) * d.scales[i]; }
                    set(CV(r));
                } else {
                    E r = mkBin(ADD, toE(b, 64), mkConst(d.off, 64));
                    for (size_t i = 0; i < d.args.size(); i++) { Val v = get(s, f, d.args[i]); r = mkBin(ADD, r, mkBin(MUL, mkSext(toE(v, d.args[i].w), 64), mkConst(d.scales[i], 64))); }
                    set(EV(r));
                }
                break;
            }
            case I_ALLOCA: { u64 n = concretize(s, get(s, f, d.a), "array length"); u64 p = allocStack(s, n * d.off); set(CV(p)); break; }
            case I_BR: takeEdge(s, d.edges[0]); break;
            case I_CBR: {
                Val c = get(s, f, d.a);
                L.branches++;
                if (!c.e) { takeEdge(s, d.edges[c.c & 1 ? 0 : 1]); break; }
                checkUninit(s, c.e, "branch condition");
                bool t = evalExpr(c.e, s.model);
                E mine = t ? c.e : mkNot(c.e), other = t ? mkNot(c.e) : c.e;
                Model m;
                if (sat(s.pc, other, s.model, &m)) {
                    State* k = cloneState(s);
                    addPC(*k, other); k->model = std::move(m);
                    takeEdge(*k, d.edges[t ? 1 : 0]);
                    push(k);
                    addPC(s, mine);
                }
                takeEdge(s, d.edges[t ? 0 : 1]);
                break;
            }
            case I_SWITCH: {
                Val c = get(s, f, d.a);
                if (!c.e) {
                    unsigned t = 0;
                    for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == c.c) { t = d.scales[i]; break; }
                    takeEdge(s, d.edges[t]);
                    break;
                }
                checkUninit(s, c.e, "switch value");
                unsigned w = d.a.w;
                std::vector<E> cond(d.edges.size(), mkConst(0, 1));
                E any = mkConst(0, 1);
                for (size_t i = 0; i < d.cases.size(); i++) { E q = mkBin(EQ, c.e, mkConst(d.cases[i], w)); cond[d.scales[i]] = mkBin(OR, cond[d.scales[i]], q); any = mkBin(OR, any, q); }
                cond[0] = mkBin(OR, cond[0], mkNot(any)); // default, plus cases sharing its edge index
                unsigned cur = 0;
                for (unsigned i = 0; i < cond.size(); i++) if (evalExpr(cond[i], s.model)) cur = i;
                bool forked = false;
                for (unsigned i = 0; i < cond.size(); i++) {
                    if (i == cur) continue;
                    Model m;
                    if (sat(s.pc, cond[i], s.model, &m)) {
                        forked = true;
                        State* k = cloneState(s);
                        addPC(*k, cond[i]); k->model = std::move(m);
                        takeEdge(*k, d.edges[i]);
                        push(k);
                    }
                }
                if (forked) addPC(s, cond[cur]);
                takeEdge(s, d.edges[cur]);
                break;
            }
            case I_SELECT: {
                Val c = get(s, f, d.a), a = get(s, f, d.b), b = get(s, f, d.c);
                if (!c.e) set(c.c & 1 ? a : b);
                else set(EV(mkIte(c.e, toE(a, d.w), toE(b, d.w))));
                break;
            }
            case I_UNREACH: fail(s, "abort", "reached an unreachable point");
            case I_INSERTV: {
                std::vector<Val> t(d.nslots, CV(0));
                for (unsigned i = 0; i < d.nslots; i++) if (d.a.kind == 1) t[i] = s.regs[f.regs + d.a.reg + i];
                t[d.off] = get(s, f, d.b);
                for (unsigned i = 0; i < d.nslots; i++) s.regs[f.regs + d.dst + i] = t[i];
                f.pc++;
                break;
            }
            case I_RET: {
                Val r[8]; unsigned n = d.nslots;
                if (n > 8) unsupported(s, "large aggregate return");
                if (n == 1) r[0] = get(s, f, d.a); else for (unsigned i = 0; i < n; i++) r[i] = d.a.kind == 1 ? s.regs[f.regs + d.a.reg + i] : CV(0);
                while (s.stack.v.size() > f.stackMark) { unref(s.stack.v.back().o); s.stack.v.pop_back(); }
                s.regs.resize(f.regs);
                int dst = f.retDst;
                s.fr.pop_back();
                if (s.fr.empty()) throw PathEnd{0};
                Frame& c = s.fr.back();
                if (dst >= 0) for (unsigned i = 0; i < n; i++) s.regs[c.regs + dst + i] = r[i];
                c.pc++;
                break;
            }
            case I_CALL: {
                std::vector<Val> args;
                args.reserve(d.args.size());
                for (auto& o : d.args) args.push_back(get(s, f, o));
                if (d.builtin) { doBuiltin(s, d, d.builtin, args, f.f->lib); break; }
                Func* callee = d.callee;
                if (!callee) {
                    u64 p = concretize(s, get(s, f, d.a), "function pointer");
                    auto it = funcByAddr.find(p);
                    if (it == funcByAddr.end()) fail(s, "memory", p ? "call through an invalid function pointer" : "call through a null function pointer");
                    callee = it->second;
                }
                if (callee->builtin) { doBuiltin(s, d, callee->builtin, args, f.f->lib); break; }
                if (callee->decl) unsupported(s, "call of undefined function " + callee->name);
                decode(callee);
                if (args.size() < callee->nargs) fail(s, "memory", "call of " + callee->name + " with too few arguments");
                pushFrame(s, callee, args, d.dst, d.nslots);
                break;
            }
        }
    }
}

static void sample(State& s) {
    long n = S->pathSerial++;
    // spread the samples: every path at first, then exponentially sparser
    long st = 1; while (st * 24 <= n) st *= 2;
    if (n % st) return;
    long k = S->samples++;
    if (k >= maxSamples) return;
    std::string fn = outdir + "/path." + std::to_string(k) + ".json";
    FILE* f = fopen(fn.c_str(), "w");
    fprintf(f, "{");
    writeInputs(f, s, s.model); fprintf(f, ","); writeOuts(f, s, s.model);
    fprintf(f, "}\n");
    fclose(f);
}

static void pathDone(State& s, int how) {
    S->insts += s.insts;
    S->memchecks += L.memchecks; S->branches += L.branches; S->queries += L.queries; S->forks += L.forks;
    L = {};
    if ((long)s.pc.size() > S->maxpc) S->maxpc = s.pc.size();
    if (s.insts > S->maxinst) S->maxinst = s.insts;
    if (how == 0) { S->paths++; sample(s); }
    else if (how == 1) S->assumed++;
    else if (how == 2) S->failed++;
}

static void worker() {
    bool child = false;
    int spin = 0;
    while (!queue_.empty()) {
        if (S->stop) break;
        // hand half of the pending states to a new process when a core is idle
        if (queue_.size() >= 2 && S->workers < maxWorkers && (++spin & 3) == 0) {
            int w = S->workers++;
            if (w >= maxWorkers) S->workers--;
            else {
                fflush(nullptr);
                pid_t p = fork();
                if (p < 0) { S->workers--; }
                else if (p == 0) {
                    child = true;
                    size_t keep = (queue_.size() + 1) / 2; // the child takes the older, shallower half
                    queue_.resize(keep);
                } else {
                    size_t give = (queue_.size() + 1) / 2;
                    queue_.erase(queue_.begin(), queue_.begin() + give);
                    if (queue_.empty()) break;
                }
            }
        }
        State* s = queue_.back();
        queue_.pop_back();
        int how;
        try { run(*s); how = 0; } catch (PathEnd& e) { how = e.kind; }
        pathDone(*s, how);
        delete s;
    }
    S->workers--;
    if (child) _exit(0);
}

int main(int argc, char** argv) {
    if (argc < 3) die("usage: vsym module.bc outdir [jobs=N] [viol=N] [samples=N] [time=S] [limit=N] [lib=PREFIX]");
    outdir = argv[2];
    double tlimit = 0;
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i]; auto p = a.find('='); std::string k = a.substr(0, p), v = a.substr(p + 1);
        if (k == "jobs") maxWorkers = atoi(v.c_str());
        else if (k == "viol") maxViol = atol(v.c_str());
        else if (k == "samples") maxSamples = atol(v.c_str());
        else if (k == "time") tlimit = atof(v.c_str());
        else if (k == "limit") instLimit = atol(v.c_str());
        else if (k == "lib") libPrefix = v;
        else die("bad option " + a);
    }
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(argv[1], err, ctx);
    if (!mod) { err.print("vsym", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    double t0 = now();
    if (tlimit) deadline = t0 + tlimit;
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context_rc(cfg);
    Z3_global_param_set("rlimit", std::to_string(rlimitPerQuery).c_str());
    Sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, Sol);
    u64 fa = FBASE;
    for (auto& F : *M) {
        Func* f = new Func(); f->F = &F; f->name = F.getName().str(); f->addr = fa; fa += 16; f->decl = F.isDeclaration(); f->va = F.isVarArg();
        auto b = builtinNames.find(f->name);
        if (b != builtinNames.end() && f->decl) f->builtin = b->second;
        f->lib = false;
        if (auto* sp = F.getSubprogram()) { std::string p = sp->getDirectory().str() + "/" + sp->getFilename().str(); if (sp->getFilename().str().substr(0, 1) == "/") p = sp->getFilename().str(); f->lib = !libPrefix.empty() && p.find(libPrefix) != std::string::npos; }
        funcs[&F] = f; funcByAddr[f->addr] = f; funcList.push_back(f);
    }
    State* s = new State();
    u64 ga = GBASE;
    for (auto& G : M->globals()) { globalAddr[&G] = ga; u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8; ga += ((sz + 15) & ~15ull) + 128; }
    for (auto& G : M->globals()) {
        if (G.isDeclaration()) continue; // access is reported as invalid
        u64 sz = DL->getTypeAllocSize(G.getValueType());
        Obj* o = newObj(globalAddr[&G], sz, GLOBAL, false);
        initBytes(G.getInitializer(), o->d);
        Slot sl{globalAddr[&G], (uint32_t)sz, o, "global variable"};
        if (G.isConstant()) { o->ro = true; constGlobals.v.push_back(sl); } else s->glob.v.push_back(sl);
    }
    for (auto& F : *M) if (!F.isDeclaration()) decode(getFunc(&F));
    // reach labels: every string passed to vs_reach
    for (auto& F : *M) for (auto& B : F) for (auto& I : B)
        if (auto* C = dyn_cast<CallInst>(&I)) if (auto* cf = C->getCalledFunction()) if (cf->getName() == "vs_reach") {
            if (auto* gv = dyn_cast<GlobalVariable>(C->getArgOperand(0)->stripPointerCasts())) if (auto* cd = dyn_cast<ConstantDataArray>(gv->getInitializer())) {
                std::string l = cd->getAsCString().str();
                if (std::find(reachLabels.begin(), reachLabels.end(), l) == reachLabels.end()) reachLabels.push_back(l);
            }
        }
    size_t shsz = sizeof(Shared) + coverTotal + 64;
    S = (Shared*)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)S, 0, shsz);
    S->workers = 1;
    Function* mainF = M->getFunction("vs_main");
    if (!mainF || mainF->isDeclaration()) die("no vs_main");
    s->heapTop = HBASE; s->stackTop = SBASE; s->nvars = 0; s->nuninit = 0; s->insts = 0; s->limit = instLimit; s->mayfail = 0; s->exitOk = -1; s->serial = 0;
    pushFrame(*s, getFunc(mainF), {}, -1, 0);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    queue_.push_back(s);
    worker();
    for (;;) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) S->crashed++;
    }
    // result
    FILE* f = fopen((outdir + "/result.json").c_str(), "w");
    bool complete = !S->unknown && !S->unsupported && !S->crashed && S->stop == 0;
    fprintf(f, "{\"complete\":%s,\"stop\":%d,\"paths\":%ld,\"assumed\":%ld,\"failed\":%ld,\"insts\":%ld,\"queries\":%ld,\"z3calls\":%ld,\"z3sat\":%ld,\"z3unsat\":%ld,\"z3_s\":%.2f,\"unknown\":%ld,\"unsupported\":%ld,\"unsup\":%s,\"crashed\":%ld,\"branches\":%ld,\"forks\":%ld,\"viols\":%ld,\"asserts\":%ld,\"symbolic_asserts\":%ld,\"memchecks\":%ld,\"max_constraints\":%ld,\"max_insts\":%ld,\"wall_s\":%.2f,\n",
            complete ? "true" : "false", (int)S->stop, (long)S->paths, (long)S->assumed, (long)S->failed, (long)S->insts, (long)S->queries, (long)S->z3calls, (long)S->z3sat, (long)S->z3unsat, S->z3us / 1e6, (long)S->unknown, (long)S->unsupported, jstr(S->unsup).c_str(), (long)S->crashed, (long)S->branches, (long)S->forks, (long)S->viols, (long)S->asserts, (long)S->assertq, (long)S->memchecks, (long)S->maxpc, (long)S->maxinst, now() - t0);
    fprintf(f, "\"reach\":{");
    for (size_t i = 0; i < reachLabels.size(); i++) fprintf(f, "%s%s:%s", i ? "," : "", jstr(reachLabels[i]).c_str(), S->reach[i] ? "true" : "false");
    fprintf(f, "},\n\"functions\":{");
    bool first = true;
    for (Func* fn : funcList) {
        if (!fn->lib || fn->decl) continue;
        unsigned tot = fn->code.size(), c = 0;
        for (auto& i : fn->code) if (S->cover[i.cover]) c++;
        if (!c) continue;
        fprintf(f, "%s%s:[%u,%u]", first ? "" : ",", jstr(fn->name).c_str(), c, tot); first = false;
    }
    fprintf(f, "}}\n");
    fclose(f);
    return complete && !S->viols ? 0 : S->viols ? 1 : 2;
}
