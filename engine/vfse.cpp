// vfse: symbolic executor for LLVM IR, deciding branches and assertions with z3.
//   vfse BITCODE --entry NAME [--out result.json] [options]
// Result "status": ok | violation | inconclusive | unsupported | vacuous
#include "expr.h"
#include "solver.h"
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <sys/resource.h>

using namespace llvm;
using std::string;
using std::vector;

// ------------------------------------------------------------------ options
static string optEntry, optOut, optFile;
static uint64_t optMaxPaths = 2000000, optMaxSteps = 5000000;
static double optMaxTime = 800;
static int optPart = -1, optTraces = 3, optVerbose = 0;
static uint64_t optNParts = 0;
static uint64_t optSeed = 1;
static std::map<string, uint64_t> optParams; // vf_param("name")
static bool optExpectWitness = true;

[[noreturn]] static void finish(const string& status, const string& detail);
struct Unsupported { string what; };
[[noreturn]] static void unsupported(const string& w) { finish("unsupported", w); }

static string instStr(const Instruction* I) { string s; raw_string_ostream o(s); o << *I; return s; }

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { KGlobal, KStack, KHeap, KFree };
struct Bytes { vector<E> b; };
struct Obj { uint64_t base = 0, size = 0; bool ro = false; Kind kind = KHeap; std::shared_ptr<Bytes> d; };
using Mem = std::map<uint64_t, Obj>;

static const uint64_t SLOT = 1ull << 32;
static const uint64_t FUNC_BASE = 0x4000000000000000ull;
static Mem g_ro; // constant globals, shared by all states

struct FuncInfo {
    Function* f; unsigned nregs = 0; uint64_t calls = 0;
    std::unordered_map<const Value*, unsigned> slot;
};
static std::unordered_map<Function*, FuncInfo> g_fi;
static std::unordered_set<const BasicBlock*> g_bbs;
static FuncInfo& funcInfo(Function* f)
{
    auto it = g_fi.find(f);
    if (it != g_fi.end()) return it->second;
    auto& fi = g_fi[f]; fi.f = f;
    for (auto& a : f->args()) fi.slot[&a] = fi.nregs++;
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) fi.slot[&i] = fi.nregs++;
    return fi;
}

struct Frame {
    FuncInfo* fi; BasicBlock* prev = nullptr; BasicBlock::iterator pc; vector<E> regs; vector<uint64_t> allocas; uint64_t va = 0; // variadic arguments
};
struct Input { unsigned width; E e; }; // a variable or a constant choice
struct State {
    vector<Frame> st; Mem mem; uint64_t nextBase; vector<E> pc; std::shared_ptr<Model> model;
    vector<Input> inputs; vector<E> obs; unsigned merges = 0; uint64_t steps = 0; unsigned nin = 0; uint64_t id = 0; bool parted = false;
};
using SP = std::unique_ptr<State>;

static Module* M; static const DataLayout* DL;
static Solver* S;
static vector<SP> g_work, g_wait;
static uint64_t g_paths = 0, g_forks = 0, g_steps = 0, g_stateId = 0, g_mergesDone = 0, g_mergedStates = 0, g_assumeKilled = 0, g_maxDepth = 0;
static std::map<string, uint64_t> g_asserts, g_reach;
static std::chrono::steady_clock::time_point g_t0;
static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr;
static vector<Function*> g_funcs;
static unsigned g_uninit = 0;
struct Trace { vector<std::pair<unsigned, string>> in; vector<string> obs; };
static vector<Trace> g_traces; static uint64_t g_traceSeen = 0;
struct Viol { string kind, msg, where; vector<std::pair<unsigned, string>> in; };
static std::unique_ptr<Viol> g_viol;

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static string hexs(const APInt& v) { SmallString<40> s; v.toStringUnsigned(s, 10); return string(s.begin(), s.end()); }

// ------------------------------------------------------------------ solver front end
struct QKeyHash { size_t operator()(const vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 0x100000001B3ull ^ x; return h; } };
static std::unordered_map<vector<uint32_t>, std::pair<Res, std::shared_ptr<Model>>, QKeyHash> g_cache;

static APInt evalM(E e, const Model& m) { std::unordered_map<E, APInt> memo; return evalExpr(e, m, memo); }

static vector<E> slice(const vector<E>& pc, E cond)
{
    vector<E> r; vector<char> used(pc.size(), 0);
    std::unordered_set<uint32_t> vs(cond->vars->begin(), cond->vars->end());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
            if (hit) { used[i] = 1; ch = true; for (auto v : *pc[i]->vars) vs.insert(v); }
        }
    }
    for (size_t i = 0; i < pc.size(); ++i) if (used[i]) r.push_back(pc[i]);
    return r;
}
static Res satisfiable(const vector<E>& pc, E cond, const Model* base, std::shared_ptr<Model>* out)
{
    auto cs = slice(pc, cond);
    cs.push_back(cond);
    vector<uint32_t> key; for (auto* e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_cache.find(key);
    std::shared_ptr<Model> part; Res r;
    if (it != g_cache.end()) { g_ss.cached++; r = it->second.first; part = it->second.second; }
    else {
        part = std::make_shared<Model>();
        r = S->check(cs, part.get());
        if (r == Res::Unknown) finish("inconclusive", "solver returned unknown (timeout)");
        if (r == Res::Sat && optVerbose > 1) { for (auto* e : cs) if (evalM(e, *part).isZero()) { fprintf(stderr, "model mismatch: %s\n", exprStr(e).c_str()); finish("unsupported", "model does not satisfy query"); } }
        g_cache[key] = { r, part };
    }
    if (r == Res::Sat && out) {
        auto m = std::make_shared<Model>(*base);
        for (auto& kv : part->v) m->v[kv.first] = kv.second;
        for (auto& kv : part->arr) m->arr[kv.first] = kv.second;
        *out = m;
    }
    return r;
}
// may cond be true in state s?  m receives a model of pc && cond
static bool mayBe(State& s, E cond, std::shared_ptr<Model>* m)
{
    if (cond->isConst()) { if (cond->isTrue() && m) *m = s.model; return cond->isTrue(); }
    if (!evalM(cond, *s.model).isZero()) { g_ss.quick++; if (m) *m = s.model; return true; }
    return satisfiable(s.pc, cond, s.model.get(), m) == Res::Sat;
}
static void addC(State& s, E c) { if (c->isConst()) return; if (c->op == Op::And) { addC(s, c->k[0]); addC(s, c->k[1]); return; } for (auto* p : s.pc) if (p == c) return; s.pc.push_back(c); }
static SP cloneState(const State& s) { SP n(new State(s)); n->id = ++g_stateId; ++g_forks; return n; }

// ------------------------------------------------------------------ types and values
static unsigned bitsOf(Type* t)
{
    switch (t->getTypeID()) {
    case Type::IntegerTyID: return t->getIntegerBitWidth();
    case Type::PointerTyID: return 64;
    case Type::FloatTyID: return 32;
    case Type::DoubleTyID: return 64;
    case Type::X86_FP80TyID: return 80;
    case Type::HalfTyID: return 16;
    case Type::StructTyID: { unsigned n = 0; for (auto* e : cast<StructType>(t)->elements()) n += bitsOf(e); return n; }
    case Type::ArrayTyID: return unsigned(t->getArrayNumElements()) * bitsOf(t->getArrayElementType());
    case Type::FixedVectorTyID: return cast<FixedVectorType>(t)->getNumElements() * bitsOf(cast<FixedVectorType>(t)->getElementType());
    default: break;
    }
    string s; raw_string_ostream o(s); o << *t; unsupported("type " + s);
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned nElems(Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); if (t->isArrayTy()) return unsigned(t->getArrayNumElements()); return t->getStructNumElements(); }
static Type* elemTy(Type* t, unsigned i) { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getElementType(); if (t->isArrayTy()) return t->getArrayElementType(); return t->getStructElementType(i); }
static uint64_t elemOff(Type* t, unsigned i)
{
    if (auto* st = dyn_cast<StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i);
    if (auto* v = dyn_cast<FixedVectorType>(t)) { unsigned b = bitsOf(v->getElementType()); if (b % 8) unsupported("vector of sub-byte elements in memory"); return uint64_t(i) * (b / 8); }
    return i * DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue();
}
static unsigned elemBit(Type* t, unsigned i) { unsigned n = 0; if (t->isStructTy()) { for (unsigned j = 0; j < i; ++j) n += bitsOf(elemTy(t, j)); return n; } return i * bitsOf(elemTy(t, 0)); }
// aggregates of zero bits are represented by a 1 bit dummy
static E freshUninit(unsigned w) { return mkVar("undef" + std::to_string(++g_uninit), w ? w : 1, false); }

static E constE(Constant* c);
static E insertBits(E agg, unsigned lo, E v)
{
    unsigned w = agg->width; E r = v;
    if (lo) r = mkConcat(r, mkExtract(agg, 0, lo));
    if (lo + v->width < w) r = mkConcat(mkExtract(agg, lo + v->width, w - lo - v->width), r);
    return r;
}
static uint64_t funcAddr(Function* f)
{
    auto it = g_gaddr.find(f); if (it != g_gaddr.end()) return it->second;
    uint64_t a = FUNC_BASE + 16 * g_funcs.size(); g_funcs.push_back(f); g_gaddr[f] = a; return a;
}
static E gepOffset(GEPOperator* g, std::function<E(Value*)> val)
{
    E off = mkC(64, 0);
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Value* idx = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) off = mkAdd(off, mkC(64, DL->getStructLayout(st)->getElementOffset(unsigned(cast<ConstantInt>(idx)->getZExtValue()))));
        else {
            uint64_t sz = gi.getSequentialElementStride(*DL).getFixedValue();
            E i = val(idx); if (i->width < 64) i = mkSExt(i, 64); else if (i->width > 64) i = mkExtract(i, 0, 64);
            off = mkAdd(off, mkBin(Op::Mul, i, mkC(64, sz)));
        }
    }
    return off;
}
static E castE(unsigned opc, E v, Type* from, Type* to);
static E binE(unsigned opc, E a, E b, Type* t);
static E cmpE(CmpInst::Predicate p, E a, E b);
static uint64_t globalAddr(const GlobalValue* g)
{
    if (auto* ga = dyn_cast<GlobalAlias>(g)) { E e = constE(const_cast<Constant*>(ga->getAliasee())); return e->u64(); }
    if (auto* f = dyn_cast<Function>(g)) return funcAddr(const_cast<Function*>(f));
    auto it = g_gaddr.find(g); if (it == g_gaddr.end()) unsupported("global " + g->getName().str());
    return it->second;
}
static std::unordered_map<Constant*, E> g_constMemo;
static E constE0(Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) return mkConst(ci->getValue());
    if (auto* cf = dyn_cast<ConstantFP>(c)) return mkConst(cf->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(c)) return mkC(64, 0);
    if (isa<UndefValue>(c)) return freshUninit(bitsOf(t));
    if (isa<ConstantAggregateZero>(c)) { unsigned b = bitsOf(t); return mkC(b ? b : 1, 0); }
    if (auto* g = dyn_cast<GlobalValue>(c)) return mkC(64, globalAddr(g));
    if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        E r = nullptr;
        for (unsigned i = 0; i < nElems(t); ++i) { if (bitsOf(elemTy(t, i)) == 0) continue; E v = constE(c->getAggregateElement(i)); r = r ? mkConcat(v, r) : v; }
        return r ? r : mkC(1, 0);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) return mkAdd(constE(cast<Constant>(g->getPointerOperand())), gepOffset(g, [](Value* v) { return constE(cast<Constant>(v)); }));
        if (ce->isCast()) return castE(ce->getOpcode(), constE(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
        if (ce->isCompare()) return cmpE(CmpInst::Predicate(ce->getPredicate()), constE(ce->getOperand(0)), constE(ce->getOperand(1)));
        if (Instruction::isBinaryOp(ce->getOpcode())) return binE(ce->getOpcode(), constE(ce->getOperand(0)), constE(ce->getOperand(1)), t);
    }
    string s; raw_string_ostream o(s); o << *c; unsupported("constant " + s);
}
static E constE(Constant* c)
{
    if (isa<UndefValue>(c)) return constE0(c);
    auto it = g_constMemo.find(c); if (it != g_constMemo.end()) return it->second;
    E e = constE0(c); g_constMemo[c] = e; return e;
}

static E elementwise1(Type* t, unsigned ow, E a, std::function<E(E)> f)
{
    unsigned n = nElems(t), w = bitsOf(elemTy(t, 0)); (void)ow; E r = nullptr;
    for (unsigned i = 0; i < n; ++i) { E v = f(mkExtract(a, i * w, w)); r = r ? mkConcat(v, r) : v; }
    return r;
}
static E elementwise2(Type* t, E a, E b, std::function<E(E, E)> f)
{
    unsigned n = nElems(t), w = bitsOf(elemTy(t, 0)); E r = nullptr;
    for (unsigned i = 0; i < n; ++i) { E v = f(mkExtract(a, i * w, w), mkExtract(b, i * w, w)); r = r ? mkConcat(v, r) : v; }
    return r;
}
static E binE(unsigned opc, E a, E b, Type* t)
{
    if (t->isVectorTy()) return elementwise2(t, a, b, [&](E x, E y) { return binE(opc, x, y, elemTy(t, 0)); });
    unsigned w = a->width;
    switch (opc) {
    case Instruction::Add: return mkBin(Op::Add, a, b);
    case Instruction::Sub: return mkBin(Op::Sub, a, b);
    case Instruction::Mul: return mkBin(Op::Mul, a, b);
    case Instruction::UDiv: return mkBin(Op::UDiv, a, b);
    case Instruction::SDiv: return mkBin(Op::SDiv, a, b);
    case Instruction::URem: return mkBin(Op::URem, a, b);
    case Instruction::SRem: return mkBin(Op::SRem, a, b);
    case Instruction::And: return mkBin(Op::And, a, b);
    case Instruction::Or: return mkBin(Op::Or, a, b);
    case Instruction::Xor: return mkBin(Op::Xor, a, b);
    case Instruction::Shl: return mkBin(Op::Shl, a, b);
    case Instruction::LShr: return mkBin(Op::LShr, a, b);
    case Instruction::AShr: return mkBin(Op::AShr, a, b);
    case Instruction::FAdd: return mkFP(Op::FAdd, w, 0, { a, b });
    case Instruction::FSub: return mkFP(Op::FSub, w, 0, { a, b });
    case Instruction::FMul: return mkFP(Op::FMul, w, 0, { a, b });
    case Instruction::FDiv: return mkFP(Op::FDiv, w, 0, { a, b });
    default: unsupported("binary op");
    }
}
static E cmpE(CmpInst::Predicate p, E a, E b)
{
    auto nan = [&]() { return mkOr(mkFP(Op::FIsNaN, 1, 0, { a }), mkFP(Op::FIsNaN, 1, 0, { b })); };
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    case CmpInst::FCMP_FALSE: return mkBool(false);
    case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_OEQ: return mkFP(Op::FEq, 1, 0, { a, b });
    case CmpInst::FCMP_OGT: return mkFP(Op::FLt, 1, 0, { b, a });
    case CmpInst::FCMP_OGE: return mkFP(Op::FLe, 1, 0, { b, a });
    case CmpInst::FCMP_OLT: return mkFP(Op::FLt, 1, 0, { a, b });
    case CmpInst::FCMP_OLE: return mkFP(Op::FLe, 1, 0, { a, b });
    case CmpInst::FCMP_ONE: return mkOr(mkFP(Op::FLt, 1, 0, { a, b }), mkFP(Op::FLt, 1, 0, { b, a }));
    case CmpInst::FCMP_ORD: return mkNot(nan());
    case CmpInst::FCMP_UNO: return nan();
    case CmpInst::FCMP_UEQ: return mkOr(nan(), mkFP(Op::FEq, 1, 0, { a, b }));
    case CmpInst::FCMP_UGT: return mkNot(mkFP(Op::FLe, 1, 0, { a, b }));
    case CmpInst::FCMP_UGE: return mkNot(mkFP(Op::FLt, 1, 0, { a, b }));
    case CmpInst::FCMP_ULT: return mkNot(mkFP(Op::FLe, 1, 0, { b, a }));
    case CmpInst::FCMP_ULE: return mkNot(mkFP(Op::FLt, 1, 0, { b, a }));
    case CmpInst::FCMP_UNE: return mkNot(mkFP(Op::FEq, 1, 0, { a, b }));
    default: unsupported("predicate");
    }
}
static E castE(unsigned opc, E v, Type* from, Type* to)
{
    if (from->isVectorTy() && to->isVectorTy() && opc != Instruction::BitCast) return elementwise1(from, 0, v, [&](E x) { return castE(opc, x, elemTy(from, 0), elemTy(to, 0)); });
    unsigned w = bitsOf(to);
    switch (opc) {
    case Instruction::Trunc: return mkExtract(v, 0, w);
    case Instruction::ZExt: return mkZExt(v, w);
    case Instruction::SExt: return mkSExt(v, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return w <= v->width ? mkExtract(v, 0, w) : mkZExt(v, w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
    case Instruction::FPToUI: return mkFP(Op::FToUI, w, 0, { v });
    case Instruction::FPToSI: return mkFP(Op::FToSI, w, 0, { v });
    case Instruction::UIToFP: return mkFP(Op::UIToF, w, 0, { v });
    case Instruction::SIToFP: return mkFP(Op::SIToF, w, 0, { v });
    case Instruction::FPTrunc: case Instruction::FPExt: return mkFP(Op::FCast, w, 0, { v });
    default: unsupported("cast");
    }
}

// ------------------------------------------------------------------ violations
static vector<std::pair<unsigned, string>> inputsUnder(const State& s, const Model& m)
{
    vector<std::pair<unsigned, string>> r; std::unordered_map<E, APInt> memo;
    for (auto& i : s.inputs) r.push_back({ i.width, hexs(evalExpr(i.e, m, memo)) });
    return r;
}
static string whereAmI(const State& s)
{
    string r;
    for (size_t i = s.st.size(); i-- > 0;) { auto& f = s.st[i]; string n = demangle(f.fi->f->getName().str()); if (n.size() > 160) n = n.substr(0, 160); r += n; if (auto& dl = f.pc->getDebugLoc()) r += ":" + std::to_string(dl.getLine()); if (i) r += " < "; }
    return r;
}
[[noreturn]] static void violation(State& s, const Model& m, const string& kind, const string& msg)
{
    g_viol.reset(new Viol{ kind, msg, whereAmI(s), inputsUnder(s, m) });
    finish("violation", kind + ": " + msg);
}

// ------------------------------------------------------------------ memory access
static Obj* lookup(State& s, uint64_t a)
{
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) { --it; if (a - it->first < SLOT && a >= it->first && a - it->first <= it->second.size) return &it->second; }
    auto jt = g_ro.upper_bound(a);
    if (jt != g_ro.begin()) { --jt; if (a >= jt->first && a - jt->first <= jt->second.size) return &jt->second; }
    return nullptr;
}
static Obj& allocObj(State& s, uint64_t size, Kind k)
{
    uint64_t n = 1 + size / SLOT;
    uint64_t base = s.nextBase; s.nextBase += SLOT * (n + 1);
    Obj o; o.base = base; o.size = size; o.kind = k; o.d = std::make_shared<Bytes>(); o.d->b.resize(size, nullptr);
    return s.mem[base] = std::move(o);
}
static void own(Obj& o) { if (o.d.use_count() > 1) o.d = std::make_shared<Bytes>(*o.d); }

enum class R { Ok, Dead };
// After Ok the access [addr, addr+n) lies in object o at offset off in this state; other cases were forked (to re-execute).
static R resolve(State& s, E addr, uint64_t n, bool write, Obj*& o, E& off)
{
    uint64_t a = addr->isConst() ? addr->u64() : evalM(addr, *s.model).getZExtValue();
    o = lookup(s, a);
    if (!o || o->size < n || a - o->base > o->size - n) {
        char b[160];
        if (a < SLOT) snprintf(b, sizeof b, "%s of %llu bytes through null/invalid pointer 0x%llx", write ? "write" : "read", (unsigned long long)n, (unsigned long long)a);
        else if (!o) snprintf(b, sizeof b, "%s of %llu bytes outside of any live object", write ? "write" : "read", (unsigned long long)n);
        else snprintf(b, sizeof b, "%s of %llu bytes at offset %llu of an object of %llu bytes", write ? "write" : "read", (unsigned long long)n, (unsigned long long)(a - o->base), (unsigned long long)o->size);
        violation(s, *s.model, "memory", b);
    }
    if (write && o->ro) violation(s, *s.model, "memory", "write to constant memory");
    off = mkSub(addr, mkC(64, o->base));
    if (!addr->isConst()) {
        E inb = mkBin(Op::Ule, off, mkC(64, o->size - n));
        std::shared_ptr<Model> m;
        if (mayBe(s, mkNot(inb), &m)) { auto c = cloneState(s); c->model = m; addC(*c, mkNot(inb)); g_work.push_back(std::move(c)); addC(s, inb); }
    }
    return R::Ok;
}
static E byteAt(Obj& o, uint64_t i)
{
    E& e = o.d->b[i];
    if (!e) { if (o.d.use_count() > 1) { own(o); } E& e2 = o.d->b[i]; e2 = freshUninit(8); return e2; }
    return e;
}
static E loadAt(Obj& o, uint64_t i, uint64_t n) { E r = byteAt(o, i); for (uint64_t k = 1; k < n; ++k) r = mkConcat(byteAt(o, i + k), r); return r; }
static uint64_t concretize(State& s, E v);

static E readMem(State& s, Obj& o, E off, uint64_t n)
{
    if (off->isConst()) return loadAt(o, off->u64(), n);
    uint64_t step = 1ull << std::min(trailingZeros(off), 12u);
    uint64_t cnt = (o.size - n) / step + 1;
    if (cnt > 20000) { uint64_t c = concretize(s, off); return loadAt(o, c, n); }
    // range of the offset known from its leading zeros
    unsigned lz = leadingZeros(off); uint64_t maxv = lz >= 64 ? 0 : (lz == 0 ? ~0ull : (1ull << (64 - lz)) - 1);
    std::map<E, E> byVal; vector<std::pair<E, E>> groups; // value -> condition
    vector<E> order;
    std::unordered_map<E, vector<uint64_t>> g;
    for (uint64_t i = 0; i + n <= o.size && i <= maxv; i += step) { E v = loadAt(o, i, n); auto& l = g[v]; if (l.empty()) order.push_back(v); l.push_back(i); }
    // the most frequent value is the default
    size_t best = 0; for (size_t i = 1; i < order.size(); ++i) if (g[order[i]].size() > g[order[best]].size()) best = i;
    E r = order[best];
    for (size_t i = order.size(); i-- > 0;) { if (i == best) continue; E c = mkBool(false); for (auto x : g[order[i]]) c = mkOr(c, mkEq(off, mkC(64, x))); r = mkIte(c, order[i], r); }
    return r;
}
static void writeMem(State& s, Obj& o, E off, E v)
{
    uint64_t n = v->width / 8;
    if (!off->isConst()) {
        uint64_t step = 1ull << std::min(trailingZeros(off), 12u);
        if ((o.size - n) / step > 4096) { uint64_t c = concretize(s, off); off = mkC(64, c); }
        else {
            own(o);
            for (uint64_t i = 0; i + n <= o.size; i += step) {
                E c = mkEq(off, mkC(64, i));
                if (c->isFalse()) continue;
                for (uint64_t k = 0; k < n; ++k) { E old = byteAt(o, i + k); o.d->b[i + k] = mkIte(c, mkExtract(v, unsigned(8 * k), 8), old); }
            }
            return;
        }
    }
    own(o); // after any fork: a forked state shares the bytes
    uint64_t i = off->u64();
    for (uint64_t k = 0; k < n; ++k) o.d->b[i + k] = mkExtract(v, unsigned(8 * k), 8);
}
// pick a concrete value; other values are explored by re-executing the instruction in a forked state
static uint64_t concretize(State& s, E v)
{
    if (v->isConst()) return v->u64();
    APInt x = evalM(v, *s.model); E c = mkEq(v, mkConst(x)); std::shared_ptr<Model> m;
    if (mayBe(s, mkNot(c), &m)) { auto n = cloneState(s); n->model = m; addC(*n, mkNot(c)); g_work.push_back(std::move(n)); addC(s, c); }
    return x.getZExtValue();
}
// decide a condition in this state, forking the other outcome (which re-executes the instruction)
static bool decide(State& s, E c)
{
    if (c->isConst()) return c->isTrue();
    bool v = !evalM(c, *s.model).isZero(); E other = v ? mkNot(c) : c; std::shared_ptr<Model> m;
    if (mayBe(s, other, &m)) { auto n = cloneState(s); n->model = m; addC(*n, other); g_work.push_back(std::move(n)); addC(s, v ? c : mkNot(c)); }
    return v;
}

static E loadVal(State& s, E addr, Type* t)
{
    if (isAgg(t)) {
        E r = nullptr;
        for (unsigned i = 0; i < nElems(t); ++i) { if (!bitsOf(elemTy(t, i))) continue; E v = loadVal(s, mkAdd(addr, mkC(64, elemOff(t, i))), elemTy(t, i)); r = r ? mkConcat(v, r) : v; }
        return r ? r : mkC(1, 0);
    }
    unsigned w = bitsOf(t); uint64_t n = (w + 7) / 8; Obj* o; E off;
    resolve(s, addr, n, false, o, off);
    E v = readMem(s, *o, off, n);
    return mkExtract(v, 0, w);
}
static void storeVal(State& s, E addr, E v, Type* t)
{
    if (isAgg(t)) {
        for (unsigned i = 0; i < nElems(t); ++i) { unsigned b = bitsOf(elemTy(t, i)); if (!b) continue; storeVal(s, mkAdd(addr, mkC(64, elemOff(t, i))), mkExtract(v, elemBit(t, i), b), elemTy(t, i)); }
        return;
    }
    unsigned w = bitsOf(t); uint64_t n = (w + 7) / 8; Obj* o; E off;
    resolve(s, addr, n, true, o, off);
    writeMem(s, *o, off, mkZExt(v, unsigned(n * 8)));
}
static void initGlobal(Obj& o, uint64_t off, Constant* c)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) return;
    if (isAgg(t)) { for (unsigned i = 0; i < nElems(t); ++i) initGlobal(o, off + elemOff(t, i), c->getAggregateElement(i)); return; }
    unsigned w = bitsOf(t); uint64_t n = (w + 7) / 8; E v = mkZExt(constE(c), unsigned(n * 8));
    for (uint64_t k = 0; k < n; ++k) o.d->b[off + k] = mkExtract(v, unsigned(8 * k), 8);
}

// ------------------------------------------------------------------ execution
static E val(State& s, Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return constE(c);
    auto& f = s.st.back();
    E e = f.regs[f.fi->slot.at(v)];
    if (!e) { e = freshUninit(bitsOf(v->getType())); f.regs[f.fi->slot.at(v)] = e; }
    return e;
}
static void setReg(State& s, Instruction* i, E e) { auto& f = s.st.back(); f.regs[f.fi->slot.at(i)] = e; }

static void gotoBB(State& s, BasicBlock* bb)
{
    auto& f = s.st.back(); BasicBlock* from = f.pc->getParent();
    f.prev = from; g_bbs.insert(bb);
    vector<std::pair<Instruction*, E>> vals;
    auto it = bb->begin();
    for (; isa<PHINode>(&*it); ++it) { auto* p = cast<PHINode>(&*it); vals.push_back({ p, val(s, p->getIncomingValueForBlock(from)) }); }
    for (auto& v : vals) setReg(s, v.first, v.second);
    f.pc = it;
}
static void pushFrame(State& s, Function* f, const vector<E>& args)
{
    auto& fi = funcInfo(f); fi.calls++; g_bbs.insert(&f->getEntryBlock());
    Frame fr; fr.fi = &fi; fr.regs.resize(fi.nregs, nullptr); fr.pc = f->getEntryBlock().begin();
    for (size_t i = 0; i < f->arg_size(); ++i) fr.regs[i] = args[i];
    s.st.push_back(std::move(fr));
    g_maxDepth = std::max<uint64_t>(g_maxDepth, s.st.size());
    if (s.st.size() > 400) finish("inconclusive", "call depth > 400 (unbounded recursion?)");
}
static void popFrame(State& s) { for (auto a : s.st.back().allocas) s.mem.erase(a); s.st.pop_back(); }

static string cstr(State& s, E p)
{
    string r; uint64_t a = p->u64(); Obj* o = lookup(s, a); if (!o) return "?";
    for (uint64_t i = a - o->base; i < o->size; ++i) { E b = byteAt(*o, i); if (!b->isConst() || b->isZero()) break; r += char(b->u64()); }
    return r;
}

static void pathDone(State& s)
{
    g_paths++;
    // keep a few traces (reservoir) for validation of the encoding against the native build
    g_traceSeen++;
    optSeed = optSeed * 6364136223846793005ull + 1442695040888963407ull;
    size_t slot = g_traces.size();
    if (int(slot) >= optTraces) { slot = (optSeed >> 33) % g_traceSeen; if (int(slot) >= optTraces) return; }
    Trace t; t.in = inputsUnder(s, *s.model); std::unordered_map<E, APInt> memo;
    for (auto* e : s.obs) t.obs.push_back(hexs(evalExpr(e, *s.model, memo)));
    if (slot == g_traces.size()) g_traces.push_back(t); else g_traces[slot] = t;
}

enum class Step { Next, Stay, Dead, Wait };

static E newInput(State& s, unsigned w)
{
    E v = mkVar("in" + std::to_string(s.nin++), w, true);
    s.inputs.push_back({ w, v });
    return v;
}
static void doFree(State& s, E p)
{
    uint64_t a = concretize(s, p);
    if (!a) return;
    auto it = s.mem.find(a);
    if (it == s.mem.end() || it->second.kind != KHeap) violation(s, *s.model, "memory", "invalid or double free");
    s.mem.erase(it);
}
// memory range operation helper: concrete object and offset (forks as needed)
static Obj* range(State& s, E p, uint64_t n, bool write, uint64_t& off)
{
    Obj* o; E e; resolve(s, p, n, write, o, e); off = concretize(s, e); return o;
}
static void copyMem(State& s, E dst, E src, uint64_t n)
{
    if (!n) return;
    uint64_t so, d; Obj* a = range(s, src, n, false, so);
    vector<E> tmp(a->d->b.begin() + so, a->d->b.begin() + so + n);
    // uninitialised bytes are copied as such
    Obj* b = range(s, dst, n, true, d);
    own(*b);
    for (uint64_t i = 0; i < n; ++i) b->d->b[d + i] = tmp[i];
}
// copy with a symbolic offset on either side, element by element
static void copyMemSym(State& s, E dst, E src, uint64_t n)
{
    if (!n) return;
    if (dst->isConst() && src->isConst()) { copyMem(s, dst, src, n); return; }
    Obj* o; E off; resolve(s, src, n, false, o, off);
    vector<E> tmp; for (uint64_t i = 0; i < n; ++i) tmp.push_back(readMem(s, *o, mkAdd(off, mkC(64, i)), 1));
    Obj* d; E doff; resolve(s, dst, n, true, d, doff);
    for (uint64_t i = 0; i < n; ++i) writeMem(s, *d, mkAdd(doff, mkC(64, i)), tmp[i]);
}

static Step callIntrinsic(State& s, CallBase* cb, Function* f);
static Step callExternal(State& s, CallBase* cb, Function* f, const vector<E>& a);

static Step doBranch(State& s, E c, BasicBlock* t, BasicBlock* f)
{
    if (c->isConst()) { gotoBB(s, c->isTrue() ? t : f); return Step::Stay; }
    bool v = !evalM(c, *s.model).isZero(); E other = v ? mkNot(c) : c; std::shared_ptr<Model> m;
    if (mayBe(s, other, &m)) {
        auto n = cloneState(s); n->model = m; addC(*n, other); gotoBB(*n, v ? f : t); g_work.push_back(std::move(n));
        addC(s, v ? c : mkNot(c));
    }
    gotoBB(s, v ? t : f);
    return Step::Stay;
}

static void finishCall(State& s, CallBase* cb, E ret)
{
    if (!cb->getType()->isVoidTy()) setReg(s, cb, ret);
    auto& f = s.st.back();
    if (auto* inv = dyn_cast<InvokeInst>(cb)) gotoBB(s, inv->getNormalDest()); else ++f.pc;
}

static Step doCall(State& s, CallBase* cb)
{
    if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) { finishCall(s, cb, nullptr); return Step::Stay; } unsupported("inline asm"); }
    Function* f = cb->getCalledFunction();
    if (!f) {
        Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
        f = dyn_cast<Function>(cv);
        if (!f) {
            E p = val(s, cb->getCalledOperand()); uint64_t a = concretize(s, p);
            if (a < FUNC_BASE || (a - FUNC_BASE) / 16 >= g_funcs.size()) violation(s, *s.model, "memory", "call through invalid function pointer");
            f = g_funcs[(a - FUNC_BASE) / 16];
        }
    }
    if (f->isIntrinsic()) return callIntrinsic(s, cb, f);
    vector<E> args; for (auto& u : cb->args()) args.push_back(val(s, u.get()));
    if (f->isDeclaration() || f->getName().starts_with("vf_")) return callExternal(s, cb, f, args);
    vector<uint64_t> byval; uint64_t va = 0;
    if (f->isVarArg()) { // all variadic arguments in the overflow area of the x86-64 va_list
        size_t fixed = f->arg_size(); auto& o = allocObj(s, 8 * (args.size() - fixed) + 8, KStack); va = o.base; byval.push_back(va);
        for (size_t i = fixed; i < args.size(); ++i) { if (args[i]->width > 64 || cb->isByValArgument(unsigned(i))) unsupported("variadic argument"); E v = mkZExt(args[i], 64); for (unsigned k = 0; k < 8; ++k) o.d->b[8 * (i - fixed) + k] = mkExtract(v, 8 * k, 8); }
        args.resize(fixed);
    }
    for (unsigned i = 0; i < args.size(); ++i)
        if (cb->isByValArgument(i)) {
            uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue();
            auto& o = allocObj(s, n, KStack); uint64_t base = o.base;
            copyMemSym(s, mkC(64, base), args[i], n); args[i] = mkC(64, base); byval.push_back(base);
        }
    pushFrame(s, f, args);
    s.st.back().allocas = byval; s.st.back().va = va;
    return Step::Stay;
}

static Step step(State& s)
{
    auto& fr = s.st.back(); Instruction* I = &*fr.pc; s.steps++; g_steps++;
    if (optVerbose > 2) fprintf(stderr, "[%lu] %s\n", (unsigned long)s.id, instStr(I).c_str());
    switch (I->getOpcode()) {
    case Instruction::Ret: {
        E rv = nullptr; if (auto* v = cast<ReturnInst>(I)->getReturnValue()) rv = val(s, v);
        popFrame(s);
        if (s.st.empty()) return Step::Dead;
        auto* cb = cast<CallBase>(&*s.st.back().pc);
        finishCall(s, cb, rv); return Step::Stay;
    }
    case Instruction::Br: {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) { gotoBB(s, b->getSuccessor(0)); return Step::Stay; }
        if (b->getSuccessor(0) == b->getSuccessor(1)) { gotoBB(s, b->getSuccessor(0)); return Step::Stay; }
        return doBranch(s, val(s, b->getCondition()), b->getSuccessor(0), b->getSuccessor(1));
    }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I); E c = val(s, sw->getCondition());
        if (c->isConst()) { auto* d = sw->getDefaultDest(); for (auto& cs : sw->cases()) if (cs.getCaseValue()->getValue() == c->val) { d = cs.getCaseSuccessor(); break; } gotoBB(s, d); return Step::Stay; }
        vector<std::pair<BasicBlock*, E>> succ; E def = mkBool(true);
        for (auto& cs : sw->cases()) {
            E q = mkEq(c, mkConst(cs.getCaseValue()->getValue())); def = mkAnd(def, mkNot(q));
            bool found = false; for (auto& p : succ) if (p.first == cs.getCaseSuccessor()) { p.second = mkOr(p.second, q); found = true; break; }
            if (!found) succ.push_back({ cs.getCaseSuccessor(), q });
        }
        { bool found = false; for (auto& p : succ) if (p.first == sw->getDefaultDest()) { p.second = mkOr(p.second, def); found = true; break; }
          if (!found) succ.push_back({ sw->getDefaultDest(), def }); }
        vector<std::pair<size_t, std::shared_ptr<Model>>> feas;
        for (size_t i = 0; i < succ.size(); ++i) { std::shared_ptr<Model> m; if (mayBe(s, succ[i].second, &m)) feas.push_back({ i, m }); }
        for (size_t j = 1; j < feas.size(); ++j) { auto n = cloneState(s); n->model = feas[j].second; addC(*n, succ[feas[j].first].second); gotoBB(*n, succ[feas[j].first].first); g_work.push_back(std::move(n)); }
        if (feas.size() > 1) { s.model = feas[0].second; addC(s, succ[feas[0].first].second); }
        gotoBB(s, succ[feas[0].first].first); return Step::Stay;
    }
    case Instruction::Unreachable: violation(s, *s.model, "ub", "unreachable code executed (undefined behaviour)");
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
        if (a->isArrayAllocation()) n *= concretize(s, val(s, a->getArraySize()));
        auto& o = allocObj(s, n, KStack); s.st.back().allocas.push_back(o.base); setReg(s, I, mkC(64, o.base)); return Step::Next;
    }
    case Instruction::Load: { auto* l = cast<LoadInst>(I); setReg(s, I, loadVal(s, val(s, l->getPointerOperand()), l->getType())); return Step::Next; }
    case Instruction::Store: { auto* t = cast<StoreInst>(I); storeVal(s, val(s, t->getPointerOperand()), val(s, t->getValueOperand()), t->getValueOperand()->getType()); return Step::Next; }
    case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(I); if (I->getType()->isVectorTy()) unsupported("vector gep");
        setReg(s, I, mkAdd(val(s, g->getPointerOperand()), gepOffset(g, [&](Value* v) { return val(s, v); }))); return Step::Next;
    }
    case Instruction::ICmp: case Instruction::FCmp: {
        auto* c = cast<CmpInst>(I); E a = val(s, c->getOperand(0)), b = val(s, c->getOperand(1));
        if (c->getType()->isVectorTy()) setReg(s, I, elementwise2(c->getOperand(0)->getType(), a, b, [&](E x, E y) { return cmpE(c->getPredicate(), x, y); }));
        else setReg(s, I, cmpE(c->getPredicate(), a, b));
        return Step::Next;
    }
    case Instruction::Select: {
        E c = val(s, I->getOperand(0)), a = val(s, I->getOperand(1)), b = val(s, I->getOperand(2));
        if (I->getOperand(0)->getType()->isVectorTy()) {
            unsigned n = nElems(I->getType()), w = bitsOf(elemTy(I->getType(), 0)); E r = nullptr;
            for (unsigned i = 0; i < n; ++i) { E v = mkIte(mkExtract(c, i, 1), mkExtract(a, i * w, w), mkExtract(b, i * w, w)); r = r ? mkConcat(v, r) : v; }
            setReg(s, I, r);
        } else setReg(s, I, mkIte(c, a, b));
        return Step::Next;
    }
    case Instruction::Call: case Instruction::Invoke: return doCall(s, cast<CallBase>(I));
    case Instruction::ExtractValue: {
        auto* x = cast<ExtractValueInst>(I); Type* t = x->getAggregateOperand()->getType(); unsigned lo = 0;
        for (auto i : x->indices()) { lo += elemBit(t, i); t = elemTy(t, i); }
        setReg(s, I, mkExtract(val(s, x->getAggregateOperand()), lo, bitsOf(t))); return Step::Next;
    }
    case Instruction::InsertValue: {
        auto* x = cast<InsertValueInst>(I); Type* t = x->getAggregateOperand()->getType(); unsigned lo = 0;
        for (auto i : x->indices()) { lo += elemBit(t, i); t = elemTy(t, i); }
        setReg(s, I, insertBits(val(s, x->getAggregateOperand()), lo, val(s, x->getInsertedValueOperand()))); return Step::Next;
    }
    case Instruction::ExtractElement: {
        Type* t = I->getOperand(0)->getType(); unsigned w = bitsOf(elemTy(t, 0)); uint64_t i = concretize(s, val(s, I->getOperand(1)));
        setReg(s, I, mkExtract(val(s, I->getOperand(0)), unsigned(i * w), w)); return Step::Next;
    }
    case Instruction::InsertElement: {
        Type* t = I->getType(); unsigned w = bitsOf(elemTy(t, 0)); uint64_t i = concretize(s, val(s, I->getOperand(2)));
        setReg(s, I, insertBits(val(s, I->getOperand(0)), unsigned(i * w), val(s, I->getOperand(1)))); return Step::Next;
    }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(I); Type* t = sv->getOperand(0)->getType(); unsigned n = nElems(t), w = bitsOf(elemTy(t, 0)); E a = val(s, sv->getOperand(0)), b = val(s, sv->getOperand(1)), r = nullptr;
        for (int m : sv->getShuffleMask()) { E v = m < 0 ? freshUninit(w) : unsigned(m) < n ? mkExtract(a, m * w, w) : mkExtract(b, (m - n) * w, w); r = r ? mkConcat(v, r) : v; }
        setReg(s, I, r); return Step::Next;
    }
    case Instruction::Freeze: setReg(s, I, val(s, I->getOperand(0))); return Step::Next;
    case Instruction::FNeg: {
        Type* t = I->getType(); auto neg = [](E x) { return mkBin(Op::Xor, x, mkConst(APInt::getSignMask(x->width))); };
        E a = val(s, I->getOperand(0)); setReg(s, I, t->isVectorTy() ? elementwise1(t, 0, a, neg) : neg(a)); return Step::Next;
    }
    case Instruction::Fence: return Step::Next;
    case Instruction::AtomicRMW: {
        auto* x = cast<AtomicRMWInst>(I); E p = val(s, x->getPointerOperand()), v = val(s, x->getValOperand()); E old = loadVal(s, p, x->getType()); E n;
        switch (x->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkAdd(old, v); break; case AtomicRMWInst::Sub: n = mkSub(old, v); break; case AtomicRMWInst::And: n = mkAnd(old, v); break; case AtomicRMWInst::Or: n = mkOr(old, v); break; default: unsupported("atomicrmw"); }
        storeVal(s, p, n, x->getType()); setReg(s, I, old); return Step::Next;
    }
    case Instruction::AtomicCmpXchg: {
        auto* x = cast<AtomicCmpXchgInst>(I); E p = val(s, x->getPointerOperand()); Type* t = x->getCompareOperand()->getType(); E old = loadVal(s, p, t); E eq = mkEq(old, val(s, x->getCompareOperand()));
        storeVal(s, p, mkIte(eq, val(s, x->getNewValOperand()), old), t); setReg(s, I, mkConcat(eq, old)); return Step::Next;
    }
    default: break;
    }
    if (I->isBinaryOp()) {
        E a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1)); unsigned o = I->getOpcode();
        if ((o == Instruction::UDiv || o == Instruction::SDiv || o == Instruction::URem || o == Instruction::SRem) && !I->getType()->isVectorTy()) {
            std::shared_ptr<Model> m; E z = mkEq(b, mkC(b->width, 0)); if (mayBe(s, z, &m)) violation(s, *m, "ub", "division by zero");
        }
        setReg(s, I, binE(o, a, b, I->getType())); return Step::Next;
    }
    if (I->isCast()) { setReg(s, I, castE(I->getOpcode(), val(s, I->getOperand(0)), I->getOperand(0)->getType(), I->getType())); return Step::Next; }
    unsupported("instruction " + instStr(I));
}

static Step callIntrinsic(State& s, CallBase* cb, Function* f)
{
    auto A = [&](unsigned i) { return val(s, cb->getArgOperand(i)); };
    auto done = [&](E r) { finishCall(s, cb, r); return Step::Stay; };
    Type* t = cb->getType();
    auto lift2 = [&](std::function<E(E, E)> g) { return done(t->isVectorTy() ? elementwise2(t, A(0), A(1), g) : g(A(0), A(1))); };
    auto lift1 = [&](std::function<E(E)> g) { return done(t->isVectorTy() ? elementwise1(t, 0, A(0), g) : g(A(0))); };
    auto ovf = [&](bool sgn, Op op) {
        E a = A(0), b = A(1); unsigned w = a->width, x = op == Op::Mul ? 2 * w : w + 1;
        E aa = sgn ? mkSExt(a, x) : mkZExt(a, x), bb = sgn ? mkSExt(b, x) : mkZExt(b, x); E r = mkBin(op, aa, bb); E lo = mkBin(op, a, b);
        E o = mkNot(mkEq(r, sgn ? mkSExt(lo, x) : mkZExt(lo, x))); return done(mkConcat(o, lo)); };
    switch (f->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: return done(nullptr);
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return done(mkC(64, 0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: return done(A(0));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, A(2)); copyMemSym(s, A(0), A(1), n); return done(nullptr); }
    case Intrinsic::memset: { uint64_t n = concretize(s, A(2)); if (n) { uint64_t off; E v = A(1); Obj* o = range(s, A(0), n, true, off); own(*o); for (uint64_t i = 0; i < n; ++i) o->d->b[off + i] = v; } return done(nullptr); }
    case Intrinsic::umin: return lift2([](E a, E b) { return mkIte(mkBin(Op::Ult, a, b), a, b); });
    case Intrinsic::umax: return lift2([](E a, E b) { return mkIte(mkBin(Op::Ult, a, b), b, a); });
    case Intrinsic::smin: return lift2([](E a, E b) { return mkIte(mkBin(Op::Slt, a, b), a, b); });
    case Intrinsic::smax: return lift2([](E a, E b) { return mkIte(mkBin(Op::Slt, a, b), b, a); });
    case Intrinsic::abs: return lift1([](E a) { return mkIte(mkExtract(a, a->width - 1, 1), mkSub(mkC(a->width, 0), a), a); });
    case Intrinsic::uadd_sat: return lift2([](E a, E b) { E r = mkAdd(a, b); return mkIte(mkBin(Op::Ult, r, a), mkConst(APInt::getAllOnes(a->width)), r); });
    case Intrinsic::usub_sat: return lift2([](E a, E b) { return mkIte(mkBin(Op::Ult, a, b), mkC(a->width, 0), mkSub(a, b)); });
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { Op op = f->getIntrinsicID() == Intrinsic::sadd_sat ? Op::Add : Op::Sub; return lift2([op](E a, E b) { unsigned w = a->width; E r = mkBin(op, mkSExt(a, w + 1), mkSExt(b, w + 1)); E mx = mkConst(APInt::getSignedMaxValue(w).sext(w + 1)), mn = mkConst(APInt::getSignedMinValue(w).sext(w + 1)); r = mkIte(mkBin(Op::Slt, r, mn), mn, mkIte(mkBin(Op::Slt, mx, r), mx, r)); return mkExtract(r, 0, w); }); }
    case Intrinsic::uadd_with_overflow: return ovf(false, Op::Add);
    case Intrinsic::sadd_with_overflow: return ovf(true, Op::Add);
    case Intrinsic::usub_with_overflow: return ovf(false, Op::Sub);
    case Intrinsic::ssub_with_overflow: return ovf(true, Op::Sub);
    case Intrinsic::umul_with_overflow: return ovf(false, Op::Mul);
    case Intrinsic::smul_with_overflow: return ovf(true, Op::Mul);
    case Intrinsic::bswap: return lift1([](E a) { E r = nullptr; for (unsigned i = 0; i < a->width; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return r; });
    case Intrinsic::bitreverse: return lift1([](E a) { E r = nullptr; for (unsigned i = 0; i < a->width; ++i) { E b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; } return r; });
    case Intrinsic::ctpop: return lift1([](E a) { E r = mkC(a->width, 0); for (unsigned i = 0; i < a->width; ++i) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->width)); return r; });
    case Intrinsic::ctlz: return lift1([](E a) { unsigned w = a->width; E r = mkC(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a, i, 1), mkC(w, w - 1 - i), r); return r; });
    case Intrinsic::cttz: return lift1([](E a) { unsigned w = a->width; E r = mkC(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkC(w, i), r); return r; });
    case Intrinsic::fshl: case Intrinsic::fshr: {
        if (t->isVectorTy()) unsupported("vector funnel shift");
        E hi = A(0), lo = A(1), sh = A(2); unsigned w = hi->width; E cc = mkConcat(hi, lo); E amt = mkZExt(mkBin(Op::URem, sh, mkC(w, w)), 2 * w);
        if (f->getIntrinsicID() == Intrinsic::fshl) return done(mkExtract(mkBin(Op::Shl, cc, amt), w, w));
        return done(mkExtract(mkBin(Op::LShr, cc, amt), 0, w)); }
    case Intrinsic::objectsize: return done(mkConst(cast<ConstantInt>(cb->getArgOperand(1))->isZero() ? APInt::getAllOnes(bitsOf(t)) : APInt(bitsOf(t), 0)));
    case Intrinsic::is_constant: return done(mkBool(false));
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, *s.model, "ub", "trap: undefined behaviour detected by the inserted check");
    case Intrinsic::fabs: return lift1([](E a) { return mkConcat(mkC(1, 0), mkExtract(a, 0, a->width - 1)); });
    case Intrinsic::copysign: return lift2([](E a, E b) { return mkConcat(mkExtract(b, b->width - 1, 1), mkExtract(a, 0, a->width - 1)); });
    case Intrinsic::round: return lift1([](E a) { return mkFP(Op::FRound, a->width, unsigned(RoundingMode::NearestTiesToAway), { a }); });
    case Intrinsic::floor: return lift1([](E a) { return mkFP(Op::FRound, a->width, unsigned(RoundingMode::TowardNegative), { a }); });
    case Intrinsic::ceil: return lift1([](E a) { return mkFP(Op::FRound, a->width, unsigned(RoundingMode::TowardPositive), { a }); });
    case Intrinsic::trunc: return lift1([](E a) { return mkFP(Op::FRound, a->width, unsigned(RoundingMode::TowardZero), { a }); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return lift1([](E a) { return mkFP(Op::FRound, a->width, unsigned(RoundingMode::NearestTiesToEven), { a }); });
    case Intrinsic::minnum: case Intrinsic::minimum: return lift2([](E a, E b) { return mkIte(mkFP(Op::FIsNaN, 1, 0, { a }), b, mkIte(mkFP(Op::FIsNaN, 1, 0, { b }), a, mkIte(mkFP(Op::FLt, 1, 0, { b, a }), b, a))); });
    case Intrinsic::maxnum: case Intrinsic::maximum: return lift2([](E a, E b) { return mkIte(mkFP(Op::FIsNaN, 1, 0, { a }), b, mkIte(mkFP(Op::FIsNaN, 1, 0, { b }), a, mkIte(mkFP(Op::FLt, 1, 0, { a, b }), b, a))); });
    case Intrinsic::fptoui_sat: case Intrinsic::fptosi_sat: {
        bool sg = f->getIntrinsicID() == Intrinsic::fptosi_sat; E a = A(0); unsigned w = bitsOf(t); APInt mn = sg ? APInt::getSignedMinValue(w) : APInt(w, 0), mx = sg ? APInt::getSignedMaxValue(w) : APInt::getAllOnes(w);
        auto fl = [&](const APInt& v, RoundingMode rm) { APFloat x(a->width == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble()); x.convertFromAPInt(v, sg, rm); return mkConst(x.bitcastToAPInt()); };
        E r = mkFP(sg ? Op::FToSI : Op::FToUI, w, 0, { a });
        r = mkIte(mkFP(Op::FLe, 1, 0, { a, fl(mn, RoundingMode::TowardZero) }), mkConst(mn), r);
        r = mkIte(mkFP(Op::FLt, 1, 0, { fl(mx, RoundingMode::TowardZero), a }), mkConst(mx), r);
        r = mkIte(mkFP(Op::FIsNaN, 1, 0, { a }), mkC(w, 0), r); return done(r); }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
        Type* vt = cb->getArgOperand(0)->getType(); unsigned n = nElems(vt), w = bitsOf(elemTy(vt, 0)); E a = A(0), r = mkExtract(a, 0, w);
        Op op = f->getIntrinsicID() == Intrinsic::vector_reduce_add ? Op::Add : f->getIntrinsicID() == Intrinsic::vector_reduce_or ? Op::Or : f->getIntrinsicID() == Intrinsic::vector_reduce_and ? Op::And : Op::Xor;
        for (unsigned i = 1; i < n; ++i) r = mkBin(op, r, mkExtract(a, i * w, w)); return done(r); }
    case Intrinsic::vastart: { uint64_t off; uint64_t va = s.st.back().va; Obj* o = range(s, A(0), 24, true, off); own(*o);
        uint64_t w[3] = { 48u | (uint64_t(176) << 32), va, 0 }; for (unsigned i = 0; i < 24; ++i) o->d->b[off + i] = mkC(8, (w[i / 8] >> (8 * (i % 8))) & 0xFF); return done(nullptr); }
    case Intrinsic::vacopy: copyMem(s, A(0), A(1), 24); return done(nullptr);
    case Intrinsic::vaend: return done(nullptr);
    case Intrinsic::eh_typeid_for: return done(mkC(32, 0));
    default: unsupported("intrinsic " + f->getName().str());
    }
}

static std::set<string> g_externs;
static Step callExternal(State& s, CallBase* cb, Function* f, const vector<E>& a)
{
    string n = f->getName().str();
    auto done = [&](E r) { finishCall(s, cb, r); return Step::Stay; };
    Type* t = cb->getType();
    if (n.compare(0, 3, "vf_") == 0) {
        if (n == "vf_u8") return done(newInput(s, 8));
        if (n == "vf_u16") return done(newInput(s, 16));
        if (n == "vf_u32") return done(newInput(s, 32));
        if (n == "vf_u64") return done(newInput(s, 64));
        if (n == "vf_bool") return done(newInput(s, 1));
        if (n == "vf_symbolic") { // (ptr, n)
            uint64_t k = concretize(s, a[1]); if (k) { uint64_t off; Obj* o = range(s, a[0], k, true, off); own(*o); for (uint64_t i = 0; i < k; ++i) o->d->b[off + i] = newInput(s, 8); } return done(nullptr); }
        if (n == "vf_choose") { // every value 0..n-1 in a path of its own
            uint64_t k = concretize(s, a[0]); if (!k) return Step::Dead;
            for (uint64_t i = k; i-- > 1;) { auto c = cloneState(s); c->inputs.push_back({ 32, mkC(32, i) }); finishCall(*c, cast<CallBase>(&*c->st.back().pc), mkC(32, i)); g_work.push_back(std::move(c)); }
            s.inputs.push_back({ 32, mkC(32, 0) }); return done(mkC(32, 0)); }
        if (n == "vf_part") { // like vf_choose; the first one on a path is split over engine processes by --part/--nparts (value % nparts == part)
            uint64_t k = concretize(s, a[0]), lo = 0, step = 1;
            if (optPart >= 0 && !s.parted) { lo = optPart; step = optNParts ? optNParts : 1; s.parted = true; if (!optNParts) finish("unsupported", "--part without --nparts"); }
            if (lo >= k) { g_assumeKilled++; return Step::Dead; }
            for (uint64_t i = lo + step; i < k; i += step) { auto c = cloneState(s); c->inputs.push_back({ 32, mkC(32, i) }); finishCall(*c, cast<CallBase>(&*c->st.back().pc), mkC(32, i)); g_work.push_back(std::move(c)); }
            s.inputs.push_back({ 32, mkC(32, lo) }); return done(mkC(32, lo)); }
        if (n == "vf_param") { string k = cstr(s, a[0]); auto it = optParams.find(k); return done(it == optParams.end() ? a[1] : mkC(32, it->second)); }
        if (n == "vf_concretize") { uint64_t v = concretize(s, a[0]); return done(mkC(64, v)); }
        if (n == "vf_assume") {
            E c = mkNot(mkEq(a[0], mkC(a[0]->width, 0))); std::shared_ptr<Model> m;
            if (!mayBe(s, c, &m)) { g_assumeKilled++; return Step::Dead; }
            s.model = m; addC(s, c); return done(nullptr); }
        if (n == "vf_assert") {
            string msg = cstr(s, a[1]); g_asserts[msg]++;
            E c = mkNot(mkEq(a[0], mkC(a[0]->width, 0))); std::shared_ptr<Model> m;
            if (mayBe(s, mkNot(c), &m)) violation(s, *m, "assert", msg);
            return done(nullptr); }
        if (n == "vf_reach") { g_reach[cstr(s, a[0])]++; return done(nullptr); }
        if (n == "vf_observe") { s.obs.push_back(a[0]); return done(nullptr); }
        if (n == "vf_merge") { finishCall(s, cb, nullptr); s.merges++; return Step::Wait; }
        if (n == "vf_is_symbolic") return done(mkBool(true)->isTrue() ? mkC(bitsOf(t), 1) : nullptr);
        unsupported("unknown intrinsic " + n);
    }
    g_externs.insert(n);
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "aligned_alloc") {
        uint64_t k = concretize(s, n == "aligned_alloc" ? a[1] : a[0]);
        if (k > (1u << 26)) violation(s, *s.model, "memory", "allocation of " + std::to_string(k) + " bytes");
        auto& o = allocObj(s, k, KHeap); return done(mkC(64, o.base)); }
    if (n == "calloc") { uint64_t k = concretize(s, mkBin(Op::Mul, a[0], a[1])); auto& o = allocObj(s, k, KHeap); for (auto& b : o.d->b) b = mkC(8, 0); return done(mkC(64, o.base)); }
    if (n == "free" || n.compare(0, 6, "_ZdlPv") == 0 || n.compare(0, 6, "_ZdaPv") == 0) { doFree(s, a[0]); return done(nullptr); }
    if (n == "memcpy" || n == "memmove") { uint64_t k = concretize(s, a[2]); copyMemSym(s, a[0], a[1], k); return done(a[0]); }
    if (n == "memset") { uint64_t k = concretize(s, a[2]); if (k) { uint64_t off; Obj* o = range(s, a[0], k, true, off); own(*o); for (uint64_t i = 0; i < k; ++i) o->d->b[off + i] = mkExtract(a[1], 0, 8); } return done(a[0]); }
    if (n == "memcmp" || n == "bcmp") {
        uint64_t k = concretize(s, a[2]); E r = mkC(32, 0);
        if (k) {
            Obj *x, *y; E xo, yo; resolve(s, a[0], k, false, x, xo); resolve(s, a[1], k, false, y, yo);
            for (uint64_t i = k; i-- > 0;) { E p = readMem(s, *x, mkAdd(xo, mkC(64, i)), 1), q = readMem(s, *y, mkAdd(yo, mkC(64, i)), 1); r = mkIte(mkEq(p, q), r, mkIte(mkBin(Op::Ult, p, q), mkConst(APInt::getAllOnes(32)), mkC(32, 1))); }
        }
        return done(r); }
    if (n == "strlen") { uint64_t off; Obj* o = range(s, a[0], 1, false, off); for (uint64_t i = 0;; ++i) { if (off + i >= o->size) violation(s, *s.model, "memory", "strlen reads past the end of an object"); if (decide(s, mkEq(byteAt(*o, off + i), mkC(8, 0)))) return done(mkC(64, i)); } }
    if (n == "memchr") { uint64_t k = concretize(s, a[2]); if (!k) return done(mkC(64, 0)); uint64_t off; Obj* o = range(s, a[0], k, false, off); uint64_t base = o->base; for (uint64_t i = 0; i < k; ++i) if (decide(s, mkEq(byteAt(*o, off + i), mkExtract(a[1], 0, 8)))) return done(mkC(64, base + off + i)); return done(mkC(64, 0)); }
    if (n == "round" || n == "roundf") return done(mkFP(Op::FRound, a[0]->width, unsigned(RoundingMode::NearestTiesToAway), { a[0] }));
    if (n == "floor" || n == "floorf") return done(mkFP(Op::FRound, a[0]->width, unsigned(RoundingMode::TowardNegative), { a[0] }));
    if (n == "ceil" || n == "ceilf") return done(mkFP(Op::FRound, a[0]->width, unsigned(RoundingMode::TowardPositive), { a[0] }));
    if (n == "trunc" || n == "truncf") return done(mkFP(Op::FRound, a[0]->width, unsigned(RoundingMode::TowardZero), { a[0] }));
    if (n == "nearbyint" || n == "nearbyintf" || n == "rint" || n == "rintf") return done(mkFP(Op::FRound, a[0]->width, unsigned(RoundingMode::NearestTiesToEven), { a[0] }));
    if (n == "lround" || n == "llround" || n == "lroundf" || n == "llroundf") return done(mkFP(Op::FToSI, 64, 0, { mkFP(Op::FRound, a[0]->width, unsigned(RoundingMode::NearestTiesToAway), { a[0] }) }));
    if (n == "lrint" || n == "llrint" || n == "lrintf" || n == "llrintf") return done(mkFP(Op::FToSI, 64, 0, { mkFP(Op::FRound, a[0]->width, unsigned(RoundingMode::NearestTiesToEven), { a[0] }) }));
    if (n == "__cxa_atexit" || n == "atexit") return done(mkC(bitsOf(t), 0));
    if (n == "__cxa_guard_acquire") { E v = loadVal(s, a[0], Type::getInt8Ty(M->getContext())); return done(mkIte(mkEq(v, mkC(8, 0)), mkC(32, 1), mkC(32, 0))); }
    if (n == "__cxa_guard_release") { storeVal(s, a[0], mkC(8, 1), Type::getInt8Ty(M->getContext())); return done(nullptr); }
    if (n.compare(0, 17, "_ZNSt8ios_base4In") == 0) return done(t->isVoidTy() ? nullptr : mkC(64, 0));
    if (n.compare(0, 9, "_ZSt20__t") == 0 || n.find("__throw_") != string::npos || n == "__cxa_throw" || n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "_ZSt17__throw_bad_allocv" || n == "__cxa_pure_virtual" || n == "__stack_chk_fail" || n == "exit" || n == "_exit" || n == "__cxa_bad_cast" || n == "__clang_call_terminate" || n == "_Unwind_Resume" || n == "__cxa_throw_bad_array_new_length")
        violation(s, *s.model, "abort", "reaches " + demangle(n));
    if (n == "__cxa_allocate_exception") { auto& o = allocObj(s, a[0]->u64(), KHeap); return done(mkC(64, o.base)); }
    unsupported("external function " + n + " (" + demangle(n) + ")");
}

// ------------------------------------------------------------------ merging
static bool mergeable(const State& a, const State& b)
{
    if (a.st.size() != b.st.size() || a.nin != b.nin || a.merges != b.merges || a.inputs.size() != b.inputs.size() || a.obs.size() != b.obs.size()) return false;
    for (size_t i = 0; i < a.st.size(); ++i) { auto &x = a.st[i], &y = b.st[i]; if (x.fi != y.fi || x.pc != y.pc || x.allocas != y.allocas || x.va != y.va) return false; }
    for (size_t i = 0; i < a.inputs.size(); ++i) if (a.inputs[i].width != b.inputs[i].width) return false;
    auto p = a.mem.begin(); auto q = b.mem.begin();
    for (; p != a.mem.end() && q != b.mem.end(); ++p, ++q) if (p->first != q->first || p->second.size != q->second.size || p->second.kind != q->second.kind) return false;
    return p == a.mem.end() && q == b.mem.end();
}
static E sel(const vector<E>& conds, const vector<E>& vals)
{
    E r = vals.back(); bool same = true; for (auto* v : vals) { if (!v) return nullptr; if (v != r) same = false; }
    if (same) return r;
    for (size_t i = vals.size() - 1; i-- > 0;) r = mkIte(conds[i], vals[i], r);
    return r;
}
static SP mergeStates(vector<SP>& g)
{
    if (g.size() == 1) return std::move(g[0]);
    g_mergesDone++; g_mergedStates += g.size();
    size_t pre = g[0]->pc.size();
    for (auto& s : g) { size_t i = 0; while (i < pre && i < s->pc.size() && s->pc[i] == g[0]->pc[i]) ++i; pre = i; }
    vector<E> conds;
    for (auto& s : g) { E c = mkBool(true); for (size_t i = pre; i < s->pc.size(); ++i) c = mkAnd(c, s->pc[i]); conds.push_back(c); }
    SP r(new State(*g[0])); r->id = ++g_stateId;
    r->pc.resize(pre);
    E dis = mkBool(false); for (auto* c : conds) dis = mkOr(dis, c);
    vector<E> v(g.size());
    for (size_t f = 0; f < r->st.size(); ++f) for (size_t k = 0; k < r->st[f].regs.size(); ++k) { for (size_t i = 0; i < g.size(); ++i) v[i] = g[i]->st[f].regs[k]; r->st[f].regs[k] = sel(conds, v); }
    for (size_t k = 0; k < r->inputs.size(); ++k) { for (size_t i = 0; i < g.size(); ++i) v[i] = g[i]->inputs[k].e; r->inputs[k].e = sel(conds, v); }
    for (size_t k = 0; k < r->obs.size(); ++k) { for (size_t i = 0; i < g.size(); ++i) v[i] = g[i]->obs[k]; r->obs[k] = sel(conds, v); }
    for (auto& kv : r->mem) {
        bool same = true; vector<Obj*> os; for (auto& s : g) { Obj* o = &s->mem.at(kv.first); os.push_back(o); if (o->d != kv.second.d) same = false; }
        if (same) continue;
        auto nd = std::make_shared<Bytes>(); nd->b.resize(kv.second.size);
        for (uint64_t i = 0; i < kv.second.size; ++i) {
            bool allnull = true, eq = true; for (auto* o : os) { if (o->d->b[i]) allnull = false; if (o->d->b[i] != os[0]->d->b[i]) eq = false; }
            if (allnull) { nd->b[i] = nullptr; continue; }
            if (eq) { nd->b[i] = os[0]->d->b[i]; continue; }
            for (size_t j = 0; j < os.size(); ++j) v[j] = byteAt(*os[j], i);
            nd->b[i] = sel(conds, v);
        }
        kv.second.d = nd;
    }
    for (auto& s : g) { r->nextBase = std::max(r->nextBase, s->nextBase); r->steps = std::max(r->steps, s->steps); }
    // is the disjunction of the path conditions implied by the common prefix?
    if (!dis->isTrue()) { if (satisfiable(r->pc, mkNot(dis), r->model.get(), nullptr) == Res::Sat) r->pc.push_back(dis); }
    return r;
}

// ------------------------------------------------------------------ main
static string jsonStr(const string& s)
{
    string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}
static void finish(const string& status, const string& detail)
{
    FILE* o = optOut.empty() ? stdout : fopen(optOut.c_str(), "w"); if (!o) _Exit(6);
    auto ins = [&](const vector<std::pair<unsigned, string>>& v) { string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + string("[") + std::to_string(v[i].first) + "," + jsonStr(v[i].second) + "]"; return r + "]"; };
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(o, "{\"status\":%s,\"detail\":%s,\"entry\":%s,\"part\":%d,\n", jsonStr(status).c_str(), jsonStr(detail).c_str(), jsonStr(optEntry).c_str(), optPart);
    fprintf(o, "\"paths\":%lu,\"forks\":%lu,\"instructions\":%lu,\"merges\":%lu,\"merged_states\":%lu,\"assume_killed\":%lu,\"max_depth\":%lu,\n", (unsigned long)g_paths, (unsigned long)g_forks, (unsigned long)g_steps, (unsigned long)g_mergesDone, (unsigned long)g_mergedStates, (unsigned long)g_assumeKilled, (unsigned long)g_maxDepth);
    fprintf(o, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cached\":%lu,\"model_hits\":%lu,\"external\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"rss_mb\":%ld,\"exprs\":%zu,\n", (unsigned long)g_ss.queries, (unsigned long)g_ss.sat, (unsigned long)g_ss.unsat, (unsigned long)g_ss.unknown, (unsigned long)g_ss.cached, (unsigned long)g_ss.quick, (unsigned long)g_ss.external, g_ss.time, g_ss.maxTime, elapsed(), ru.ru_maxrss / 1024, exprCount());
    fprintf(o, "\"asserts\":{"); bool first = true; for (auto& kv : g_asserts) { fprintf(o, "%s%s:%lu", first ? "" : ",", jsonStr(kv.first).c_str(), (unsigned long)kv.second); first = false; }
    fprintf(o, "},\n\"reach\":{"); first = true; for (auto& kv : g_reach) { fprintf(o, "%s%s:%lu", first ? "" : ",", jsonStr(kv.first).c_str(), (unsigned long)kv.second); first = false; }
    std::set<string> fns; std::map<string, std::set<unsigned>> lines; string root = getenv("VFSE_ROOT") ? getenv("VFSE_ROOT") : "/repo/";
    for (auto* bb : g_bbs) for (auto& i : *bb) for (const DILocation* l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) {
        string file = l->getFilename().str(); if (file.empty()) continue; if (file[0] != '/') file = l->getDirectory().str() + "/" + file;
        if (file.compare(0, root.size(), root) != 0) continue;
        lines[file.substr(root.size())].insert(l->getLine());
        if (auto* sp = l->getScope()->getSubprogram()) { string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); fns.insert(n); } }
    fprintf(o, "},\n\"repo_functions\":["); first = true; for (auto& n : fns) { fprintf(o, "%s%s", first ? "" : ",", jsonStr(n).c_str()); first = false; }
    fprintf(o, "],\n\"repo_lines\":{"); first = true; for (auto& kv : lines) { fprintf(o, "%s%s:[", first ? "" : ",", jsonStr(kv.first).c_str()); bool f2 = true; for (auto n : kv.second) { fprintf(o, "%s%u", f2 ? "" : ",", n); f2 = false; } fprintf(o, "]"); first = false; }
    fprintf(o, "},\n\"functions\":["); first = true; for (auto& kv : g_fi) if (kv.second.calls) { string n = demangle(kv.first->getName().str()); fprintf(o, "%s%s", first ? "" : ",", jsonStr(n).c_str()); first = false; }
    fprintf(o, "],\n\"externals\":["); first = true; for (auto& n : g_externs) { fprintf(o, "%s%s", first ? "" : ",", jsonStr(demangle(n)).c_str()); first = false; }
    fprintf(o, "],\n\"traces\":["); first = true; for (auto& t : g_traces) { string ob = "["; for (size_t i = 0; i < t.obs.size(); ++i) ob += (i ? "," : "") + jsonStr(t.obs[i]); fprintf(o, "%s{\"in\":%s,\"obs\":%s]}", first ? "" : ",", ins(t.in).c_str(), ob.c_str()); first = false; }
    fprintf(o, "]");
    if (g_viol) fprintf(o, ",\n\"violation\":{\"kind\":%s,\"msg\":%s,\"where\":%s,\"in\":%s}", jsonStr(g_viol->kind).c_str(), jsonStr(g_viol->msg).c_str(), jsonStr(g_viol->where).c_str(), ins(g_viol->in).c_str());
    fprintf(o, "}\n"); if (o != stdout) fclose(o); else fflush(o);
    _Exit(status == "ok" ? 0 : status == "violation" ? 1 : 3);
}

// returns when the state has ended or waits for a merge
static void run(SP s)
{
    while (true) {
        if (s->steps > optMaxSteps) violation(*s, *s->model, "hang", "path longer than the instruction bound of " + std::to_string(optMaxSteps));
        if ((g_steps & 0xFFF) == 0 && elapsed() > optMaxTime) finish("inconclusive", "time budget exhausted at " + whereAmI(*s));
        Step r = step(*s);
        switch (r) {
        case Step::Next: ++s->st.back().pc; break;
        case Step::Stay: break;
        case Step::Dead: if (s->st.empty()) { pathDone(*s); if (g_paths > optMaxPaths) finish("inconclusive", "path bound exceeded"); } return;
        case Step::Wait: g_wait.push_back(std::move(s)); return;
        }
    }
}

static void* realMain(void*)
{
    g_t0 = std::chrono::steady_clock::now();
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(optFile, err, ctx); if (!mod) { err.print("vfse", errs()); _Exit(7); }
    M = mod.get(); DL = &M->getDataLayout(); Solver solver; S = &solver;
    if (auto* d = getenv("VFSE_DUMP")) S->dumpDir = d;
    if (auto* d = getenv("VFSE_QTIMEOUT")) S->timeoutMs = atoi(d);
    if (auto* d = getenv("VFSE_EXTMS")) S->externalMs = atoi(d);
    Function* entry = M->getFunction(optEntry); if (!entry || entry->isDeclaration()) finish("unsupported", "no entry function " + optEntry);
    SP s(new State); s->model = std::make_shared<Model>(); s->nextBase = SLOT;
    // globals: addresses first, then initialisers
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        uint64_t n = g.isDeclaration() ? 256 : DL->getTypeAllocSize(g.getValueType()).getFixedValue();
        auto& o = allocObj(*s, n, KGlobal); g_gaddr[&g] = o.base; if (!g.isDeclaration()) for (auto& b : o.d->b) b = mkC(8, 0);
    }
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.") || g.isDeclaration()) continue;
        auto& o = s->mem[g_gaddr[&g]]; initGlobal(o, 0, g.getInitializer());
        if (g.isConstant()) { o.ro = true; g_ro[o.base] = o; s->mem.erase(o.base); }
    }
    // static constructors run first, then the entry
    vector<Function*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        vector<std::pair<uint64_t, Function*>> v; for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op.get()); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f }); }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) ctors.push_back(p.second); }
    for (auto* f : ctors) {
        pushFrame(*s, f, {});
        while (!s->st.empty()) { Step r = step(*s); if (r == Step::Next) ++s->st.back().pc; else if (r == Step::Wait) finish("unsupported", "merge in constructor"); if (!g_work.empty()) finish("unsupported", "fork in static constructor"); }
    }
    if (entry->arg_size()) finish("unsupported", "entry takes arguments");
    pushFrame(*s, entry, {});
    g_work.push_back(std::move(s));
    while (true) {
        while (!g_work.empty()) { SP n = std::move(g_work.back()); g_work.pop_back(); run(std::move(n)); }
        if (g_wait.empty()) break;
        // merge the states that passed the smallest number of merge points
        unsigned mn = ~0u; for (auto& w : g_wait) mn = std::min(mn, w->merges);
        vector<vector<SP>> groups; vector<SP> rest;
        for (auto& w : g_wait) {
            if (w->merges != mn) { rest.push_back(std::move(w)); continue; }
            bool put = false; for (auto& g : groups) if (mergeable(*g[0], *w)) { g.push_back(std::move(w)); put = true; break; }
            if (!put) { groups.emplace_back(); groups.back().push_back(std::move(w)); }
        }
        g_wait = std::move(rest);
        if (optVerbose) { size_t n = 0; for (auto& g : groups) n += g.size(); fprintf(stderr, "merge %u: %zu states -> %zu  (%.1fs, %lu queries)\n", mn, n, groups.size(), elapsed(), (unsigned long)g_ss.queries); }
        for (auto& g : groups) g_work.push_back(mergeStates(g));
    }
    if (g_paths == 0) finish("vacuous", "no path reaches the end of the harness");
    finish("ok", "");
    return nullptr;
}

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--part") optPart = atoi(nx().c_str()); else if (a == "--nparts") optNParts = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--max-steps") optMaxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-time") optMaxTime = atof(nx().c_str()); else if (a == "--traces") optTraces = atoi(nx().c_str()); else if (a == "--seed") optSeed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--param") { auto p = nx(); auto q = p.find('='); optParams[p.substr(0, q)] = strtoull(p.substr(q + 1).c_str(), 0, 0); }
        else if (a == "-v") optVerbose++; else optFile = a;
    }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, size_t(4) << 30); pthread_t th;
    if (pthread_create(&th, &at, realMain, nullptr)) { pthread_attr_setstacksize(&at, size_t(512) << 20); if (pthread_create(&th, &at, realMain, nullptr)) return 8; }
    pthread_join(th, nullptr);
    return 9;
}
