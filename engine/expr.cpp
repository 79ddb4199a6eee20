#include "expr.h"
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/Hashing.h>
using llvm::APSInt;

std::vector<VarInfo> g_vars;
static std::deque<Expr> g_pool;

struct KeyHash { size_t operator()(const Expr* e) const {
    size_t h = size_t(e->op) * 0x9E3779B97F4A7C15ull + e->width * 1315423911u + e->aux * 2654435761u;
    if (e->op == Op::Const) h ^= size_t(llvm::hash_value(e->val));
    for (auto* c : e->k) h = h * 0x100000001B3ull ^ (c->id * 0x9E3779B97F4A7C15ull >> 7);
    return h; } };
struct KeyEq { bool operator()(const Expr* a, const Expr* b) const {
    if (a->op != b->op || a->width != b->width || a->aux != b->aux || a->k != b->k) return false;
    if (a->op == Op::Const) return a->val == b->val;
    return true; } };
static std::unordered_set<const Expr*, KeyHash, KeyEq> g_tab;
static const std::vector<uint32_t> g_novars;
static std::unordered_map<std::string, E> g_varByName;

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
static std::unordered_set<std::vector<uint32_t>, VecHash> g_varsets;
static const std::vector<uint32_t>* internSet(std::vector<uint32_t> v) { return &*g_varsets.insert(std::move(v)).first; }

size_t exprCount() { return g_pool.size(); }

unsigned trailingZeros(E e) { return e->tz; }
unsigned leadingZeros(E e) { return e->lz; }
static unsigned computeTZ(E e)
{
    switch (e->op) {
    case Op::Const: return e->val.countr_zero();
    case Op::Concat: { unsigned n = trailingZeros(e->k[1]); return n == e->k[1]->width ? n + trailingZeros(e->k[0]) : n; }
    case Op::Add: case Op::Sub: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case Op::Mul: return std::min(e->width, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case Op::Ite: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    case Op::SExt: { unsigned n = trailingZeros(e->k[0]); return n == e->k[0]->width ? e->width : n; }
    default: return 0;
    }
}
static unsigned computeLZ(E e)
{
    switch (e->op) {
    case Op::Const: return e->val.countl_zero();
    case Op::Concat: { unsigned n = leadingZeros(e->k[0]); return n == e->k[0]->width ? n + leadingZeros(e->k[1]) : n; }
    case Op::Ite: return std::min(leadingZeros(e->k[1]), leadingZeros(e->k[2]));
    case Op::And: return std::max(leadingZeros(e->k[0]), leadingZeros(e->k[1]));
    case Op::Or: case Op::Xor: return std::min(leadingZeros(e->k[0]), leadingZeros(e->k[1]));
    case Op::UDiv: return leadingZeros(e->k[0]);
    case Op::URem: return std::max(leadingZeros(e->k[0]), leadingZeros(e->k[1]));
    case Op::LShr: return leadingZeros(e->k[0]);
    case Op::Add: { unsigned n = std::min(leadingZeros(e->k[0]), leadingZeros(e->k[1])); return n ? n - 1 : 0; }
    case Op::Mul: { unsigned n = leadingZeros(e->k[0]) + leadingZeros(e->k[1]); return n > e->width ? n - e->width : 0; }
    default: return 0;
    }
}

static E intern(Expr&& t)
{
    auto it = g_tab.find(&t);
    if (it != g_tab.end()) return *it;
    t.id = uint32_t(g_pool.size() + 1);
    t.tz = computeTZ(&t); t.lz = computeLZ(&t);
    if (t.op == Op::Const) t.vars = &g_novars;
    else if (t.op == Op::Var) { t.vars = internSet({ t.aux }); }
    else {
        const std::vector<uint32_t>* s = &g_novars;
        bool same = true;
        for (auto* c : t.k) {
            t.hasFP |= c->hasFP; t.hasArr |= c->hasArr;
            if (c->vars->empty() || c->vars == s) continue;
            if (s->empty()) { s = c->vars; continue; }
            same = false;
        }
        if (t.op >= Op::FAdd) t.hasFP = true;
        if (t.op == Op::Read) { t.hasArr = true; same = false; }
        if (!same) {
            std::vector<uint32_t> u;
            for (auto* c : t.k) { std::vector<uint32_t> n; n.reserve(u.size() + c->vars->size());
                std::set_union(u.begin(), u.end(), c->vars->begin(), c->vars->end(), std::back_inserter(n)); u.swap(n); }
            if (t.op == Op::Read) { auto p = std::lower_bound(u.begin(), u.end(), t.aux); if (p == u.end() || *p != t.aux) u.insert(p, t.aux); }
            s = internSet(std::move(u));
        }
        t.vars = s;
    }
    g_pool.push_back(std::move(t));
    E e = &g_pool.back();
    g_tab.insert(e);
    return e;
}
static E node(Op op, unsigned w, unsigned aux, std::vector<E> k) { Expr t; t.op = op; t.width = w; t.aux = aux; t.k = std::move(k); return intern(std::move(t)); }

E mkConst(const APInt& v) { Expr t; t.op = Op::Const; t.width = v.getBitWidth(); t.val = v; return intern(std::move(t)); }
E mkVar(const std::string& name, unsigned w, bool isInput)
{
    auto key = name + ":" + std::to_string(w);
    auto it = g_varByName.find(key);
    if (it != g_varByName.end()) return it->second;
    g_vars.push_back({ name, w, false, isInput });
    E e = node(Op::Var, w, unsigned(g_vars.size() - 1), {});
    g_varByName[key] = e;
    return e;
}
uint32_t mkArrayVar(const std::string& name)
{
    for (size_t i = 0; i < g_vars.size(); ++i) if (g_vars[i].isArray && g_vars[i].name == name) return uint32_t(i);
    g_vars.push_back({ name, 8, true, true }); return uint32_t(g_vars.size() - 1);
}
E mkRead(uint32_t arr, E idx) { return node(Op::Read, 8, arr, { idx }); }

// ---- floating point folding
static const llvm::fltSemantics& sem(unsigned w) { if (w == 32) return APFloat::IEEEsingle(); if (w == 64) return APFloat::IEEEdouble(); if (w == 80) return APFloat::x87DoubleExtended(); return APFloat::IEEEhalf(); }
static APInt foldFP(Op op, unsigned w, unsigned aux, const std::vector<const APInt*>& k)
{
    auto F = [&](int i) { return APFloat(sem(k[i]->getBitWidth()), *k[i]); };
    const auto RNE = APFloat::rmNearestTiesToEven;
    switch (op) {
    case Op::FAdd: { auto a = F(0); a.add(F(1), RNE); return a.bitcastToAPInt(); }
    case Op::FSub: { auto a = F(0); a.subtract(F(1), RNE); return a.bitcastToAPInt(); }
    case Op::FMul: { auto a = F(0); a.multiply(F(1), RNE); return a.bitcastToAPInt(); }
    case Op::FDiv: { auto a = F(0); a.divide(F(1), RNE); return a.bitcastToAPInt(); }
    case Op::FEq: return APInt(1, F(0).compare(F(1)) == APFloat::cmpEqual);
    case Op::FLt: return APInt(1, F(0).compare(F(1)) == APFloat::cmpLessThan);
    case Op::FLe: { auto c = F(0).compare(F(1)); return APInt(1, c == APFloat::cmpLessThan || c == APFloat::cmpEqual); }
    case Op::FIsNaN: return APInt(1, F(0).isNaN());
    case Op::FToUI: { llvm::APSInt r(w, true); bool ex; F(0).convertToInteger(r, APFloat::rmTowardZero, &ex); return r; }
    case Op::FToSI: { llvm::APSInt r(w, false); bool ex; F(0).convertToInteger(r, APFloat::rmTowardZero, &ex); return r; }
    case Op::UIToF: { APFloat r(sem(w)); r.convertFromAPInt(*k[0], false, RNE); return r.bitcastToAPInt(); }
    case Op::SIToF: { APFloat r(sem(w)); r.convertFromAPInt(*k[0], true, RNE); return r.bitcastToAPInt(); }
    case Op::FCast: { auto a = F(0); bool li; a.convert(sem(w), RNE, &li); return a.bitcastToAPInt(); }
    case Op::FRound: { auto a = F(0); a.roundToIntegral(llvm::RoundingMode(aux)); return a.bitcastToAPInt(); }
    default: break;
    }
    assert(0); return APInt(w, 0);
}
E mkFP(Op op, unsigned w, unsigned aux, std::vector<E> k)
{
    bool c = true; for (auto* x : k) c &= x->isConst();
    if (c) { std::vector<const APInt*> v; for (auto* x : k) v.push_back(&x->val); return mkConst(foldFP(op, w, aux, v)); }
    if ((op == Op::FAdd || op == Op::FMul || op == Op::FEq) && k[0]->id > k[1]->id) std::swap(k[0], k[1]); // commutative
    if (op == Op::UIToF || op == Op::SIToF) { // drop known leading zeros
        unsigned l = leadingZeros(k[0]), n = k[0]->width;
        if (l > 0 && l < n) { unsigned keep = std::max(n - l, 1u); if (op == Op::SIToF) op = Op::UIToF; if (keep < n) k[0] = mkExtract(k[0], 0, keep); }
    }
    return node(op, w, aux, std::move(k));
}

static APInt foldBin(Op op, const APInt& a, const APInt& b)
{
    unsigned w = a.getBitWidth();
    auto B = [](bool x) { return APInt(1, x); };
    switch (op) {
    case Op::Add: return a + b;
    case Op::Sub: return a - b;
    case Op::Mul: return a * b;
    case Op::UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case Op::URem: return b.isZero() ? a : a.urem(b);
    case Op::SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case Op::SRem: return b.isZero() ? a : a.srem(b);
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
    case Op::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case Op::AShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
    case Op::Eq: return B(a == b);
    case Op::Ult: return B(a.ult(b));
    case Op::Ule: return B(a.ule(b));
    case Op::Slt: return B(a.slt(b));
    case Op::Sle: return B(a.sle(b));
    default: break;
    }
    assert(0); return a;
}

E mkNot(E a)
{
    if (a->isConst()) return mkConst(~a->val);
    if (a->op == Op::Not) return a->k[0];
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
    if (a->op == Op::Concat) return mkConcat(mkNot(a->k[0]), mkNot(a->k[1]));
    return node(Op::Not, a->width, 0, { a });
}

static bool bothConst(E e) { return e->op == Op::Ite && e->k[1]->isConst() && e->k[2]->isConst(); }

// ---- bit segments of and/or/xor operands
static void breaks(E e, unsigned off, std::vector<unsigned>& out)
{
    if (e->op == Op::Concat) { breaks(e->k[1], off, out); out.push_back(off + e->k[1]->width); breaks(e->k[0], off + e->k[1]->width, out); }
    else if (e->op == Op::Const && e->width <= 128) { for (unsigned i = 1; i < e->width; ++i) if (e->val[i] != e->val[i - 1]) out.push_back(off + i); }
}
static E mkBitwise(Op op, E a, E b)
{
    unsigned w = a->width;
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (op == Op::And) { if (b->isZero()) return b; if (b->isOnes()) return a; }
        if (op == Op::Or) { if (b->isZero()) return a; if (b->isOnes()) return b; }
        if (op == Op::Xor) { if (b->isZero()) return a; if (b->isOnes()) return mkNot(a); }
    }
    if (a == b) return op == Op::Xor ? mkC(w, 0) : a;
    if (w == 1) {
        if (op == Op::And) { if (a == mkNot(b)) return mkBool(false);
            // absorption with nested conjunctions
            if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b; }
        if (op == Op::Or) { if (a == mkNot(b)) return mkBool(true);
            if (a->op == Op::Or && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == Op::Or && (b->k[0] == a || b->k[1] == a)) return b; }
        if (op == Op::Xor && b->op == Op::Not) return mkNot(mkBin(Op::Xor, a, b->k[0]));
        if (op == Op::Xor && a->op == Op::Not) return mkNot(mkBin(Op::Xor, a->k[0], b));
    } else if (a->op == Op::Concat || b->op == Op::Concat || b->op == Op::Const) {
        std::vector<unsigned> br{ 0, w };
        breaks(a, 0, br); breaks(b, 0, br);
        std::sort(br.begin(), br.end()); br.erase(std::unique(br.begin(), br.end()), br.end());
        bool useful = br.size() > 2;
        if (useful) {
            std::vector<E> parts; // low to high
            bool anyResolved = false;
            std::vector<std::pair<E, E>> segs;
            for (size_t i = 0; i + 1 < br.size(); ++i) {
                E x = mkExtract(a, br[i], br[i + 1] - br[i]), y = mkExtract(b, br[i], br[i + 1] - br[i]);
                segs.push_back({ x, y });
                if (x->isConst() || y->isConst()) anyResolved = true;
            }
            if (anyResolved) {
                E r = nullptr;
                for (auto& s : segs) { E v = mkBitwise(op, s.first, s.second); r = r ? mkConcat(v, r) : v; }
                return r;
            }
        }
    }
    if (bothConst(a) && b->isConst()) return mkIte(a->k[0], mkBitwise(op, a->k[1], b), mkBitwise(op, a->k[2], b));
    if (a->id > b->id) std::swap(a, b);
    return node(op, w, 0, { a, b });
}

E mkBin(Op op, E a, E b)
{
    assert(a->width == b->width);
    unsigned w = a->width;
    if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->val, b->val));
    switch (op) {
    case Op::And: case Op::Or: case Op::Xor: return mkBitwise(op, a, b);
    case Op::Add:
        if (w == 1) return mkBitwise(Op::Xor, a, b);
        if (a->isConst()) std::swap(a, b);
        if (b->isZero()) return a;
        if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkAdd(a->k[0], mkConst(a->k[1]->val + b->val));
        if (b->isConst() && bothConst(a)) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
        if (!b->isConst()) {
            if (a->op == Op::Add && a->k[1]->isConst()) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
            if (b->op == Op::Add && b->k[1]->isConst()) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
            if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
            if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
            if (a->id > b->id) std::swap(a, b);
        } else if (b->isConst()) {
            // (hi:lo) + c with low part zero / no carry: lo const zero
            if (a->op == Op::Concat && a->k[1]->isZero() && b->val.extractBits(a->k[1]->width, 0) == b->val.trunc(a->k[1]->width)) {
                unsigned lw = a->k[1]->width;
                return mkConcat(mkAdd(a->k[0], mkConst(b->val.extractBits(w - lw, lw))), mkConst(b->val.trunc(lw)));
            }
        }
        break;
    case Op::Sub:
        if (w == 1) return mkBitwise(Op::Xor, a, b);
        if (a == b) return mkC(w, 0);
        if (b->isConst()) return mkAdd(a, mkConst(-b->val));
        {
            E ab = a, bb = b; APInt ac(w, 0), bc(w, 0);
            if (a->op == Op::Add && a->k[1]->isConst()) { ab = a->k[0]; ac = a->k[1]->val; }
            if (b->op == Op::Add && b->k[1]->isConst()) { bb = b->k[0]; bc = b->k[1]->val; }
            if (ab == bb) return mkConst(ac - bc);
            if (ab->op == Op::Add && ab->k[0] == bb) return mkAdd(ab->k[1], mkConst(ac - bc));
            if (ab->op == Op::Add && ab->k[1] == bb) return mkAdd(ab->k[0], mkConst(ac - bc));
            if ((ac != 0 || bc != 0) ) {
                E base = mkSub(ab, bb); return mkAdd(base, mkConst(ac - bc));
            }
            if (bothConst(a) && bothConst(b) && a->k[0] == b->k[0]) return mkIte(a->k[0], mkSub(a->k[1], b->k[1]), mkSub(a->k[2], b->k[2]));
            if (bothConst(b) && a->isConst()) return mkIte(b->k[0], mkSub(a, b->k[1]), mkSub(a, b->k[2]));
        }
        break;
    case Op::Mul:
        if (a->isConst()) std::swap(a, b);
        if (b->isZero()) return b;
        if (b->isConst() && b->val == 1) return a;
        if (b->isConst() && b->val.isPowerOf2()) return mkBin(Op::Shl, a, mkC(w, b->val.logBase2()));
        if (b->isConst() && bothConst(a)) return mkIte(a->k[0], mkBin(Op::Mul, a->k[1], b), mkBin(Op::Mul, a->k[2], b));
        if (a->id > b->id && !b->isConst()) std::swap(a, b);
        break;
    case Op::UDiv:
        if (b->isConst() && b->val.isPowerOf2()) return mkBin(Op::LShr, a, mkC(w, b->val.logBase2()));
        break;
    case Op::URem:
        if (b->isConst() && b->val.isPowerOf2()) { unsigned n = b->val.logBase2(); return n ? mkZExt(mkExtract(a, 0, n), w) : mkC(w, 0); }
        break;
    case Op::Shl:
        if (b->isConst()) {
            if (b->val.uge(w)) return mkC(w, 0);
            unsigned n = unsigned(b->u64());
            if (!n) return a;
            return mkConcat(mkExtract(a, 0, w - n), mkC(n, 0));
        }
        if (a->isZero()) return a;
        break;
    case Op::LShr:
        if (b->isConst()) {
            if (b->val.uge(w)) return mkC(w, 0);
            unsigned n = unsigned(b->u64());
            if (!n) return a;
            return mkConcat(mkC(n, 0), mkExtract(a, n, w - n));
        }
        if (a->isZero()) return a;
        break;
    case Op::AShr:
        if (b->isConst()) {
            unsigned n = b->val.uge(w) ? w - 1 : unsigned(b->u64());
            if (!n) return a;
            return mkSExt(mkExtract(a, n, w - n), w);
        }
        break;
    case Op::Eq:
        if (a == b) return mkBool(true);
        if (a->isConst()) std::swap(a, b);
        if (w == 1) {
            if (b->isTrue()) return a;
            if (b->isFalse()) return mkNot(a);
            if (a == mkNot(b)) return mkBool(false);
        }
        if (b->isConst()) {
            if (a->op == Op::Concat) {
                unsigned lw = a->k[1]->width;
                return mkAnd(mkEq(a->k[0], mkConst(b->val.extractBits(w - lw, lw))), mkEq(a->k[1], mkConst(b->val.trunc(lw))));
            }
            if (a->op == Op::Ite) {
                E x = a->k[1], y = a->k[2];
                if (x->isConst() || y->isConst()) {
                    E c = a->k[0];
                    if (x->isConst() && y->isConst()) {
                        bool p = x->val == b->val, q = y->val == b->val;
                        return p ? (q ? mkBool(true) : c) : (q ? mkNot(c) : mkBool(false));
                    }
                    if (x->isConst()) return x->val == b->val ? mkOr(c, mkEq(y, b)) : mkAnd(mkNot(c), mkEq(y, b));
                    return y->val == b->val ? mkOr(mkNot(c), mkEq(x, b)) : mkAnd(c, mkEq(x, b));
                }
            }
            if (a->op == Op::Add && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->val - a->k[1]->val));
            if (a->op == Op::Not) return mkEq(a->k[0], mkConst(~b->val));
            if (a->op == Op::SExt) {
                unsigned n = a->k[0]->width; APInt lo = b->val.trunc(n);
                if (lo.sext(w) != b->val) return mkBool(false);
                return mkEq(a->k[0], mkConst(lo));
            }
            if (a->op == Op::Sub && b->isZero()) return mkEq(a->k[0], a->k[1]);
            if (a->op == Op::Xor && b->isZero()) return mkEq(a->k[0], a->k[1]);
        } else {
            if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width)
                return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
            if (a->op == Op::Concat && b->op == Op::Concat) {
                // split at the lower break
                unsigned n = std::min(a->k[1]->width, b->k[1]->width);
                return mkAnd(mkEq(mkExtract(a, n, w - n), mkExtract(b, n, w - n)), mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n)));
            }
            if (a->op == Op::Concat && a->k[0]->isConst()) {
                unsigned n = a->k[1]->width;
                return mkAnd(mkEq(mkExtract(b, n, w - n), a->k[0]), mkEq(a->k[1], mkExtract(b, 0, n)));
            }
            if (b->op == Op::Concat && b->k[0]->isConst()) return mkEq(b, a);
            if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
            if (a->op == Op::Add && (a->k[0] == b)) return mkEq(a->k[1], mkC(w, 0));
            if (b->op == Op::Add && (b->k[0] == a)) return mkEq(b->k[1], mkC(w, 0));
        }
        if (!b->isConst() && a->id > b->id) std::swap(a, b);
        break;
    case Op::Ult: case Op::Ule: {
        if (a == b) return mkBool(op == Op::Ule);
        if (w == 1) { // a < b : !a & b ; a <= b : !a | b
            return op == Op::Ult ? mkAnd(mkNot(a), b) : mkOr(mkNot(a), b);
        }
        if (op == Op::Ult && b->isZero()) return mkBool(false);
        if (op == Op::Ult && b->isConst() && b->val == 1) return mkEq(a, mkC(w, 0));
        if (op == Op::Ult && a->isZero()) return mkNot(mkEq(b, a));
        if (op == Op::Ult && a->isOnes()) return mkBool(false);
        if (op == Op::Ule && a->isZero()) return mkBool(true);
        if (op == Op::Ule && b->isOnes()) return mkBool(true);
        if (op == Op::Ule && b->isZero()) return mkEq(a, b);
        if (bothConst(a) && b->isConst()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        if (bothConst(b) && a->isConst()) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
        unsigned la = leadingZeros(a), lb = leadingZeros(b), l = std::min(la, lb);
        if (b->isConst() && la > lb) return mkBool(true);   // a < 2^(w-la) <= b
        if (a->isConst() && lb > la) return mkBool(false);
        if (l > 0 && l < w) return mkBin(op, mkExtract(a, 0, w - l), mkExtract(b, 0, w - l));
        // canonical form: constants in Ule become Ult
        if (op == Op::Ule && b->isConst()) return mkBin(Op::Ult, a, mkConst(b->val + 1));
        break;
    }
    case Op::Slt: case Op::Sle:
        if (a == b) return mkBool(op == Op::Sle);
        if (w == 1) return op == Op::Slt ? mkAnd(a, mkNot(b)) : mkOr(a, mkNot(b));
        if (leadingZeros(a) && leadingZeros(b)) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
        if (op == Op::Slt && b->isZero()) return mkExtract(a, w - 1, 1);
        if (op == Op::Sle && a->isZero()) return mkNot(mkExtract(b, w - 1, 1));
        if (op == Op::Slt && a->isOnes()) return mkNot(mkExtract(b, w - 1, 1));
        if (op == Op::Sle && b->isOnes()) return mkExtract(a, w - 1, 1);
        if (bothConst(a) && b->isConst()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        break;
    default: break;
    }
    return node(op, op >= Op::Eq && op <= Op::Sle ? 1 : w, 0, { a, b });
}

E mkIte(E c, E a, E b)
{
    if (c->isConst()) return c->isTrue() ? a : b;
    if (a == b) return a;
    if (c->op == Op::Not) return mkIte(c->k[0], b, a);
    if (a->width == 1) {
        if (a->isTrue() && b->isFalse()) return c;
        if (a->isFalse() && b->isTrue()) return mkNot(c);
        if (a->isTrue()) return mkOr(c, b);
        if (a->isFalse()) return mkAnd(mkNot(c), b);
        if (b->isTrue()) return mkOr(mkNot(c), a);
        if (b->isFalse()) return mkAnd(c, a);
    }
    if (a->op == Op::Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
    if (b->op == Op::Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
    if (b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width && (a->k[0] == b->k[0] || a->k[1] == b->k[1]))
        return mkConcat(mkIte(c, a->k[0], b->k[0]), mkIte(c, a->k[1], b->k[1]));
    // common leading zeros
    if (a->width > 1) {
        unsigned l = std::min(leadingZeros(a), leadingZeros(b));
        if (l > 0 && l < a->width && !(a->isConst() && b->isConst()))
            return mkConcat(mkC(l, 0), mkIte(c, mkExtract(a, 0, a->width - l), mkExtract(b, 0, a->width - l)));
    }
    return node(Op::Ite, a->width, 0, { c, a, b });
}

struct ExKey { E e; unsigned lo, w; bool operator==(const ExKey& o) const { return e == o.e && lo == o.lo && w == o.w; } };
struct ExHash { size_t operator()(const ExKey& k) const { return size_t(k.e->id) * 0x9E3779B97F4A7C15ull ^ (k.lo * 131071u + k.w); } };
static std::unordered_map<ExKey, E, ExHash> g_exMemo;
static E mkExtract1(E a, unsigned lo, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w)
{
    assert(w > 0 && lo + w <= a->width);
    if (w == a->width) return a;
    if (a->op == Op::Const) return mkConst(a->val.extractBits(w, lo));
    if (a->op == Op::Extract) return mkExtract(a->k[0], a->aux + lo, w);
    auto it = g_exMemo.find({ a, lo, w });
    if (it != g_exMemo.end()) return it->second;
    E r = mkExtract1(a, lo, w);
    g_exMemo[{ a, lo, w }] = r;
    return r;
}
static E mkExtract1(E a, unsigned lo, unsigned w)
{
    switch (a->op) {
    case Op::Const: return mkConst(a->val.extractBits(w, lo));
    case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
    case Op::Concat: {
        unsigned lw = a->k[1]->width;
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::SExt: {
        unsigned n = a->k[0]->width;
        if (lo + w <= n) return mkExtract(a->k[0], lo, w);
        if (lo >= n - 1) return mkSExt(mkExtract(a->k[0], n - 1, 1), w);
        return mkSExt(mkExtract(a->k[0], lo, n - lo), w);
    }
    case Op::Ite:
        if (a->k[1]->isConst() || a->k[2]->isConst() || a->k[1]->op == Op::Concat || a->k[2]->op == Op::Concat)
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case Op::Not: return mkNot(mkExtract(a->k[0], lo, w));
    case Op::And: case Op::Or: case Op::Xor:
        return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
        if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    default: break;
    }
    return node(Op::Extract, w, lo, { a });
}

static bool iteConstTree(E e, int depth = 0) { return e->isConst() || (depth < 64 && e->op == Op::Ite && e->k[1]->isConst() && iteConstTree(e->k[2], depth + 1)); }

E mkConcat(E hi, E lo)
{
    unsigned w = hi->width + lo->width;
    if (hi->isConst() && lo->isConst()) return mkConst(hi->val.concat(lo->val));
    // right-normalise: Concat(Concat(a,b),c) -> Concat(a,Concat(b,c))
    if (hi->op == Op::Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
        return mkExtract(hi->k[0], lo->aux, w);
    // the low piece may have been simplified when it was extracted
    if (hi->op == Op::Extract && (hi->k[0]->op == Op::Add || hi->k[0]->op == Op::Sub || hi->k[0]->op == Op::Mul)) {
        E m = lo->op == Op::Concat ? lo->k[0] : lo;
        if (m->width <= hi->aux && mkExtract(hi->k[0], hi->aux - m->width, m->width) == m) {
            E j = mkExtract(hi->k[0], hi->aux - m->width, hi->width + m->width);
            return m == lo ? j : mkConcat(j, lo->k[1]);
        }
    }
    if (lo->op == Op::Concat) {
        E m = lo->k[0];
        if (hi->isConst() && m->isConst()) return mkConcat(mkConst(hi->val.concat(m->val)), lo->k[1]);
        if (hi->op == Op::Extract && m->op == Op::Extract && hi->k[0] == m->k[0] && hi->aux == m->aux + m->width)
            return mkConcat(mkExtract(hi->k[0], m->aux, hi->width + m->width), lo->k[1]);
        if (hi->op == Op::Ite && m->op == Op::Ite && hi->k[0] == m->k[0] && iteConstTree(hi) && iteConstTree(m))
            return mkConcat(mkConcat(hi, m), lo->k[1]);
    }
    // pieces of the same if-then-else
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0] && iteConstTree(hi) && iteConstTree(lo))
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return node(Op::Concat, w, 0, { hi, lo });
}
E mkConcatN(const std::vector<E>& v) { E r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = mkConcat(v[i], r); return r; }
E mkZExt(E a, unsigned w) { return w == a->width ? a : mkConcat(mkC(w - a->width, 0), a); }
E mkSExt(E a, unsigned w)
{
    if (w == a->width) return a;
    if (a->isConst()) return mkConst(a->val.sext(w));
    if (a->op == Op::SExt) return mkSExt(a->k[0], w);
    if (a->width > 1 && leadingZeros(a) > 0) return mkZExt(a, w);
    if (bothConst(a)) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return node(Op::SExt, w, 0, { a });
}

APInt evalExpr(E root, const Model& m, std::unordered_map<E, APInt>& memo)
{
    // iterative post-order evaluation
    std::vector<std::pair<E, unsigned>> st;
    auto known = [&](E e) -> bool { return e->isConst() || memo.count(e); };
    auto get = [&](E e) -> const APInt& { return e->isConst() ? e->val : memo.at(e); };
    if (!known(root)) st.push_back({ root, 0 });
    while (!st.empty()) {
        auto& [e, i] = st.back();
        if (memo.count(e)) { st.pop_back(); continue; }
        if (e->op == Op::Ite) {
            if (!known(e->k[0])) { E c = e->k[0]; st.push_back({ c, 0 }); continue; }
            E t = get(e->k[0]).isZero() ? e->k[2] : e->k[1];
            if (!known(t)) { st.push_back({ t, 0 }); continue; }
            APInt r = get(t); E ee = e; st.pop_back(); memo.emplace(ee, std::move(r)); continue;
        }
        bool pushed = false;
        while (i < e->k.size()) { E c = e->k[i++]; if (!known(c)) { st.push_back({ c, 0 }); pushed = true; break; } }
        if (pushed) continue;
        E x = e; st.pop_back();
        APInt r(x->width, 0);
        switch (x->op) {
        case Op::Var: { auto it = m.v.find(x->aux); if (it != m.v.end()) r = it->second; break; }
        case Op::Read: { auto it = m.arr.find(x->aux); if (it != m.arr.end()) { auto j = it->second.find(get(x->k[0]).getZExtValue()); if (j != it->second.end()) r = APInt(8, j->second); } break; }
        case Op::Not: r = ~get(x->k[0]); break;
        case Op::SExt: r = get(x->k[0]).sext(x->width); break;
        case Op::Concat: r = get(x->k[0]).concat(get(x->k[1])); break;
        case Op::Extract: r = get(x->k[0]).extractBits(x->width, x->aux); break;
        default:
            if (x->op >= Op::FAdd) { std::vector<const APInt*> v; for (auto* c : x->k) v.push_back(&get(c)); r = foldFP(x->op, x->width, x->aux, v); }
            else r = foldBin(x->op, get(x->k[0]), get(x->k[1]));
        }
        memo.emplace(x, std::move(r));
    }
    return get(root);
}

std::string exprStr(E e, int depth)
{
    static const char* n[] = { "c", "v", "rd", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "not", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "sext", "cat", "ext", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "fnan", "ftoui", "ftosi", "uitof", "sitof", "fcast", "fround" };
    if (e->isConst()) { llvm::SmallString<40> s; e->val.toStringUnsigned(s, 16); return "0x" + std::string(s.begin(), s.end()) + ":" + std::to_string(e->width); }
    if (e->op == Op::Var) return g_vars[e->aux].name;
    if (depth == 0) return "..";
    std::string r = std::string("(") + n[int(e->op)];
    if (e->op == Op::Extract) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
    for (auto* c : e->k) r += " " + exprStr(c, depth - 1);
    return r + ")";
}
