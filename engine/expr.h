// Hash-consed bit-vector expressions with on-the-fly simplification.
// Width-1 expressions are booleans.  ZExt is represented as Concat(0, x).
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>
#include <algorithm>
#include <cassert>

using llvm::APInt;
using llvm::APFloat;

enum class Op : uint8_t {
    Const, Var, Read, // Read: array variable id in aux, kid0 = 64 bit index, width 8
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Not, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, SExt, Concat, Extract, // Extract: low bit in aux
    // floating point: operands and results are IEEE bit patterns (width 32 or 64)
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FIsNaN, FToUI, FToSI, UIToF, SIToF, FCast, FRound // FRound: rounding mode in aux
};

struct Expr {
    Op       op;
    unsigned width;
    unsigned aux = 0;
    uint32_t id  = 0;
    APInt    val;
    std::vector<const Expr*> k;
    bool     hasFP = false, hasArr = false;
    uint16_t tz = 0, lz = 0; // known zero bits at the low / high end
    const std::vector<uint32_t>* vars = nullptr; // sorted var ids
    bool isConst() const { return op == Op::Const; }
    bool isZero() const { return isConst() && val.isZero(); }
    bool isOnes() const { return isConst() && val.isAllOnes(); }
    bool isTrue() const { return width == 1 && isConst() && val == 1; }
    bool isFalse() const { return width == 1 && isConst() && val == 0; }
    uint64_t u64() const { return val.getZExtValue(); }
};
using E = const Expr*;

struct VarInfo { std::string name; unsigned width; bool isArray; bool isInput; };

extern std::vector<VarInfo> g_vars;

E mkConst(const APInt& v);
inline E mkC(unsigned w, uint64_t v) { return mkConst(APInt(w, v)); }
inline E mkBool(bool b) { return mkC(1, b); }
E mkVar(const std::string& name, unsigned w, bool isInput);
uint32_t mkArrayVar(const std::string& name);
E mkRead(uint32_t arr, E idx);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkConcatN(const std::vector<E>& hiToLo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFP(Op op, unsigned w, unsigned aux, std::vector<E> k);
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
inline E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }
inline E mkAdd(E a, E b) { return mkBin(Op::Add, a, b); }
inline E mkSub(E a, E b) { return mkBin(Op::Sub, a, b); }
unsigned trailingZeros(E e);
unsigned leadingZeros(E e);

struct Model {
    std::unordered_map<uint32_t, APInt> v;                                     // scalar variables (absent = 0)
    std::unordered_map<uint32_t, std::unordered_map<uint64_t, uint8_t>> arr;   // arrays (absent = 0)
};
APInt evalExpr(E e, const Model& m, std::unordered_map<E, APInt>& memo);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
