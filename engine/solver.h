#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, quick = 0, external = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;

enum class Res { Sat, Unsat, Unknown };

struct Solver {
    Z3_context c;
    unsigned timeoutMs = 300000, externalMs = 2000;
    std::string dumpDir;
    bool asIntegers(const std::vector<E>& cs, Model* out, Res& res); // exact translation to linear integer arithmetic
    std::unordered_map<E, Z3_ast> memoB; // width > 1: bit-vector, width 1: Bool
    std::unordered_map<E, Z3_ast> memoF; // floating point view
    std::unordered_map<uint32_t, Z3_ast> varAst;
    Solver();
    Z3_ast bv(E e);   // as bit-vector
    Z3_ast b(E e);    // as Bool (width 1)
    Z3_ast raw(E e);  // Bool if width 1, else bit-vector
    Z3_ast fp(E e);   // floating point
    // satisfiability of the conjunction; fills values of the variables involved
    Res check(const std::vector<E>& cs, Model* out);
};
