#include "solver.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <algorithm>

SolverStats g_ss;
static Z3_error_code g_err = Z3_OK;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); fflush(stderr); _Exit(4); }

Solver::Solver()
{
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context(cfg); // manual ref counting is off: asts live as long as the context
    Z3_set_error_handler(c, onErr);
    Z3_del_config(cfg);
}
static Z3_ast num(Z3_context c, const APInt& v)
{
    llvm::SmallVector<char, 64> s; v.toStringUnsigned(s, 10); s.push_back(0);
    return Z3_mk_numeral(c, s.data(), Z3_mk_bv_sort(c, v.getBitWidth()));
}
static Z3_sort fsort(Z3_context c, unsigned w)
{
    if (w == 32) return Z3_mk_fpa_sort_32(c);
    if (w == 64) return Z3_mk_fpa_sort_64(c);
    fprintf(stderr, "unsupported float width %u\n", w); _Exit(5);
}
Z3_ast Solver::b(E e) { return raw(e); }
Z3_ast Solver::bv(E e)
{
    if (e->width > 1) return raw(e);
    return Z3_mk_ite(c, raw(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)));
}
Z3_ast Solver::fp(E e)
{
    auto it = memoF.find(e);
    if (it != memoF.end()) return it->second;
    Z3_ast r; auto rne = Z3_mk_fpa_rne(c);
    switch (e->op) {
    case Op::FAdd: r = Z3_mk_fpa_add(c, rne, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FSub: r = Z3_mk_fpa_sub(c, rne, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FMul: r = Z3_mk_fpa_mul(c, rne, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FDiv: r = Z3_mk_fpa_div(c, rne, fp(e->k[0]), fp(e->k[1])); break;
    case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(c, rne, bv(e->k[0]), fsort(c, e->width)); break;
    case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(c, rne, bv(e->k[0]), fsort(c, e->width)); break;
    case Op::FCast: r = Z3_mk_fpa_to_fp_float(c, rne, fp(e->k[0]), fsort(c, e->width)); break;
    case Op::FRound: {
        Z3_ast rm = rne;
        switch (llvm::RoundingMode(e->aux)) {
        case llvm::RoundingMode::TowardZero: rm = Z3_mk_fpa_rtz(c); break;
        case llvm::RoundingMode::TowardNegative: rm = Z3_mk_fpa_rtn(c); break;
        case llvm::RoundingMode::TowardPositive: rm = Z3_mk_fpa_rtp(c); break;
        case llvm::RoundingMode::NearestTiesToAway: rm = Z3_mk_fpa_rna(c); break;
        default: break;
        }
        r = Z3_mk_fpa_round_to_integral(c, rm, fp(e->k[0])); break;
    }
    case Op::Ite: if (e->k[1]->hasFP || e->k[2]->hasFP) { r = Z3_mk_ite(c, b(e->k[0]), fp(e->k[1]), fp(e->k[2])); break; } // fall through
    default: r = Z3_mk_fpa_to_fp_bv(c, bv(e), fsort(c, e->width));
    }
    memoF[e] = r;
    return r;
}
Z3_ast Solver::raw(E e)
{
    auto it = memoB.find(e);
    if (it != memoB.end()) return it->second;
    Z3_ast r = nullptr;
    bool w1 = e->width == 1;
    auto K = [&](int i) { return e->k[i]; };
    bool k1 = !e->k.empty() && e->k[0]->width == 1;
    switch (e->op) {
    case Op::Const: r = w1 ? (e->isTrue() ? Z3_mk_true(c) : Z3_mk_false(c)) : num(c, e->val); break;
    case Op::Var: {
        auto nm = g_vars[e->aux].name + "_" + std::to_string(e->width) + "_" + std::to_string(e->aux);
        r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), w1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, e->width));
        varAst[e->aux] = r; break; }
    case Op::Read: {
        auto nm = g_vars[e->aux].name + "_arr" + std::to_string(e->aux);
        Z3_ast a = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), Z3_mk_array_sort(c, Z3_mk_bv_sort(c, 64), Z3_mk_bv_sort(c, 8)));
        r = Z3_mk_select(c, a, bv(K(0))); break; }
    case Op::Add: r = Z3_mk_bvadd(c, bv(K(0)), bv(K(1))); break;
    case Op::Sub: r = Z3_mk_bvsub(c, bv(K(0)), bv(K(1))); break;
    case Op::Mul: r = Z3_mk_bvmul(c, bv(K(0)), bv(K(1))); break;
    case Op::UDiv: r = Z3_mk_bvudiv(c, bv(K(0)), bv(K(1))); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(c, bv(K(0)), bv(K(1))); break;
    case Op::URem: r = Z3_mk_bvurem(c, bv(K(0)), bv(K(1))); break;
    case Op::SRem: r = Z3_mk_bvsrem(c, bv(K(0)), bv(K(1))); break;
    case Op::Shl: r = Z3_mk_bvshl(c, bv(K(0)), bv(K(1))); break;
    case Op::LShr: r = Z3_mk_bvlshr(c, bv(K(0)), bv(K(1))); break;
    case Op::AShr: r = Z3_mk_bvashr(c, bv(K(0)), bv(K(1))); break;
    case Op::And: if (w1) { Z3_ast a[2] = { b(K(0)), b(K(1)) }; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvand(c, bv(K(0)), bv(K(1))); break;
    case Op::Or: if (w1) { Z3_ast a[2] = { b(K(0)), b(K(1)) }; r = Z3_mk_or(c, 2, a); } else r = Z3_mk_bvor(c, bv(K(0)), bv(K(1))); break;
    case Op::Xor: r = w1 ? Z3_mk_xor(c, b(K(0)), b(K(1))) : Z3_mk_bvxor(c, bv(K(0)), bv(K(1))); break;
    case Op::Not: r = w1 ? Z3_mk_not(c, b(K(0))) : Z3_mk_bvnot(c, bv(K(0))); break;
    case Op::Eq: r = k1 ? Z3_mk_iff(c, b(K(0)), b(K(1))) : Z3_mk_eq(c, bv(K(0)), bv(K(1))); break;
    case Op::Ult: r = Z3_mk_bvult(c, bv(K(0)), bv(K(1))); break;
    case Op::Ule: r = Z3_mk_bvule(c, bv(K(0)), bv(K(1))); break;
    case Op::Slt: r = Z3_mk_bvslt(c, bv(K(0)), bv(K(1))); break;
    case Op::Sle: r = Z3_mk_bvsle(c, bv(K(0)), bv(K(1))); break;
    case Op::Ite: r = Z3_mk_ite(c, b(K(0)), raw(K(1)), raw(K(2))); break;
    case Op::SExt: r = Z3_mk_sign_ext(c, e->width - K(0)->width, bv(K(0))); break;
    case Op::Concat: r = Z3_mk_concat(c, bv(K(0)), bv(K(1))); break;
    case Op::Extract: {
        Z3_ast x = Z3_mk_extract(c, e->aux + e->width - 1, e->aux, bv(K(0)));
        r = w1 ? Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) : x; break; }
    case Op::FEq: r = Z3_mk_fpa_eq(c, fp(K(0)), fp(K(1))); break;
    case Op::FLt: r = Z3_mk_fpa_lt(c, fp(K(0)), fp(K(1))); break;
    case Op::FLe: r = Z3_mk_fpa_leq(c, fp(K(0)), fp(K(1))); break;
    case Op::FIsNaN: r = Z3_mk_fpa_is_nan(c, fp(K(0))); break;
    case Op::FToUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(K(0)), e->width); break;
    case Op::FToSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(K(0)), e->width); break;
    default: r = Z3_mk_fpa_to_ieee_bv(c, fp(e)); break;
    }
    memoB[e] = r;
    return r;
}

// sums or products of at least 32 bits
static bool linearArithmetic(const std::vector<E>& cs)
{
    std::vector<E> st(cs.begin(), cs.end()); std::unordered_set<E> seen; bool wide = false;
    while (!st.empty()) {
        E e = st.back(); st.pop_back();
        if (e->isConst() || !seen.insert(e).second) continue;
        if (e->width >= 32 && (e->op == Op::Add || e->op == Op::Sub || e->op == Op::Mul)) wide = true;
        for (auto* k : e->k) st.push_back(k);
    }
    return wide;
}
// Exact translation of bit-vector constraints to linear integer arithmetic.  Every word is represented by an integer term that is
// congruent to it modulo 2^width, together with an interval; it is reduced to its unsigned or signed value only where needed.
namespace {
typedef __int128 I;
struct Unsupported {};
struct IntTr {
    Solver& S; Z3_context c; Z3_sort is; std::vector<Z3_ast> side; int fresh = 0;
    struct T { Z3_ast t; I lo, hi; };
    std::unordered_map<E, T> mt; std::unordered_map<E, T> mu, ms; std::unordered_map<E, Z3_ast> mb; std::unordered_map<uint32_t, Z3_ast> vars;
    IntTr(Solver& s) : S(s), c(s.c), is(Z3_mk_int_sort(s.c)) {}
    static I p2(unsigned w) { if (w > 100) throw Unsupported(); return I(1) << w; }
    Z3_ast num(I v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u); if (n) s.insert(s.begin(), '-'); return Z3_mk_numeral(c, s.c_str(), is); }
    T lim(T t) { if (t.lo < -(I(1) << 100) || t.hi > (I(1) << 100)) throw Unsupported(); return t; }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast k[2] = { a, b }; return Z3_mk_add(c, 2, k); }
    Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast k[2] = { a, b }; return Z3_mk_sub(c, 2, k); }
    Z3_ast mul(Z3_ast a, I v) { if (v == 1) return a; Z3_ast k[2] = { num(v), a }; return Z3_mk_mul(c, 2, k); }
    static I fdiv(I a, I b) { I q = a / b; if (a % b && (a < 0) != (b < 0)) --q; return q; }
    Z3_ast var(const char* p) { return Z3_mk_const(c, Z3_mk_string_symbol(c, (std::string(p) + std::to_string(fresh++)).c_str()), is); }
    void range(Z3_ast v, I lo, I hi) { side.push_back(Z3_mk_ge(c, v, num(lo))); side.push_back(Z3_mk_le(c, v, num(hi))); }
    // t = q * m + r, 0 <= r < m
    void divmod(T t, I m, T& q, T& r)
    {
        I ql = fdiv(t.lo, m), qh = fdiv(t.hi, m);
        if (ql == qh) { q = { num(ql), ql, ql }; r = { sub(t.t, num(ql * m)), t.lo - ql * m, t.hi - ql * m }; return; }
        Z3_ast qv = var("iq"); range(qv, ql, qh); Z3_ast rt = sub(t.t, mul(qv, m)); range(rt, 0, m - 1);
        q = { qv, ql, qh }; r = { rt, 0, m - 1 };
    }
    T norm(T t, unsigned w, I base) // value in [base, base + 2^w)
    {
        if (t.lo >= base && t.hi < base + p2(w)) return t;
        T q, r; divmod({ sub(t.t, num(base)), t.lo - base, t.hi - base }, p2(w), q, r); return { add(r.t, num(base)), r.lo + base, r.hi + base };
    }
    T U(E e) { auto it = mu.find(e); if (it != mu.end()) return it->second; T r = norm(term(e), e->width, 0); mu.emplace(e, r); return r; }
    T Sg(E e) { auto it = ms.find(e); if (it != ms.end()) return it->second; T r = norm(term(e), e->width, -p2(e->width - 1)); ms.emplace(e, r); return r; }
    static I toI(const APInt& v) { if (v.getActiveBits() > 100) throw Unsupported(); I r = 0; for (unsigned i = v.getActiveBits(); i--;) r = r * 2 + v[i]; return r; }
    static I toSI(const APInt& v) { return v.isNegative() ? -toI(-v) : toI(v); }
    T term(E e)
    {
        auto it = mt.find(e); if (it != mt.end()) return it->second;
        T r; unsigned w = e->width;
        if (w == 1) { r = { Z3_mk_ite(c, B(e), num(1), num(0)), 0, 1 }; }
        else switch (e->op) {
        case Op::Const: { I v = toSI(e->val); r = { num(v), v, v }; break; }
        case Op::Var: { Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, ("iv" + std::to_string(e->aux)).c_str()), is); vars[e->aux] = v; range(v, 0, p2(w) - 1); r = { v, 0, p2(w) - 1 }; break; }
        case Op::Add: { T a = term(e->k[0]), b = term(e->k[1]); r = { add(a.t, b.t), a.lo + b.lo, a.hi + b.hi }; break; }
        case Op::Sub: { T a = term(e->k[0]), b = term(e->k[1]); r = { sub(a.t, b.t), a.lo - b.hi, a.hi - b.lo }; break; }
        case Op::Mul: {
            E x = e->k[0], y = e->k[1]; if (x->isConst()) std::swap(x, y); if (!y->isConst()) throw Unsupported();
            I k = toSI(y->val); if (k > (I(1) << 40) || k < -(I(1) << 40)) throw Unsupported();
            T a = term(x); if (a.lo < -(I(1) << 80) || a.hi > (I(1) << 80)) a = U(x); r = k >= 0 ? T{ mul(a.t, k), a.lo * k, a.hi * k } : T{ mul(a.t, k), a.hi * k, a.lo * k }; break; }
        case Op::UDiv: case Op::URem: { if (!e->k[1]->isConst()) throw Unsupported(); I m = toI(e->k[1]->val); if (m <= 0) throw Unsupported(); T q, x; divmod(U(e->k[0]), m, q, x); r = e->op == Op::UDiv ? q : x; break; }
        case Op::SDiv: case Op::SRem: {
            if (!e->k[1]->isConst()) throw Unsupported(); I m = toSI(e->k[1]->val); if (m <= 0) throw Unsupported();
            T a = Sg(e->k[0]); if (a.lo >= 0) { T q, x; divmod(a, m, q, x); r = e->op == Op::SDiv ? q : x; break; }
            Z3_ast neg = Z3_mk_lt(c, a.t, num(0)); I mag = a.hi > -a.lo ? a.hi : -a.lo; T q, x; divmod({ Z3_mk_ite(c, neg, sub(num(0), a.t), a.t), 0, mag }, m, q, x); T z = e->op == Op::SDiv ? q : x;
            r = { Z3_mk_ite(c, neg, sub(num(0), z.t), z.t), -z.hi, z.hi }; break; }
        case Op::Concat: { T h = U(e->k[0]), l = U(e->k[1]); I f = p2(e->k[1]->width); r = h.lo == 0 && h.hi == 0 ? l : T{ add(mul(h.t, f), l.t), h.lo * f + l.lo, h.hi * f + l.hi }; break; }
        case Op::Extract: {
            if (e->aux == 0) { r = term(e->k[0]); break; }
            T q, x; unsigned top = e->aux + w; T a = top == e->k[0]->width ? U(e->k[0]) : norm(term(e->k[0]), top, 0); divmod(a, p2(e->aux), q, x); r = q; break; }
        case Op::SExt: r = Sg(e->k[0]); break;
        case Op::Ite: { T a = term(e->k[1]), b = term(e->k[2]); r = { Z3_mk_ite(c, B(e->k[0]), a.t, b.t), a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi }; break; }
        default: throw Unsupported();
        }
        r = lim(r); mt.emplace(e, r); return r;
    }
    Z3_ast B(E e)
    {
        auto it = mb.find(e); if (it != mb.end()) return it->second;
        Z3_ast r; E x = e->k.size() > 0 ? e->k[0] : nullptr, y = e->k.size() > 1 ? e->k[1] : nullptr; Z3_ast k[2];
        switch (e->op) {
        case Op::Const: r = e->isTrue() ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case Op::Var: r = S.b(e); break;
        case Op::Not: r = Z3_mk_not(c, B(x)); break;
        case Op::And: k[0] = B(x); k[1] = B(y); r = Z3_mk_and(c, 2, k); break;
        case Op::Or: k[0] = B(x); k[1] = B(y); r = Z3_mk_or(c, 2, k); break;
        case Op::Xor: r = Z3_mk_xor(c, B(x), B(y)); break;
        case Op::Ite: r = Z3_mk_ite(c, B(x), B(y), B(e->k[2])); break;
        case Op::Eq: {
            if (x->width == 1) { r = Z3_mk_iff(c, B(x), B(y)); break; }
            T a = term(x), b = term(y); I m = p2(x->width); if (a.hi - b.lo >= m || b.hi - a.lo >= m) { a = U(x); b = U(y); } r = Z3_mk_eq(c, a.t, b.t); break; }
        case Op::Ult: if (x->width == 1) throw Unsupported(); r = Z3_mk_lt(c, U(x).t, U(y).t); break;
        case Op::Ule: if (x->width == 1) throw Unsupported(); r = Z3_mk_le(c, U(x).t, U(y).t); break;
        case Op::Slt: if (x->width == 1) throw Unsupported(); r = Z3_mk_lt(c, Sg(x).t, Sg(y).t); break;
        case Op::Sle: if (x->width == 1) throw Unsupported(); r = Z3_mk_le(c, Sg(x).t, Sg(y).t); break;
        case Op::Extract: {
            if (e->aux + 1 == x->width) { r = Z3_mk_lt(c, Sg(x).t, num(0)); break; } // sign
            T q, z, q2, bit; divmod(norm(term(x), e->aux + 1, 0), p2(e->aux), q, z); r = Z3_mk_eq(c, q.t, num(1)); break; }
        default: throw Unsupported();
        }
        mb.emplace(e, r); return r;
    }
};
}
bool Solver::asIntegers(const std::vector<E>& cs, Model* out, Res& res)
{
    IntTr tr(*this); std::vector<Z3_ast> as;
    try { for (auto* e : cs) as.push_back(tr.B(e)); } catch (Unsupported) { return false; }
    Z3_solver s = Z3_mk_solver(c); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 60000); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
    for (auto a : tr.side) Z3_solver_assert(c, s, a);
    for (auto a : as) Z3_solver_assert(c, s, a);
    g_ss.external++;
    Z3_lbool r = Z3_solver_check(c, s); bool ok = false;
    if (r == Z3_L_FALSE) { res = Res::Unsat; ok = true; }
    else if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m); Model mod; Z3_ast val;
        for (auto& kv : tr.vars) if (Z3_model_eval(c, m, kv.second, true, &val)) mod.v[kv.first] = APInt(g_vars[kv.first].width, Z3_get_numeral_string(c, val), 10);
        for (auto* e : cs) for (auto v : *e->vars) if (g_vars[v].width == 1 && varAst.count(v) && Z3_model_eval(c, m, varAst[v], true, &val)) mod.v[v] = APInt(1, Z3_get_bool_value(c, val) == Z3_L_TRUE);
        Z3_model_dec_ref(c, m);
        std::unordered_map<E, APInt> memo; ok = true; // the model is checked against the bit-vector constraints
        for (auto* e : cs) if (evalExpr(e, mod, memo).isZero()) ok = false;
        if (ok) { res = Res::Sat; if (out) for (auto& kv : mod.v) out->v[kv.first] = kv.second; }
        else fprintf(stderr, "integer model rejected\n");
    }
    Z3_solver_dec_ref(c, s); return ok;
}

Res Solver::check(const std::vector<E>& cs, Model* out)
{
    auto t0 = std::chrono::steady_clock::now();
    bool F = false, A = false;
    for (auto* e : cs) { F |= e->hasFP; A |= e->hasArr; }
    Z3_solver s;
    if (F) s = Z3_mk_solver(c);
    else s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, A ? "QF_ABV" : "QF_BV"));
    Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs);
    Z3_solver_set_params(c, s, p);
    Z3_params_dec_ref(c, p);
    for (auto* e : cs) Z3_solver_assert(c, s, b(e));
    if (!dumpDir.empty()) {
        static int n = 0; auto fn = dumpDir + "/q" + std::to_string(n++) + ".smt2";
        if (FILE* f = fopen(fn.c_str(), "w")) { fputs(Z3_solver_to_string(c, s), f); fputs("(check-sat)\n", f); fclose(f); }
    }
    Z3_lbool r; Res res = Res::Unknown; bool ext = false;
    auto limit = [&](unsigned ms) { Z3_params q = Z3_mk_params(c); Z3_params_inc_ref(c, q); Z3_params_set_uint(c, q, Z3_mk_string_symbol(c, "timeout"), ms); Z3_solver_set_params(c, s, q); Z3_params_dec_ref(c, q); };
    if (!F && !A && linearArithmetic(cs)) { // bit-blasting is poor at linear arithmetic on wide words: try integer reasoning after a moment
        if (externalMs) { limit(externalMs); r = Z3_solver_check(c, s); } else r = Z3_L_UNDEF;
        if (r == Z3_L_UNDEF) { ext = asIntegers(cs, out, res); if (!ext) limit(timeoutMs); }
    } else r = Z3_L_UNDEF;
    if (!ext && r == Z3_L_UNDEF) r = Z3_solver_check(c, s);
    if (!ext) res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    if (!ext && res == Res::Sat && out) {
        Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
        std::vector<uint32_t> vs;
        for (auto* e : cs) { std::vector<uint32_t> n; std::set_union(vs.begin(), vs.end(), e->vars->begin(), e->vars->end(), std::back_inserter(n)); vs.swap(n); }
        for (auto v : vs) {
            auto& vi = g_vars[v];
            if (vi.isArray) continue; // handled below
            Z3_ast val;
            if (!Z3_model_eval(c, m, varAst[v], true, &val)) continue;
            if (vi.width == 1) out->v[v] = APInt(1, Z3_get_bool_value(c, val) == Z3_L_TRUE);
            else out->v[v] = APInt(vi.width, Z3_get_numeral_string(c, val), 10);
        }
        if (A) { // evaluate every read occurring in the query
            std::vector<E> st(cs.begin(), cs.end()); std::unordered_set<E> seen;
            while (!st.empty()) { E e = st.back(); st.pop_back(); if (!e->hasArr || !seen.insert(e).second) continue;
                if (e->op == Op::Read) {
                    Z3_ast iv, vv; Z3_model_eval(c, m, bv(e->k[0]), true, &iv); Z3_model_eval(c, m, raw(e), true, &vv);
                    uint64_t i = 0, x = 0; Z3_get_numeral_uint64(c, iv, &i); Z3_get_numeral_uint64(c, vv, &x);
                    out->arr[e->aux][i] = uint8_t(x);
                }
                for (auto* k : e->k) st.push_back(k); }
        }
        Z3_model_dec_ref(c, m);
    }
    Z3_solver_dec_ref(c, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.queries++; g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
    if (res == Res::Sat) g_ss.sat++; else if (res == Res::Unsat) g_ss.unsat++; else g_ss.unknown++;
    return res;
}
