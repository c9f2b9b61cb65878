#include <map>
#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
#include <z3.h>

SolverStats gStats;
unsigned gTimeoutMs = 20000;
std::string gDumpDir;
unsigned gDumpMax = 40;

static Bits256 fullDomain(unsigned w) {
    Bits256 b{};
    for (u32 v = 0; v < (1u << w); v++) b[v >> 6] |= 1ull << (v & 63);
    return b;
}
const Bits256* PathCond::domain(u32 var) const {
    auto it = std::lower_bound(dom.begin(), dom.end(), var, [](auto& p, u32 v) { return p.first < v; });
    return it != dom.end() && it->first == var ? &it->second : nullptr;
}
bool PathCond::add(E c) {
    if (c->isConst()) return c->val != 0;
    if (c->op == Op::And && c->width == 1) return add(c->k[0]) && add(c->k[1]);
    cons.push_back(c);
    auto& s = supportOf(c);
    if (s.size() == 1 && gVars[s[0]].width <= 8) {
        auto it = std::lower_bound(dom.begin(), dom.end(), s[0], [](auto& p, u32 v) { return p.first < v; });
        if (it == dom.end() || it->first != s[0]) it = dom.insert(it, {s[0], fullDomain(gVars[s[0]].width)});
        auto& tt = truthTable(c);
        u64 any = 0;
        for (int i = 0; i < 4; i++) any |= (it->second[i] &= tt[i]);
        return any != 0;
    }
    for (u32 v : s) {
        auto it = std::lower_bound(mixedVars.begin(), mixedVars.end(), v);
        if (it == mixedVars.end() || *it != v) mixedVars.insert(it, v);
    }
    return true;
}

// ---------------------------------------------------------------- z3
static Z3_context ctx;
static std::vector<Z3_ast> bvMemo, boolMemo;
static std::unordered_map<u32, bool> fpMemo;

static bool hasFp(E e) {
    if (e->op == Op::Const || e->op == Op::Var) return false;
    auto it = fpMemo.find(e->id);
    if (it != fpMemo.end()) return it->second;
    bool r = e->op >= Op::FAdd;
    for (E k : e->k) if (k && !r) r = hasFp(k);
    return fpMemo[e->id] = r;
}
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static Z3_sort bvSort(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast toBool(E e);
static Z3_sort fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, bvSort(w));
    return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvSort(w - 64)), Z3_mk_unsigned_int64(ctx, (u64)v, bvSort(64)));
}
static Z3_ast toBv(E e) {
    if (bvMemo.size() <= e->id) bvMemo.resize(exprCount() + 1024, nullptr);
    if (bvMemo[e->id]) return bvMemo[e->id];
    Z3_ast r = nullptr;
    auto fp = [&](E x) { return Z3_mk_fpa_to_fp_bv(ctx, toBv(x), fpSort(x->width)); };
    auto rne = [&] { return Z3_mk_fpa_rne(ctx); };
    auto rtz = [&] { return Z3_mk_fpa_rtz(ctx); };
    switch (e->op) {
    case Op::Const: r = num(e->val, e->width); break;
    case Op::Var: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, gVars[e->aux].name.c_str()), bvSort(e->width)); break;
    case Op::Add: r = Z3_mk_bvadd(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Sub: r = Z3_mk_bvsub(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Mul: r = Z3_mk_bvmul(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::UDiv: r = Z3_mk_bvudiv(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::URem: r = Z3_mk_bvurem(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::SRem: r = Z3_mk_bvsrem(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::And: if (e->width == 1) break; r = Z3_mk_bvand(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Or: if (e->width == 1) break; r = Z3_mk_bvor(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Xor: if (e->width == 1) break; r = Z3_mk_bvxor(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::LShr: r = Z3_mk_bvlshr(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::AShr: r = Z3_mk_bvashr(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Concat: r = Z3_mk_concat(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Extract: r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, toBv(e->k[0])); break;
    case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, toBv(e->k[0])); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, toBv(e->k[0])); break;
    case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBv(e->k[1]), toBv(e->k[2])); break;
    case Op::FAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
    case Op::FSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
    case Op::FMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
    case Op::FDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), fp(e->k[0]), fp(e->k[1]))); break;
    case Op::FPToSI: r = Z3_mk_fpa_to_sbv(ctx, rtz(), fp(e->k[0]), e->width); break;
    case Op::FPToUI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), fp(e->k[0]), e->width); break;
    case Op::SIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), toBv(e->k[0]), fpSort(e->width))); break;
    case Op::UIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toBv(e->k[0]), fpSort(e->width))); break;
    case Op::FPConv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->k[0]), fpSort(e->width))); break;
    case Op::FRound: {
        Z3_ast rm = e->aux == 0 ? rtz() : e->aux == 1 ? Z3_mk_fpa_rtn(ctx) : e->aux == 2 ? Z3_mk_fpa_rtp(ctx) : rne();
        r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, fp(e->k[0]))); break;
    }
    default: break;
    }
    if (!r) r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
    if (bvMemo.size() <= e->id) bvMemo.resize(exprCount() + 1024, nullptr);
    return bvMemo[e->id] = r;
}
static Z3_ast toBool(E e) {
    if (boolMemo.size() <= e->id) boolMemo.resize(exprCount() + 1024, nullptr);
    if (boolMemo[e->id]) return boolMemo[e->id];
    Z3_ast r = nullptr;
    auto fp = [&](E x) { return Z3_mk_fpa_to_fp_bv(ctx, toBv(x), fpSort(x->width)); };
    Z3_ast two[2];
    switch (e->op) {
    case Op::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case Op::And: two[0] = toBool(e->k[0]); two[1] = toBool(e->k[1]); r = Z3_mk_and(ctx, 2, two); break;
    case Op::Or: two[0] = toBool(e->k[0]); two[1] = toBool(e->k[1]); r = Z3_mk_or(ctx, 2, two); break;
    case Op::Xor:
        if (e->k[1]->isConst()) r = e->k[1]->val ? Z3_mk_not(ctx, toBool(e->k[0])) : toBool(e->k[0]);
        else r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1]));
        break;
    case Op::Eq: r = Z3_mk_eq(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Ult: r = Z3_mk_bvult(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, toBv(e->k[0]), toBv(e->k[1])); break;
    case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case Op::FEq: r = Z3_mk_fpa_eq(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FLt: r = Z3_mk_fpa_lt(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FLe: r = Z3_mk_fpa_leq(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FUno: two[0] = Z3_mk_fpa_is_nan(ctx, fp(e->k[0])); two[1] = Z3_mk_fpa_is_nan(ctx, fp(e->k[1])); r = Z3_mk_or(ctx, 2, two); break;
    default: r = Z3_mk_eq(ctx, toBv(e), num(1, 1));
    }
    if (boolMemo.size() <= e->id) boolMemo.resize(exprCount() + 1024, nullptr);
    return boolMemo[e->id] = r;
}

static void init() {
    if (ctx) return;
    Z3_config gCfg = Z3_mk_config();
    ctx = Z3_mk_context(gCfg);
    Z3_set_error_handler(ctx, z3err);
}

struct VecHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 17; for (u32 x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; } };
struct CacheEnt { R r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> cache;
static std::deque<std::vector<std::pair<u32, u64>>> recent;
static unsigned dumped = 0;

static R runZ3(const std::vector<E>& cs, const std::vector<u32>& vars, std::vector<std::pair<u32, u64>>& out, unsigned timeoutMs, bool isAssert) {
    init();
    bool fp = false;
    for (E c : cs) fp = fp || hasFp(c);
    auto attempt = [&](bool simple, unsigned to) -> Z3_lbool {
        Z3_solver s = simple ? Z3_mk_simple_solver(ctx) : fp ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), to);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
        for (E c : cs) Z3_solver_assert(ctx, s, toBool(c));
        if (isAssert && !gDumpDir.empty() && dumped < gDumpMax && simple) {
            char name[64]; snprintf(name, sizeof name, "/q%d_%u.smt2", (int)getpid(), dumped++);
            if (FILE* f = fopen((gDumpDir + name).c_str(), "w")) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(f); }
        }
        Z3_lbool b = Z3_solver_check(ctx, s);
        if (b == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            out.clear();
            for (u32 v : vars) {
                Z3_ast r; u64 val = 0;
                if (Z3_model_eval(ctx, m, toBv(gVars[v].node), true, &r)) Z3_get_numeral_uint64(ctx, r, &val);
                out.push_back({v, val});
            }
            Z3_model_dec_ref(ctx, m);
        }
        Z3_solver_dec_ref(ctx, s);
        return b;
    };
    Z3_lbool b = Z3_L_UNDEF;
    if (!fp) b = attempt(true, std::min(timeoutMs, 1500u));
    if (b == Z3_L_UNDEF) b = attempt(false, timeoutMs);
    return b == Z3_L_TRUE ? R::Sat : b == Z3_L_FALSE ? R::Unsat : R::Unknown;
}

// ---------------------------------------------------------------- large queries
// Sound shortcuts for formulas over big shared terms (digests): replacing subterms by fresh variables can only make a query easier to satisfy, so an
// unsatisfiable abstraction settles it; equal-looking subterms are proved equal bottom-up by such local queries and merged.
static size_t dagSize(const std::vector<E>& roots, size_t cap) {
    std::unordered_set<u32> seen; std::vector<E> st(roots.begin(), roots.end());
    while (!st.empty() && seen.size() < cap) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue; for (E k : e->k) if (k) st.push_back(k); }
    return seen.size();
}
static E rebuild(E e, E a, E b, E c) {
    if (a == e->k[0] && b == e->k[1] && c == e->k[2]) return e;
    switch (e->op) {
    case Op::Const: case Op::Var: return e;
    case Op::Concat: return mkConcat(a, b);
    case Op::Extract: return mkExtract(a, e->aux, e->width);
    case Op::ZExt: return mkZExt(a, e->width);
    case Op::SExt: return mkSExt(a, e->width);
    case Op::Ite: return mkIte(a, b, c);
    default: return e->op >= Op::FAdd ? mkFp(e->op, a, b, e->width, e->aux) : mkBin(e->op, a, b);
    }
}
static E cutVar(E e) { return mkVar("cut!" + std::to_string(e->id), e->width); }
static std::vector<E> cutAt(const std::vector<E>& roots, unsigned depth) {
    // depth 0: cut at the first wide terms that occur on both sides of the equation asserted last
    std::unordered_set<E> common;
    if (!depth) {
        E q = roots.back();
        if (q->op == Op::Xor && q->width == 1 && q->k[1]->isConst()) q = q->k[0];
        if (q->op != Op::Eq) return roots;
        auto reach = [](E r) { std::unordered_set<E> s; std::vector<E> st{r}; while (!st.empty()) { E e = st.back(); st.pop_back(); if (!s.insert(e).second) continue; for (E k : e->k) if (k) st.push_back(k); } return s; };
        auto a = reach(q->k[0]), b = reach(q->k[1]);
        for (E e : a) if (e->width >= 8 && e->nodes > 8 && b.count(e)) common.insert(e);
    }
    std::unordered_map<E, unsigned> d; std::vector<E> level = roots, order, wide;
    for (E r : roots) d[r] = 0;
    for (unsigned k = 0; !level.empty() && (!depth || k < depth); k++) {
        std::vector<E> nx;
        for (E e : level) { if (!depth && common.count(e)) { wide.push_back(e); continue; } order.push_back(e); for (E c : e->k) if (c && !d.count(c)) { d[c] = k + 1; nx.push_back(c); } }
        level = nx;
    }
    std::unordered_map<E, E> m;
    level.insert(level.end(), wide.begin(), wide.end());
    for (E e : level) m[e] = e->isConst() || e->op == Op::Var ? e : cutVar(e);
    std::sort(order.begin(), order.end(), [](E a, E b) { return a->id < b->id; }); // children before parents
    for (E e : order) m[e] = rebuild(e, e->k[0] ? m[e->k[0]] : nullptr, e->k[1] ? m[e->k[1]] : nullptr, e->k[2] ? m[e->k[2]] : nullptr);
    std::vector<E> out;
    for (E r : roots) out.push_back(m[r]);
    return out;
}
static R runZ3(const std::vector<E>& cs, const std::vector<u32>& vars, std::vector<std::pair<u32, u64>>& out, unsigned timeoutMs, bool isAssert);
static bool unsatQuick(const std::vector<E>& cs, unsigned ms) {
    for (E c : cs) if (isFalse(c)) return true;
    std::vector<std::pair<u32, u64>> out;
    return runZ3(cs, {}, out, ms, false) == R::Unsat;
}
// the two sides differ only above terms they share
static bool shallow(const std::vector<E>& cs) {
    auto c = cutAt(cs, 0);
    return dagSize(c, 500) < 500 && unsatQuick(c, 500);
}
static u64 rngState = 0x243F6A8885A308D3ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static E sweep(E root, const std::vector<u32>& vars, double budgetS) {
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<E> seen; std::vector<E> nodes, st{root};
    while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; nodes.push_back(e); for (E k : e->k) if (k) st.push_back(k); }
    std::sort(nodes.begin(), nodes.end(), [](E a, E b) { return a->id < b->id; });
    constexpr int K = 6;
    std::vector<Model> ms(K);
    for (auto& m : ms) for (u32 v : vars) { if (m.v.size() <= v) m.v.resize(v + 1, 0); m.v[v] = rnd() & (u64)maskOf(gVars[v].width); }
    std::unordered_map<E, std::array<u128, K>> sig;
    for (int i = 0; i < K; i++) { newEvalEpoch(); for (E e : nodes) sig[e][(size_t)i] = evalExpr(e, ms[(size_t)i]); }
    struct H { size_t operator()(const std::pair<unsigned, std::array<u128, K>>& p) const { u64 h = p.first; for (u128 x : p.second) { h ^= (u64)x + (u64)(x >> 64) * 31 + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; } };
    std::unordered_map<std::pair<unsigned, std::array<u128, K>>, std::vector<E>, H> reps;
    std::unordered_map<E, E> m;
    unsigned tried = 0, merged = 0;
    for (E e : nodes) {
        E r = rebuild(e, e->k[0] ? m[e->k[0]] : nullptr, e->k[1] ? m[e->k[1]] : nullptr, e->k[2] ? m[e->k[2]] : nullptr);
        m[e] = r;
        if (r->isConst() || r->op == Op::Var || e->width < 8) continue;
        auto& v = reps[{e->width, sig[e]}];
        bool done = false;
        for (E x : v) if (x == r) done = true;
        double used = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        for (size_t i = 0; i < v.size() && i < 3 && !done && used < budgetS; i++) {
            // what was decided for an earlier assertion over the same terms is not asked again
            static std::map<std::pair<u32, u32>, bool> decided;
            std::pair<u32, u32> pr{r->id, v[i]->id};
            auto known = decided.find(pr);
            if (known != decided.end()) { if (known->second) { done = true; m[e] = v[i]; } continue; }
            E ne = mkNe(r, v[i]);
            tried++;
            for (unsigned depth : {5u, 9u}) if (!done && unsatQuick(cutAt({ne}, depth), 300)) { done = true; m[e] = v[i]; merged++; }
            decided[pr] = done;
            if (getenv("WFSYM_SWEEP")) fprintf(stderr, "%s\n   %s\n   %s\n", done ? "same" : "differ", show(cutAt({r}, 3)[0], 6).c_str(), show(cutAt({v[i]}, 3)[0], 6).c_str());
        }
        if (!done) v.push_back(r);
    }
    if (getenv("WFSYM_VERBOSE")) fprintf(stderr, "sweep: %zu nodes, %u candidates, %u merged, %.1f s\n", nodes.size(), tried, merged, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    return m[root];
}

struct SettledHash { size_t operator()(const std::pair<u32, Bits256>& p) const { u64 h = p.first; for (u64 x : p.second) h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; } };
static std::unordered_set<std::pair<u32, Bits256>, SettledHash> settled;

R solve(const PathCond& pc, E extra, Model& m, bool isAssert, unsigned timeoutMs) {
    if (extra->isConst()) return extra->val ? R::Sat : R::Unsat;
    if (!timeoutMs) timeoutMs = gTimeoutMs;
    auto setVar = [&](u32 v, u64 val) { if (m.v.size() <= v) m.v.resize(v + 1, 0); m.v[v] = val; };
    // the negation of a big conjunction: one query per conjunct
    if (isAssert && extra->width == 1 && extra->op == Op::Xor && extra->k[1]->isConst() && extra->k[1]->val && extra->k[0]->op == Op::And && dagSize({extra}, 600) >= 600) {
        std::vector<E> parts, st{extra->k[0]};
        std::unordered_set<E> seen;
        while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op == Op::And) { st.push_back(e->k[0]); st.push_back(e->k[1]); } else parts.push_back(e); }
        R all = R::Unsat;
        for (E p : parts) {
            R r = solve(pc, mkBin(Op::Xor, p, mkConst(1, 1)), m, true, timeoutMs);
            if (r == R::Sat) return r;
            if (r == R::Unknown) { all = r; if (getenv("WFSYM_VERBOSE")) fprintf(stderr, "undecided conjunct, dag %zu\n%s\n", dagSize({p}, 100000), show(cutAt({p}, 0)[0], 12).c_str()); }
        }
        return all;
    }
    auto& s0 = supportOf(extra);
    if (isAssert) gStats.assertQueries++;
    if (s0.size() == 1 && gVars[s0[0]].width <= 8 && !isAssert) {
        auto& tt = truthTable(extra);
        const Bits256* d = pc.domain(s0[0]);
        bool any = false; u64 pick = 0;
        for (int i = 0; i < 4 && !any; i++) { u64 x = tt[i] & (d ? (*d)[i] : ~0ull); if (x) { any = true; pick = (u64)i * 64 + (u64)__builtin_ctzll(x); } }
        bool alone = !std::binary_search(pc.mixedVars.begin(), pc.mixedVars.end(), s0[0]);
        if (!any || alone) {
            R r = any ? R::Sat : R::Unsat;
            // the solver decides every such question once; the table answers it when it is asked again
            if (settled.insert({extra->id, d ? *d : Bits256{~0ull, ~0ull, ~0ull, ~0ull}}).second) {
                std::vector<E> qs;
                for (E c : pc.cons) { auto& s = supportOf(c); if (s.size() == 1 && s[0] == s0[0]) qs.push_back(c); }
                qs.push_back(extra);
                std::vector<std::pair<u32, u64>> out;
                auto t0 = std::chrono::steady_clock::now();
                R z = runZ3(qs, s0, out, timeoutMs, false);
                gStats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                gStats.queries++;
                (z == R::Sat ? gStats.sat : z == R::Unsat ? gStats.unsat : gStats.unknown)++;
                if (z != R::Unknown && z != r) { fprintf(stderr, "wfsym: solver and table disagree on %s\n", show(extra).c_str()); abort(); }
            } else gStats.tableHits++;
            if (any) setVar(s0[0], pick);
            return r;
        }
    }
    // slice
    std::vector<u32> vars = s0;
    std::vector<E> cs;
    std::vector<char> used(pc.cons.size(), 0);
    std::vector<char> inSet(gVars.size() + 1, 0);
    for (u32 v : vars) inSet[v] = 1;
    for (bool changed = true; changed;) {
        changed = false;
        for (size_t i = 0; i < pc.cons.size(); i++) {
            if (used[i]) continue;
            auto& s = supportOf(pc.cons[i]);
            bool hit = false;
            for (u32 v : s) if (inSet[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            cs.push_back(pc.cons[i]);
            for (u32 v : s) if (!inSet[v]) { inSet[v] = 1; vars.push_back(v); changed = true; }
        }
    }
    cs.push_back(extra);
    std::vector<u32> key;
    for (E c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end() && it->second.r != R::Unknown) {
        gStats.cacheHits++;
        for (auto& [v, x] : it->second.m) setVar(v, x);
        return it->second.r;
    }
    // recent models
    {
        Model t = m;
        int tries = 0;
        for (auto& rm : recent) {
            if (tries++ > 6) break;
            bool touches = false;
            for (auto& [v, x] : rm) if (v < inSet.size() && inSet[v]) { if (t.v.size() <= v) t.v.resize(v + 1, 0); t.v[v] = x; touches = true; }
            if (!touches) continue;
            newEvalEpoch();
            bool ok = true;
            for (size_t i = cs.size(); i-- > 0 && ok;) ok = evalExpr(cs[i], t) != 0;
            if (ok) {
                gStats.modelHits++;
                std::vector<std::pair<u32, u64>> a;
                for (u32 v : vars) { a.push_back({v, t.get(v)}); setVar(v, t.get(v)); }
                cache[key] = {R::Sat, a};
                return R::Sat;
            }
            t = m;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    std::vector<std::pair<u32, u64>> out;
    R r = R::Unknown;
    if (dagSize(cs, 600) >= 600) {
        Model t = m;
        for (int i = 0; i < 40 && r == R::Unknown; i++) {
            for (u32 v : vars) { if (t.v.size() <= v) t.v.resize(v + 1, 0); t.v[v] = rnd() & (u64)maskOf(gVars[v].width); }
            newEvalEpoch();
            bool ok = true;
            for (size_t k = cs.size(); k-- > 0 && ok;) ok = evalExpr(cs[k], t) != 0;
            if (ok) { r = R::Sat; for (u32 v : vars) out.push_back({v, t.get(v)}); }
        }
        if (r == R::Unknown && isAssert && shallow(cs)) r = R::Unsat;
        if (r == R::Unknown && isAssert) {
            E x = sweep(extra, vars, timeoutMs / 1000.0);
            if (isFalse(x)) r = R::Unsat;
            else if (x != extra) {
                auto cx = cs;
                cx.back() = x;
                if (getenv("WFSYM_SWEEP")) fprintf(stderr, "left: %s\n", show(cutAt({x}, 0)[0], 14).c_str());
                if (shallow(cx)) r = R::Unsat;
                for (unsigned depth : {6u, 14u}) if (r == R::Unknown && unsatQuick(cutAt(cx, depth), 1000)) r = R::Unsat;
            }
        }
        for (unsigned depth : {8u, 14u}) if (r == R::Unknown && isAssert && unsatQuick(cutAt(cs, depth), 500)) r = R::Unsat;
    }
    if (r == R::Unknown) r = runZ3(cs, vars, out, timeoutMs, isAssert);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gStats.queries++;
    gStats.seconds += dt;
    if (dt > gStats.maxQuery) gStats.maxQuery = dt;
    if (r == R::Sat) {
        gStats.sat++;
        Model t = m;
        for (auto& [v, x] : out) { if (t.v.size() <= v) t.v.resize(v + 1, 0); t.v[v] = x; }
        newEvalEpoch();
        for (E c : cs)
            if (!evalExpr(c, t)) {
                if (hasFp(c)) continue;
                fprintf(stderr, "wfsym: solver model does not satisfy %s\n", show(c).c_str()); abort();
            }
        m = t;
        recent.push_front(out);
        if (recent.size() > 8) recent.pop_back();
    } else if (r == R::Unsat) gStats.unsat++;
    else gStats.unknown++;
    cache[key] = {r, r == R::Sat ? out : decltype(out){}};
    if (cache.size() > 2000000) cache.clear();
    return r;
}
