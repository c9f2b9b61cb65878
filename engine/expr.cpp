#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <unordered_set>

std::vector<VarInfo> gVars;
static std::deque<Expr> pool;
static std::unordered_map<std::string, u32> varByName;

struct NodeHash { size_t operator()(E e) const { return e->hash; } };
struct NodeEq {
    bool operator()(E a, E b) const {
        return a->op == b->op && a->width == b->width && a->aux == b->aux && a->val == b->val && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
    }
};
static std::unordered_set<E, NodeHash, NodeEq> table;
size_t exprCount() { return pool.size(); }
E exprById(u32 id) { return &pool[id]; }

static E intern(Op op, unsigned w, u32 aux, u128 val, E a = nullptr, E b = nullptr, E c = nullptr) {
    Expr t;
    t.op = op; t.width = (uint16_t)w; t.aux = aux; t.val = val; t.k[0] = a; t.k[1] = b; t.k[2] = c;
    u64 h = (u64)op * 0x9E3779B97F4A7C15ull + w * 1000003ull + aux * 0x85EBCA6Bull;
    auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((u64)val); mix((u64)(val >> 64));
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
    t.hash = (u32)h;
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    t.id = (u32)pool.size();
    u64 n = 1;
    for (E k : t.k) if (k) n += k->nodes;
    t.nodes = (u32)std::min<u64>(n, 1u << 30);
    pool.push_back(t);
    table.insert(&pool.back());
    return &pool.back();
}

bool gPlainXor = false;
E mkConst(u128 v, unsigned w) {
    static E small[65][257];
    v &= maskOf(w);
    if (w <= 64 && v <= 256) {
        E& s = small[w][(size_t)v];
        if (!s) s = intern(Op::Const, w, 0, v);
        return s;
    }
    return intern(Op::Const, w, 0, v);
}

E mkVar(const std::string& name, unsigned w) {
    auto it = varByName.find(name);
    if (it != varByName.end()) {
        if (gVars[it->second].width != w) return mkVar(name + "'", w);
        return gVars[it->second].node;
    }
    u32 idx = (u32)gVars.size();
    E e = intern(Op::Var, w, idx, 0);
    gVars.push_back({name, w, e});
    varByName[name] = idx;
    return e;
}

static double asD(u128 v, unsigned w) {
    if (w == 64) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
    u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f;
}
static u128 fromD(double d, unsigned w) {
    if (w == 64) { u64 x; memcpy(&x, &d, 8); return x; }
    float f = (float)d; u32 x; memcpy(&x, &f, 4); return x;
}
u128 foldFp(Op op, unsigned w, u32 aux, unsigned wa, u128 a, u128 b) {
    switch (op) {
    case Op::FAdd: return fromD(asD(a, wa) + asD(b, wa), w);
    case Op::FSub: return fromD(asD(a, wa) - asD(b, wa), w);
    case Op::FMul: return fromD(asD(a, wa) * asD(b, wa), w);
    case Op::FDiv: return fromD(asD(a, wa) / asD(b, wa), w);
    case Op::FEq: return asD(a, wa) == asD(b, wa);
    case Op::FLt: return asD(a, wa) < asD(b, wa);
    case Op::FLe: return asD(a, wa) <= asD(b, wa);
    case Op::FUno: return std::isnan(asD(a, wa)) || std::isnan(asD(b, wa));
    case Op::FPToSI: { double d = std::trunc(asD(a, wa)); if (!(std::fabs(d) < 1.7e38)) return 0; return (u128)(i128)d & maskOf(w); }
    case Op::FPToUI: { double d = std::trunc(asD(a, wa)); if (!(d >= 0 && d < 3.4e38)) return 0; return (u128)d & maskOf(w); }
    case Op::SIToFP: { i128 s = sextOf(a, wa); return w == 64 ? fromD((double)s, 64) : [&] { float f = (float)s; u32 x; memcpy(&x, &f, 4); return (u128)x; }(); }
    case Op::UIToFP: { return w == 64 ? fromD((double)a, 64) : [&] { float f = (float)a; u32 x; memcpy(&x, &f, 4); return (u128)x; }(); }
    case Op::FPConv: return fromD(asD(a, wa), w);
    case Op::FRound: { double d = asD(a, wa); switch (aux) { case 0: d = std::trunc(d); break; case 1: d = std::floor(d); break; case 2: d = std::ceil(d); break; default: d = std::nearbyint(d); } return fromD(d, w); }
    default: abort();
    }
}
E mkFp(Op op, E a, E b, unsigned w, u32 aux) {
    if (a->isConst() && (!b || b->isConst())) return mkConst(foldFp(op, w, aux, a->width, a->val, b ? b->val : 0), w);
    return intern(op, w, aux, 0, a, b);
}

u128 foldOp(Op op, unsigned w, u128 a, u128 b, unsigned wa) {
    u128 m = maskOf(w);
    switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? a / b : m;
    case Op::URem: return b ? a % b : a;
    case Op::SDiv: { i128 x = sextOf(a, w), y = sextOf(b, w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case Op::SRem: { i128 x = sextOf(a, w), y = sextOf(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case Op::AShr: { i128 x = sextOf(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Slt: return sextOf(a, wa) < sextOf(b, wa);
    default: abort();
    }
}

// ---- segments: a value as a concatenation of pieces, low to high
struct Seg { E e; unsigned w; };
static void segsOf(E e, std::vector<Seg>& out) {
    if (e->op == Op::Concat) { segsOf(e->k[1], out); segsOf(e->k[0], out); return; }
    if (e->op == Op::ZExt) { segsOf(e->k[0], out); unsigned w = e->width - e->k[0]->width; out.push_back({mkConst(0, w), w}); return; }
    out.push_back({e, e->width});
}
static bool hasZeroSegs(E e) {
    if (e->op == Op::ZExt || e->op == Op::Const) return true;
    if (e->op == Op::Concat) return hasZeroSegs(e->k[0]) || hasZeroSegs(e->k[1]);
    return false;
}
// combine piecewise; returns null if some piece is not trivially resolvable
static E pieceWise(Op op, E a, E b) {
    std::vector<Seg> A, B;
    segsOf(a, A); segsOf(b, B);
    if (A.size() == 1 && B.size() == 1) return nullptr;
    if (A.size() + B.size() > 64) return nullptr;
    E res = nullptr;
    size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
    unsigned done = 0, W = a->width, carry = 0;
    while (done < W) {
        unsigned w = std::min(A[i].w - oi, B[j].w - oj);
        E x = A[i].e->isConst() ? mkConst(A[i].e->val >> oi, w) : nullptr;
        E y = B[j].e->isConst() ? mkConst(B[j].e->val >> oj, w) : nullptr;
        E r = nullptr;
        u128 ones = maskOf(w);
        auto ex = [&] { return mkExtract(A[i].e, oi, w); };
        auto ey = [&] { return mkExtract(B[j].e, oj, w); };
        if (op == Op::Add && x && y) { // constants may carry into the next constant piece
            u128 sum = x->val + y->val + carry;
            if (w == 128) { if (x->val && y->val) return nullptr; } // no room to see the carry
            else carry = sum >> w ? 1 : 0;
            r = mkConst(sum & ones, w);
        }
        else if (carry) return nullptr;
        else if (x && y) r = mkConst(foldOp(op, w, x->val, y->val, w), w);
        else if (op == Op::And) {
            if (x) { if (x->val == 0) r = x; else if (x->val == ones) r = ey(); }
            else if (y) { if (y->val == 0) r = y; else if (y->val == ones) r = ex(); }
        } else if (op == Op::Or) {
            if (x) { if (x->val == 0) r = ey(); else if (x->val == ones) r = x; }
            else if (y) { if (y->val == 0) r = ex(); else if (y->val == ones) r = y; }
        } else { // Xor, Add
            if (x) { if (x->val == 0) r = ey(); }
            else if (y) { if (y->val == 0) r = ex(); }
        }
        if (!r) return nullptr;
        res = res ? mkConcat(r, res) : r;
        done += w; oi += w; oj += w;
        if (oi == A[i].w) { i++; oi = 0; }
        if (oj == B[j].w) { j++; oj = 0; }
    }
    return res;
}

static bool isIteConst(E e, int depth = 0) { // ite tree whose leaves are constants (bounded)
    if (e->op != Op::Ite) return false;
    if (depth > 16 || e->nodes > 4000) return false;
    for (int i = 1; i < 3; i++) {
        E k = e->k[i];
        if (!k->isConst() && !isIteConst(k, depth + 1)) return false;
    }
    return true;
}
static bool isIteConstShallow(E e) {
    return e->op == Op::Ite && (e->k[1]->isConst() || isIteConst(e->k[1])) && (e->k[2]->isConst() || isIteConst(e->k[2]));
}
template<typename F> static E mapIte(E e, F f, std::unordered_map<E, E>& memo) {
    if (e->isConst()) return f(e);
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E r = mkIte(e->k[0], mapIte(e->k[1], f, memo), mapIte(e->k[2], f, memo));
    memo[e] = r;
    return r;
}

E mkIte(E c, E a, E b) {
    if (c->isConst()) return c->val ? a : b;
    if (a == b) return a;
    if (a->width == 1) {
        if (a->isConst()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (c->op == Op::Xor && c->k[1]->isConst()) return mkIte(c->k[0], b, a); // negated condition
    if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
    if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    return intern(Op::Ite, a->width, 0, 0, c, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->width) return a;
    switch (a->op) {
    case Op::Const: return mkConst(a->val >> lo, w);
    case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
    case Op::Concat: {
        unsigned wl = a->k[1]->width;
        if (lo + w <= wl) return mkExtract(a->k[1], lo, w);
        if (lo >= wl) return mkExtract(a->k[0], lo - wl, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - wl), mkExtract(a->k[1], lo, wl - lo));
    }
    case Op::ZExt: {
        unsigned wi = a->k[0]->width;
        if (lo >= wi) return mkConst(0, w);
        if (lo + w <= wi) return mkExtract(a->k[0], lo, w);
        return mkZExt(mkExtract(a->k[0], lo, wi - lo), w);
    }
    case Op::SExt: {
        unsigned wi = a->k[0]->width;
        if (lo + w <= wi) return mkExtract(a->k[0], lo, w);
        if (lo < wi) return mkSExt(mkExtract(a->k[0], lo, wi - lo), w);
        return mkSExt(mkExtract(a->k[0], wi - 1, 1), w);
    }
    case Op::And: case Op::Or: case Op::Xor:
        if (a->nodes < 64 || a->k[1]->isConst()) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        break;
    case Op::Add: case Op::Mul: case Op::Sub:
        if (lo == 0 && a->nodes < 64) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case Op::Ite:
        if (a->k[1]->isConst() || a->k[2]->isConst() || a->nodes < 48)
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    default: break;
    }
    return intern(Op::Extract, w, lo, 0, a);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->width + lo->width;
    if (w > 128) abort();
    if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
    if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
    // right-nested normal form: Concat(Concat(a,b),c) -> Concat(a,Concat(b,c))
    if (hi->op == Op::Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
    auto join = [](E h, E l) -> E { // try to merge two adjacent atoms
        if (h->isConst() && l->isConst()) return mkConst((h->val << l->width) | l->val, h->width + l->width);
        if (h->op == Op::Extract && l->op == Op::Extract && h->k[0] == l->k[0] && h->aux == l->aux + l->width)
            return mkExtract(h->k[0], l->aux, h->width + l->width);
        // sign bits above a full value
        if (h->op == Op::Extract && h->k[0] == l && h->aux == 0 && false) return nullptr;
        // extract above a low extract-through of same ite/arith base
        if (h->op == Op::Extract && h->k[0]->width > l->width && h->aux == l->width && mkExtract(h->k[0], 0, l->width) == l)
            return mkExtract(h->k[0], 0, h->width + l->width);
        return nullptr;
    };
    if (E j = join(hi, lo)) return j;
    if (lo->op == Op::Concat) {
        if (E j = join(hi, lo->k[0])) return mkConcat(j, lo->k[1]);
    }
    if (lo->op == Op::ZExt && hi->isConst()) { // const above zeros
        unsigned zw = lo->width - lo->k[0]->width;
        return mkConcat(mkConst(hi->val << zw, hi->width + zw), lo->k[0]);
    }
    // both ite on the same condition
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return intern(Op::Concat, w, 0, 0, hi, lo);
}

E mkZExt(E a, unsigned w) {
    if (w == a->width) return a;
    if (a->isConst()) return mkConst(a->val, w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (isIteConstShallow(a)) { std::unordered_map<E, E> m; return mapIte(a, [&](E k) { return mkConst(k->val, w); }, m); }
    return intern(Op::ZExt, w, 0, 0, a);
}
E mkSExt(E a, unsigned w) {
    if (w == a->width) return a;
    if (a->isConst()) return mkConst((u128)sextOf(a->val, a->width), w);
    if (a->op == Op::SExt) return mkSExt(a->k[0], w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (isIteConstShallow(a)) { std::unordered_map<E, E> m; return mapIte(a, [&](E k) { return mkConst((u128)sextOf(k->val, k->width), w); }, m); }
    if (a->width == 1) return mkIte(a, mkConst(maskOf(w), w), mkConst(0, w));
    return intern(Op::SExt, w, 0, 0, a);
}

void rangeOf(E e, u128& lo, u128& hi) {
    if (e->rangeDone) { lo = e->rlo; hi = e->rhi; return; }
    u128 m = maskOf(e->width);
    lo = 0; hi = m;
    u128 a, b, c, d;
    switch (e->op) {
    case Op::Const: lo = hi = e->val; break;
    case Op::ZExt: rangeOf(e->k[0], lo, hi); break;
    case Op::Concat:
        rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d);
        lo = (a << e->k[1]->width) | c; hi = (b << e->k[1]->width) | d; break;
    case Op::Ite: rangeOf(e->k[1], a, b); rangeOf(e->k[2], c, d); lo = std::min(a, c); hi = std::max(b, d); break;
    case Op::And: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); hi = std::min(b, d); break;
    case Op::Add: {
        rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d);
        if (e->width < 128) {
            if (b + d <= m) { lo = a + c; hi = b + d; }
            else if (a + c > m && b + d <= m + m + 1) { lo = (a + c) & m; hi = (b + d) & m; if (lo > hi) { lo = 0; hi = m; } }
        }
        break;
    }
    case Op::Sub: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); if (a >= d) { lo = a - d; hi = b - c; } break;
    case Op::Mul: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d);
        if (e->width <= 64 && b <= ~(u64)0 && d <= ~(u64)0 && b * d <= m) { lo = a * c; hi = b * d; }
        break;
    case Op::UDiv: rangeOf(e->k[0], a, b); rangeOf(e->k[1], c, d); if (c > 0) { lo = a / d; hi = b / c; } break;
    case Op::URem: rangeOf(e->k[1], c, d); if (c > 0) hi = d - 1; rangeOf(e->k[0], a, b); hi = std::min(hi, b); break;
    case Op::LShr: rangeOf(e->k[0], a, b); hi = b; break;
    default: break;
    }
    e->rlo = lo; e->rhi = hi; e->rangeDone = true;
}

static E addConst(E a, u128 c) { return mkBin(Op::Add, a, mkConst(c, a->width)); }

// ---- one form for equal bitwise functions of up to three words, for sums, and for chains of one bitwise operation
static E rawBin(Op op, E a, E b) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    return intern(op, a->width, 0, 0, a, b);
}
static bool bitLeaves(E e, E* leaf, int& n, int& budget) {
    if (--budget < 0) return false;
    if (e->op == Op::And || e->op == Op::Or || e->op == Op::Xor) {
        if (!e->k[1]->isConst()) return bitLeaves(e->k[0], leaf, n, budget) && bitLeaves(e->k[1], leaf, n, budget);
        if (e->op == Op::Xor && e->k[1]->val == maskOf(e->width)) return bitLeaves(e->k[0], leaf, n, budget);
    }
    for (int i = 0; i < n; i++) if (leaf[i] == e) return true;
    if (n == 3) return false;
    leaf[n++] = e;
    return true;
}
static unsigned bitTable(E e, E* leaf, int n) {
    static const unsigned col[3] = {0xAA, 0xCC, 0xF0};
    for (int i = 0; i < n; i++) if (leaf[i] == e) return col[i];
    unsigned x = bitTable(e->k[0], leaf, n);
    if (e->k[1]->isConst()) return x ^ 0xFF;
    unsigned y = bitTable(e->k[1], leaf, n);
    return e->op == Op::And ? x & y : e->op == Op::Or ? x | y : x ^ y;
}
static bool chainTerms(Op op, E e, std::vector<E>& out, size_t cap) {
    if (e->op == op && !e->k[1]->isConst()) return chainTerms(op, e->k[0], out, cap) && chainTerms(op, e->k[1], out, cap);
    out.push_back(e);
    return out.size() <= cap;
}
static E chainOf(Op op, std::vector<E>& t) {
    std::sort(t.begin(), t.end(), [](E x, E y) { return x->id < y->id; });
    E r = t[0];
    for (size_t i = 1; i < t.size(); i++) r = rawBin(op, r, t[i]);
    return r;
}
static E oneForm(Op op, E a, E b) {
    unsigned w = a->width;
    if (w < 16 || a->isConst() || b->isConst()) return nullptr;
    if (op == Op::Add) {
        if (a->op != op && b->op != op) return nullptr;
        std::vector<E> t;
        if (!chainTerms(op, a, t, 10) || !chainTerms(op, b, t, 10)) return nullptr;
        return chainOf(op, t);
    }
    auto bitwise = [](E e) { return e->op == Op::And || e->op == Op::Or || e->op == Op::Xor; };
    if (!bitwise(a) && !bitwise(b)) return nullptr;
    E leaf[3];
    int n = 0, budget = 40;
    if (bitLeaves(a, leaf, n, budget) && bitLeaves(b, leaf, n, budget)) {
        std::sort(leaf, leaf + n, [](E x, E y) { return x->id < y->id; });
        unsigned x = bitTable(a, leaf, n), y = bitTable(b, leaf, n), f = op == Op::And ? x & y : op == Op::Or ? x | y : x ^ y;
        std::vector<E> all(leaf, leaf + n);
        if (n == 2) {
            if (f == (0xAA & 0xCC)) return rawBin(Op::And, leaf[0], leaf[1]);
            if (f == (0xAA | 0xCC)) return rawBin(Op::Or, leaf[0], leaf[1]);
        }
        if (n == 3 && f == 0x80) return chainOf(Op::And, all);
        if (n == 3 && f == 0xFE) return chainOf(Op::Or, all);
        // exclusive or of products
        unsigned c = f;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 8; j++) if (j >> i & 1) c ^= (c >> (j ^ (1 << i)) & 1) << j;
        std::vector<E> terms;
        for (int j = 1; j < 8; j++) {
            if (!(c >> j & 1)) continue;
            std::vector<E> p;
            for (int i = 0; i < n; i++) if (j >> i & 1) p.push_back(leaf[i]);
            terms.push_back(chainOf(Op::And, p));
        }
        if (terms.empty()) return mkConst(c & 1 ? maskOf(w) : 0, w);
        E r = chainOf(Op::Xor, terms);
        return c & 1 ? intern(Op::Xor, w, 0, 0, r, mkConst(maskOf(w), w)) : r;
    }
    if (a->op != op && b->op != op) return nullptr;
    std::vector<E> t;
    if (!chainTerms(op, a, t, 12) || !chainTerms(op, b, t, 12)) return nullptr;
    if (op != Op::Xor) { std::sort(t.begin(), t.end(), [](E x, E y) { return x->id < y->id; }); t.erase(std::unique(t.begin(), t.end()), t.end()); }
    return chainOf(op, t);
}
// the terms of two sums without the common ones; false if there are none in common
static bool withoutCommon(E a, E b, std::vector<E>& x, std::vector<E>& y) {
    if (!chainTerms(Op::Add, a, x, 12) || !chainTerms(Op::Add, b, y, 12)) return false;
    bool any = false;
    for (size_t i = 0; i < x.size();) {
        auto it = std::find(y.begin(), y.end(), x[i]);
        if (it == y.end()) { i++; continue; }
        y.erase(it); x.erase(x.begin() + (long)i); any = true;
    }
    return any;
}
static E sumOf(std::vector<E>& t, unsigned w) { return t.empty() ? mkConst(0, w) : t.size() == 1 ? t[0] : chainOf(Op::Add, t); }

E mkBin(Op op, E a, E b) {
    unsigned wa = a->width;
    if (wa != b->width) { fprintf(stderr, "width mismatch op %d: %u %u\n", (int)op, wa, b->width); abort(); }
    bool cmp = op == Op::Eq || op == Op::Ult || op == Op::Slt;
    unsigned w = cmp ? 1 : wa;
    u128 m = maskOf(wa);
    if (a->isConst() && b->isConst()) return mkConst(foldOp(op, w, a->val, b->val, wa), w);
    bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
    if (comm) {
        if (a->isConst()) std::swap(a, b);
        else if (!b->isConst() && a->id > b->id) std::swap(a, b);
    }
    E bc = b->isConst() ? b : nullptr;
    // push into constant ite trees
    if (bc && isIteConstShallow(a)) {
        std::unordered_map<E, E> memo;
        return mapIte(a, [&](E k) { return mkConst(foldOp(op, w, k->val, bc->val, wa), w); }, memo);
    }
    if (a->isConst() && isIteConstShallow(b)) {
        std::unordered_map<E, E> memo;
        return mapIte(b, [&](E k) { return mkConst(foldOp(op, w, a->val, k->val, wa), w); }, memo);
    }
    switch (op) {
    case Op::Add:
        if (wa == 1) return mkBin(Op::Xor, a, b);
        if (bc) {
            if (bc->val == 0) return a;
            if (a->op == Op::Add && a->k[1]->isConst()) return addConst(a->k[0], a->k[1]->val + bc->val);
            if (a->op == Op::Sub && a->k[0]->isConst()) return mkBin(Op::Sub, mkConst(a->k[0]->val + bc->val, wa), a->k[1]);
            if (a->op == Op::Xor && a->k[1]->isConst() && a->k[1]->val == m) return mkBin(Op::Sub, mkConst(bc->val - 1, wa), a->k[0]);
            // zext(x + c1) + c2 kept
        } else {
            if (a->op == Op::Add && a->k[1]->isConst()) return addConst(mkBin(Op::Add, a->k[0], b), a->k[1]->val);
            if (b->op == Op::Add && b->k[1]->isConst()) return addConst(mkBin(Op::Add, a, b->k[0]), b->k[1]->val);
            if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
            if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
            if (b->op == Op::Sub && b->k[0]->isConst() && b->k[0]->val == 0) return mkBin(Op::Sub, a, b->k[1]);
            if (a->op == Op::Sub && a->k[0]->isConst() && a->k[0]->val == 0) return mkBin(Op::Sub, b, a->k[1]);
        }
        if (hasZeroSegs(a) && hasZeroSegs(b)) if (E p = pieceWise(Op::Add, a, b)) return p;
        if (E f = oneForm(op, a, b)) return f;
        break;
    case Op::Sub:
        if (a == b) return mkConst(0, wa);
        if (bc) return addConst(a, -bc->val);
        if (a->op == Op::Add && a->k[0] == b) return a->k[1];
        if (a->op == Op::Add && a->k[1] == b) return a->k[0];
        if (a->op == Op::Add && a->k[1]->isConst()) return addConst(mkBin(Op::Sub, a->k[0], b), a->k[1]->val);
        if (b->op == Op::Add && b->k[1]->isConst()) return addConst(mkBin(Op::Sub, a, b->k[0]), -b->k[1]->val);
        if (b->op == Op::Sub && b->k[0] == a) return b->k[1];
        if (a->op == Op::Add && wa >= 16) { std::vector<E> x, y; if (withoutCommon(a, b, x, y)) return mkBin(Op::Sub, sumOf(x, wa), sumOf(y, wa)); }
        break;
    case Op::Mul:
        if (bc) {
            if (bc->val == 0) return b;
            if (bc->val == 1) return a;
            if ((bc->val & (bc->val - 1)) == 0) {
                unsigned s = 0; while (((u128)1 << s) != bc->val) s++;
                return mkBin(Op::Shl, a, mkConst(s, wa));
            }
        }
        break;
    case Op::UDiv:
        if (bc && bc->val && (bc->val & (bc->val - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != bc->val) s++; return mkBin(Op::LShr, a, mkConst(s, wa)); }
        if (bc && a->op == Op::ZExt && bc->val && bc->val <= maskOf(a->k[0]->width)) return mkZExt(mkBin(Op::UDiv, a->k[0], mkConst(bc->val, a->k[0]->width)), wa);
        { u128 lo, hi; if (bc) { rangeOf(a, lo, hi); if (hi < bc->val) return mkConst(0, wa); } }
        break;
    case Op::URem:
        if (bc && bc->val && (bc->val & (bc->val - 1)) == 0) return mkAnd(a, mkConst(bc->val - 1, wa));
        if (bc && a->op == Op::ZExt && bc->val && bc->val <= maskOf(a->k[0]->width)) return mkZExt(mkBin(Op::URem, a->k[0], mkConst(bc->val, a->k[0]->width)), wa);
        { u128 lo, hi; if (bc) { rangeOf(a, lo, hi); if (hi < bc->val) return a; } }
        break;
    case Op::SDiv: case Op::SRem:
        // non-negative operands
        { u128 lo, hi, l2, h2; rangeOf(a, lo, hi); rangeOf(b, l2, h2); if (hi <= (m >> 1) && h2 <= (m >> 1)) return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b); }
        break;
    case Op::And:
        if (a == b) return a;
        if (bc) {
            if (bc->val == 0) return b;
            if (bc->val == m) return a;
            if (a->op == Op::And && a->k[1]->isConst()) return mkAnd(a->k[0], mkConst(a->k[1]->val & bc->val, wa));
            // split constant in runs
            int runs = 0; u128 prev = 2;
            for (unsigned i = 0; i < wa; i++) { u128 bit = (bc->val >> i) & 1; if (bit != prev) { runs++; prev = bit; } }
            if (runs <= 5) {
                E res = nullptr;
                for (unsigned i = 0; i < wa;) {
                    u128 bit = (bc->val >> i) & 1; unsigned j = i;
                    while (j < wa && ((bc->val >> j) & 1) == bit) j++;
                    E p = bit ? mkExtract(a, i, j - i) : mkConst(0, j - i);
                    res = res ? mkConcat(p, res) : p;
                    i = j;
                }
                return res;
            }
        } else {
            if (a->op == Op::Xor && a->k[1]->isConst() && a->k[1]->val == m && a->k[0] == b) return mkConst(0, wa);
            if (b->op == Op::Xor && b->k[1]->isConst() && b->k[1]->val == m && b->k[0] == a) return mkConst(0, wa);
            if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == Op::Or && (a->k[0] == b || a->k[1] == b)) return b;
            if (b->op == Op::Or && (b->k[0] == a || b->k[1] == a)) return a;
            if (wa > 1 && (hasZeroSegs(a) || hasZeroSegs(b))) if (E p = pieceWise(Op::And, a, b)) return p;
            if (E f = oneForm(op, a, b)) return f;
        }
        break;
    case Op::Or:
        if (a == b) return a;
        if (bc) {
            if (bc->val == 0) return a;
            if (bc->val == m) return b;
            if (a->op == Op::Or && a->k[1]->isConst()) return mkOr(a->k[0], mkConst(a->k[1]->val | bc->val, wa));
            if (wa > 1) {
                int runs = 0; u128 prev = 2;
                for (unsigned i = 0; i < wa; i++) { u128 bit = (bc->val >> i) & 1; if (bit != prev) { runs++; prev = bit; } }
                if (runs <= 5) {
                    E res = nullptr;
                    for (unsigned i = 0; i < wa;) {
                        u128 bit = (bc->val >> i) & 1; unsigned j = i;
                        while (j < wa && ((bc->val >> j) & 1) == bit) j++;
                        E p = bit ? mkConst(~(u128)0, j - i) : mkExtract(a, i, j - i);
                        res = res ? mkConcat(p, res) : p;
                        i = j;
                    }
                    return res;
                }
            }
        } else {
            if (a->op == Op::Xor && a->k[1]->isConst() && a->k[1]->val == m && a->k[0] == b) return mkConst(m, wa);
            if (b->op == Op::Xor && b->k[1]->isConst() && b->k[1]->val == m && b->k[0] == a) return mkConst(m, wa);
            if (a->op == Op::Or && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == Op::Or && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return b;
            if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return a;
            if (wa > 1 && hasZeroSegs(a) && hasZeroSegs(b)) if (E p = pieceWise(Op::Or, a, b)) return p;
            if (E f = oneForm(op, a, b)) return f;
        }
        break;
    case Op::Xor:
        if (a == b) return mkConst(0, wa);
        if (bc) {
            if (bc->val == 0) return a;
            if (a->op == Op::Xor && a->k[1]->isConst()) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->val ^ bc->val, wa));
            if (a->op == Op::Concat) return mkConcat(mkBin(Op::Xor, a->k[0], mkExtract(b, a->k[1]->width, a->k[0]->width)), mkBin(Op::Xor, a->k[1], mkExtract(b, 0, a->k[1]->width)));
        } else {
            if (!gPlainXor && a->op == Op::Xor && a->k[0] == b) return a->k[1];
            if (!gPlainXor && a->op == Op::Xor && a->k[1] == b) return a->k[0];
            if (!gPlainXor && b->op == Op::Xor && b->k[0] == a) return b->k[1];
            if (!gPlainXor && b->op == Op::Xor && b->k[1] == a) return b->k[0];
            if (a->op == Op::Xor && a->k[1]->isConst()) return mkBin(Op::Xor, mkBin(Op::Xor, a->k[0], b), a->k[1]);
            if (b->op == Op::Xor && b->k[1]->isConst()) return mkBin(Op::Xor, mkBin(Op::Xor, a, b->k[0]), b->k[1]);
            if (wa > 1 && hasZeroSegs(a) && hasZeroSegs(b)) if (E p = pieceWise(Op::Xor, a, b)) return p;
            if (E f = oneForm(op, a, b)) return f;
        }
        break;
    case Op::Shl:
        if (bc) {
            if (bc->val == 0) return a;
            if (bc->val >= wa) return mkConst(0, wa);
            unsigned s = (unsigned)bc->val;
            return mkConcat(mkExtract(a, 0, wa - s), mkConst(0, s));
        }
        break;
    case Op::LShr:
        if (bc) {
            if (bc->val == 0) return a;
            if (bc->val >= wa) return mkConst(0, wa);
            unsigned s = (unsigned)bc->val;
            return mkZExt(mkExtract(a, s, wa - s), wa);
        }
        break;
    case Op::AShr:
        if (bc) {
            if (bc->val == 0) return a;
            unsigned s = bc->val >= wa ? wa - 1 : (unsigned)bc->val;
            return mkSExt(mkExtract(a, s, wa - s), wa);
        }
        break;
    case Op::Eq:
        if (a == b) return mkBool(true);
        if (wa == 1) {
            if (bc) return bc->val ? a : mkNot(a);
            return mkNot(mkBin(Op::Xor, a, b));
        }
        if (bc) {
            switch (a->op) {
            case Op::ZExt: {
                unsigned wi = a->k[0]->width;
                if (bc->val > maskOf(wi)) return mkBool(false);
                return mkEq(a->k[0], mkConst(bc->val, wi));
            }
            case Op::SExt: {
                unsigned wi = a->k[0]->width;
                u128 lowv = bc->val & maskOf(wi);
                if (((u128)sextOf(lowv, wi) & m) != bc->val) return mkBool(false);
                return mkEq(a->k[0], mkConst(lowv, wi));
            }
            case Op::Concat: {
                unsigned wl = a->k[1]->width;
                return mkAnd(mkEq(a->k[0], mkConst(bc->val >> wl, a->k[0]->width)), mkEq(a->k[1], mkConst(bc->val, wl)));
            }
            case Op::Add: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(bc->val - a->k[1]->val, wa)); break;
            case Op::Sub:
                if (a->k[0]->isConst()) return mkEq(a->k[1], mkConst(a->k[0]->val - bc->val, wa));
                if (bc->val == 0) return mkEq(a->k[0], a->k[1]);
                break;
            case Op::Xor:
                if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(bc->val ^ a->k[1]->val, wa));
                if (bc->val == 0) return mkEq(a->k[0], a->k[1]);
                break;
            case Op::Or:
                if (bc->val == 0) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
                break;
            case Op::Ite:
                if (a->k[1]->isConst() || a->k[2]->isConst())
                    return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
                break;
            default: break;
            }
            u128 lo, hi; rangeOf(a, lo, hi);
            if (bc->val < lo || bc->val > hi) return mkBool(false);
        } else {
            if (a->op == Op::ZExt && b->op == Op::ZExt) {
                unsigned wi = std::max(a->k[0]->width, b->k[0]->width);
                if (wi < wa) return mkEq(mkZExt(a->k[0], wi), mkZExt(b->k[0], wi));
            }
            if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
            if (a->op == Op::Concat && b->op == Op::Concat && a->k[0]->width == b->k[0]->width)
                return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
            if (a->op == Op::Add && b->op == Op::Add && wa >= 16) {
                std::vector<E> x, y;
                if (withoutCommon(a, b, x, y)) return mkEq(sumOf(x, wa), sumOf(y, wa));
            }
            if (a->op == Op::Add && b->op == Op::Add) {
                if (a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
                if (a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
            }
            if (a->op == Op::Add && a->k[0] == b) return mkEq(a->k[1], mkConst(0, wa));
            if (b->op == Op::Add && b->k[0] == a) return mkEq(b->k[1], mkConst(0, wa));
            u128 lo, hi, l2, h2; rangeOf(a, lo, hi); rangeOf(b, l2, h2);
            if (hi < l2 || h2 < lo) return mkBool(false);
        }
        break;
    case Op::Ult: {
        if (a == b) return mkBool(false);
        u128 lo, hi, l2, h2; rangeOf(a, lo, hi); rangeOf(b, l2, h2);
        if (hi < l2) return mkBool(true);
        if (lo >= h2) return mkBool(false);
        if (bc && bc->val == 1) return mkEq(a, mkConst(0, wa));
        if (a->isConst() && a->val == 0) return mkNe(b, a);
        if (wa == 1) return mkAnd(mkNot(a), b);
        if (bc && a->op == Op::ZExt) {
            unsigned wi = a->k[0]->width;
            if (bc->val > maskOf(wi)) return mkBool(true);
            return mkUlt(a->k[0], mkConst(bc->val, wi));
        }
        if (a->isConst() && b->op == Op::ZExt) {
            unsigned wi = b->k[0]->width;
            if (a->val >= maskOf(wi)) return mkBool(false);
            return mkUlt(mkConst(a->val, wi), b->k[0]);
        }
        if (a->op == Op::ZExt && b->op == Op::ZExt) {
            unsigned wi = std::max(a->k[0]->width, b->k[0]->width);
            return mkUlt(mkZExt(a->k[0], wi), mkZExt(b->k[0], wi));
        }
        break;
    }
    case Op::Slt: {
        if (a == b) return mkBool(false);
        if (wa == 1) return mkAnd(a, mkNot(b));
        u128 lo, hi, l2, h2; rangeOf(a, lo, hi); rangeOf(b, l2, h2);
        u128 half = m >> 1;
        if (hi <= half && h2 <= half) return mkUlt(a, b);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkBin(Op::Slt, a->k[0], b->k[0]);
        if (a->op == Op::SExt && bc) {
            unsigned wi = a->k[0]->width;
            i128 v = sextOf(bc->val, wa), mn = -((i128)1 << (wi - 1)), mx = ((i128)1 << (wi - 1)) - 1;
            if (v > mx) return mkBool(true);
            if (v <= mn) return mkBool(false);
            return mkBin(Op::Slt, a->k[0], mkConst((u128)v, wi));
        }
        if (b->op == Op::SExt && a->isConst()) {
            unsigned wi = b->k[0]->width;
            i128 v = sextOf(a->val, wa), mn = -((i128)1 << (wi - 1)), mx = ((i128)1 << (wi - 1)) - 1;
            if (v >= mx) return mkBool(false);
            if (v < mn) return mkBool(true);
            return mkBin(Op::Slt, mkConst((u128)v, wi), b->k[0]);
        }
        break;
    }
    default: break;
    }
    return intern(op, w, 0, 0, a, b);
}

// ---------------------------------------------------------------- evaluation
static u64 epoch = 1;
void newEvalEpoch() { epoch++; }
u128 evalFresh(E e, const Model& m) { epoch++; return evalExpr(e, m); }
u128 evalExpr(E e, const Model& m) {
    if (e->op == Op::Const) return e->val;
    if (e->op == Op::Var) return m.get(e->aux) & (u64)maskOf(e->width);
    if (e->evEpoch == epoch) return e->evVal;
    u128 r;
    switch (e->op) {
    case Op::Ite: r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m); break;
    case Op::Concat: r = (evalExpr(e->k[0], m) << e->k[1]->width) | evalExpr(e->k[1], m); break;
    case Op::Extract: r = (evalExpr(e->k[0], m) >> e->aux) & maskOf(e->width); break;
    case Op::ZExt: r = evalExpr(e->k[0], m); break;
    case Op::SExt: r = (u128)sextOf(evalExpr(e->k[0], m), e->k[0]->width) & maskOf(e->width); break;
    default:
        if (e->op >= Op::FAdd) r = foldFp(e->op, e->width, e->aux, e->k[0]->width, evalExpr(e->k[0], m), e->k[1] ? evalExpr(e->k[1], m) : 0);
        else r = foldOp(e->op, e->width, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->width);
    }
    e->evEpoch = epoch; e->evVal = r;
    return r;
}

struct VecHash { size_t operator()(const std::vector<u32>& v) const { size_t h = 17; for (u32 x : v) h = h * 1000003 + x; return h; } };
static std::unordered_set<std::vector<u32>, VecHash> supPool;
const std::vector<u32>& supportOf(E e) {
    if (e->sup) return *e->sup;
    // iterative post-order to avoid deep recursion
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back();
        if (x->sup) { st.pop_back(); continue; }
        bool ready = true;
        for (E k : x->k) if (k && !k->sup) { st.push_back(k); ready = false; }
        if (!ready) continue;
        std::vector<u32> r;
        if (x->op == Op::Var) r.push_back(x->aux);
        else {
            const std::vector<u32>* only = nullptr; bool multi = false;
            for (E k : x->k) if (k && !k->sup->empty()) { if (!only) only = k->sup; else if (only != k->sup) multi = true; }
            if (only && !multi) { x->sup = only; st.pop_back(); continue; }
            for (E k : x->k) if (k) { std::vector<u32> t; std::set_union(r.begin(), r.end(), k->sup->begin(), k->sup->end(), std::back_inserter(t)); r.swap(t); }
        }
        x->sup = &*supPool.insert(std::move(r)).first;
        st.pop_back();
    }
    return *e->sup;
}

static std::unordered_map<u32, Bits256> tts;
const Bits256& truthTable(E e) {
    auto it = tts.find(e->id);
    if (it != tts.end()) return it->second;
    u32 var = supportOf(e)[0];
    unsigned w = gVars[var].width;
    Model m; m.v.assign(var + 1, 0);
    Bits256 r{};
    for (u32 v = 0; v < (1u << w); v++) {
        m.v[var] = v;
        epoch++;
        if (evalExpr(e, m)) r[v >> 6] |= 1ull << (v & 63);
    }
    epoch++;
    return tts[e->id] = r;
}

std::string show(E e, int depth) {
    static const char* names[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "concat", "extract", "zext", "sext", "ite", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "funo", "fptosi", "fptoui", "sitofp", "uitofp", "fpconv", "fround"};
    if (e->isConst()) { char b[64]; snprintf(b, sizeof b, "%llx:%u", (unsigned long long)e->val, e->width); return b; }
    if (e->op == Op::Var) return gVars[e->aux].name;
    if (!depth) return "...";
    std::string s = std::string("(") + names[(int)e->op];
    if (e->op == Op::Extract) s += "[" + std::to_string(e->aux + e->width - 1) + ":" + std::to_string(e->aux) + "]";
    for (E k : e->k) if (k) s += " " + show(k, depth - 1);
    return s + ")";
}
