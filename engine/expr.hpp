// Bit-vector expression DAG: hash-consed, simplified on construction.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
using u64 = uint64_t;
using u32 = uint32_t;
using u16 = uint16_t;

enum class Op : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Concat, Extract, ZExt, SExt, Ite,
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FUno, FPToSI, FPToUI, SIToFP, UIToFP, FPConv, FRound
};

struct Expr {
    Op op;
    uint16_t width;
    u32 id;
    u32 aux;       // Extract: low bit; Var: variable index
    u32 hash;
    u128 val;      // Const
    const Expr* k[3];
    mutable u64 evEpoch = 0;
    mutable u128 evVal = 0;
    mutable const std::vector<u32>* sup = nullptr;
    mutable u128 rlo = 0, rhi = 0;
    mutable bool rangeDone = false;
    mutable u32 nodes = 0; // saturating tree size estimate
    bool isConst() const { return op == Op::Const; }
    u64 c64() const { return (u64)val; }
};
using E = const Expr*;

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextOf(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskOf(w);
    return (i128)((v ^ s) - s);
}

struct VarInfo { std::string name; unsigned width; E node; };
extern std::vector<VarInfo> gVars;
extern bool gPlainXor; // leave x ^ y ^ y to the solver


E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFp(Op op, E a, E b, unsigned w, u32 aux = 0);
inline E mkBool(bool b) { return mkConst(b, 1); }
inline E mkNot(E a) { return mkBin(Op::Xor, a, mkConst(maskOf(a->width), a->width)); }
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
inline E mkUlt(E a, E b) { return mkBin(Op::Ult, a, b); }
inline E mkUle(E a, E b) { return mkNot(mkBin(Op::Ult, b, a)); }
inline E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }
inline bool isTrue(E e) { return e->isConst() && e->val != 0; }
inline bool isFalse(E e) { return e->isConst() && e->val == 0; }

// a partial assignment; unassigned variables read as 0
struct Model { std::vector<u64> v; u64 get(u32 i) const { return i < v.size() ? v[i] : 0; } };
void newEvalEpoch();
u128 evalExpr(E e, const Model& m);          // within the current epoch
u128 evalFresh(E e, const Model& m);         // starts a new epoch
const std::vector<u32>& supportOf(E e);
void rangeOf(E e, u128& lo, u128& hi);
using Bits256 = std::array<u64, 4>;
// truth table of a width-1 expression over its single variable (width <= 8)
const Bits256& truthTable(E e);
u128 foldOp(Op op, unsigned w, u128 a, u128 b, unsigned wa);
u128 foldFp(Op op, unsigned w, u32 aux, unsigned wa, u128 a, u128 b);
size_t exprCount();
E exprById(u32 id);
std::string show(E e, int depth = 6);
