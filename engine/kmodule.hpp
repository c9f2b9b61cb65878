// LLVM module pre-translated for interpretation.
#pragma once
#include "mem.hpp"
#include <functional>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>

struct Val {
    u64 c = 0;
    E e = nullptr;
    Val() = default;
    Val(u64 x) : c(x) {}
    Val(int x) : c((u64)x) {}
    Val(E x) { if (x->isConst() && x->width <= 64) c = x->c64(); else e = x; }
    bool conc() const { return !e; }
};
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct Field { u32 off; u16 w; }; // flattened scalar: byte offset, bit width
struct TypeInfoFlat { std::vector<Field> f; u64 size = 0; };

struct KFunc;
struct State;
struct KInst;
using Builtin = void (*)(State&, KInst&, std::vector<Val>&);

struct KInst {
    const llvm::Instruction* I = nullptr;
    unsigned op = 0;
    int dest = -1;
    unsigned w = 0;      // result scalar width
    unsigned w0 = 0;     // width of operand 0
    unsigned n = 1;      // number of elements (vectors)
    std::vector<int> ops;
    const TypeInfoFlat* ty = nullptr; // loads, stores, allocas
    u64 imm = 0;                      // alloca elem size / GEP constant offset / extractvalue slot
    u64 imm2 = 0;
    std::vector<std::pair<int, u64>> gep; // operand, scale
    std::vector<u16> gepW;
    std::vector<int> targets;             // successor blocks
    std::vector<u64> cases;
    // calls
    KFunc* callee = nullptr;
    Builtin bi = nullptr;
    std::string biName;
    std::vector<u16> argSlots;
    std::vector<u16> argW; // scalar width of each slot
    std::vector<u64> byval;
    bool invoke = false;
    KFunc* fn = nullptr;
};
struct KPhi { int dest; unsigned slots; std::vector<std::pair<int, int>> in; }; // (block, operand)
struct KBlock { int start = 0; bool executed = false; std::vector<KPhi> phis; };
struct KFunc {
    llvm::Function* F = nullptr;
    std::string name; // demangled
    u32 objId = 0;
    bool translated = false;
    bool executed = false;
    std::vector<KInst> insts;
    std::vector<KBlock> blocks;
    std::vector<Val> consts;
    int nregs = 0;
    std::vector<int> argReg;
    bool stub = false;
};
