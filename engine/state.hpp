#pragma once
#include "kmodule.hpp"
#include "solver.hpp"

struct Frame {
    u32 rc = 0;
    KFunc* f = nullptr;
    int pc = 0;
    int bb = 0;
    std::vector<Val> regs;
    std::vector<u32> allocas;
    std::vector<Val> varargs;
    bool discard = false; // result is dropped and control returns to the instruction at the caller's pc
};
struct Exc {
    u64 ptr = 0, type = 0, dtor = 0, adj = 0;
    int handlers = 0; // handlerCount
    bool rethrown = false, uncaught = true;
};
struct Input { std::string name; std::vector<Val> bytes; };
struct Obs { std::string name; std::vector<Val> bytes; };

struct State {
    ObjTable objs;
    std::vector<Ref<Frame>> stack;
    PathCond pc;
    Model model;
    std::vector<Exc> excs;
    std::vector<u64> caught;
    std::vector<Input> inputs;
    std::vector<Obs> obs;
    std::vector<std::string> tags;
    std::vector<std::string> notes;
    u64 steps = 0;
    u64 allocLimit = 0;
    u64 heapLive = 0;
    u64 heapBytes = 0;
    u32 depthForks = 0;
    u32 asserts = 0;
    std::unordered_map<u64, u64> guards;
    Frame* top() { return stack.back().own(); }
};
