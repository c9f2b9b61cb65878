#pragma once
#include "state.hpp"
#include <deque>
#include <set>

struct PathEnd { std::string kind, msg; }; // thrown to end a path

struct Shared { // shared between worker processes
    volatile int active;
    volatile int stop;
    volatile u64 paths, forks, insts, violations, samples, steps;
    volatile int nextId;
};
extern Shared* gSh;

struct Config {
    std::string entry, outDir;
    int workers = 8;
    double timeS = 60;
    u64 maxSteps = 20000000;
    u64 maxPathForks = 100000;
    int maxViol = 3;
    int maxSamples = 48;
    u64 maxEnum = 600;
    u64 seed = 1;
    bool verbose = false;
    std::map<std::string, long> params;
};
extern Config gCfg;

class Exec {
public:
    std::unique_ptr<llvm::Module> M;
    const llvm::DataLayout* DL = nullptr;
    std::unordered_map<const llvm::Function*, KFunc*> funcs;
    std::vector<KFunc*> byObj;
    std::unordered_map<const llvm::GlobalValue*, u32> gobj;
    std::unordered_map<std::string, u32> gobjByName;
    std::unordered_map<const llvm::Type*, TypeInfoFlat*> flats;
    std::unordered_map<u32, std::string> objName;
    State* base = nullptr;
    std::deque<State*> work;
    State* cur = nullptr;

    void load(std::unique_ptr<llvm::Module> m);
    int run();

    // --- services used by builtins
    bool decide(State& s, E c);
    u64 concretize(State& s, Val v, unsigned w, const char* what);
    struct Loc { u32 id; Val off; };
    Loc resolve(State& s, const Val& ptr, u64 size, bool write, const char* what);
    Val readBytes(State& s, const Loc& l, unsigned nbytes);
    void writeBytes(State& s, const Loc& l, const Val& v, unsigned nbytes);
    Val readByteAt(State& s, Obj* o, u32 id, u64 off);
    void readBuf(State& s, const Val& ptr, u64 n, std::vector<Val>& out, const char* what);
    void writeBuf(State& s, const Val& ptr, const std::vector<Val>& v, const char* what);
    std::string readCStr(State& s, const Val& ptr);
    u64 alloc(State& s, u64 size, OK kind, bool init);
    void freeHeap(State& s, const Val& p, const char* what);
    [[noreturn]] void violation(State& s, const std::string& kind, const std::string& msg);
    void report(State& s, const std::string& kind, const std::string& msg, const Model& m);
    void pushCall(State& s, KFunc* f, const std::vector<Val>& args, bool discard);
    void throwExc(State& s, u64 ptr, bool popFirst);
    void setResult(State& s, const Val& v);
    KFunc* funcByName(const std::string& mangled);
    std::string where(State& s, int depth = 6);
    const TypeInfoFlat& flat(llvm::Type* t);
    bool typeMatches(u64 thrown, u64 want, u64 obj, u64& adj);
    struct Base { u64 ti; i128 off; bool isPublic; bool isVirtual; };
    std::vector<Base> bases(u64 ti);
    void translate(KFunc* f);
    void dynCast(State& s, std::vector<Val>& a);

private:
    void initGlobals();
    void writeConst(Obj* o, u64 off, const llvm::Constant* c);
    void evalConst(const llvm::Constant* c, std::vector<Val>& out);
    int operand(KFunc* f, const llvm::Value* v, std::unordered_map<const llvm::Value*, int>& regs);
    void loop(State& s);
    void enterBlock(Frame& f, int bb);
    void finish(State& s, const PathEnd& e);
    void trySplit();
    void doCall(State& s, KInst& I);
    void ret(State& s, std::vector<Val>& v);
    void worker(bool root);
    std::vector<std::string> results;
    std::vector<pid_t> children;
};
extern Exec X;
Builtin findBuiltin(const std::string& name, KInst& I);
std::string jsonEsc(const std::string& s);
