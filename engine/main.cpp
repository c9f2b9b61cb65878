// wfsym prep IN.bc RUNTIME.bc -o OUT.bc         link, stub, internalise, optimise
// wfsym run OUT.bc --entry h_x --out DIR ...     explore one entry point
#include "exec.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

static std::unique_ptr<Module> loadIR(const std::string& p, LLVMContext& c) {
    SMDiagnostic err;
    auto m = parseIRFile(p, err, c);
    if (!m) { err.print("wfsym", errs()); exit(3); }
    return m;
}

static int prep(int argc, char** argv) {
    std::string in = argv[2], rt = argv[3], out = argv[5], streams = argc > 7 ? argv[7] : ""; // --streams FILE: execute streams with this runtime
    LLVMContext ctx;
    auto m = loadIR(in, ctx);
    auto r = loadIR(rt, ctx);
    // stub the bodies that only produce log text
    std::vector<std::pair<Function*, int>> todo;
    for (auto& F : *m) {
        if (F.isDeclaration()) continue;
        std::string d = demangle(F.getName().str());
        std::string head = d.substr(0, d.find('('));
        if (d.find("webfront::utils::hexDump<") != std::string::npos && head.find("hexDump") != std::string::npos && head.find("lambda") == std::string::npos && d.compare(0, 20, "std::__cxx11::basic_") == 0) todo.push_back({&F, 1});
        else if (d.find("std::formatter<std::chrono::time_point<") != std::string::npos && d.find(">::format<") != std::string::npos && F.getReturnType()->isPointerTy() && F.arg_size() == 3) todo.push_back({&F, 2});
        else if (d.find("webfront") == std::string::npos && (head.find("operator<<") != std::string::npos || head.find("std::endl") != std::string::npos || head.find("std::flush") != std::string::npos) && d.find("basic_ostream<char") != std::string::npos) todo.push_back({&F, 3});
    }
    for (auto& [F, k] : todo) {
        if (k != 2 && !streams.empty()) continue;
        if (k == 1) {
            F->deleteBody(); F->setLinkage(GlobalValue::InternalLinkage); F->setComdat(nullptr);
            auto* bb = BasicBlock::Create(ctx, "", F);
            IRBuilder<> b(bb);
            auto fn = m->getOrInsertFunction("__vf_empty_string", FunctionType::get(Type::getVoidTy(ctx), {PointerType::get(ctx, 0)}, false));
            b.CreateCall(fn, {F->getArg(0)});
            b.CreateRetVoid();
        } else if (k == 2) { // a formatted time point prints as nothing: return ctx.out()
            F->deleteBody(); F->setLinkage(GlobalValue::InternalLinkage); F->setComdat(nullptr);
            auto* bb = BasicBlock::Create(ctx, "", F);
            IRBuilder<> b(bb);
            b.CreateRet(b.CreateLoad(PointerType::get(ctx, 0), b.CreateConstGEP1_64(b.getInt8Ty(), F->getArg(2), 16)));
        }
        else {
            F->deleteBody(); F->setLinkage(GlobalValue::InternalLinkage); F->setComdat(nullptr);
            auto* bb = BasicBlock::Create(ctx, "", F);
            IRBuilder<> b(bb);
            b.CreateRet(F->getArg(0));
        }
    }
    if (!streams.empty() && Linker::linkModules(*m, loadIR(streams, ctx))) { errs() << "link failed\n"; return 3; }
    if (Linker::linkModules(*m, std::move(r))) { errs() << "link failed\n"; return 3; }
    // entries and runtime hooks stay external
    internalizeModule(*m, [](const GlobalValue& g) {
        StringRef n = g.getName();
        return n.starts_with("h_") || n.starts_with("__vf_") || n.starts_with("llvm.");
    });
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    PipelineTuningOptions pto;
    pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopInterleaving = false; pto.LoopUnrolling = false;
    PassBuilder pb(nullptr, pto);
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager pre; pre.addPass(GlobalDCEPass()); pre.run(*m, mam);
    auto mpm = pb.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    mpm.run(*m, mam);
    if (verifyModule(*m, &errs())) return 3;
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*m, os);
    os.flush();
    return 0;
}

int main(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: wfsym prep|run ...\n"); return 3; }
    if (std::string(argv[1]) == "prep") return prep(argc, argv);
    std::string bc = argv[2];
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") gCfg.entry = nx();
        else if (a == "--out") gCfg.outDir = nx();
        else if (a == "--workers") gCfg.workers = std::stoi(nx());
        else if (a == "--time") gCfg.timeS = std::stod(nx());
        else if (a == "--steps") gCfg.maxSteps = std::stoull(nx());
        else if (a == "--viol") gCfg.maxViol = std::stoi(nx());
        else if (a == "--seed") gCfg.seed = std::stoull(nx());
        else if (a == "--samples") gCfg.maxSamples = std::stoi(nx());
        else if (a == "--query-ms") gTimeoutMs = (unsigned)std::stoul(nx());
        else if (a == "--dump") { gDumpDir = nx(); }
        else if (a == "-P") { std::string p = nx(); auto e = p.find('='); gCfg.params[p.substr(0, e)] = std::stol(p.substr(e + 1)); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    gPlainXor = !gCfg.params.count("foldxor");
    rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 29) && !getenv("WFSYM_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30);
        if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("WFSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
    }
    gSh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::filesystem::create_directories(gCfg.outDir);
    static LLVMContext ctx;
    X.load(loadIR(bc, ctx));
    int rc = X.run();
    fflush(stdout); fflush(stderr);
    _exit(rc);
}
