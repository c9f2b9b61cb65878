#include "exec.hpp"
#include <algorithm>
#include <chrono>
#include <fstream>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
Exec X;
Shared* gSh;
Config gCfg;
static auto T0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

std::string jsonEsc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

// ------------------------------------------------------------ types and constants
const TypeInfoFlat& Exec::flat(Type* t) {
    auto it = flats.find(t);
    if (it != flats.end()) return *it->second;
    auto* r = new TypeInfoFlat;
    std::function<void(Type*, u64)> rec = [&](Type* x, u64 off) {
        if (x->isIntegerTy()) r->f.push_back({(u32)off, (u16)x->getIntegerBitWidth()});
        else if (x->isPointerTy()) r->f.push_back({(u32)off, 64});
        else if (x->isDoubleTy()) r->f.push_back({(u32)off, 64});
        else if (x->isFloatTy()) r->f.push_back({(u32)off, 32});
        else if (x->isX86_FP80Ty()) r->f.push_back({(u32)off, 80});
        else if (auto* a = dyn_cast<ArrayType>(x)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) rec(a->getElementType(), off + i * sz); }
        else if (auto* v = dyn_cast<FixedVectorType>(x)) { u64 bits = DL->getTypeSizeInBits(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) rec(v->getElementType(), off + i * bits / 8); }
        else if (auto* st = dyn_cast<StructType>(x)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), off + sl->getElementOffset(i)); }
        else if (x->isVoidTy() || x->isLabelTy() || x->isMetadataTy() || x->isTokenTy()) {}
        else { std::string s; raw_string_ostream os(s); x->print(os); fprintf(stderr, "wfsym: unsupported type %s\n", s.c_str()); }
    };
    rec(t, 0);
    r->size = t->isSized() ? (u64)DL->getTypeStoreSize(t) : 0;
    flats[t] = r;
    return *r;
}
static unsigned scalarW(Type* t) {
    t = t->getScalarType();
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy() || t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}

static Val apVal(const APInt& a) {
    unsigned w = a.getBitWidth();
    if (w <= 64) return Val(a.getZExtValue());
    if (w > 128) throw PathEnd{"unsupported", "integer wider than 128 bits"};
    u128 v = ((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0);
    return Val(mkConst(v, w));
}

void Exec::evalConst(const Constant* c, std::vector<Val>& out) {
    if (auto* i = dyn_cast<ConstantInt>(c)) { out.push_back(apVal(i->getValue())); return; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { out.push_back(apVal(f->getValueAPF().bitcastToAPInt())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(Val(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        auto& fl = flat(c->getType());
        for (auto& x : fl.f) out.push_back(x.w > 64 ? Val(mkConst(0, x.w)) : Val(0));
        return;
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) {
        if (auto* al = dyn_cast<GlobalAlias>(g)) { evalConst(al->getAliasee(), out); return; }
        auto it = gobj.find(g);
        if (it == gobj.end()) { fprintf(stderr, "wfsym: unknown global %s\n", g->getName().str().c_str()); out.push_back(Val(0)); return; }
        out.push_back(Val(addrOf(it->second)));
        return;
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < d->getNumElements(); i++) evalConst(d->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < c->getNumOperands(); i++) evalConst(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        std::vector<Val> a;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            evalConst(ce->getOperand(0), a);
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
            out.push_back(Val(a[0].c + (u64)off.getSExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            evalConst(ce->getOperand(0), out); return;
        case Instruction::PtrToInt: {
            evalConst(ce->getOperand(0), a);
            unsigned w = ce->getType()->getIntegerBitWidth();
            out.push_back(Val(w < 64 ? a[0].c & (u64)maskOf(w) : a[0].c)); return;
        }
        case Instruction::Trunc: {
            evalConst(ce->getOperand(0), a);
            out.push_back(Val(a[0].c & (u64)maskOf(ce->getType()->getIntegerBitWidth()))); return;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: case Instruction::And: {
            evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), a);
            Op o = ce->getOpcode() == Instruction::Add ? Op::Add : ce->getOpcode() == Instruction::Sub ? Op::Sub : ce->getOpcode() == Instruction::Mul ? Op::Mul : ce->getOpcode() == Instruction::Xor ? Op::Xor : Op::And;
            unsigned w = ce->getType()->getIntegerBitWidth();
            out.push_back(Val((u64)foldOp(o, w, a[0].c, a[1].c, w))); return;
        }
        case Instruction::ICmp: {
            evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), a);
            bool r = ce->getPredicate() == CmpInst::ICMP_EQ ? a[0].c == a[1].c : ce->getPredicate() == CmpInst::ICMP_NE ? a[0].c != a[1].c : false;
            out.push_back(Val((u64)r)); return;
        }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "wfsym: unsupported constant %s\n", s.c_str());
    auto& fl = flat(c->getType());
    for (size_t i = 0; i < fl.f.size(); i++) out.push_back(Val(0));
}

void Exec::writeConst(Obj* o, u64 off, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = d->getRawDataValues();
        for (u64 i = 0; i < raw.size(); i++) o->ch[(off + i) / CH].own()->setConc((off + i) % CH, (uint8_t)raw[i]);
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        u64 sz = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); i++) writeConst(o, off + i * sz, a->getOperand(i));
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), s->getOperand(i));
        return;
    }
    std::vector<Val> v;
    evalConst(c, v);
    auto& fl = flat(c->getType());
    for (size_t i = 0; i < fl.f.size(); i++) {
        unsigned nb = (fl.f[i].w + 7) / 8;
        u128 val = v[i].e ? v[i].e->val : v[i].c;
        for (unsigned k = 0; k < nb; k++) { u64 p = off + fl.f[i].off + k; o->ch[p / CH].own()->setConc(p % CH, (uint8_t)(val >> (8 * k))); }
    }
}

void Exec::load(std::unique_ptr<Module> m) {
    M = std::move(m);
    DL = &M->getDataLayout();
    base = new State;
    base->objs.add(nullptr); // id 0: null
    byObj.push_back(nullptr);
    for (auto& F : *M) {
        auto* k = new KFunc;
        k->F = &F;
        k->name = demangle(F.getName().str());
        Obj* o = Obj::make(0, OK::Func, true);
        k->objId = base->objs.add(o);
        byObj.resize(base->objs.n, nullptr);
        byObj[k->objId] = k;
        funcs[&F] = k;
        gobj[&F] = k->objId;
    }
    for (auto& G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
        if (!G.hasInitializer()) sz = std::max<u64>(sz, 512);
        bool cst = G.isConstant();
        u32 id = base->objs.add(Obj::make(sz, cst ? OK::Const : OK::Global, true));
        gobj[&G] = id;
        gobjByName[G.getName().str()] = id;
        objName[id] = demangle(G.getName().str());
    }
    for (auto& A : M->aliases())
        if (auto* F = dyn_cast<Function>(A.getAliaseeObject())) { gobj[&A] = gobj[F]; }
    byObj.resize(base->objs.n, nullptr);
    for (auto& G : M->globals())
        if (G.hasInitializer()) writeConst(base->objs.own(gobj[&G]), 0, G.getInitializer());
}

KFunc* Exec::funcByName(const std::string& n) {
    auto* F = M->getFunction(n);
    return F ? funcs[F] : nullptr;
}

// ------------------------------------------------------------ translation
int Exec::operand(KFunc* f, const Value* v, std::unordered_map<const Value*, int>& regs) {
    auto it = regs.find(v);
    if (it != regs.end()) return it->second;
    if (auto* c = dyn_cast<Constant>(v)) {
        std::vector<Val> vals;
        evalConst(c, vals);
        int idx = (int)f->consts.size();
        for (auto& x : vals) f->consts.push_back(x);
        if (vals.empty()) f->consts.push_back(Val(0));
        int r = -1 - idx;
        regs[v] = r;
        return r;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1 - (int)(f->consts.push_back(Val(0)), f->consts.size() - 1);
    fprintf(stderr, "wfsym: operand without register\n");
    abort();
}

void Exec::translate(KFunc* f) {
    f->translated = true;
    Function& F = *f->F;
    std::unordered_map<const Value*, int> regs;
    std::unordered_map<const BasicBlock*, int> bbs;
    int nr = 0;
    for (auto& A : F.args()) { regs[&A] = nr; f->argReg.push_back(nr); nr += std::max<int>(1, (int)flat(A.getType()).f.size()); }
    int nb = 0;
    for (auto& B : F) {
        bbs[&B] = nb++;
        for (auto& I : B)
            if (!I.getType()->isVoidTy()) { regs[&I] = nr; nr += std::max<int>(1, (int)flat(I.getType()).f.size()); }
    }
    f->nregs = nr;
    f->blocks.resize(nb);
    for (auto& B : F) {
        KBlock& kb = f->blocks[bbs[&B]];
        kb.start = (int)f->insts.size();
        for (auto& I : B) {
            if (auto* P = dyn_cast<PHINode>(&I)) {
                KPhi p;
                p.dest = regs[P];
                p.slots = (unsigned)std::max<size_t>(1, flat(P->getType()).f.size());
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++) p.in.push_back({bbs[P->getIncomingBlock(i)], operand(f, P->getIncomingValue(i), regs)});
                kb.phis.push_back(std::move(p));
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
                switch (II->getIntrinsicID()) {
                case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing:
                    if (II->getType()->isVoidTy()) continue;
                    break;
                default: break;
                }
            }
            KInst k;
            k.I = &I; k.op = I.getOpcode(); k.fn = f;
            if (!I.getType()->isVoidTy()) { k.dest = regs[&I]; k.w = scalarW(I.getType()); }
            if (auto* V = dyn_cast<FixedVectorType>(I.getType())) k.n = V->getNumElements();
            if (I.getNumOperands() && !isa<CallBase>(I)) {
                k.w0 = scalarW(I.getOperand(0)->getType());
                if (auto* V = dyn_cast<FixedVectorType>(I.getOperand(0)->getType())) if (isa<CmpInst>(I) || isa<ExtractElementInst>(I) || isa<ShuffleVectorInst>(I) || isa<CastInst>(I)) k.imm2 = V->getNumElements();
            }
            auto addOps = [&] { for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) k.ops.push_back(operand(f, o, regs)); };
            switch (k.op) {
            case Instruction::Br: case Instruction::Switch:
                addOps();
                for (unsigned i = 0; i < I.getNumSuccessors(); i++) k.targets.push_back(bbs[I.getSuccessor(i)]);
                if (auto* S = dyn_cast<SwitchInst>(&I)) {
                    k.ops.resize(1);
                    k.targets.clear();
                    k.targets.push_back(bbs[S->getDefaultDest()]);
                    for (auto& c : S->cases()) { k.cases.push_back(c.getCaseValue()->getZExtValue()); k.targets.push_back(bbs[c.getCaseSuccessor()]); }
                }
                break;
            case Instruction::GetElementPtr: {
                auto* G = cast<GetElementPtrInst>(&I);
                k.ops.push_back(operand(f, G->getPointerOperand(), regs));
                u64 off = 0;
                for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
                    Value* idx = gti.getOperand();
                    if (auto* st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) off += (u64)ci->getSExtValue() * sz;
                    else { k.gep.push_back({operand(f, idx, regs), sz}); k.gepW.push_back((u16)scalarW(idx->getType())); }
                }
                k.imm = off;
                break;
            }
            case Instruction::Load: addOps(); k.ty = &flat(I.getType()); break;
            case Instruction::Store: addOps(); k.ty = &flat(I.getOperand(0)->getType()); break;
            case Instruction::Alloca: addOps(); k.imm = DL->getTypeAllocSize(cast<AllocaInst>(&I)->getAllocatedType()); k.w0 = scalarW(I.getOperand(0)->getType()); break;
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                addOps();
                Type* agg = I.getOperand(0)->getType();
                ArrayRef<unsigned> idx = isa<ExtractValueInst>(I) ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
                u64 slot = 0;
                for (unsigned i : idx) {
                    if (auto* st = dyn_cast<StructType>(agg)) { for (unsigned j = 0; j < i; j++) slot += flat(st->getElementType(j)).f.size(); agg = st->getElementType(i); }
                    else { auto* at = cast<ArrayType>(agg); slot += i * flat(at->getElementType()).f.size(); agg = at->getElementType(); }
                }
                k.imm = slot; k.n = (unsigned)flat(agg).f.size(); k.imm2 = flat(I.getOperand(0)->getType()).f.size();
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto& C = cast<CallBase>(I);
                k.invoke = k.op == Instruction::Invoke;
                if (k.invoke) { k.targets.push_back(bbs[cast<InvokeInst>(I).getNormalDest()]); k.targets.push_back(bbs[cast<InvokeInst>(I).getUnwindDest()]); }
                for (unsigned i = 0; i < C.arg_size(); i++) {
                    Value* a = C.getArgOperand(i);
                    k.ops.push_back(operand(f, a, regs));
                    auto& fl = flat(a->getType());
                    k.argSlots.push_back((u16)std::max<size_t>(1, fl.f.size()));
                    if (fl.f.empty()) k.argW.push_back(64);
                    for (auto& x : fl.f) k.argW.push_back(x.w);
                    k.byval.push_back(C.isByValArgument(i) ? (u64)DL->getTypeAllocSize(C.getParamByValType(i)) : 0);
                }
                Value* cv = C.getCalledOperand()->stripPointerCastsAndAliases();
                k.imm2 = I.getType()->isVoidTy() ? 0 : flat(I.getType()).f.size();
                if (auto* T = dyn_cast<Function>(cv)) {
                    k.biName = T->getName().str();
                    k.bi = findBuiltin(k.biName, k);
                    if (!k.bi) k.callee = funcs[T];
                } else if (isa<InlineAsm>(cv)) { k.biName = "inline asm"; k.bi = findBuiltin("__inline_asm", k); }
                else k.imm = (u64)(int64_t)operand(f, C.getCalledOperand(), regs), k.biName = "*";
                break;
            }
            case Instruction::LandingPad: break;
            default: addOps();
            }
            if (k.op == Instruction::Ret && k.ops.size()) k.n = (unsigned)flat(I.getOperand(0)->getType()).f.size();
            if (k.op == Instruction::Select) { k.ty = &flat(I.getType()); k.n = (unsigned)k.ty->f.size(); k.imm2 = I.getOperand(0)->getType()->isVectorTy(); }
            if (k.op == Instruction::Freeze) { k.n = (unsigned)flat(I.getType()).f.size(); }
            f->insts.push_back(std::move(k));
        }
    }
}

// ------------------------------------------------------------ decisions and forking
static std::string valStr(const Val& v) { if (v.e) return show(v.e, 4); char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v.c); return b; }

std::string Exec::where(State& s, int depth) {
    std::string r;
    for (size_t i = s.stack.size(); i-- > 0 && depth > 0;) {
        Frame* f = s.stack[i].get();
        if (f->pc >= (int)f->f->insts.size()) continue;
        const Instruction* I = f->f->insts[f->pc].I;
        std::string loc;
        if (auto& d = I->getDebugLoc()) {
            loc = d->getFilename().str();
            size_t p = loc.rfind('/');
            if (p != std::string::npos) loc = loc.substr(p + 1);
            loc += ":" + std::to_string(d.getLine());
        }
        std::string n = f->f->name;
        size_t p = n.find('(');
        if (n.size() > 90) n = n.substr(0, 90);
        (void)p;
        if (!r.empty()) r += " <- ";
        r += n + (loc.empty() ? "" : " @" + loc);
        depth--;
    }
    return r;
}

static bool known(const PathCond& pc, E c, bool& val) {
    E n = mkNot(c);
    size_t cnt = 0;
    for (size_t i = pc.cons.size(); i-- > 0 && cnt < 400; cnt++) {
        if (pc.cons[i] == c) { val = true; return true; }
        if (pc.cons[i] == n) { val = false; return true; }
    }
    return false;
}

bool Exec::decide(State& s, E c) {
    if (c->isConst()) return c->val != 0;
    bool kv;
    if (known(s.pc, c, kv)) return kv;
    bool cv = evalFresh(c, s.model) != 0;
    E mine = cv ? c : mkNot(c), other = cv ? mkNot(c) : c;
    Model m2 = s.model;
    R r = solve(s.pc, other, m2);
    if (r == R::Unsat) return cv;
    if (r == R::Unknown) { s.notes.push_back("solver unknown on branch"); throw PathEnd{"unknown", "solver gave no answer for a branch at " + where(s, 3)}; }
    State* t = new State(s);
    t->model = std::move(m2);
    bool ok = t->pc.add(other);
    t->depthForks++;
    if (ok) { work.push_back(t); __sync_fetch_and_add(&gSh->forks, 1); }
    else delete t;
    if (!s.pc.add(mine)) throw PathEnd{"infeasible", ""};
    s.depthForks++;
    if (s.depthForks > gCfg.maxPathForks) throw PathEnd{"limit", "fork limit"};
    return cv;
}

u64 Exec::concretize(State& s, Val v, unsigned w, const char* what) {
    if (v.conc()) return v.c;
    u64 x = (u64)evalFresh(v.e, s.model);
    E c = mkEq(v.e, mkConst(x, w));
    decide(s, c); // the clone (if any) takes another value when it re-executes
    (void)what;
    return x;
}

void Exec::report(State& s, const std::string& kind, const std::string& msg, const Model& m) {
    std::string j = "{\"type\":\"violation\",\"kind\":\"" + jsonEsc(kind) + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"where\":\"" + jsonEsc(where(s)) + "\",\"inputs\":[";
    newEvalEpoch();
    bool first = true;
    for (auto& in : s.inputs) {
        if (!first) j += ",";
        first = false;
        j += "[\"" + jsonEsc(in.name) + "\",\"";
        for (auto& b : in.bytes) { char h[4]; snprintf(h, sizeof h, "%02x", (unsigned)(b.e ? (u64)evalExpr(b.e, m) : b.c) & 255); j += h; }
        j += "\"]";
    }
    j += "],\"tags\":[";
    for (size_t i = 0; i < s.tags.size(); i++) j += (i ? ",\"" : "\"") + jsonEsc(s.tags[i]) + "\"";
    j += "]}";
    results.push_back(j);
    if ((int)__sync_add_and_fetch(&gSh->violations, 1) >= gCfg.maxViol) gSh->stop = 1;
}
void Exec::violation(State& s, const std::string& kind, const std::string& msg) {
    report(s, kind, msg, s.model);
    throw PathEnd{"violation", kind};
}

// ------------------------------------------------------------ memory
u64 Exec::alloc(State& s, u64 size, OK kind, bool init) { return addrOf(s.objs.add(Obj::make(size, kind, init))); }

Exec::Loc Exec::resolve(State& s, const Val& ptr, u64 size, bool write, const char* what) {
    u64 a = ptr.conc() ? ptr.c : (u64)evalFresh(ptr.e, s.model);
    u32 id = (u32)(a >> 32);
    u64 off = (a & 0xffffffffull) - BASE;
    Obj* o = s.objs.get(id);
    auto bad = [&](const std::string& why) { violation(s, "memory", std::string(write ? "invalid write" : "invalid read") + " of " + std::to_string(size) + " bytes (" + what + "): " + why); };
    if (!o) {
        if (id == 0) bad("null or wild pointer " + valStr(Val(a)));
        if (id < s.objs.n) bad("freed or expired object");
        bad("wild pointer " + valStr(Val(a)));
    }
    if (o->dead) bad("stack variable out of scope");
    if (o->kind == OK::Func) bad("function pointer");
    if (write && o->kind == OK::Const) bad("read-only object");
    if (ptr.conc()) {
        if (off > o->size || size > o->size - off) bad("out of bounds, offset " + std::to_string((int64_t)off) + " size " + std::to_string(o->size) + (objName.count(id) ? " object " + objName[id] : o->kind == OK::Heap ? " heap object" : " stack object"));
        return {id, Val(off)};
    }
    E offE = mkBin(Op::Sub, ptr.e, mkConst(addrOf(id), 64));
    if (size > o->size) bad("object too small");
    E inb = mkUle(offE, mkConst(o->size - size, 64));
    if (!decide(s, inb)) bad("out of bounds, offset " + std::to_string((int64_t)off) + " size " + std::to_string(o->size) + (objName.count(id) ? " object " + objName[id] : ""));
    Val v(offE);
    return {id, v};
}

Val Exec::readByteAt(State& s, Obj* o, u32 id, u64 off) {
    Chunk* c = o->ch[off / CH].get();
    u32 i = off % CH;
    if (c->nsym && c->sym[i]) return Val(c->sym[i]);
    if (!c->isInit(i)) {
        char n[64];
        snprintf(n, sizeof n, "uninit_%u_%u_%llu", id, o->gen, (unsigned long long)off);
        return Val(mkVar(n, 8));
    }
    return Val((u64)c->b[i]);
}

// candidate offsets of a symbolic offset expression
static void candidates(State& s, E offE, u64 limit, std::vector<u64>& out) {
    auto& sup = supportOf(offE);
    if (sup.size() == 1 && gVars[sup[0]].width <= 8) {
        const Bits256* d = s.pc.domain(sup[0]);
        Model m; m.v.assign(sup[0] + 1, 0);
        for (u32 v = 0; v < (1u << gVars[sup[0]].width); v++) {
            if (d && !(((*d)[v >> 6] >> (v & 63)) & 1)) continue;
            m.v[sup[0]] = v;
            u64 x = (u64)evalFresh(offE, m);
            if (x < limit) out.push_back(x);
        }
        std::sort(out.begin(), out.end());
        out.erase(std::unique(out.begin(), out.end()), out.end());
        return;
    }
    u128 lo, hi;
    rangeOf(offE, lo, hi);
    if (hi >= limit) hi = limit ? limit - 1 : 0;
    // alignment: known-zero low bits
    u64 step = 1;
    while (step < 64) { E b = mkExtract(offE, (unsigned)__builtin_ctzll(step), 1); if (!(b->isConst() && b->val == 0)) break; step *= 2; }
    u64 l = ((u64)lo + step - 1) / step * step;
    for (u64 x = l; x <= (u64)hi; x += step) { out.push_back(x); if (out.size() > 5000) return; }
}

static E muxTree(E offE, const std::vector<std::pair<u64, E>>& c, size_t lo, size_t hi) {
    if (hi - lo == 1) return c[lo].second;
    // all equal?
    bool same = true;
    for (size_t i = lo + 1; i < hi && same; i++) same = c[i].second == c[lo].second;
    if (same) return c[lo].second;
    u64 diff = c[lo].first ^ c[hi - 1].first;
    unsigned bit = 63 - (unsigned)__builtin_clzll(diff);
    size_t mid = lo;
    while (!((c[mid].first >> bit) & 1)) mid++;
    return mkIte(mkExtract(offE, bit, 1), muxTree(offE, c, mid, hi), muxTree(offE, c, lo, mid));
}

Val Exec::readBytes(State& s, const Loc& l, unsigned nb) {
    Obj* o = s.objs.get(l.id);
    if (l.off.conc()) {
        u64 off = l.off.c;
        u32 i = off % CH;
        if (nb <= 8 && i + nb <= CH) {
            Chunk* c = o->ch[off / CH].get();
            if (c->plain(i, nb)) { u64 v = 0; memcpy(&v, c->b + i, nb); return Val(v); }
        }
        E r = nullptr;
        for (unsigned k = 0; k < nb; k++) {
            Val b = readByteAt(s, o, l.id, off + k);
            E e = toE(b, 8);
            r = r ? mkConcat(e, r) : e;
        }
        return Val(r);
    }
    std::vector<u64> cand;
    candidates(s, l.off.e, o->size - nb + 1, cand);
    if (cand.size() > 4096 || cand.empty()) {
        u64 off = concretize(s, l.off, 64, "read offset");
        return readBytes(s, {l.id, Val(off)}, nb);
    }
    E r = nullptr;
    for (unsigned k = 0; k < nb; k++) {
        std::vector<std::pair<u64, E>> tab;
        for (u64 x : cand) tab.push_back({x, toE(readByteAt(s, o, l.id, x + k), 8)});
        E b = muxTree(l.off.e, tab, 0, tab.size());
        r = r ? mkConcat(b, r) : b;
    }
    return Val(r);
}

void Exec::writeBytes(State& s, const Loc& l, const Val& v, unsigned nb) {
    if (!l.off.conc()) {
        Obj* o0 = s.objs.get(l.id);
        std::vector<u64> cand;
        candidates(s, l.off.e, o0->size - nb + 1, cand);
        if (cand.size() > 4096 || cand.empty()) {
            u64 off = concretize(s, l.off, 64, "write offset");
            writeBytes(s, {l.id, Val(off)}, v, nb);
            return;
        }
        Obj* o = s.objs.own(l.id);
        E ve = toE(v, nb * 8);
        for (u64 x : cand) {
            E here = mkEq(l.off.e, mkConst(x, 64));
            for (unsigned k = 0; k < nb; k++) {
                E old = toE(readByteAt(s, o, l.id, x + k), 8);
                E nv = mkIte(here, mkExtract(ve, 8 * k, 8), old);
                Chunk* c = o->ch[(x + k) / CH].own();
                if (nv->isConst()) c->setConc((x + k) % CH, (uint8_t)nv->val); else c->setSym((x + k) % CH, nv);
            }
        }
        return;
    }
    Obj* o = s.objs.own(l.id);
    u64 off = l.off.c;
    if (v.conc()) {
        for (unsigned k = 0; k < nb; k++) o->ch[(off + k) / CH].own()->setConc((off + k) % CH, (uint8_t)(v.c >> (8 * k)));
        return;
    }
    for (unsigned k = 0; k < nb; k++) {
        E b = mkExtract(v.e, 8 * k, 8);
        Chunk* c = o->ch[(off + k) / CH].own();
        if (b->isConst()) c->setConc((off + k) % CH, (uint8_t)b->val); else c->setSym((off + k) % CH, b);
    }
}

void Exec::readBuf(State& s, const Val& ptr, u64 n, std::vector<Val>& out, const char* what) {
    if (!n) return;
    Loc l = resolve(s, ptr, n, false, what);
    u64 off = concretize(s, l.off, 64, what);
    Obj* o = s.objs.get(l.id);
    out.reserve(n);
    for (u64 i = 0; i < n; i++) out.push_back(readByteAt(s, o, l.id, off + i));
}
void Exec::writeBuf(State& s, const Val& ptr, const std::vector<Val>& v, const char* what) {
    if (v.empty()) return;
    Loc l = resolve(s, ptr, v.size(), true, what);
    u64 off = concretize(s, l.off, 64, what);
    Obj* o = s.objs.own(l.id);
    for (u64 i = 0; i < v.size(); i++) {
        Chunk* c = o->ch[(off + i) / CH].own();
        if (v[i].conc()) c->setConc((off + i) % CH, (uint8_t)v[i].c); else c->setSym((off + i) % CH, v[i].e);
    }
}
std::string Exec::readCStr(State& s, const Val& ptr) {
    std::string r;
    Obj* o = s.objs.get((u32)(ptr.c >> 32));
    if (!o) return r;
    for (u64 off = (ptr.c & 0xffffffff) - BASE; off < o->size; off++) {
        Val v = readByteAt(s, o, 0, off);
        if (!v.conc()) { r += '?'; continue; }
        if (!v.c) break;
        r += (char)v.c;
    }
    return r;
}
void Exec::freeHeap(State& s, const Val& p, const char* what) {
    u64 a = concretize(s, p, 64, what);
    if (!a) return;
    u32 id = (u32)(a >> 32);
    Obj* o = s.objs.get(id);
    if (!o) violation(s, "memory", std::string(what) + ": double free or wild pointer");
    if (o->kind != OK::Heap) violation(s, "memory", std::string(what) + " of memory that was not allocated");
    if (((a & 0xffffffff) - BASE) != 0) violation(s, "memory", std::string(what) + " of an interior pointer");
    s.heapLive--; s.heapBytes -= o->size;
    s.objs.drop(id);
}

// ------------------------------------------------------------ calls and exceptions
static inline Val& reg(Frame& f, int r) { return f.regs[(size_t)r]; }
static inline const Val& opnd(Frame& f, int o) { return o >= 0 ? f.regs[(size_t)o] : f.f->consts[(size_t)(-1 - o)]; }
static inline const Val& opnd(Frame& f, int o, unsigned k) { return o >= 0 ? f.regs[(size_t)o + k] : f.f->consts[(size_t)(-1 - o) + k]; }

void Exec::pushCall(State& s, KFunc* f, const std::vector<Val>& args, bool discard) {
    if (s.stack.size() > 1500) violation(s, "memory", "stack overflow (recursion deeper than 1500 frames)");
    if (f->F->isDeclaration()) throw PathEnd{"unsupported", "call of external function " + f->name + " at " + where(s, 4)};
    if (!f->translated) translate(f);
    f->executed = true;
    auto* fr = new Frame;
    fr->f = f;
    fr->regs.resize((size_t)f->nregs);
    fr->discard = discard;
    size_t na = (size_t)(f->argReg.empty() ? 0 : (size_t)f->argReg.back() + std::max<size_t>(1, flat((f->F->arg_end() - 1)->getType()).f.size()));
    for (size_t i = 0; i < args.size() && i < na; i++) fr->regs[i] = args[i];
    s.stack.push_back(Ref<Frame>(fr));
    enterBlock(*fr, 0);
}

void Exec::enterBlock(Frame& f, int bb) {
    f.f->blocks[(size_t)bb].executed = true;
    KBlock& b = f.f->blocks[(size_t)bb];
    if (!b.phis.empty()) {
        static thread_local std::vector<Val> tmp;
        tmp.clear();
        for (auto& p : b.phis) {
            int o = 0; bool found = false;
            for (auto& [blk, op] : p.in) if (blk == f.bb) { o = op; found = true; break; }
            if (!found) { fprintf(stderr, "wfsym: phi without incoming edge\n"); abort(); }
            for (unsigned k = 0; k < p.slots; k++) tmp.push_back(opnd(f, o, k));
        }
        size_t i = 0;
        for (auto& p : b.phis) for (unsigned k = 0; k < p.slots; k++) f.regs[(size_t)p.dest + k] = tmp[i++];
    }
    f.bb = bb;
    f.pc = b.start;
}

static void popFrame(State& s) {
    Frame* f = s.stack.back().get();
    for (u32 id : f->allocas) s.objs.drop(id);
    s.stack.pop_back();
}

void Exec::ret(State& s, std::vector<Val>& v) {
    bool discard = s.stack.back()->discard;
    popFrame(s);
    if (s.stack.empty()) throw PathEnd{"done", ""};
    Frame& f = *s.top();
    if (discard) return; // re-executes / continues at the caller's pc
    KInst& I = f.f->insts[(size_t)f.pc];
    if (I.dest >= 0) for (size_t i = 0; i < v.size(); i++) f.regs[(size_t)I.dest + i] = v[i];
    if (I.invoke) enterBlock(f, I.targets[0]);
    else f.pc++;
}
void Exec::setResult(State& s, const Val& v) { Frame& f = *s.top(); KInst& I = f.f->insts[(size_t)f.pc]; if (I.dest >= 0) f.regs[(size_t)I.dest] = v; }

std::vector<Exec::Base> Exec::bases(u64 ti) {
    std::vector<Base> r;
    u32 id = (u32)(ti >> 32);
    Obj* o = base->objs.get(id);
    if (!o || o->size < 16) return r;
    auto rd = [&](u64 off, unsigned n) { Val v = readBytes(*base, {id, Val(off)}, n); return v.conc() ? v.c : 0; };
    u64 vt = rd(0, 8);
    std::string vn = objName[(u32)(vt >> 32)];
    if (vn.find("__si_class_type_info") != std::string::npos) r.push_back({rd(16, 8), 0, true, false});
    else if (vn.find("__vmi_class_type_info") != std::string::npos) {
        u64 cnt = rd(20, 4);
        for (u64 i = 0; i < cnt; i++) {
            u64 b = rd(24 + 16 * i, 8); i128 of = (int64_t)rd(32 + 16 * i, 8);
            r.push_back({b, of >> 8, (of & 2) != 0, (of & 1) != 0});
        }
    }
    return r;
}
bool Exec::typeMatches(u64 thrown, u64 want, u64 obj, u64& adj) {
    if (thrown == want) { adj = obj; return true; }
    for (auto& b : bases(thrown))
        if (b.isPublic && !b.isVirtual && typeMatches(b.ti, want, obj + (u64)(int64_t)b.off, adj)) return true;
    return false;
}

void Exec::throwExc(State& s, u64 ptr, bool popFirst) {
    Exc* ex = nullptr;
    for (auto& e : s.excs) if (e.ptr == ptr) ex = &e;
    if (!ex) throw PathEnd{"unsupported", "throw of unknown exception object"};
    int top = (int)s.stack.size() - 1 - (popFirst ? 1 : 0);
    // phase 1
    auto lpOf = [&](Frame* f) -> const LandingPadInst* {
        KInst& I = f->f->insts[(size_t)f->pc];
        if (!I.invoke) return nullptr;
        return cast<InvokeInst>(I.I)->getUnwindDest()->getLandingPadInst();
    };
    auto match = [&](const LandingPadInst* lp, u64& sel, u64& adj) -> bool {
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            Constant* c = lp->getClause(i);
            if (lp->isCatch(i)) {
                c = c->stripPointerCasts();
                if (isa<ConstantPointerNull>(c)) { sel = 0x7fffffff; adj = ex->ptr; return true; }
                u64 ti = addrOf(gobj[cast<GlobalValue>(c)]);
                if (typeMatches(ex->type, ti, ex->ptr, adj)) { sel = ti >> 32; return true; }
            } else { sel = 0x7ffffffe; adj = ex->ptr; return true; }
        }
        return false;
    };
    int target = -1; u64 sel = 0, adj = ptr;
    for (int i = top; i >= 0; i--) {
        auto* lp = lpOf(s.stack[(size_t)i].get());
        if (lp && match(lp, sel, adj)) { target = i; break; }
        if (s.stack[(size_t)i]->discard) { violation(s, "terminate", "exception escapes a destructor"); }
    }
    if (target < 0) {
        std::string tn = objName.count((u32)(ex->type >> 32)) ? objName[(u32)(ex->type >> 32)] : "?";
        violation(s, "exception", "uncaught exception (" + tn + ")");
    }
    if (popFirst) popFrame(s);
    for (int i = top; i >= target; i--) {
        Frame* f = s.stack[(size_t)i].get();
        auto* lp = lpOf(f);
        if (lp) {
            Frame& g = *s.top();
            KInst& I = g.f->insts[(size_t)g.pc];
            enterBlock(g, I.targets[1]);
            KInst& L = g.f->insts[(size_t)g.pc];
            if (L.op != Instruction::LandingPad) throw PathEnd{"unsupported", "landing pad not first"};
            g.regs[(size_t)L.dest] = Val(ptr);
            g.regs[(size_t)L.dest + 1] = Val(i == target ? sel : 0);
            ex->adj = adj;
            g.pc++;
            return;
        }
        popFrame(s);
    }
}

void Exec::doCall(State& s, KInst& I) {
    Frame& f = *s.top();
    static std::vector<Val> args;
    args.clear();
    std::vector<Val> a2;
    for (size_t i = 0; i < I.ops.size(); i++) for (unsigned k = 0; k < I.argSlots[i]; k++) a2.push_back(opnd(f, I.ops[i], k));
    if (I.bi) {
        size_t depth = s.stack.size();
        int pc = f.pc;
        I.bi(s, I, a2);
        // builtins that transferred control changed the stack or the pc
        if (s.stack.size() == depth && s.stack.back()->pc == pc && s.stack.back()->f == I.fn) {
            Frame& g = *s.top();
            if (I.invoke) enterBlock(g, I.targets[0]); else g.pc++;
        }
        return;
    }
    KFunc* callee = I.callee;
    if (!callee) {
        Val fp = opnd(f, (int)(int64_t)I.imm);
        u64 a = concretize(s, fp, 64, "function pointer");
        u32 id = (u32)(a >> 32);
        if (id >= byObj.size() || !byObj[id] || (a & 0xffffffff) != BASE) violation(s, "memory", "call through an invalid function pointer " + valStr(Val(a)));
        callee = byObj[id];
        KInst dummy = I; // address-taken builtin
        if (callee->F->isDeclaration()) {
            dummy.biName = callee->F->getName().str();
            if (Builtin b = findBuiltin(dummy.biName, dummy)) {
                b(s, dummy, a2);
                Frame& g = *s.top();
                if (I.invoke) enterBlock(g, I.targets[0]); else g.pc++;
                return;
            }
        }
    }
    // byval copies
    std::vector<u32> copies;
    size_t slot = 0;
    for (size_t i = 0; i < I.ops.size(); i++) {
        if (I.byval[i]) {
            std::vector<Val> buf;
            readBuf(s, a2[slot], I.byval[i], buf, "byval argument");
            u64 na = alloc(s, I.byval[i], OK::Stack, false);
            writeBuf(s, Val(na), buf, "byval");
            a2[slot] = Val(na);
            copies.push_back((u32)(na >> 32));
        }
        slot += I.argSlots[i];
    }
    pushCall(s, callee, a2, false);
    for (u32 c : copies) s.top()->allocas.push_back(c);
}

// ------------------------------------------------------------ main interpreter loop
static Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
    Op o;
    switch (op) {
    case Instruction::Add: o = Op::Add; break;
    case Instruction::Sub: o = Op::Sub; break;
    case Instruction::Mul: o = Op::Mul; break;
    case Instruction::UDiv: o = Op::UDiv; break;
    case Instruction::SDiv: o = Op::SDiv; break;
    case Instruction::URem: o = Op::URem; break;
    case Instruction::SRem: o = Op::SRem; break;
    case Instruction::And: o = Op::And; break;
    case Instruction::Or: o = Op::Or; break;
    case Instruction::Xor: o = Op::Xor; break;
    case Instruction::Shl: o = Op::Shl; break;
    case Instruction::LShr: o = Op::LShr; break;
    case Instruction::AShr: o = Op::AShr; break;
    case Instruction::FAdd: return Val(mkFp(Op::FAdd, toE(a, w), toE(b, w), w));
    case Instruction::FSub: return Val(mkFp(Op::FSub, toE(a, w), toE(b, w), w));
    case Instruction::FMul: return Val(mkFp(Op::FMul, toE(a, w), toE(b, w), w));
    case Instruction::FDiv: return Val(mkFp(Op::FDiv, toE(a, w), toE(b, w), w));
    default: throw PathEnd{"unsupported", "binary operator"};
    }
    if (o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem) {
        E z = mkEq(toE(b, w), mkConst(0, w));
        if (X.decide(s, z)) X.violation(s, "ub", "division by zero");
    }
    if (a.conc() && b.conc() && w <= 64) {
        switch (o) { // fast paths
        case Op::Add: return Val((a.c + b.c) & (u64)maskOf(w));
        case Op::Sub: return Val((a.c - b.c) & (u64)maskOf(w));
        case Op::And: return Val(a.c & b.c);
        case Op::Or: return Val(a.c | b.c);
        case Op::Xor: return Val(a.c ^ b.c);
        default: return Val((u64)foldOp(o, w, a.c, b.c, w));
        }
    }
    return Val(mkBin(o, toE(a, w), toE(b, w)));
}

static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
    if (a.conc() && b.conc()) {
        auto sx = [&](u64 v) { return (int64_t)(v << (64 - w)) >> (64 - w); };
        switch (pred) {
        case CmpInst::ICMP_EQ: return Val((u64)(a.c == b.c));
        case CmpInst::ICMP_NE: return Val((u64)(a.c != b.c));
        case CmpInst::ICMP_ULT: return Val((u64)(a.c < b.c));
        case CmpInst::ICMP_ULE: return Val((u64)(a.c <= b.c));
        case CmpInst::ICMP_UGT: return Val((u64)(a.c > b.c));
        case CmpInst::ICMP_UGE: return Val((u64)(a.c >= b.c));
        case CmpInst::ICMP_SLT: return Val((u64)(sx(a.c) < sx(b.c)));
        case CmpInst::ICMP_SLE: return Val((u64)(sx(a.c) <= sx(b.c)));
        case CmpInst::ICMP_SGT: return Val((u64)(sx(a.c) > sx(b.c)));
        case CmpInst::ICMP_SGE: return Val((u64)(sx(a.c) >= sx(b.c)));
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return Val(mkEq(x, y));
    case CmpInst::ICMP_NE: return Val(mkNe(x, y));
    case CmpInst::ICMP_ULT: return Val(mkUlt(x, y));
    case CmpInst::ICMP_ULE: return Val(mkUle(x, y));
    case CmpInst::ICMP_UGT: return Val(mkUlt(y, x));
    case CmpInst::ICMP_UGE: return Val(mkUle(y, x));
    case CmpInst::ICMP_SLT: return Val(mkBin(Op::Slt, x, y));
    case CmpInst::ICMP_SLE: return Val(mkNot(mkBin(Op::Slt, y, x)));
    case CmpInst::ICMP_SGT: return Val(mkBin(Op::Slt, y, x));
    case CmpInst::ICMP_SGE: return Val(mkNot(mkBin(Op::Slt, x, y)));
    }
    throw PathEnd{"unsupported", "icmp"};
}
static Val fcmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
    E x = toE(a, w), y = toE(b, w);
    auto f = [&](Op o, E p, E q) { return mkFp(o, p, q, 1); };
    E uno = f(Op::FUno, x, y);
    switch (pred) {
    case CmpInst::FCMP_FALSE: return Val(0);
    case CmpInst::FCMP_TRUE: return Val(1);
    case CmpInst::FCMP_OEQ: return Val(f(Op::FEq, x, y));
    case CmpInst::FCMP_OGT: return Val(f(Op::FLt, y, x));
    case CmpInst::FCMP_OGE: return Val(f(Op::FLe, y, x));
    case CmpInst::FCMP_OLT: return Val(f(Op::FLt, x, y));
    case CmpInst::FCMP_OLE: return Val(f(Op::FLe, x, y));
    case CmpInst::FCMP_ONE: return Val(mkAnd(mkNot(uno), mkNot(f(Op::FEq, x, y))));
    case CmpInst::FCMP_ORD: return Val(mkNot(uno));
    case CmpInst::FCMP_UNO: return Val(uno);
    case CmpInst::FCMP_UEQ: return Val(mkOr(uno, f(Op::FEq, x, y)));
    case CmpInst::FCMP_UGT: return Val(mkNot(f(Op::FLe, x, y)));
    case CmpInst::FCMP_UGE: return Val(mkNot(f(Op::FLt, x, y)));
    case CmpInst::FCMP_ULT: return Val(mkNot(f(Op::FLe, y, x)));
    case CmpInst::FCMP_ULE: return Val(mkNot(f(Op::FLt, y, x)));
    case CmpInst::FCMP_UNE: return Val(mkNot(f(Op::FEq, x, y)));
    }
    throw PathEnd{"unsupported", "fcmp"};
}
static Val castOp(unsigned op, const Val& a, unsigned w0, unsigned w) {
    switch (op) {
    case Instruction::Trunc: if (a.conc()) return Val(a.c & (u64)maskOf(w)); return Val(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (a.conc() && w <= 64) return a; return Val(mkZExt(toE(a, w0), w));
    case Instruction::SExt: if (a.conc() && w <= 64) return Val((u64)sextOf(a.c, w0) & (u64)maskOf(w)); return Val(mkSExt(toE(a, w0), w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
        if (w0 == w) return a;
        if (w < w0) return a.conc() ? Val(a.c & (u64)maskOf(w)) : Val(mkExtract(a.e, 0, w));
        return Val(mkZExt(toE(a, w0), w));
    }
    case Instruction::FPToSI: return Val(mkFp(Op::FPToSI, toE(a, w0), nullptr, w));
    case Instruction::FPToUI: return Val(mkFp(Op::FPToUI, toE(a, w0), nullptr, w));
    case Instruction::SIToFP: return Val(mkFp(Op::SIToFP, toE(a, w0), nullptr, w));
    case Instruction::UIToFP: return Val(mkFp(Op::UIToFP, toE(a, w0), nullptr, w));
    case Instruction::FPExt: case Instruction::FPTrunc: return Val(mkFp(Op::FPConv, toE(a, w0), nullptr, w));
    }
    throw PathEnd{"unsupported", "cast"};
}

void Exec::loop(State& s) {
    for (;;) {
        Frame* fp = s.stack.back().get();
        if (fp->rc > 1) fp = s.top();
        Frame& f = *fp;
        KInst& I = f.f->insts[(size_t)f.pc];
        if (++s.steps > gCfg.maxSteps) violation(s, "hang", "more than " + std::to_string(gCfg.maxSteps) + " instructions on one path");
        if ((s.steps & 0xfff) == 0) {
            __sync_fetch_and_add(&gSh->insts, 0x1000);
            if (gSh->stop) throw PathEnd{"stopped", ""};
            if (elapsed() > gCfg.timeS) throw PathEnd{"timeout", ""};
        }
        switch (I.op) {
        case Instruction::Br:
            if (I.targets.size() == 1) { enterBlock(f, I.targets[0]); break; }
            {
                const Val& c = opnd(f, I.ops[0]);
                bool t = c.conc() ? c.c & 1 : decide(s, c.e);
                enterBlock(*s.top(), t ? I.targets[0] : I.targets[1]);
            }
            break;
        case Instruction::Switch: {
            Val c = opnd(f, I.ops[0]);
            if (c.conc()) {
                size_t t = 0;
                for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == c.c) { t = i + 1; break; }
                enterBlock(f, I.targets[t]);
                break;
            }
            // group cases by target; decide target by target
            unsigned w = c.e->width;
            u64 cur = (u64)evalFresh(c.e, s.model);
            size_t t = 0;
            for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == cur) { t = i + 1; break; }
            int tgt = I.targets[t];
            E cond = mkBool(false), any = mkBool(false);
            for (size_t i = 0; i < I.cases.size(); i++) {
                E eq = mkEq(c.e, mkConst(I.cases[i], w));
                if (I.targets[i + 1] == tgt) cond = mkOr(cond, eq);
                if (I.targets[0] == tgt && I.targets[i + 1] != tgt) any = mkOr(any, eq);
            }
            if (I.targets[0] == tgt) cond = mkNot(any);
            decide(s, cond);
            enterBlock(*s.top(), tgt);
            break;
        }
        case Instruction::Unreachable: violation(s, "ub", "unreachable code executed");
        case Instruction::Ret: {
            std::vector<Val> v;
            if (!I.ops.empty()) for (unsigned k = 0; k < I.n; k++) v.push_back(opnd(f, I.ops[0], k));
            ret(s, v);
            break;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(s, I); break;
        case Instruction::Resume: {
            u64 p = opnd(f, I.ops[0]).c;
            throwExc(s, p, true);
            break;
        }
        case Instruction::Load: {
            const Val& p = opnd(f, I.ops[0]);
            Loc l = resolve(s, p, I.ty->size, false, "load");
            std::vector<Val> out;
            if (I.ty->f.size() == 1) {
                unsigned w = I.ty->f[0].w, nb = (w + 7) / 8;
                Val v = readBytes(s, l, nb);
                if (w < nb * 8) v = v.conc() ? Val(v.c & (u64)maskOf(w)) : Val(mkExtract(v.e, 0, w));
                Frame& g = *s.top();
                g.regs[(size_t)I.dest] = v; g.pc++;
                break;
            }
            for (auto& fl : I.ty->f) {
                unsigned nb = (fl.w + 7) / 8;
                Loc l2{l.id, l.off.conc() ? Val(l.off.c + fl.off) : Val(mkBin(Op::Add, l.off.e, mkConst(fl.off, 64)))};
                Val v = readBytes(s, l2, nb);
                if (fl.w < nb * 8) v = v.conc() ? Val(v.c & (u64)maskOf(fl.w)) : Val(mkExtract(v.e, 0, fl.w));
                out.push_back(v);
            }
            Frame& g = *s.top();
            for (size_t i = 0; i < out.size(); i++) g.regs[(size_t)I.dest + i] = out[i];
            g.pc++;
            break;
        }
        case Instruction::Store: {
            Loc l = resolve(s, opnd(f, I.ops[1]), I.ty->size, true, "store");
            for (size_t i = 0; i < I.ty->f.size(); i++) {
                auto& fl = I.ty->f[i];
                unsigned nb = (fl.w + 7) / 8;
                Val v = opnd(f, I.ops[0], (unsigned)i);
                if (fl.w < nb * 8 && !v.conc()) v = Val(mkZExt(v.e, nb * 8));
                Loc l2{l.id, l.off.conc() ? Val(l.off.c + fl.off) : Val(mkBin(Op::Add, l.off.e, mkConst(fl.off, 64)))};
                if (nb > 8 && v.conc()) v = Val(mkConst(v.c, nb * 8));
                writeBytes(s, l2, v, nb);
            }
            s.top()->pc++;
            break;
        }
        case Instruction::Alloca: {
            u64 n = concretize(s, opnd(f, I.ops[0]), I.w0, "alloca");
            u64 a = alloc(s, I.imm * n, OK::Stack, false);
            Frame& g = *s.top();
            g.allocas.push_back((u32)(a >> 32));
            g.regs[(size_t)I.dest] = Val(a);
            g.pc++;
            break;
        }
        case Instruction::GetElementPtr: {
            if (I.n > 1) throw PathEnd{"unsupported", "vector GEP"};
            Val p = opnd(f, I.ops[0]);
            p = p.conc() ? Val(p.c + I.imm) : Val(mkBin(Op::Add, p.e, mkConst(I.imm, 64)));
            for (size_t i = 0; i < I.gep.size(); i++) {
                Val x = castOp(Instruction::SExt, opnd(f, I.gep[i].first), I.gepW[i], 64);
                if (x.conc()) { u64 d = x.c * I.gep[i].second; p = p.conc() ? Val(p.c + d) : Val(mkBin(Op::Add, p.e, mkConst(d, 64))); }
                else p = Val(mkBin(Op::Add, toE(p, 64), mkBin(Op::Mul, x.e, mkConst(I.gep[i].second, 64))));
            }
            f.regs[(size_t)I.dest] = p;
            f.pc++;
            break;
        }
        case Instruction::ICmp:
            for (unsigned k = 0; k < I.n; k++) f.regs[(size_t)I.dest + k] = icmp(cast<ICmpInst>(I.I)->getPredicate(), opnd(f, I.ops[0], k), opnd(f, I.ops[1], k), I.w0);
            f.pc++;
            break;
        case Instruction::FCmp:
            for (unsigned k = 0; k < I.n; k++) f.regs[(size_t)I.dest + k] = fcmp(cast<FCmpInst>(I.I)->getPredicate(), opnd(f, I.ops[0], k), opnd(f, I.ops[1], k), I.w0);
            f.pc++;
            break;
        case Instruction::FNeg:
            for (unsigned k = 0; k < I.n; k++) { Val v = opnd(f, I.ops[0], k); f.regs[(size_t)I.dest + k] = Val(mkBin(Op::Xor, toE(v, I.w), mkConst((u128)1 << (I.w - 1), I.w))); }
            f.pc++;
            break;
        case Instruction::Select: {
            Val c = opnd(f, I.ops[0]);
            bool ptr = I.I->getType()->isPointerTy();
            if (!c.conc() && !I.imm2 && ptr) {
                const Val &a = opnd(f, I.ops[1]), &b = opnd(f, I.ops[2]);
                bool sameObj = a.conc() && b.conc() && (a.c >> 32) == (b.c >> 32) && (a.c >> 32);
                if (!sameObj) { bool t = decide(s, c.e); c = Val((u64)t); }
            }
            Frame& g = *s.top();
            for (unsigned k = 0; k < I.n; k++) {
                Val ck = I.imm2 ? opnd(g, I.ops[0], k) : c;
                const Val &a = opnd(g, I.ops[1], k), &b = opnd(g, I.ops[2], k);
                unsigned w = I.ty->f[k].w;
                g.regs[(size_t)I.dest + k] = ck.conc() ? (ck.c & 1 ? a : b) : Val(mkIte(ck.e, toE(a, w), toE(b, w)));
            }
            g.pc++;
            break;
        }
        case Instruction::ExtractValue:
            for (unsigned k = 0; k < I.n; k++) f.regs[(size_t)I.dest + k] = opnd(f, I.ops[0], (unsigned)I.imm + k);
            f.pc++;
            break;
        case Instruction::InsertValue:
            for (unsigned k = 0; k < I.imm2; k++) f.regs[(size_t)I.dest + k] = opnd(f, I.ops[0], k);
            for (unsigned k = 0; k < I.n; k++) f.regs[(size_t)I.dest + (size_t)I.imm + k] = opnd(f, I.ops[1], k);
            f.pc++;
            break;
        case Instruction::ExtractElement: {
            u64 i = concretize(s, opnd(f, I.ops[1]), scalarW(I.I->getOperand(1)->getType()), "extractelement");
            Frame& g = *s.top();
            g.regs[(size_t)I.dest] = opnd(g, I.ops[0], (unsigned)i); g.pc++;
            break;
        }
        case Instruction::InsertElement: {
            u64 i = concretize(s, opnd(f, I.ops[2]), scalarW(I.I->getOperand(2)->getType()), "insertelement");
            Frame& g = *s.top();
            for (unsigned k = 0; k < I.n; k++) g.regs[(size_t)I.dest + k] = opnd(g, I.ops[0], k);
            g.regs[(size_t)I.dest + i] = opnd(g, I.ops[1]); g.pc++;
            break;
        }
        case Instruction::ShuffleVector: {
            auto mask = cast<ShuffleVectorInst>(I.I)->getShuffleMask();
            for (unsigned k = 0; k < I.n; k++) {
                int m = mask[k];
                f.regs[(size_t)I.dest + k] = m < 0 ? Val(0) : (u64)m < I.imm2 ? opnd(f, I.ops[0], (unsigned)m) : opnd(f, I.ops[1], (unsigned)(m - (int)I.imm2));
            }
            f.pc++;
            break;
        }
        case Instruction::Freeze:
            for (unsigned k = 0; k < I.n; k++) f.regs[(size_t)I.dest + k] = opnd(f, I.ops[0], k);
            f.pc++;
            break;
        case Instruction::BitCast: {
            auto &a = flat(I.I->getOperand(0)->getType()), &b = flat(I.I->getType());
            if (a.f.size() == b.f.size()) { for (unsigned k = 0; k < a.f.size(); k++) f.regs[(size_t)I.dest + k] = opnd(f, I.ops[0], k); }
            else {
                E all = nullptr;
                for (unsigned k = 0; k < a.f.size(); k++) { E e = toE(opnd(f, I.ops[0], k), a.f[k].w); all = all ? mkConcat(e, all) : e; }
                unsigned pos = 0;
                for (unsigned k = 0; k < b.f.size(); k++) { f.regs[(size_t)I.dest + k] = Val(mkExtract(all, pos, b.f[k].w)); pos += b.f[k].w; }
            }
            f.pc++;
            break;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
            for (unsigned k = 0; k < I.n; k++) f.regs[(size_t)I.dest + k] = castOp(I.op, opnd(f, I.ops[0], k), I.w0, I.w);
            f.pc++;
            break;
        case Instruction::AtomicRMW: {
            auto* A = cast<AtomicRMWInst>(I.I);
            unsigned w = I.w, nb = w / 8;
            Loc l = resolve(s, opnd(f, I.ops[0]), nb, true, "atomicrmw");
            Val old = readBytes(s, l, nb), v = opnd(*s.top(), I.ops[1]), nv;
            switch (A->getOperation()) {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, w); break;
            case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, w); break;
            case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, w); break;
            case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, w); break;
            case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, w); break;
            default: throw PathEnd{"unsupported", "atomicrmw"};
            }
            writeBytes(s, l, nv, nb);
            Frame& g = *s.top();
            g.regs[(size_t)I.dest] = old; g.pc++;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            unsigned w = scalarW(I.I->getOperand(1)->getType()), nb = w / 8;
            Loc l = resolve(s, opnd(f, I.ops[0]), nb, true, "cmpxchg");
            Val old = readBytes(s, l, nb);
            Val eq = icmp(CmpInst::ICMP_EQ, old, opnd(*s.top(), I.ops[1]), w);
            bool t = eq.conc() ? eq.c : decide(s, eq.e);
            if (t) writeBytes(s, l, opnd(*s.top(), I.ops[2]), nb);
            Frame& g = *s.top();
            g.regs[(size_t)I.dest] = old; g.regs[(size_t)I.dest + 1] = Val((u64)t); g.pc++;
            break;
        }
        case Instruction::Fence: f.pc++; break;
        default:
            if (I.op >= Instruction::BinaryOpsBegin && I.op < Instruction::BinaryOpsEnd) {
                std::vector<Val> r;
                if (I.n == 1) { Val v = binop(s, I.op, opnd(f, I.ops[0]), opnd(f, I.ops[1]), I.w); Frame& g = *s.top(); g.regs[(size_t)I.dest] = v; g.pc++; break; }
                for (unsigned k = 0; k < I.n; k++) r.push_back(binop(s, I.op, opnd(f, I.ops[0], k), opnd(f, I.ops[1], k), I.w));
                Frame& g = *s.top();
                for (unsigned k = 0; k < I.n; k++) g.regs[(size_t)I.dest + k] = r[k];
                g.pc++;
                break;
            }
            throw PathEnd{"unsupported", std::string("instruction ") + I.I->getOpcodeName()};
        }
        if (work.size() > 0 && gSh->active < gCfg.workers) trySplit();
    }
}

// ------------------------------------------------------------ exploration
static std::map<std::string, u64> endCount;
static std::map<std::string, u64> tagCount;
static std::map<std::string, u64> endMsg;
static u64 localPaths = 0, localSteps = 0, localAsserts = 0, maxDepth = 0;

void Exec::finish(State& s, const PathEnd& e) {
    endCount[e.kind]++;
    if (e.kind == "unsupported" || e.kind == "unknown" || e.kind == "limit") endMsg[e.kind + ": " + e.msg]++;
    localPaths++;
    localSteps += s.steps;
    localAsserts += s.asserts;
    maxDepth = std::max<u64>(maxDepth, s.depthForks);
    if (e.kind == "done" || e.kind == "violation") {
        std::set<std::string> t(s.tags.begin(), s.tags.end());
        for (auto& x : t) tagCount[x]++;
    }
    u64 n = __sync_fetch_and_add(&gSh->paths, 1);
    if (e.kind == "done") {
        bool want = n < 10 || (n & (n - 1)) == 0 || (n * 2654435761u + gCfg.seed) % 211 == 0 || (gSh->samples < 24 && n % 5 == 0);
        if (want && (int)gSh->samples < gCfg.maxSamples) {
            __sync_fetch_and_add(&gSh->samples, 1);
            bool uninit = false;
            newEvalEpoch();
            std::string j = "{\"type\":\"sample\",\"inputs\":[";
            bool first = true;
            auto hex = [&](std::vector<Val>& bs) { std::string r; for (auto& b : bs) { char h[4]; snprintf(h, sizeof h, "%02x", (unsigned)(b.e ? (u64)evalExpr(b.e, s.model) : b.c) & 255); r += h; } return r; };
            for (auto& in : s.inputs) { j += (first ? "[\"" : ",[\"") + jsonEsc(in.name) + "\",\"" + hex(in.bytes) + "\"]"; first = false; }
            j += "],\"obs\":[";
            first = true;
            for (auto& o : s.obs) {
                for (auto& b : o.bytes) if (b.e) for (u32 v : supportOf(b.e)) if (gVars[v].name.compare(0, 6, "uninit") == 0) uninit = true;
                j += (first ? "[\"" : ",[\"") + jsonEsc(o.name) + "\",\"" + hex(o.bytes) + "\"]"; first = false;
            }
            j += "]}";
            if (!uninit) results.push_back(j);
        }
    }
}

void Exec::trySplit() {
    int a = gSh->active;
    if (a >= gCfg.workers || !__sync_bool_compare_and_swap(&gSh->active, a, a + 1)) return;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { __sync_fetch_and_sub(&gSh->active, 1); return; }
    size_t give = (work.size() + 1) / 2; // the oldest (shallowest) states go to the child
    if (p == 0) {
        std::deque<State*> mine(work.begin(), work.begin() + (long)give);
        work = mine; // remaining states and the current one belong to the parent
        results.clear(); children.clear(); endCount.clear(); tagCount.clear(); endMsg.clear();
        localPaths = localSteps = localAsserts = 0;
        gStats = SolverStats();
        worker(false);
        _exit(0);
    }
    children.push_back(p);
    for (size_t i = 0; i < give; i++) { delete work.front(); work.pop_front(); }
}

void Exec::worker(bool) {
    u64 pending = 0;
    while (!work.empty()) {
        if (gSh->stop) { endCount["stopped"] += work.size(); break; }
        if (elapsed() > gCfg.timeS) { pending = work.size(); break; }
        State* s = work.back();
        work.pop_back();
        cur = s;
        try { loop(*s); }
        catch (PathEnd& e) { finish(*s, e); }
        delete s;
    }
    if (pending) endCount["timeout"] += pending;
    __sync_fetch_and_add(&gSh->steps, localSteps);
    int id = __sync_fetch_and_add(&gSh->nextId, 1);
    __sync_fetch_and_sub(&gSh->active, 1);
    int crashed = 0;
    for (pid_t c : children) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) crashed++; }
    std::ofstream o(gCfg.outDir + "/w" + std::to_string(id) + ".jsonl");
    for (auto& r : results) o << r << "\n";
    o << "{\"type\":\"stats\",\"crashed\":" << crashed << ",\"paths\":" << localPaths << ",\"steps\":" << localSteps << ",\"asserts\":" << localAsserts << ",\"maxForks\":" << maxDepth;
    o << ",\"ends\":{"; bool first = true;
    for (auto& [k, v] : endCount) { o << (first ? "" : ",") << "\"" << k << "\":" << v; first = false; }
    o << "},\"msgs\":{"; first = true;
    for (auto& [k, v] : endMsg) { o << (first ? "" : ",") << "\"" << jsonEsc(k) << "\":" << v; first = false; }
    o << "},\"tags\":{"; first = true;
    for (auto& [k, v] : tagCount) { o << (first ? "" : ",") << "\"" << jsonEsc(k) << "\":" << v; first = false; }
    o << "},\"funcs\":["; first = true;
    std::set<std::string> fnames;
    for (auto* f : byObj) if (f && f->executed)
        for (size_t b = 0; b < f->blocks.size(); b++) {
            if (!f->blocks[b].executed) continue;
            size_t end = f->insts.size();
            for (size_t b2 = 0; b2 < f->blocks.size(); b2++) if (f->blocks[b2].start > f->blocks[b].start) end = std::min<size_t>(end, (size_t)f->blocks[b2].start);
            for (size_t i = (size_t)f->blocks[b].start; i < end; i++)
                for (const DILocation* d = f->insts[i].I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
                    auto* sp = d->getScope()->getSubprogram();
                    if (!sp) continue;
                    std::string fn = sp->getFilename().str();
                    size_t p = fn.find("/include/");
                    if (p == std::string::npos || fn.compare(0, 5, "/usr/") == 0 || fn.find("/sym/") != std::string::npos) continue;
                    fnames.insert(fn.substr(p + 9) + ":" + sp->getName().str());
                }
        }
    for (auto& n : fnames) { o << (first ? "\"" : ",\"") << jsonEsc(n) << "\""; first = false; }
    auto& g = gStats;
    o << "],\"queries\":" << g.queries << ",\"sat\":" << g.sat << ",\"unsat\":" << g.unsat << ",\"unknown\":" << g.unknown << ",\"cacheHits\":" << g.cacheHits << ",\"tableHits\":" << g.tableHits
      << ",\"modelHits\":" << g.modelHits << ",\"assertQueries\":" << g.assertQueries << ",\"solverSeconds\":" << g.seconds << ",\"maxQuery\":" << g.maxQuery << "}\n";
}

int Exec::run() {
    // global constructors, concretely
    State* s = base;
    auto runConcrete = [&](KFunc* f) {
        pushCall(*s, f, {}, false);
        try { loop(*s); }
        catch (PathEnd& e) { if (e.kind != "done") { fprintf(stderr, "wfsym: global constructor %s: %s %s at %s\n", f->name.c_str(), e.kind.c_str(), e.msg.c_str(), where(*s).c_str()); return false; } }
        return true;
    };
    if (auto* G = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& op : A->operands()) {
                auto* F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
                if (F && !runConcrete(funcs[F])) return 3;
            }
    KFunc* e = funcByName(gCfg.entry);
    if (!e) { fprintf(stderr, "wfsym: no entry %s\n", gCfg.entry.c_str()); return 3; }
    s->steps = 0;
    for (auto* f : byObj) if (f) { f->executed = false; for (auto& b : f->blocks) b.executed = false; }
    State* t = new State(*s);
    pushCall(*t, e, {}, false);
    work.push_back(t);
    gSh->active = 1;
    worker(true);
    return 0;
}
