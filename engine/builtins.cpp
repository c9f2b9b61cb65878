#include "exec.hpp"
#include <algorithm>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;
using V = std::vector<Val>;

static u64 conc(State& s, const Val& v, unsigned w, const char* what) { return X.concretize(s, v, w, what); }

// ---- harness API
static std::string inName(State& s, const std::string& n) { return n + "#" + std::to_string(s.inputs.size()); }
static void bi_symbolic(State& s, KInst&, V& a) {
    u64 n = conc(s, a[1], 64, "vf_symbolic");
    std::string nm = X.readCStr(s, a[2]);
    std::string base = inName(s, nm);
    V bytes;
    for (u64 i = 0; i < n; i++) bytes.push_back(Val(mkVar(base + "[" + std::to_string(i) + "]", 8)));
    X.writeBuf(s, a[0], bytes, "vf_symbolic");
    s.inputs.push_back({nm, bytes});
}
static Val rangeVar(State& s, V& a, std::string& nm) {
    nm = X.readCStr(s, a[0]);
    u64 lo = conc(s, a[1], 64, "vf_range"), hi = conc(s, a[2], 64, "vf_range");
    if (hi < lo) throw PathEnd{"unsupported", "vf_range " + nm + " empty"};
    u64 d = hi - lo;
    if (!d) return Val(lo);
    unsigned w = 64 - (unsigned)__builtin_clzll(d);
    E v = mkVar(inName(s, nm), w);
    E c = mkUle(v, mkConst(d, w));
    if (!s.pc.add(c)) throw PathEnd{"infeasible", ""};
    return Val(mkBin(Op::Add, mkZExt(v, 64), mkConst(lo, 64)));
}
static void addInput64(State& s, const std::string& nm, const Val& v) {
    V b;
    for (int i = 0; i < 8; i++) b.push_back(v.conc() ? Val((v.c >> (8 * i)) & 255) : Val(mkExtract(v.e, 8 * i, 8)));
    s.inputs.push_back({nm, b});
}
static void bi_range(State& s, KInst&, V& a) {
    std::string nm;
    Val v = rangeVar(s, a, nm);
    addInput64(s, nm, v);
    X.setResult(s, v);
}
static void bi_pick(State& s, KInst&, V& a) {
    std::string nm;
    Val v = rangeVar(s, a, nm);
    u64 x = conc(s, v, 64, "vf_pick");
    addInput64(s, nm, Val(x));
    X.setResult(s, Val(x));
}
static void bi_assume(State& s, KInst&, V& a) {
    Val c = a[0];
    if (c.conc()) { if (!c.c) throw PathEnd{"assume", ""}; return; }
    E e = mkNe(c.e, mkConst(0, c.e->width));
    if (e->isConst()) { if (!e->val) throw PathEnd{"assume", ""}; return; }
    if (!evalFresh(e, s.model)) {
        Model m = s.model;
        R r = solve(s.pc, e, m);
        if (r == R::Unsat) throw PathEnd{"assume", ""};
        if (r == R::Unknown) throw PathEnd{"unknown", "assume"};
        s.model = m;
    }
    if (!s.pc.add(e)) throw PathEnd{"assume", ""};
}
static void bi_assert(State& s, KInst&, V& a) {
    s.asserts++;
    Val c = a[0];
    std::string msg = X.readCStr(s, a[1]);
    if (c.conc()) { if (!c.c) X.violation(s, "assert", msg); return; }
    E e = mkNe(c.e, mkConst(0, c.e->width));
    if (e->isConst()) { if (!e->val) X.violation(s, "assert", msg); return; }
    Model m = s.model;
    R r = solve(s.pc, mkNot(e), m, true);
    if (r == R::Unsat) return;
    if (r == R::Unknown) throw PathEnd{"unknown", "assertion undecided: " + msg};
    X.report(s, "assert", msg, m);
    // continue where it holds
    if (!evalFresh(e, s.model)) {
        Model m2 = s.model;
        r = solve(s.pc, e, m2);
        if (r != R::Sat) throw PathEnd{"violation", ""};
        s.model = m2;
    }
    if (!s.pc.add(e)) throw PathEnd{"violation", ""};
}
static void bi_fail(State& s, KInst&, V& a) { s.asserts++; X.violation(s, "assert", X.readCStr(s, a[0])); }
static void bi_reach(State& s, KInst&, V& a) { s.tags.push_back(X.readCStr(s, a[0])); }
static void bi_observe(State& s, KInst&, V& a) {
    u64 n = conc(s, a[2], 64, "vf_observe");
    V b;
    X.readBuf(s, a[1], n, b, "vf_observe");
    s.obs.push_back({X.readCStr(s, a[0]), b});
}
static void bi_param(State& s, KInst&, V& a) {
    std::string n = X.readCStr(s, a[0]);
    auto it = gCfg.params.find(n);
    X.setResult(s, it == gCfg.params.end() ? a[1] : Val((u64)it->second));
}
static void bi_alloclimit(State& s, KInst&, V& a) { s.allocLimit = a[0].c; }
static void bi_heaplive(State& s, KInst&, V&) { X.setResult(s, Val(s.heapLive)); }
static void bi_one(State& s, KInst&, V&) { X.setResult(s, Val(1)); }
static void bi_concrete(State& s, KInst&, V& a) { u64 x = conc(s, a[0], 64, "vf_concrete"); X.setResult(s, Val(x)); }
static void bi_print(State& s, KInst&, V& a) { fprintf(stderr, "[vf_print] %s %s\n", X.readCStr(s, a[0]).c_str(), a[1].conc() ? std::to_string(a[1].c).c_str() : show(a[1].e, 8).c_str()); }
// equality of two buffers as one expression, without forking
static Val eqBytes(State& s, V& x, V& y) {
    E r = mkBool(true);
    for (size_t i = 0; i < x.size(); i++) r = mkAnd(r, mkEq(toE(x[i], 8), toE(y[i], 8)));
    return Val(r);
}
static void bi_eqbytes(State& s, KInst&, V& a) {
    u64 n = conc(s, a[2], 64, "vf_eq");
    V x, y;
    X.readBuf(s, a[0], n, x, "vf_eq"); X.readBuf(s, a[1], n, y, "vf_eq");
    Val v = eqBytes(s, x, y);
    X.setResult(s, v.conc() ? v : Val(mkZExt(v.e, 32)));
}

// ---- memory
static void doAlloc(State& s, KInst& I, Val n, bool init, bool isNew) {
    u64 limit = s.allocLimit ? s.allocLimit : (256ull << 20);
    if (!n.conc()) {
        E over = mkUlt(mkConst(limit, 64), n.e);
        if (X.decide(s, over)) {
            if (s.allocLimit) X.violation(s, "allocation", "allocation larger than " + std::to_string(limit) + " bytes");
            n = Val(limit + 1);
        } else n = Val(conc(s, n, 64, "allocation size"));
    }
    if (n.c > limit) {
        if (s.allocLimit) X.violation(s, "allocation", "allocation of " + std::to_string(n.c) + " bytes, limit " + std::to_string(limit));
        if (!isNew) { X.setResult(s, Val(0)); return; }
        KFunc* f = X.funcByName("__vf_throw_bad_alloc");
        if (!f) throw PathEnd{"unsupported", "bad_alloc"};
        X.pushCall(s, f, {}, false);
        return;
    }
    u64 a = X.alloc(s, n.c, OK::Heap, init);
    s.heapLive++; s.heapBytes += n.c;
    X.setResult(s, Val(a));
}
static void bi_new(State& s, KInst& I, V& a) { doAlloc(s, I, a[0], false, true); }
static void bi_malloc(State& s, KInst& I, V& a) { doAlloc(s, I, a[0], false, false); }
static void bi_calloc(State& s, KInst& I, V& a) { doAlloc(s, I, Val(conc(s, a[0], 64, "calloc") * conc(s, a[1], 64, "calloc")), true, false); }
static void bi_free(State& s, KInst&, V& a) { X.freeHeap(s, a[0], "free"); }

static void copyMem(State& s, const Val& d, const Val& sp, const Val& len, const char* what) {
    u64 n = conc(s, len, 64, what);
    if (!n) return;
    Exec::Loc ls = X.resolve(s, sp, n, false, what);
    u64 so = conc(s, ls.off, 64, what);
    Exec::Loc ld = X.resolve(s, d, n, true, what);
    u64 dof = conc(s, ld.off, 64, what);
    if (ls.id == ld.id && so == dof) return;
    Obj* D = s.objs.own(ld.id);
    Obj* S = s.objs.get(ls.id);
    if (S == D && so < dof && dof < so + n) {
        std::vector<Val> t; std::vector<char> ini;
        for (u64 i = 0; i < n; i++) {
            Chunk* c = S->ch[(so + i) / CH].get();
            ini.push_back(c->isInit((so + i) % CH));
            t.push_back(ini.back() ? X.readByteAt(s, S, ls.id, so + i) : Val(0));
        }
        for (u64 i = 0; i < n; i++) {
            Chunk* c = D->ch[(dof + i) / CH].own(); u32 k = (dof + i) % CH;
            if (!ini[i]) c->setUninit(k); else if (t[i].conc()) c->setConc(k, (uint8_t)t[i].c); else c->setSym(k, t[i].e);
        }
        return;
    }
    for (u64 i = 0; i < n;) {
        u32 sk = (so + i) % CH, dk = (dof + i) % CH;
        u32 m = (u32)std::min<u64>({CH - sk, CH - dk, n - i});
        Chunk* cs = S->ch[(so + i) / CH].get();
        if (m == CH && sk == 0 && dk == 0) { D->ch[(dof + i) / CH] = S->ch[(so + i) / CH]; i += m; continue; }
        Chunk* cd = D->ch[(dof + i) / CH].own();
        cs = S->ch[(so + i) / CH].get();
        if (cs->plain(sk, m) && !cd->nsym) {
            memmove(cd->b + dk, cs->b + sk, m);
            for (u32 k = 0; k < m; k++) cd->setInit(dk + k);
        } else for (u32 k = 0; k < m; k++) {
            if (cs->nsym && cs->sym[sk + k]) cd->setSym(dk + k, cs->sym[sk + k]);
            else if (!cs->isInit(sk + k)) {
                // keep the identity of uninitialised bytes out of it: the copy is uninitialised too
                cd->setUninit(dk + k);
            } else cd->setConc(dk + k, cs->b[sk + k]);
        }
        i += m;
    }
}
static void bi_memcpy(State& s, KInst&, V& a) { copyMem(s, a[0], a[1], a[2], "memcpy"); }
static void bi_memcpyRet(State& s, KInst&, V& a) { copyMem(s, a[0], a[1], a[2], "memcpy"); X.setResult(s, a[0]); }
static void setMem(State& s, const Val& d, const Val& c, const Val& len) {
    u64 n = conc(s, len, 64, "memset");
    if (!n) return;
    Exec::Loc l = X.resolve(s, d, n, true, "memset");
    u64 off = conc(s, l.off, 64, "memset");
    Obj* D = s.objs.own(l.id);
    Val b = c.conc() ? Val(c.c & 255) : Val(mkExtract(c.e, 0, 8));
    for (u64 i = 0; i < n;) {
        u32 k = (off + i) % CH;
        u32 m = (u32)std::min<u64>(CH - k, n - i);
        Chunk* ch = D->ch[(off + i) / CH].own();
        if (b.conc() && !ch->nsym) { memset(ch->b + k, (int)b.c, m); for (u32 j = 0; j < m; j++) ch->setInit(k + j); }
        else for (u32 j = 0; j < m; j++) { if (b.conc()) ch->setConc(k + j, (uint8_t)b.c); else ch->setSym(k + j, b.e); }
        i += m;
    }
}
static void bi_memset(State& s, KInst&, V& a) { setMem(s, a[0], a[1], a[2]); }
static void bi_memsetRet(State& s, KInst&, V& a) { setMem(s, a[0], a[1], a[2]); X.setResult(s, a[0]); }
static void bi_memcmp(State& s, KInst&, V& a) {
    u64 n = conc(s, a[2], 64, "memcmp");
    V x, y;
    X.readBuf(s, a[0], n, x, "memcmp"); X.readBuf(s, a[1], n, y, "memcmp");
    E r = mkConst(0, 32);
    for (size_t i = n; i-- > 0;) {
        E p = toE(x[i], 8), q = toE(y[i], 8);
        r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    X.setResult(s, Val(r));
}
static void bi_bcmp(State& s, KInst&, V& a) {
    u64 n = conc(s, a[2], 64, "bcmp");
    V x, y;
    X.readBuf(s, a[0], n, x, "bcmp"); X.readBuf(s, a[1], n, y, "bcmp");
    Val v = eqBytes(s, x, y);
    X.setResult(s, v.conc() ? Val((u64)!v.c) : Val(mkZExt(mkNot(v.e), 32)));
}
static void bi_strlen(State& s, KInst&, V& a) {
    Val p = a[0];
    u64 base = conc(s, p, 64, "strlen");
    for (u64 i = 0;; i++) {
        Exec::Loc l = X.resolve(s, Val(base + i), 1, false, "strlen");
        Val b = X.readBytes(s, l, 1);
        if (X.decide(s, mkEq(toE(b, 8), mkConst(0, 8)))) { X.setResult(s, Val(i)); return; }
    }
}
static void bi_memchr(State& s, KInst&, V& a) {
    u64 base = conc(s, a[0], 64, "memchr"), n = conc(s, a[2], 64, "memchr");
    E c = mkExtract(toE(a[1], 32), 0, 8);
    V x;
    X.readBuf(s, Val(base), n, x, "memchr");
    for (u64 i = 0; i < n; i++) if (X.decide(s, mkEq(toE(x[i], 8), c))) { X.setResult(s, Val(base + i)); return; }
    X.setResult(s, Val(0));
}

// %-conversions of integers, characters and strings
static void format(State& s, V& a, size_t ai, const std::string& f, V& out) {
    auto next = [&]() -> Val { if (ai >= a.size()) throw PathEnd{"unsupported", "format arguments"}; return a[ai++]; };
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { out.push_back(Val((u64)(unsigned char)f[i])); continue; }
        i++;
        bool zero = false, left = false, alt = false, plus = false;
        for (; i < f.size() && strchr("0-#+ ", f[i]); i++) { zero |= f[i] == '0'; left |= f[i] == '-'; alt |= f[i] == '#'; plus |= f[i] == '+'; }
        auto number = [&]() -> long {
            if (i < f.size() && f[i] == '*') { i++; return (long)(int)conc(s, next(), 32, "format width"); }
            long n = 0;
            for (; i < f.size() && isdigit((unsigned char)f[i]); i++) n = n * 10 + (f[i] - '0');
            return n;
        };
        long width = number(), prec = -1;
        if (width < 0) { left = true; width = -width; }
        if (i < f.size() && f[i] == '.') { i++; prec = number(); }
        unsigned w = 32;
        for (; i < f.size() && strchr("hlzjtq", f[i]); i++) w = f[i] == 'h' ? (w == 16 ? 8 : 16) : 64;
        char c = i < f.size() ? f[i] : 0;
        V body;
        if (c == '%') { out.push_back(Val((u64)'%')); continue; }
        if (c == 'c') { Val v = next(); body.push_back(v.conc() ? Val(v.c & 255) : Val(mkExtract(v.e, 0, 8))); }
        else if (c == 's') {
            u64 p = conc(s, next(), 64, "format string");
            for (u64 k = 0; prec < 0 || k < (u64)prec; k++) {
                Val b = X.readBytes(s, X.resolve(s, Val(p + k), 1, false, "%s"), 1);
                if (X.decide(s, mkEq(toE(b, 8), mkConst(0, 8)))) break;
                body.push_back(b);
            }
        } else if (c && strchr("diuxXop", c)) {
            Val v = next();
            if (c == 'p') { w = 64; alt = true; c = 'x'; }
            // a byte in two digits stays symbolic
            if (!v.conc() && (c == 'x' || c == 'X') && width == 2 && zero && prec < 0 && !left && !alt && !X.decide(s, mkUlt(mkConst(255, v.e->width), v.e))) {
                for (int k = 4; k >= 0; k -= 4) {
                    E n = mkZExt(mkExtract(v.e, (unsigned)k, 4), 8);
                    body.push_back(Val(mkIte(mkUlt(n, mkConst(10, 8)), mkBin(Op::Add, n, mkConst('0', 8)), mkBin(Op::Add, n, mkConst((c == 'x' ? 'a' : 'A') - 10, 8)))));
                }
            } else {
                unsigned vw = v.conc() ? 64 : v.e->width;
                u64 x = conc(s, v, vw, "formatted number");
                bool neg = false;
                if (w < 64) x &= (1ull << w) - 1;
                if (c == 'd' || c == 'i') {
                    if (w < 64 && x >> (w - 1)) x |= ~((1ull << w) - 1);
                    neg = (int64_t)x < 0;
                    if (neg) x = 0 - x;
                }
                u64 base = c == 'x' || c == 'X' ? 16 : c == 'o' ? 8 : 10;
                std::string d;
                for (u64 y = x; y; y /= base) d.insert(d.begin(), (c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[y % base]);
                if (d.empty() && prec != 0) d = "0";
                while (prec > 0 && (long)d.size() < prec) d.insert(d.begin(), '0');
                std::string sign = neg ? "-" : plus && (c == 'd' || c == 'i') ? "+" : "";
                if (alt && x && base == 16) sign = c == 'X' ? "0X" : "0x";
                while (zero && !left && prec < 0 && (long)(d.size() + sign.size()) < width) d.insert(d.begin(), '0');
                for (char k : sign + d) body.push_back(Val((u64)(unsigned char)k));
            }
        } else throw PathEnd{"unsupported", "format %" + std::string(1, c)};
        if (!left) for (long k = (long)body.size(); k < width; k++) out.push_back(Val((u64)' '));
        out.insert(out.end(), body.begin(), body.end());
        if (left) for (long k = (long)body.size(); k < width; k++) out.push_back(Val((u64)' '));
    }
}
static void bi_snprintf(State& s, KInst& I, V& a) {
    u64 n = conc(s, a[1], 64, "snprintf");
    V out;
    format(s, a, 3, X.readCStr(s, a[2]), out);
    u64 total = out.size();
    if (n) {
        if (out.size() > n - 1) out.resize(n - 1);
        out.push_back(Val(0));
        X.writeBuf(s, a[0], out, "snprintf");
    }
    if (I.dest >= 0) X.setResult(s, Val(total));
}
static void bi_sprintf(State& s, KInst& I, V& a) {
    V out;
    format(s, a, 2, X.readCStr(s, a[1]), out);
    out.push_back(Val(0));
    X.writeBuf(s, a[0], out, "sprintf");
    if (I.dest >= 0) X.setResult(s, Val(out.size() - 1));
}
static void bi_discard(State& s, KInst& I, V&) { if (I.dest >= 0) X.setResult(s, Val(1)); }

// ---- control
static void bi_nop(State&, KInst&, V&) {}
static void bi_ret0(State& s, KInst& I, V&) { if (I.dest >= 0) X.setResult(s, Val(0)); }
static void bi_arg0(State& s, KInst& I, V& a) { if (I.dest >= 0) X.setResult(s, a[0]); }
static void bi_abort(State& s, KInst& I, V&) { X.violation(s, "abort", I.biName + " called"); }
static void bi_terminate(State& s, KInst& I, V&) { X.violation(s, "terminate", "std::terminate called"); }
static void bi_trap(State& s, KInst& I, V& a) {
    static const char* names[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla-bound"};
    u64 k = a.empty() ? 999 : a[0].c;
    X.violation(s, "ub", k < 25 ? names[k] : "trap");
}
static void bi_guardAcq(State& s, KInst&, V& a) {
    u64 p = a[0].c;
    Exec::Loc l = X.resolve(s, a[0], 1, false, "guard");
    Val v = X.readBytes(s, l, 1);
    (void)p;
    X.setResult(s, Val((u64)(v.c == 0)));
}
static void bi_guardRel(State& s, KInst&, V& a) { Exec::Loc l = X.resolve(s, a[0], 1, true, "guard"); X.writeBytes(s, l, Val(1), 1); }

// ---- exceptions
static void bi_allocExc(State& s, KInst&, V& a) {
    u64 p = X.alloc(s, conc(s, a[0], 64, "exception size"), OK::Heap, false);
    s.heapLive++;
    Exc e; e.ptr = p;
    s.excs.push_back(e);
    X.setResult(s, Val(p));
}
static void dropExc(State& s, u64 p) {
    s.objs.drop((u32)(p >> 32));
    s.heapLive--;
    for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].ptr == p) { s.excs.erase(s.excs.begin() + (long)i); break; }
}
static void bi_freeExc(State& s, KInst&, V& a) { dropExc(s, a[0].c); }
static Exc* findExc(State& s, u64 p) { for (auto& e : s.excs) if (e.ptr == p) return &e; return nullptr; }
static void bi_throw(State& s, KInst&, V& a) {
    Exc* e = findExc(s, a[0].c);
    e->type = a[1].c; e->dtor = a[2].c; e->uncaught = true;
    X.throwExc(s, a[0].c, false);
}
static void bi_beginCatch(State& s, KInst&, V& a) {
    Exc* e = findExc(s, a[0].c);
    if (!e) throw PathEnd{"unsupported", "begin_catch of a foreign exception"};
    e->handlers++; e->rethrown = false; e->uncaught = false;
    if (s.caught.empty() || s.caught.back() != e->ptr) s.caught.push_back(e->ptr);
    X.setResult(s, Val(e->adj));
}
static void bi_getExcPtr(State& s, KInst&, V& a) { Exc* e = findExc(s, a[0].c); X.setResult(s, Val(e ? e->adj : a[0].c)); }
static void bi_excDone(State& s, KInst&, V& a) { dropExc(s, a[0].c); }
static void bi_endCatch(State& s, KInst& I, V&) {
    if (s.caught.empty()) return;
    u64 p = s.caught.back();
    Exc* e = findExc(s, p);
    if (--e->handlers > 0) return;
    s.caught.pop_back();
    if (e->rethrown) return;
    u64 dt = e->dtor;
    if (!dt) { dropExc(s, p); return; }
    KFunc* f = X.byObj[(u32)(dt >> 32)];
    // the object stays allocated until the path ends with it: drop after the destructor via a trampoline
    Frame& fr = *s.top();
    if (I.invoke) { // normal successor, then run the destructor on top of it
        KFunc* t = X.funcByName("__vf_destroy_exception");
        X.pushCall(s, t, {Val(p), Val(dt)}, false);
        return;
    }
    KFunc* t = X.funcByName("__vf_destroy_exception");
    (void)fr; (void)f;
    X.pushCall(s, t, {Val(p), Val(dt)}, false);
}
static void bi_rethrow(State& s, KInst&, V&) {
    if (s.caught.empty()) X.violation(s, "terminate", "rethrow without exception");
    u64 p = s.caught.back();
    Exc* e = findExc(s, p);
    e->rethrown = true; e->uncaught = true;
    X.throwExc(s, p, false);
}
static void bi_uncaught(State& s, KInst&, V&) { u64 n = 0; for (auto& e : s.excs) if (e.uncaught && e.type) n++; X.setResult(s, Val(n)); }
static void bi_typeid(State& s, KInst&, V& a) { X.setResult(s, Val(a[0].c ? a[0].c >> 32 : 0x7fffffff)); }
void Exec::dynCast(State& s, V& a) {
    u64 src = a[0].c;
    Val vp = readBytes(s, resolve(s, Val(src), 8, false, "dynamic_cast"), 8);
    i128 ott = (int64_t)readBytes(s, resolve(s, Val(vp.c - 16), 8, false, "dynamic_cast"), 8).c;
    u64 dyn = readBytes(s, resolve(s, Val(vp.c - 8), 8, false, "dynamic_cast"), 8).c;
    u64 full = src + (u64)(int64_t)ott, adj = 0;
    bool ok = typeMatches(dyn, a[2].c, full, adj);
    setResult(s, Val(ok ? adj : 0));
}
static void bi_dyncast(State& s, KInst&, V& a) { X.dynCast(s, a); }

// ---- intrinsics
static unsigned argW(KInst& I, unsigned i) { return I.argW[i]; }
static void elem(State& s, KInst& I, V& a, Val (*f)(State&, unsigned, const Val&, const Val&)) {
    unsigned n = (unsigned)std::max<u64>(1, I.imm2);
    V r;
    bool two = a.size() >= 2 * n;
    for (unsigned k = 0; k < n; k++) r.push_back(f(s, argW(I, k), a[k], two ? a[n + k] : Val(0)));
    Frame& g = *s.top();
    for (unsigned k = 0; k < n; k++) g.regs[(size_t)I.dest + k] = r[k];
}
#define ELEM(name, body) static void name(State& s, KInst& I, V& a) { elem(s, I, a, [](State& s, unsigned w, const Val& x, const Val& y) -> Val { (void)s; E p = toE(x, w), q = y.e || true ? toE(y, y.e ? y.e->width : w) : nullptr; (void)q; body }); }
ELEM(bi_umin, return Val(mkIte(mkUlt(p, q), p, q));)
ELEM(bi_umax, return Val(mkIte(mkUlt(p, q), q, p));)
ELEM(bi_smin, return Val(mkIte(mkBin(Op::Slt, p, q), p, q));)
ELEM(bi_smax, return Val(mkIte(mkBin(Op::Slt, p, q), q, p));)
ELEM(bi_usubsat, return Val(mkIte(mkUlt(p, q), mkConst(0, w), mkBin(Op::Sub, p, q)));)
ELEM(bi_uaddsat, E t = mkBin(Op::Add, p, q); return Val(mkIte(mkUlt(t, p), mkConst(maskOf(w), w), t));)
ELEM(bi_fabs, return Val(mkAnd(p, mkConst(maskOf(w - 1), w)));)
ELEM(bi_ftrunc, return Val(mkFp(Op::FRound, p, nullptr, w, 0));)
ELEM(bi_ffloor, return Val(mkFp(Op::FRound, p, nullptr, w, 1));)
ELEM(bi_fceil, return Val(mkFp(Op::FRound, p, nullptr, w, 2));)
ELEM(bi_fround, return Val(mkFp(Op::FRound, p, nullptr, w, 3));)
ELEM(bi_ctpop, E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(p, i, 1), w)); return Val(r);)
static void bi_abs(State& s, KInst& I, V& a) {
    unsigned w = argW(I, 0); E p = toE(a[0], w);
    X.setResult(s, Val(mkIte(mkBin(Op::Slt, p, mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), p), p)));
}
static void bi_ctlz(State& s, KInst& I, V& a) {
    unsigned w = argW(I, 0); E p = toE(a[0], w), r = mkConst(w, w);
    for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(p, i, 1), mkConst(w - 1 - i, w), r);
    X.setResult(s, Val(r));
}
static void bi_cttz(State& s, KInst& I, V& a) {
    unsigned w = argW(I, 0); E p = toE(a[0], w), r = mkConst(w, w);
    for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(p, i, 1), mkConst(i, w), r);
    X.setResult(s, Val(r));
}
static void bi_bswap(State& s, KInst& I, V& a) {
    unsigned w = argW(I, 0); E p = toE(a[0], w), r = nullptr;
    for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(p, 8 * i, 8); r = r ? mkConcat(r, b) : b; }
    X.setResult(s, Val(r));
}
static void bi_bitrev(State& s, KInst& I, V& a) {
    unsigned w = argW(I, 0); E p = toE(a[0], w), r = nullptr;
    for (unsigned i = 0; i < w; i++) { E b = mkExtract(p, i, 1); r = r ? mkConcat(r, b) : b; }
    X.setResult(s, Val(r));
}
static void funnel(State& s, KInst& I, V& a, bool left) {
    unsigned w = argW(I, 0);
    if (I.imm2 > 1) throw PathEnd{"unsupported", "vector funnel shift"};
    E hi = toE(a[0], w), lo = toE(a[1], w);
    E sh = mkBin(Op::URem, toE(a[2], w), mkConst(w, w));
    E inv = mkBin(Op::Sub, mkConst(w, w), sh);
    E r;
    if (left) r = mkIte(mkEq(sh, mkConst(0, w)), hi, mkOr(mkBin(Op::Shl, hi, sh), mkBin(Op::LShr, lo, inv)));
    else r = mkIte(mkEq(sh, mkConst(0, w)), lo, mkOr(mkBin(Op::Shl, hi, inv), mkBin(Op::LShr, lo, sh)));
    X.setResult(s, Val(r));
}
static void bi_fshl(State& s, KInst& I, V& a) { funnel(s, I, a, true); }
static void bi_fshr(State& s, KInst& I, V& a) { funnel(s, I, a, false); }
static void ovf(State& s, KInst& I, V& a, int op, bool sg) {
    unsigned w = argW(I, 0);
    E p = toE(a[0], w), q = toE(a[1], w), r, o;
    if (op == 2) {
        if (w > 64) throw PathEnd{"unsupported", "wide mul overflow"};
        E P = sg ? mkSExt(p, 2 * w) : mkZExt(p, 2 * w), Q = sg ? mkSExt(q, 2 * w) : mkZExt(q, 2 * w);
        E f = mkBin(Op::Mul, P, Q);
        r = mkExtract(f, 0, w);
        o = mkNe(f, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w));
    } else {
        r = mkBin(op == 0 ? Op::Add : Op::Sub, p, q);
        if (!sg) o = op == 0 ? mkUlt(r, p) : mkUlt(p, q);
        else {
            E P = mkSExt(p, w + 1), Q = mkSExt(q, w + 1);
            o = mkNe(mkBin(op == 0 ? Op::Add : Op::Sub, P, Q), mkSExt(r, w + 1));
        }
    }
    Frame& g = *s.top();
    g.regs[(size_t)I.dest] = Val(r); g.regs[(size_t)I.dest + 1] = Val(o);
}
static void bi_uadd(State& s, KInst& I, V& a) { ovf(s, I, a, 0, false); }
static void bi_sadd(State& s, KInst& I, V& a) { ovf(s, I, a, 0, true); }
static void bi_usub(State& s, KInst& I, V& a) { ovf(s, I, a, 1, false); }
static void bi_ssub(State& s, KInst& I, V& a) { ovf(s, I, a, 1, true); }
static void bi_umul(State& s, KInst& I, V& a) { ovf(s, I, a, 2, false); }
static void bi_smul(State& s, KInst& I, V& a) { ovf(s, I, a, 2, true); }
static void bi_objsize(State& s, KInst& I, V& a) { X.setResult(s, Val(a.size() > 1 && a[1].c ? 0 : (u64)maskOf(I.w))); }
static void bi_lifeStart(State& s, KInst&, V& a) {
    u32 id = (u32)(a[1].c >> 32);
    Obj* o = s.objs.get(id);
    if (!o || o->kind != OK::Stack) return;
    o = s.objs.own(id);
    o->dead = false; o->gen++;
    o->ch.assign(o->ch.size(), Obj::zeroChunk(false));
}
static void bi_lifeEnd(State& s, KInst&, V& a) {
    u32 id = (u32)(a[1].c >> 32);
    Obj* o = s.objs.get(id);
    if (!o || o->kind != OK::Stack) return;
    s.objs.own(id)->dead = true;
}
static void bi_expect(State& s, KInst& I, V& a) { X.setResult(s, a[0]); }
static void bi_now(State& s, KInst&, V&) { X.setResult(s, Val((u64)(1700000000000000000ull))); }
static void bi_sadd_sat(State& s, KInst& I, V& a) { throw PathEnd{"unsupported", I.biName}; }

Builtin findBuiltin(const std::string& n, KInst& I) {
    static const std::unordered_map<std::string, Builtin> t = {
        {"vf_symbolic", bi_symbolic}, {"vf_range", bi_range}, {"vf_pick", bi_pick}, {"vf_assume", bi_assume}, {"vf_assert", bi_assert}, {"vf_fail", bi_fail},
        {"vf_reach", bi_reach}, {"vf_observe", bi_observe}, {"vf_param", bi_param}, {"vf_alloc_limit", bi_alloclimit}, {"vf_heap_live", bi_heaplive},
        {"vf_is_symbolic_run", bi_one}, {"vf_eq", bi_eqbytes}, {"vf_concrete", bi_concrete}, {"vf_print", bi_print},
        {"_Znwm", bi_new}, {"_Znam", bi_new}, {"_ZnwmSt11align_val_t", bi_new}, {"_ZnamSt11align_val_t", bi_new}, {"_ZnwmRKSt9nothrow_t", bi_malloc}, {"_ZnamRKSt9nothrow_t", bi_malloc},
        {"malloc", bi_malloc}, {"calloc", bi_calloc}, {"free", bi_free}, {"_ZdlPv", bi_free}, {"_ZdaPv", bi_free}, {"_ZdlPvm", bi_free}, {"_ZdaPvm", bi_free},
        {"_ZdlPvSt11align_val_t", bi_free}, {"_ZdlPvmSt11align_val_t", bi_free}, {"_ZdaPvSt11align_val_t", bi_free}, {"_ZdaPvmSt11align_val_t", bi_free}, {"_ZdlPvRKSt9nothrow_t", bi_free}, {"_ZdaPvRKSt9nothrow_t", bi_free},
        {"memcpy", bi_memcpyRet}, {"memmove", bi_memcpyRet}, {"memset", bi_memsetRet}, {"memcmp", bi_memcmp}, {"bcmp", bi_bcmp}, {"strlen", bi_strlen}, {"memchr", bi_memchr},
        {"snprintf", bi_snprintf}, {"sprintf", bi_sprintf}, {"printf", bi_discard}, {"puts", bi_discard}, {"putchar", bi_discard}, {"fputs", bi_discard}, {"fputc", bi_discard}, {"fflush", bi_ret0},
        {"abort", bi_abort}, {"exit", bi_abort}, {"_ZSt9terminatev", bi_terminate}, {"__cxa_pure_virtual", bi_abort}, {"_ZSt10unexpectedv", bi_terminate}, {"__cxa_call_unexpected", bi_terminate},
        {"__cxa_guard_acquire", bi_guardAcq}, {"__cxa_guard_release", bi_guardRel}, {"__cxa_guard_abort", bi_nop}, {"__cxa_atexit", bi_ret0}, {"atexit", bi_ret0}, {"__cxa_thread_atexit", bi_ret0},
        {"__cxa_allocate_exception", bi_allocExc}, {"__cxa_free_exception", bi_freeExc}, {"__cxa_throw", bi_throw}, {"__cxa_begin_catch", bi_beginCatch}, {"__cxa_end_catch", bi_endCatch},
        {"__cxa_rethrow", bi_rethrow}, {"__cxa_get_exception_ptr", bi_getExcPtr}, {"_ZSt19uncaught_exceptionsv", bi_uncaught}, {"__dynamic_cast", bi_dyncast}, {"__vf_exception_done", bi_excDone},
        {"_ZNSt6chrono3_V212system_clock3nowEv", bi_now}, {"_ZNSt6chrono3_V212steady_clock3nowEv", bi_now},
        {"_ZNSt8ios_base4InitC1Ev", bi_nop}, {"_ZNSt8ios_base4InitD1Ev", bi_nop},
        {"__inline_asm", bi_nop}, {"sched_yield", bi_ret0},
        {"fabs", bi_fabs}, {"trunc", bi_ftrunc}, {"floor", bi_ffloor}, {"ceil", bi_fceil},
    };
    auto it = t.find(n);
    if (it != t.end()) return it->second;
    if (n.compare(0, 5, "llvm.") == 0) {
        static const std::vector<std::pair<const char*, Builtin>> p = {
            {"llvm.memcpy", bi_memcpy}, {"llvm.memmove", bi_memcpy}, {"llvm.memset", bi_memset}, {"llvm.lifetime.start", bi_lifeStart}, {"llvm.lifetime.end", bi_lifeEnd},
            {"llvm.umin", bi_umin}, {"llvm.umax", bi_umax}, {"llvm.smin", bi_smin}, {"llvm.smax", bi_smax}, {"llvm.abs", bi_abs}, {"llvm.ctlz", bi_ctlz}, {"llvm.cttz", bi_cttz}, {"llvm.ctpop", bi_ctpop},
            {"llvm.bswap", bi_bswap}, {"llvm.bitreverse", bi_bitrev}, {"llvm.fshl", bi_fshl}, {"llvm.fshr", bi_fshr},
            {"llvm.uadd.with", bi_uadd}, {"llvm.sadd.with", bi_sadd}, {"llvm.usub.with", bi_usub}, {"llvm.ssub.with", bi_ssub}, {"llvm.umul.with", bi_umul}, {"llvm.smul.with", bi_smul},
            {"llvm.usub.sat", bi_usubsat}, {"llvm.uadd.sat", bi_uaddsat}, {"llvm.objectsize", bi_objsize}, {"llvm.expect", bi_expect}, {"llvm.is.constant", bi_ret0}, {"llvm.eh.typeid.for", bi_typeid},
            {"llvm.ubsantrap", bi_trap}, {"llvm.trap", bi_trap}, {"llvm.debugtrap", bi_trap}, {"llvm.stacksave", bi_ret0}, {"llvm.stackrestore", bi_nop}, {"llvm.prefetch", bi_nop},
            {"llvm.launder.invariant.group", bi_expect}, {"llvm.strip.invariant.group", bi_expect}, {"llvm.threadlocal.address", bi_expect}, {"llvm.ptr.annotation", bi_expect}, {"llvm.assume", bi_nop},
            {"llvm.fabs", bi_fabs}, {"llvm.trunc.f", bi_ftrunc}, {"llvm.floor", bi_ffloor}, {"llvm.ceil", bi_fceil}, {"llvm.rint", bi_fround}, {"llvm.nearbyint", bi_fround}, {"llvm.roundeven", bi_fround},
            {"llvm.invariant.start", bi_ret0}, {"llvm.sideeffect", bi_nop}, {"llvm.experimental.noalias", bi_nop},
        };
        for (auto& [k, b] : p) if (n.compare(0, strlen(k), k) == 0) return b;
        return bi_sadd_sat;
    }
    Function* F = X.M->getFunction(n);
    if (F && !F->isDeclaration()) return nullptr;
    std::string d = demangle(n);
    if (d.find("std::basic_ostream<char") != std::string::npos || d.compare(0, 12, "std::ostream") == 0 || d.find("std::ostream::") != std::string::npos) return bi_arg0;
    return nullptr;
}
