// Copy-on-write memory model: objects made of chunks of bytes, each byte concrete, symbolic or uninitialised.
#pragma once
#include "expr.hpp"
#include <cstring>
#include <utility>

template<typename T> class Ref {
    T* p = nullptr;
public:
    Ref() = default;
    explicit Ref(T* q) : p(q) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    T* get() const { return p; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p; }
    T* own() { // unshare for writing
        if (p->rc > 1) { T* q = new T(*p); q->rc = 1; p->rc--; p = q; }
        return p;
    }
};

constexpr u32 CH = 128;
struct Chunk {
    u32 rc = 0;
    u32 nsym = 0;
    u64 init[2] = {0, 0};
    uint8_t b[CH];
    E* sym = nullptr;
    Chunk() { memset(b, 0, sizeof b); }
    Chunk(const Chunk& o) : rc(0), nsym(o.nsym) {
        memcpy(init, o.init, sizeof init);
        memcpy(b, o.b, sizeof b);
        if (nsym) { sym = new E[CH]; memcpy(sym, o.sym, sizeof(E) * CH); }
    }
    Chunk& operator=(const Chunk&) = delete;
    ~Chunk() { delete[] sym; }
    bool isInit(u32 i) const { return (init[i >> 6] >> (i & 63)) & 1; }
    void setInit(u32 i) { init[i >> 6] |= 1ull << (i & 63); }
    void clrInit(u32 i) { init[i >> 6] &= ~(1ull << (i & 63)); }
    bool plain(u32 lo, u32 n) const { // fully concrete and initialised?
        if (nsym) return false;
        for (u32 i = lo; i < lo + n;) {
            u32 w = i >> 6, s = i & 63, c = std::min<u32>(64 - s, lo + n - i);
            u64 m = (c == 64 ? ~0ull : ((1ull << c) - 1)) << s;
            if ((init[w] & m) != m) return false;
            i += c;
        }
        return true;
    }
    void setConc(u32 i, uint8_t v) {
        b[i] = v; setInit(i);
        if (nsym && sym[i]) { sym[i] = nullptr; nsym--; }
    }
    void setSym(u32 i, E e) {
        setInit(i);
        if (!sym) { sym = new E[CH]; memset(sym, 0, sizeof(E) * CH); }
        if (!sym[i]) nsym++;
        sym[i] = e;
    }
    void setUninit(u32 i) {
        clrInit(i);
        if (nsym && sym[i]) { sym[i] = nullptr; nsym--; }
    }
};

enum class OK : uint8_t { Global, Const, Stack, Heap, Func };
struct Obj {
    u32 rc = 0;
    u64 size = 0;
    OK kind = OK::Global;
    bool dead = false; // out of scope
    u32 gen = 0;
    std::vector<Ref<Chunk>> ch;
    static Ref<Chunk> zeroChunk(bool init) {
        static Ref<Chunk> z[2];
        if (!z[init]) { auto* c = new Chunk; if (init) c->init[0] = c->init[1] = ~0ull; z[init] = Ref<Chunk>(c); }
        return z[init];
    }
    static Obj* make(u64 size, OK kind, bool init) {
        Obj* o = new Obj;
        o->size = size; o->kind = kind;
        o->ch.assign((size + CH - 1) / CH, zeroChunk(init));
        return o;
    }
};

constexpr u32 OP = 64;
struct ObjPage { u32 rc = 0; Ref<Obj> o[OP]; };
struct ObjTable {
    std::vector<Ref<ObjPage>> pages;
    u32 n = 0;
    Obj* get(u32 id) const { return id < n ? pages[id / OP]->o[id % OP].get() : nullptr; }
    Obj* own(u32 id) { return pages[id / OP].own()->o[id % OP].own(); }
    u32 add(Obj* ob) {
        if (n % OP == 0) pages.push_back(Ref<ObjPage>(new ObjPage));
        pages[n / OP].own()->o[n % OP] = Ref<Obj>(ob);
        return n++;
    }
    void drop(u32 id) { pages[id / OP].own()->o[id % OP] = Ref<Obj>(); }
};
constexpr u64 BASE = 0x40000000ull;
inline u64 addrOf(u32 id, u64 off = 0) { return ((u64)id << 32) | (BASE + off); }
