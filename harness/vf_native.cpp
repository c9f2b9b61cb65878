// Native side of the harness API: replays one recorded path against the real code built with the real libraries.
// usage: PROG ENTRY REPLAYFILE [scratchdir]   REPLAYFILE lines: "in NAME HEX", "param NAME VALUE"
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <filesystem>
#include <fstream>
#include <map>
#include <new>
#include <string>
#include <unistd.h>
#include <vector>

namespace {
struct In { std::string name; std::vector<unsigned char> b; };
std::vector<In>& ins() { static auto* v = new std::vector<In>; return *v; }
std::map<std::string, long>& params() { static auto* v = new std::map<std::string, long>; return *v; }
size_t pos = 0;
unsigned long limit = 0;
std::string& root() { static auto* s = new std::string; return *s; }
[[noreturn]] void bye(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
In& next(const char* name) {
    if (pos >= ins().size()) { printf("VF-DIVERGED more inputs wanted (%s)\n", name); bye(79); }
    In& i = ins()[pos++];
    if (i.name != name) { printf("VF-DIVERGED input %s, recorded %s\n", name, i.name.c_str()); bye(79); }
    return i;
}
void* get(std::size_t n) {
    if (limit && n > limit) { printf("VF-FAIL allocation: %zu bytes, limit %lu\n", n, limit); bye(77); }
    if (n > (256ul << 20)) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
}
extern "C" {
void vf_symbolic(void* p, unsigned long n, const char* name) {
    In& i = next(name);
    if (i.b.size() != n) { printf("VF-DIVERGED input %s size %lu, recorded %zu\n", name, n, i.b.size()); bye(79); }
    if (n) memcpy(p, i.b.data(), n);
}
static unsigned long num(const char* name, unsigned long lo, unsigned long hi) {
    In& i = next(name);
    unsigned long v = 0;
    for (size_t k = i.b.size(); k-- > 0;) v = v << 8 | i.b[k];
    if (v < lo || v > hi) { printf("VF-DIVERGED input %s out of range\n", name); bye(79); }
    return v;
}
unsigned long vf_range(const char* name, unsigned long lo, unsigned long hi) { if (lo == hi) { return num(name, lo, hi); } return num(name, lo, hi); }
unsigned long vf_pick(const char* name, unsigned long lo, unsigned long hi) { return num(name, lo, hi); }
void vf_assume(int c) { if (!c) { printf("VF-ASSUME\n"); bye(78); } }
void vf_assert(int c, const char* msg) { if (!c) { printf("VF-FAIL assert: %s\n", msg); bye(77); } }
void vf_fail(const char* msg) { vf_assert(0, msg); }
void vf_reach(const char* tag) { printf("TAG %s\n", tag); }
void vf_observe(const char* name, const void* p, unsigned long n) { printf("OBS %s ", name); for (unsigned long i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
long vf_param(const char* name, long def) { auto it = params().find(name); return it == params().end() ? def : it->second; }
void vf_alloc_limit(unsigned long n) { limit = n; }
unsigned long vf_heap_live() { return 0; }
int vf_is_symbolic_run() { return 0; }
int vf_eq(const void* p, const void* q, unsigned long n) { return n == 0 || memcmp(p, q, n) == 0; }
unsigned long vf_concrete(unsigned long x) { return x; }
void vf_print(const char*, unsigned long) {}
const char* vf_root() { return root().c_str(); }
void vf_file_add(const char* path, unsigned long plen, const void* data, unsigned long n) {
    namespace fs = std::filesystem;
    std::string p(path, plen);
    // only below the scratch directory
    if (root().empty() || p.compare(0, root().size() + 1, root() + "/") != 0 || p.find("..") != std::string::npos) { printf("VF-DIVERGED file outside the scratch directory\n"); bye(79); }
    fs::create_directories(fs::path(p).parent_path());
    std::ofstream o(p, std::ios::binary);
    o.write((const char*)data, (long)n);
}
}
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }

int main(int argc, char** argv) {
    if (argc < 3) return 3;
    if (argc > 3) root() = argv[3];
    std::ifstream f(argv[2]);
    std::string k, n, v;
    std::string line;
    while (std::getline(f, line)) {
        size_t a = line.find('\t'), b = line.find('\t', a + 1);
        if (a == std::string::npos || b == std::string::npos) continue;
        k = line.substr(0, a); n = line.substr(a + 1, b - a - 1); v = line.substr(b + 1);
        if (k == "param") params()[n] = atol(v.c_str());
        else if (k == "in") {
            In i; i.name = n;
            for (size_t j = 0; j + 1 < v.size(); j += 2) i.b.push_back((unsigned char)strtoul(v.substr(j, 2).c_str(), nullptr, 16));
            ins().push_back(i);
        }
    }
    auto* fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
    std::set_terminate([] {
        try { auto e = std::current_exception(); if (e) std::rethrow_exception(e); printf("VF-FAIL terminate\n"); }
        catch (std::exception& e) { printf("VF-FAIL exception: %s\n", e.what()); }
        catch (...) { printf("VF-FAIL exception\n"); }
        bye(77);
    });
    if (!root().empty() && chdir(root().c_str()) != 0) return 3; // relative paths stay inside of the scratch directory
    fn();
    printf("VF-DONE\n");
    bye(0);
}
