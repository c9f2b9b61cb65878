// Helpers shared by the harnesses.
#pragma once
#include "vf.h"
#include <cstring>
#include <span>
#include <string>
#include <string_view>
#include <vector>
// n symbolic bytes
inline std::string symStr(const char* name, size_t n) { std::string s(n, '\0'); if (n) vf_symbolic(s.data(), n, name); return s; }
inline std::vector<std::byte> symBytes(const char* name, size_t n) { std::vector<std::byte> s(n); if (n) vf_symbolic(s.data(), n, name); return s; }
// equality of two byte strings, decided as one formula once the sizes agree
inline bool sameBytes(const void* a, size_t n, const void* b, size_t m) { return n == m && (n == 0 || vf_eq(a, b, n)); }
inline bool same(std::string_view a, std::string_view b) { return sameBytes(a.data(), a.size(), b.data(), b.size()); }
inline void observe(const char* name, std::string_view s) { vf_observe(name, s.data(), s.size()); }
inline void observe(const char* name, unsigned long v) { vf_observe(name, &v, sizeof v); }
inline std::string_view view(std::span<const std::byte> s) { return {reinterpret_cast<const char*>(s.data()), s.size()}; }
// a copy in memory of exactly its size: whatever reads beyond it is an error
struct Exact {
    std::vector<char> mem;
    explicit Exact(std::string_view s) : mem(s.begin(), s.end()) {}
    operator std::string_view() const { return {mem.data(), mem.size()}; }
};
#define HARNESS(name) extern "C" void h_##name()
