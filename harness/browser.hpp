// What the browser's JavaScript client makes of the server's bytes, and sends to it.
#pragma once
#include "common.hpp"
#include "symnet.hpp"
#include <bit>
// ---- what a browser makes of a message (written after the JavaScript client)
struct Value { int type = 0; bool b = false; double n = 0; std::string s; std::vector<Value> t; };
struct Reader {
    std::string_view d;
    size_t i = 0;
    bool ok = true;
    bool has(size_t n) { return ok = ok && d.size() - i >= n; }
    unsigned u8() { return has(1) ? (unsigned char)d[i++] : 0; }
    unsigned u16() { unsigned a = u8(); return a | u8() << 8; }
    unsigned u32() { unsigned a = u16(); return a | u16() << 16; }
    std::string text(size_t n) { if (!has(n)) return {}; std::string s(d.substr(i, n)); i += n; return s; }
    Value value() {
        Value v;
        v.type = (int)u8();
        switch (v.type) {
        case 1: v.b = true; break;
        case 2: break;
        case 3: { std::string s = text(8); if (ok) std::memcpy(&v.n, s.data(), 8); } break;
        case 4: v.s = text(u8()); break;
        case 5: case 6: v.s = text(u16()); break;
        case 18: { unsigned n = u8(); for (unsigned k = 0; k < n && ok; k++) v.t.push_back(value()); } break;
        default: ok = false;
        }
        return v;
    }
};
struct Call { bool ok = false; unsigned command = 0, count = 0; std::vector<Value> values; };
inline size_t countAll(const std::vector<Value>& vs) { size_t n = 0; for (auto& v : vs) n += 1 + countAll(v.t); return n; }
// every value which the message holds: the announced sizes must be exactly those sent
inline Call parseCall(std::string_view m) {
    Call c;
    Reader r{m};
    c.command = r.u8();
    c.count = r.u8();
    r.u16();
    unsigned size = r.u32();
    if (!r.ok || size != m.size() - 8) return c;
    while (r.ok && r.i < m.size()) c.values.push_back(r.value());
    c.ok = r.ok;
    return c;
}
inline std::string bytes(const std::vector<symnet::ConstBuffer>& bs) {
    std::string s;
    for (auto& b : bs) s.append(static_cast<const char*>(b.data()), b.size());
    return s;
}
inline std::string unframe(const std::string& f) { // content of one server frame
    size_t n = (unsigned char)f[1], h = 2;
    if (n == 126) { n = (unsigned char)f[2] << 8 | (unsigned char)f[3]; h = 4; }
    else if (n == 127) { n = 0; for (int i = 2; i < 10; i++) n = n << 8 | (unsigned char)f[i]; h = 10; }
    vf_assert((unsigned char)f[0] == 0x82 && f.size() == h + n, "one binary frame of the announced size");
    return f.substr(h);
}
inline double symDouble(const char* name) { double d; vf_symbolic(&d, sizeof d, name); return d; }
inline bool sameBits(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b); }
inline std::span<const std::byte> asBytes(std::string_view s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }
// a message as the browser would send it
inline std::string wireText(std::string_view s) {
    std::string r;
    if (s.size() < 256) { r += char(4); r += char(s.size()); }
    else { r += char(5); r += char(s.size()); r += char(s.size() >> 8); }
    return r + std::string(s);
}
inline std::string wireNumber(double d) { std::string r(1, char(3)); r.append(reinterpret_cast<char*>(&d), 8); return r; }
inline std::string message(unsigned command, unsigned count, std::string_view params) {
    std::string r;
    r += char(command);
    r += char(count);
    r.append(2, '\0');
    for (int i = 0; i < 4; i++) r += char(params.size() >> (8 * i));
    return r + std::string(params);
}

// a frame as a client sends it
inline std::string clientFrame(unsigned first, std::string_view data) {
    std::string s(1, char(first));
    if (data.size() < 126) s += char(0x80 | data.size());
    else { s += char(0x80 | 126); s += char(data.size() >> 8); s += char(data.size()); }
    std::string mask = vf_param("mask", 0) ? symStr("mask", 4) : std::string("\x11\x82\x43\xf4");
    s += mask;
    for (size_t i = 0; i < data.size(); i++) s += char(data[i] ^ mask[i % 4]);
    return s;
}
// the frames which the server sent
struct ServerFrame { unsigned op; std::string data; };
inline bool parseServer(const std::string& s, std::vector<ServerFrame>& out) {
    size_t i = 0;
    while (i < s.size()) {
        if (s.size() - i < 2) return false;
        unsigned b0 = (unsigned char)s[i], len = (unsigned char)s[i + 1];
        size_t h = 2, n = len;
        if (len == 126) { if (s.size() - i < 4) return false; n = (size_t)(unsigned char)s[i + 2] << 8 | (unsigned char)s[i + 3]; h = 4; }
        else if (len == 127) { if (s.size() - i < 10) return false; n = 0; for (size_t k = 2; k < 10; k++) n = n << 8 | (unsigned char)s[i + k]; h = 10; }
        else if (len > 127) return false;
        if (s.size() - i < h + n) return false;
        out.push_back({b0, s.substr(i + h, n)});
        i += h + n;
    }
    return true;
}
