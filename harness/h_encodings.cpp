// Base64, percent-coding, URI splitting, SHA-1, WebSocket accept key.
#include "common.hpp"
#include "http/Encodings.hpp"
#include "http/WebSocket.hpp"
#include <array>
#include <list>
using namespace webfront;

// ---- references, written from RFC 4648, RFC 3986 and FIPS 180-4
static char b64char(unsigned v) {
    // branch-free: 'A'.. 'a'.. '0'.. '+' '/'
    return static_cast<char>(65 + v + (v > 25) * 6u - (v > 51) * 75u - (v > 61) * 15u + (v > 62) * 3u);
}
static std::string refBase64(const std::vector<uint8_t>& in) {
    std::string out;
    for (size_t i = 0; i < in.size(); i += 3) {
        size_t left = in.size() - i;
        uint32_t v = uint32_t(in[i]) << 16;
        if (left > 1) v |= uint32_t(in[i + 1]) << 8;
        if (left > 2) v |= in[i + 2];
        out += b64char(v >> 18 & 63);
        out += b64char(v >> 12 & 63);
        out += left > 1 ? b64char(v >> 6 & 63) : '=';
        out += left > 2 ? b64char(v & 63) : '=';
    }
    return out;
}
static std::vector<uint32_t> refSha1(const std::vector<uint8_t>& msg) {
    std::vector<uint8_t> m = msg;
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 7; i >= 0; i--) m.push_back(uint8_t(uint64_t(msg.size()) * 8 >> (8 * i)));
    auto rol = [](uint32_t x, unsigned n) { return x << n | x >> (32 - n); };
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80];
        for (unsigned t = 0; t < 16; t++) w[t] = uint32_t(m[o + 4 * t]) << 24 | uint32_t(m[o + 4 * t + 1]) << 16 | uint32_t(m[o + 4 * t + 2]) << 8 | m[o + 4 * t + 3];
        for (unsigned t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (unsigned t = 0; t < 80; t++) {
            uint32_t f = t < 20 ? ((b & c) | (~b & d)) : t < 40 ? (b ^ c ^ d) : t < 60 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
            uint32_t k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
            uint32_t T = rol(a, 5) + f + e + k + w[t];
            e = d; d = c; c = rol(b, 30); b = a; a = T;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    return {h, h + 5};
}
static std::vector<uint8_t> symU8(const char* name, size_t n) { std::vector<uint8_t> v(n); if (n) vf_symbolic(v.data(), n, name); return v; }
static bool isUnreserved(unsigned char c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c >= '0' && c <= '9') | (c == '-') | (c == '_') | (c == '.') | (c == '~'); }

// ---- Base64
HARNESS(base64) {
    size_t n = vf_pick("n", (size_t)vf_param("nmin", 0), (size_t)vf_param("n", 9));
    auto in = symU8("data", n);
    std::string out = base64::encode(in), ref = refBase64(in);
    vf_assert(out.size() == 4 * ((n + 2) / 3), "base64 length");
    vf_assert(same(out, ref), "base64 text");
    if (n % 3 == 0) vf_reach("whole"); else vf_reach("padded");
    observe("out", out);
}
// long inputs: mostly a pattern, with symbolic bytes at the start, in the middle and at the end
static std::vector<uint8_t> longU8(const char* name, size_t n, size_t sym) {
    std::vector<uint8_t> v(n);
    for (size_t i = 0; i < n; i++) v[i] = uint8_t(i * 37 + (i >> 8) * 11 + 5);
    if (n >= 3 * sym && sym) for (size_t at : {size_t(0), n / 2, n - sym}) vf_symbolic(&v[at], sym, name);
    return v;
}
HARNESS(base64_long) {
    static const size_t sizes[] = {41, 47, 48, 49, 56, 57, 58, 63, 64, 65, 75, 76, 77, 96, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65535, 65536, 65537};
    size_t which = vf_pick("size", 0, sizeof sizes / sizeof *sizes - 1);
    auto in = longU8("data", sizes[which], 3);
    bool text = vf_pick("text", 0, 1) != 0;
    std::string out = text ? base64::encode(std::string(in.begin(), in.end())) : base64::encode(in), ref = refBase64(in);
    vf_assert(out.size() == 4 * ((in.size() + 2) / 3), "base64 length");
    vf_assert(same(out, ref), "base64 text");
    vf_reach("long");
    observe("end", out.substr(out.size() - 8));
}
template<typename T> static void netOrder(std::vector<T> v, const char* tag) {
    std::vector<uint8_t> bytes;
    for (T x : v) for (size_t i = sizeof(T); i-- > 0;) bytes.push_back(uint8_t(x >> (8 * i)));
    std::string out = base64::encodeInNetworkOrder(v);
    vf_assert(same(out, refBase64(bytes)), "base64 of big-endian bytes");
    observe("out", out);
    vf_reach(tag);
}
HARNESS(base64_network) {
    size_t n = vf_pick("n", 0, (size_t)vf_param("n", 5)), kind = vf_pick("kind", 0, 2);
    if (kind == 0) { std::vector<uint16_t> v(n); if (n) vf_symbolic(v.data(), n * 2, "data"); netOrder(v, "u16"); }
    else if (kind == 1) { std::vector<uint32_t> v(n); if (n) vf_symbolic(v.data(), n * 4, "data"); netOrder(v, "u32"); }
    else { std::vector<uint64_t> v(n); if (n) vf_symbolic(v.data(), n * 8, "data"); netOrder(v, "u64"); }
}

// ---- percent-coding
HARNESS(uri_roundtrip) {
    size_t n = vf_pick("n", (size_t)vf_param("nmin", 0), (size_t)vf_param("n", 4));
    std::string in = symStr("text", n), enc = uri::encode(Exact(in));
    size_t i = 0, k = 0;
    while (i < enc.size()) { // only unreserved characters and %HH, one per input byte
        vf_assert(k < n, "one unit per byte");
        if (enc[i] == '%') {
            vf_assert(i + 2 < enc.size(), "complete escape");
            auto hex = [](char c) { return c >= '0' && c <= '9' ? unsigned(c - '0') : c >= 'A' && c <= 'F' ? unsigned(c - 'A' + 10) : 99u; };
            vf_assert(hex(enc[i + 1]) * 16 + hex(enc[i + 2]) == (unsigned char)in[k], "escape stands for the byte");
            vf_assert(!isUnreserved((unsigned char)in[k]), "unreserved characters are not escaped");
            i += 3;
            vf_reach("escaped");
        } else {
            vf_assert(isUnreserved((unsigned char)enc[i]), "only unreserved characters stand for themselves");
            vf_assert(enc[i] == in[k], "character kept");
            i++;
            vf_reach("plain");
        }
        k++;
    }
    vf_assert(k == n, "every byte is present");
    std::string dec = uri::decode(Exact(enc));
    vf_assert(same(dec, in), "decode(encode(x)) == x");
    observe("enc", enc);
}
HARNESS(uri_decode) {
    size_t n = vf_pick("n", (size_t)vf_param("nmin", 0), (size_t)vf_param("n", 6));
    std::string in = symStr("text", n), ref;
    auto hexv = [](unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
    std::string out = uri::decode(Exact(in));
    for (size_t i = 0; i < n; i++) {
        if (in[i] == '%' && i + 2 < n && hexv((unsigned char)in[i + 1]) >= 0 && hexv((unsigned char)in[i + 2]) >= 0) {
            ref += char(hexv((unsigned char)in[i + 1]) * 16 + hexv((unsigned char)in[i + 2]));
            i += 2;
            vf_reach("escape");
        }
        else if (in[i] == '%') { ref += '%'; vf_reach("stray"); }
        else ref += in[i] == '+' ? ' ' : in[i];
    }
    vf_assert(same(out, ref), "decoded text");
    observe("out", out);
}

// longer texts: every kind of character repeated, with symbolic bytes at a chosen place
HARNESS(uri_long) {
    static const size_t sizes[] = {14, 15, 16, 17, 30, 31, 32, 63, 64, 127, 128, 255, 256, 257, 600, 4100};
    static const char kinds[][5] = {"a", "%41", "+", " ", "%", "%4", "%zz", "\xff", "/-_~", "%e9"};
    size_t n = sizes[vf_pick("size", 0, sizeof sizes / sizeof *sizes - 1)], kind = vf_pick("kind", 0, 9), at = vf_pick("at", 0, 2);
    std::string in;
    while (in.size() < n) in += kind == 8 && in.size() % 3 == 0 ? "%2F" : kinds[kind];
    std::string sym = symStr("text", 2);
    size_t pos = at == 0 ? 0 : at == 1 ? in.size() / 2 : in.size() - 2;
    in[pos] = sym[0]; in[pos + 1] = sym[1];
    std::string enc = uri::encode(Exact(in)), dec = uri::decode(Exact(enc)), out = uri::decode(Exact(in)), ref, refEnc;
    vf_assert(same(dec, in), "decode(encode(x)) == x");
    auto hexv = [](unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
    for (unsigned char c : in) {
        if (isUnreserved(c)) refEnc += char(c);
        else { refEnc += '%'; for (unsigned v : {c / 16u, c % 16u}) refEnc += char(v < 10 ? '0' + v : 'A' + (v - 10)); }
    }
    vf_assert(same(enc, refEnc), "encoded text");
    for (size_t i = 0; i < in.size(); i++) {
        if (in[i] == '%' && i + 2 < in.size() && hexv((unsigned char)in[i + 1]) >= 0 && hexv((unsigned char)in[i + 2]) >= 0) {
            ref += char(hexv((unsigned char)in[i + 1]) * 16 + hexv((unsigned char)in[i + 2]));
            i += 2;
        }
        else ref += in[i] == '+' ? ' ' : in[i];
    }
    vf_assert(same(out, ref), "decoded text");
    vf_reach("long");
    observe("size", out.size());
}

// ---- URI splitting
static std::string comp(const char* name, const char* forbidden, size_t lo, size_t hi) {
    size_t n = vf_pick(name, lo, hi);
    std::string s = symStr(name, n);
    for (char c : s) for (const char* f = forbidden; *f; ++f) vf_assume(c != *f);
    return s;
}
HARNESS(uri_parts) {
    size_t hi = (size_t)vf_param("len", 2);
    bool hasUser = vf_pick("hasUser", 0, 1), hasPort = vf_pick("hasPort", 0, 1), hasQuery = vf_pick("hasQuery", 0, 1), hasFragment = vf_pick("hasFragment", 0, 1), hasPath = vf_pick("hasPath", 0, 1);
    auto scheme = comp("scheme", ":/?#@", 1, hi), user = hasUser ? comp("user", "/?#@", 1, hi) : std::string(), host = comp("host", ":/?#@", 1, hi);
    auto port = hasPort ? comp("port", ":/?#@", 1, hi) : std::string(), path = hasPath ? "/" + comp("path", "?#", 0, hi) : std::string();
    auto query = hasQuery ? comp("query", "#", 0, hi) : std::string(), fragment = hasFragment ? comp("fragment", "", 0, hi) : std::string();
    std::string authority = (hasUser ? user + "@" : "") + host + (hasPort ? ":" + port : "");
    std::string text = scheme + "://" + authority + path + (hasQuery ? "?" + query : "") + (hasFragment ? "#" + fragment : "");
    uri::URI u(text);
    vf_assert(same(u.string, text), "whole");
    vf_assert(same(u.scheme, scheme), "scheme");
    vf_assert(same(u.authority, authority), "authority");
    vf_assert(same(u.path, path), "path");
    vf_assert(same(u.query, query), "query");
    vf_assert(same(u.fragment, fragment), "fragment");
    vf_assert(same(u.userinfo, user), "userinfo");
    vf_assert(same(u.host, host), "host");
    vf_assert(same(u.port, port), "port");
    observe("host", u.host);
    observe("fragment", u.fragment);
    if (hasQuery && hasFragment && hasPort && hasUser) vf_reach("full");
    if (!hasPath && !hasQuery && !hasFragment) vf_reach("minimal");
}
// one long part at a time, or all of them
HARNESS(uri_parts_long) {
    static const size_t sizes[] = {5, 15, 16, 17, 63, 64, 255, 256, 257, 1000};
    size_t which = vf_pick("which", 0, 7), n = sizes[vf_pick("size", 0, 9)];
    auto part = [&](size_t i, const char* name, const char* forbidden, const char* set) {
        std::string s = symStr(name, 2);
        for (char c : s) for (const char* f = forbidden; *f; ++f) vf_assume(c != *f);
        std::string mid;
        size_t kinds = std::char_traits<char>::length(set);
        if (which == i || which == 7) for (size_t k = 0; k < n; k++) mid += set[k % kinds];
        return s.substr(0, 1) + mid + s.substr(1);
    };
    auto scheme = part(0, "scheme", ":/?#@", "ab+"), user = part(1, "user", "/?#@", "u:v.w"), host = part(2, "host", ":/?#@", "w.x-y"), port = part(3, "port", ":/?#@", "123");
    auto path = "/" + part(4, "path", "?#", "d/e@f:g//h"), query = part(5, "query", "#", "a=b&c?d/:@"), fragment = part(6, "fragment", "", "f?g#h/i://j");
    std::string authority = user + "@" + host + ":" + port, text = scheme + "://" + authority + path + "?" + query + "#" + fragment;
    uri::URI u(text);
    vf_assert(same(u.string, text), "whole");
    vf_assert(same(u.scheme, scheme), "scheme");
    vf_assert(same(u.authority, authority), "authority");
    vf_assert(same(u.path, path), "path");
    vf_assert(same(u.query, query), "query");
    vf_assert(same(u.fragment, fragment), "fragment");
    vf_assert(same(u.userinfo, user), "userinfo");
    vf_assert(same(u.host, host), "host");
    vf_assert(same(u.port, port), "port");
    vf_reach("long");
    observe("host", u.host);
}
// any text at all: splitting terminates, throws nothing, and each field is a piece of the text; the previous split does not matter
HARNESS(uri_any) {
    size_t n = vf_pick("n", 0, (size_t)vf_param("n", 5));
    std::string in = symStr("text", n);
    auto piece = [](const std::string& whole, std::string_view v) { return v.empty() || (v.data() >= whole.data() && v.data() + v.size() <= whole.data() + whole.size()); };
    uri::URI u(in);
    for (auto v : {u.scheme, u.authority, u.path, u.query, u.fragment, u.userinfo, u.host, u.port}) vf_assert(piece(u.string, v), "a field is a piece of the text");
    uri::URI w("http://h:1/p?q#f");
    vf_assert(w.scheme == "http" && w.authority == "h:1" && w.host == "h" && w.port == "1" && w.path == "/p" && w.query == "q" && w.fragment == "f" && w.userinfo.empty(), "a later split is independent");
    vf_reach("split");
    observe("path", u.path);
}

// ---- SHA-1
HARNESS(sha1) {
    size_t n = vf_pick("n", (size_t)vf_param("nmin", 0), (size_t)vf_param("n", 0));
    auto msg = symU8("msg", n);
    auto d = crypto::sha1(std::string_view(reinterpret_cast<const char*>(msg.data()), n));
    auto r = refSha1(msg);
    vf_assert(vf_eq(d.data(), r.data(), 20), "SHA-1 digest");
    vf_observe("digest", d.data(), 20);
    vf_reach("digest");
}
HARNESS(sha1_long) { // block counts and length fields of every width
    static const size_t sizes[] = {319, 320, 375, 376, 511, 512, 513, 1000, 4095, 4096, 8191, 8192, 16384, 32767, 65535, 65536, 65591, 131072, 200000, 300000};
    size_t n = sizes[vf_pick("size", (size_t)vf_param("min", 0), (size_t)vf_param("max", 16))];
    std::vector<uint8_t> msg = longU8("msg", n, 0);
    vf_symbolic(&msg[n - 2], 2, "msg");
    auto d = crypto::sha1(std::string_view(reinterpret_cast<const char*>(msg.data()), n));
    auto r = refSha1(msg);
    vf_assert(vf_eq(d.data(), r.data(), 20), "SHA-1 digest");
    vf_observe("digest", d.data(), 20);
    vf_reach("long");
}
HARNESS(sha1_string) {
    size_t n = (size_t)vf_param("n", 3);
    auto msg = symU8("msg", n);
    std::string t = crypto::sha1String(std::string_view(reinterpret_cast<const char*>(msg.data()), n)), ref;
    for (uint32_t w : refSha1(msg)) for (int s = 28; s >= 0; s -= 4) { unsigned v = w >> s & 15; ref += static_cast<char>(v < 10 ? '0' + v : 'a' + (v - 10)); }
    vf_assert(same(t, ref), "lower-case hexadecimal digest, 40 digits");
    vf_reach("text");
    observe("text", t);
}
// ---- accept key
HARNESS(accept_key) {
    size_t n = vf_pick("n", (size_t)vf_param("nmin", 24), (size_t)vf_param("n", 24));
    std::string key = symStr("key", n), out = websocket::getHashedSecKey(key);
    std::vector<uint8_t> m(key.begin(), key.end());
    for (const char* g = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; *g; ++g) m.push_back(uint8_t(*g));
    std::vector<uint8_t> digest;
    for (uint32_t w : refSha1(m)) for (int s = 24; s >= 0; s -= 8) digest.push_back(uint8_t(w >> s));
    vf_assert(same(out, refBase64(digest)), "Sec-WebSocket-Accept");
    vf_reach("key");
    observe("out", out);
}
