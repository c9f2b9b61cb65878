// Hexadecimal dumps.
#include "common.hpp"
#include "tooling/HexDump.hpp"
#include "tooling/Logger.hpp"
#include <iostream>
#include <array>
using namespace webfront;

// text of a dump, byte for byte: lines of 16 bytes, address, two groups of 8, printable text
static std::string refDump(std::string_view b, uint64_t start) {
    static const char hex[] = "0123456789abcdef";
    std::string out;
    for (size_t a = 0; a < b.size(); a += 16) {
        if (a) out += '\n';
        std::string n;
        for (uint64_t v = a + start; v || n.empty(); v >>= 4) n.insert(n.begin(), hex[v & 15]);
        while (n.size() < 8) n.insert(n.begin(), '0');
        out += n;
        for (size_t i = a; i < a + 16; i++) {
            if (i % 8 == 0) out += ' ';
            out += ' ';
            if (i < b.size()) { unsigned char c = (unsigned char)b[i]; out += hex[c >> 4]; out += hex[c & 15]; }
            else out += "  ";
        }
        out += ' ';
        for (size_t i = a; i < a + 16 && i < b.size(); i++) { signed char c = (signed char)b[i]; out += c < 32 ? '.' : b[i]; }
    }
    return out;
}
static std::string bytesAround(size_t n, size_t sym) { // all concrete but `sym` bytes at a chosen place
    std::string s(n, '\0');
    for (size_t i = 0; i < n; i++) s[i] = char(i * 37 + 11);
    if (n) {
        size_t k = sym < n ? sym : n, at = vf_pick("at", 0, n - k);
        std::string t = symStr("bytes", k);
        for (size_t i = 0; i < k; i++) s[at + i] = t[i];
    }
    return s;
}
HARNESS(hexdump) {
    size_t n = vf_pick("n", 0, (size_t)vf_param("n", 20));
    std::string s = bytesAround(n, (size_t)vf_param("sym", 1));
    Exact b(s);
    static const uint64_t starts[] = {0, 1, 8, 0xfffffff8, 0x123456789};
    uint64_t start = 0;
    std::string got;
    if (vf_pick("two", 0, 1)) { // two buffers as one
        size_t cut = vf_pick("cut", 0, n);
        Exact x(std::string_view(s).substr(0, cut)), y(std::string_view(s).substr(cut));
        got = utils::hexDump(std::string_view(x), std::string_view(y));
        vf_reach("two");
    } else {
        start = starts[vf_pick("start", 0, 4)];
        got = utils::hexDump(std::string_view(b), start);
        vf_reach("one");
    }
    vf_assert(same(got, refDump(s, start)), "every byte is shown once, in order");
    vf_observe("dump", got.data(), got.size());
}
HARNESS(hexdump_kinds) {
    std::string s = symStr("bytes", 8), got;
    switch (vf_pick("kind", 0, 6)) {
    case 0: { std::vector<uint8_t> v(s.begin(), s.end()); got = utils::hexDump(v); break; }
    case 1: { std::array<char, 8> v; std::copy_n(s.data(), 8, v.data()); got = utils::hexDump(v); break; }
    case 2: { std::vector<uint16_t> v(4); std::memcpy(v.data(), s.data(), 8); got = utils::hexDump(v); break; }
    case 3: { std::array<uint32_t, 2> v; std::memcpy(v.data(), s.data(), 8); got = utils::hexDump(v); break; }
    case 4: { std::vector<uint16_t> v(3), w(1); std::memcpy(v.data(), s.data(), 6); std::memcpy(w.data(), s.data() + 6, 2); got = utils::hexDump(v, w); break; }
    case 5: { std::vector<std::byte> v(3); std::array<uint8_t, 5> w; std::memcpy(v.data(), s.data(), 3); std::memcpy(w.data(), s.data() + 3, 5); got = utils::hexDump(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(v.data()), 3), w); break; }
    default: { std::vector<std::byte> v(8); std::memcpy(v.data(), s.data(), 8); got = utils::hexDump(std::span<const std::byte>(v)); }
    }
    vf_assert(same(got, refDump(s, 0)), "every byte is shown once, in order");
    vf_observe("dump", got.data(), got.size());
}
// dumps written to the log, and the sink which writes to the standard log stream
HARNESS(log_hex) {
    std::vector<std::string> got;
    auto id = log::addSinks([&got](std::string_view t) { got.emplace_back(t); });
    static const log::LogType levels[] = {log::Disabled, log::Error, log::Warn, log::Info, log::Debug};
    size_t level = vf_pick("level", 0, 4);
    log::setLogLevel(levels[level]);
    bool type = vf_pick("type", 0, 1);
    if (type) log::set(log::Info, !log::is(log::Info));
    bool expected = log::is(log::Info);
    vf_assert(expected == ((level >= 3) != type), "information is logged from its level on");
    std::string s = symStr("bytes", vf_pick("n", 0, (size_t)vf_param("n", 2))), t = symStr("text", 1);
    log::infoHex(t, std::string_view(s));
    vf_assert(got.size() == (expected ? 2u : 0u), "a text and a dump, or nothing");
    if (expected) {
        vf_assert(got[0].size() > 4 && same(std::string_view(got[0]).substr(got[0].size() - 1), t), "text");
        vf_assert(same(got[1], refDump(s, 0)), "dump");
        observe("dump", got[1]);
        vf_reach("logged");
    }
    log::removeSinks(id);
    log::infoHex(t, std::string_view(s));
    vf_assert(got.size() == (expected ? 2u : 0u), "a removed sink gets nothing");
}
HARNESS(clog_sink) {
    std::string out;
    struct Buf : std::streambuf {
        std::string* to;
        int overflow(int c) override { if (c != EOF) *to += char(c); return 0; }
        std::streamsize xsputn(const char* p, std::streamsize n) override { to->append(p, (size_t)n); return n; }
    } buf;
    buf.to = &out;
#ifdef VF_SYMBOLIC
    new (&std::clog) std::ostream(nullptr);
#endif
    auto* old = std::clog.rdbuf(&buf);
    std::string expected;
    for (size_t i = 0, n = vf_pick("texts", 1, 3); i < n; i++) {
        std::string t = symStr("text", vf_pick("n", 0, 3));
        log::clogSink(t);
        expected += t + "\n";
    }
    std::clog.rdbuf(old);
    vf_assert(same(out, expected), "each text on a line of its own, whole");
    observe("written", out);
}
