#include <memory>
// WebSocket framing: encoding (RFC 6455 section 5.2), decoding of masked frames in any segmentation.
#include "common.hpp"
#include "symnet.hpp"
#include "http/WebSocket.hpp"
using namespace webfront;
using F = websocket::Frame<symnet::Net>;

// the bytes of a frame as they go to the network
static std::string wire(const F& f) {
    std::string s;
    for (auto& b : f.toBuffers()) s.append(static_cast<const char*>(b.data()), b.size());
    return s;
}
static std::string refHeader(unsigned opcode, uint64_t size) {
    std::string h(1, char(0x80 | opcode));
    if (size < 126) h += char(size);
    else if (size < 65536) { h += char(126); h += char(size >> 8); h += char(size); }
    else { h += char(127); for (int i = 7; i >= 0; i--) h += char(size >> (8 * i)); }
    return h;
}
static std::string pattern(size_t n) { std::string s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = char(i * 7 + (i >> 8)); return s; }

// every payload size from 0 to `max`, content symbolic while small
HARNESS(frame_text) {
    size_t n = vf_pick("n", 0, (size_t)vf_param("max", 40));
    std::string text = symStr("text", n);
    F f{std::string_view(text)};
    std::string w = wire(f);
    vf_assert(same(w, refHeader(1, n) + text), "text frame");
    vf_assert(f.size() == n, "payload size");
    vf_reach("text");
    observe("wire", w);
}
static const size_t borders[] = {0, 1, 2, 63, 124, 125, 126, 127, 128, 255, 256, 257, 65534, 65535, 65536, 65537, 70000};
HARNESS(frame_borders) {
    size_t n = borders[vf_pick("size", 0, sizeof borders / sizeof *borders - 1)], kind = vf_pick("kind", 0, 2);
    std::string data = pattern(n);
    if (n) vf_symbolic(&data[n / 2], 1, "middle");
    auto bytes = std::as_bytes(std::span(data));
    std::unique_ptr<F> f = kind == 0 ? std::make_unique<F>(std::string_view(data)) : kind == 1 ? std::make_unique<F>(bytes) : std::make_unique<F>(bytes.first(n / 3), bytes.subspan(n / 3));
    if (vf_pick("move", 0, 1)) f = std::make_unique<F>(std::move(*f)); // the frame it was moved from is gone
    vf_assert(same(wire(*f), refHeader(kind == 0 ? 1 : 2, n) + data), kind == 0 ? "text frame" : kind == 1 ? "binary frame" : "binary frame of two pieces");
    if (n > 65535) vf_reach("64-bit length"); else if (n > 125) vf_reach("16-bit length");
}
// any size at all up to 70000, as one symbolic value
HARNESS(frame_any_size) {
    static char data[70000];
    size_t n = vf_range("n", 0, sizeof data);
    F f{std::string_view(data, n)};
    auto bufs = f.toBuffers();
    std::string h(static_cast<const char*>(bufs[0].data()), bufs[0].size());
    size_t total = 0;
    for (auto& b : bufs) total += b.size();
    vf_assert(total == h.size() + n || total == n + (n < 126 ? 2 : n < 65536 ? 4 : 10), "header and payload, nothing else");
    unsigned len = (unsigned char)h[1];
    vf_assert((unsigned char)h[0] == 0x81, "FIN and opcode");
    if (n < 126) vf_assert(len == n, "7-bit length");
    else if (n < 65536) { vf_assert(len == 126, "16-bit form"); vf_assert(((unsigned char)h[2] << 8 | (unsigned char)h[3]) == n, "16-bit length"); vf_reach("16"); }
    else {
        vf_assert(len == 127, "64-bit form");
        uint64_t v = 0;
        for (int i = 2; i < 10; i++) v = v << 8 | (unsigned char)h[(size_t)i];
        vf_assert(v == n, "64-bit length");
        vf_reach("64");
    }
}
// a header holds any 63-bit payload size
template<typename H> static void headerSizes() {
    if constexpr (requires(H h) { h.setPayloadSize(size_t{}); h.raw.data(); }) {
        H h{};
        h.raw.fill(std::byte(0));
        size_t n = vf_range("size", 0, 0x7fffffffffffffffull), m = vf_range("again", 0, 0x7fffffffffffffffull);
        h.setFIN(true);
        h.setOpcode(H::Opcode::binary);
        h.setPayloadSize(m);
        h.setPayloadSize(n);
        vf_assert(h.payloadSize() == n, "payload size kept");
        vf_assert(h.headerSize() == (n < 126 ? 2u : n < 65536 ? 4u : 10u), "shortest header");
        auto r = [&](size_t i) { return std::to_integer<uint64_t>(h.raw[i]); };
        uint64_t v = r(1) & 127;
        vf_assert(r(0) == 0x82, "first byte");
        vf_assert(r(1) < 128, "server frames are not masked");
        if (n >= 65536) { v = 0; for (size_t i = 2; i < 10; i++) v = v << 8 | r(i); }
        else if (n >= 126) v = r(2) << 8 | r(3);
        vf_assert(v == n, "length in network order");
    }
    vf_reach("header");
}
HARNESS(header_sizes) { headerSizes<websocket::Header>(); }
// buffers added one after the other; the frame moves in between
HARNESS(frame_grow) {
    static const size_t steps[] = {0, 1, 3, 60, 122, 125, 126, 300};
    size_t k = vf_pick("adds", 0, (size_t)vf_param("adds", 2)), mv = vf_pick("move", 0, 2);
    std::string head = symStr("head", 4), all = head;
    std::vector<std::string> parts;
    bool small = vf_param("small", 0);
    log::setLogLevel((log::LogType)vf_param("log", 0));
    size_t big = small ? 0 : vf_pick("big", 0, 1);
    for (size_t i = 0; i < k; i++) parts.push_back(pattern(big && i + 1 == k ? 65530 : steps[vf_pick("step", 0, small ? 2 : 7)]));
    auto first = std::make_unique<F>(std::as_bytes(std::span(head)));
    for (auto& p : parts) {
        F& f = *first;
        if (mv == 1) { F g{std::move(f)}; size_t n = g.addBuffer(std::as_bytes(std::span(p))); vf_assert(n == p.size(), "added size"); f = std::move(g); }
        else vf_assert(f.addBuffer(std::as_bytes(std::span(p))) == p.size(), "added size");
        all += p;
    }
    std::string w;
    if (mv) first = std::make_unique<F>(std::move(*first)); // and the one it was moved from is gone
    w = wire(*first);
    vf_assert(same(w, refHeader(2, all.size()) + all), "frame of all added buffers");
    if (all.size() > 125) vf_reach("extended");
    if (all.size() > 65535) vf_reach("extended 64");
}

// ---- decoding
struct Client { std::string bytes, payload; unsigned opcode; };
static Client clientFrame(size_t n, size_t symbolicPart, const char* name, bool masked = true) {
    Client c;
    unsigned char b0;
    vf_symbolic(&b0, 1, name);
    c.opcode = b0 & 15;
    c.bytes = std::string(1, char(b0));
    std::string h = refHeader(0, n).substr(1);
    if (masked) h[0] = char(h[0] | 0x80);
    c.bytes += h;
    std::string mask = masked ? symStr("mask", 4) : std::string();
    c.bytes += mask;
    size_t s = n < symbolicPart ? n : symbolicPart;
    c.payload = pattern(n);
    if (s) vf_symbolic(c.payload.data() + (n - s), s, "payload"); // the tail is symbolic
    for (size_t i = 0; i < n; i++) c.bytes += masked ? char(c.payload[i] ^ mask[i % 4]) : c.payload[i];
    return c;
}
// feed one frame in pieces; nothing may be reported before the last byte
static void feed(websocket::FrameDecoder& d, const std::string& bytes, const std::vector<size_t>& cuts) {
    size_t at = 0;
    bool done = false;
    for (size_t i = 0; i <= cuts.size(); i++) {
        size_t to = i < cuts.size() ? cuts[i] : bytes.size();
        if (to < at) to = at;
        std::vector<std::byte> piece(to - at); // exactly the received bytes
        if (to > at) std::memcpy(piece.data(), bytes.data() + at, to - at);
        if (to == at && i < cuts.size()) continue;
        if (to == at) break;
        done = d.parse(piece);
        vf_assert(done == (to == bytes.size()), "a frame is complete with its last byte, not earlier and not later");
        at = to;
    }
    vf_assert(done, "complete");
}
static void checkDecoded(websocket::FrameDecoder& d, const Client& c) {
    auto p = d.payload();
    vf_assert((unsigned)d.frameType == c.opcode, "opcode");
    vf_assert(same(view(p), c.payload), "unmasked payload");
    observe("payload", view(p).substr(0, 64));
    observe("opcode", (unsigned long)d.frameType);
}
HARNESS(decode_small) {
    size_t n = vf_pick("n", 0, (size_t)vf_param("n", 6)), k = vf_pick("cuts", 0, (size_t)vf_param("cuts", 3));
    bool masked = vf_pick("masked", 0, 1);
    Client c = clientFrame(n, n, "b0", masked);
    std::vector<size_t> cuts;
    size_t last = 1;
    for (size_t i = 0; i < k && last < c.bytes.size(); i++) { cuts.push_back(vf_pick("cut", last, c.bytes.size() - 1)); last = cuts.back() + 1; }
    websocket::FrameDecoder d;
    feed(d, c.bytes, cuts);
    checkDecoded(d, c);
    if (cuts.size() >= 3) vf_reach("4 pieces");
    if (!n) vf_reach("empty payload");
    // the same decoder takes the next frame
    d.reset();
    Client c2 = clientFrame(vf_pick("n2", 0, 2), 2, "b0", masked);
    feed(d, c2.bytes, {});
    checkDecoded(d, c2);
}
HARNESS(decode_medium) { // 16-bit lengths
    static const size_t sizes[] = {126, 127, 200, 255, 256, 300};
    size_t n = sizes[vf_pick("n", 0, 5)], k = vf_pick("cuts", 0, (size_t)vf_param("cuts", 2));
    bool masked = vf_pick("masked", 0, 1);
    Client c = clientFrame(n, 4, "b0", masked);
    std::vector<size_t> cuts;
    size_t last = 1, top = 16 + (size_t)vf_param("span", 4);
    for (size_t i = 0; i < k; i++) { // inside and around the header, then near the end
        size_t far = last > top ? 1 : vf_pick("far", 0, 1), at = far ? c.bytes.size() - vf_pick("back", 1, 3) : vf_pick("cut", last, top);
        if (at < last) break;
        cuts.push_back(at);
        last = at + 1;
    }
    websocket::FrameDecoder d;
    feed(d, c.bytes, cuts);
    checkDecoded(d, c);
    vf_reach("16-bit");
}
HARNESS(decode_large) { // 64-bit lengths
    static const size_t sizes[] = {65536, 65537, 66000};
    size_t n = sizes[vf_pick("n", 0, 2)], first = vf_pick("first", 1, 18), second = vf_pick("second", 0, 2);
    Client c = clientFrame(n, 4, "b0", true);
    std::vector<size_t> cuts{first};
    if (second) cuts.push_back(second == 1 ? 14 + 8192 : c.bytes.size() - 1);
    websocket::FrameDecoder d;
    feed(d, c.bytes, cuts);
    checkDecoded(d, c);
    vf_reach("64-bit");
}
// any value of any length field, and the beginning of the content it announces
HARNESS(decode_length) {
    const size_t wide = vf_pick("form", 0, 2) * 3, room = wide == 0 ? 0 : wide == 3 ? 2 : 8, n = vf_pick("n", 0, (size_t)vf_param("n", 3)), cut = vf_pick("cut", 0, 4);
    std::string field = symStr("length", room ? room : 1), mask = symStr("mask", 4), content = symStr("content", n), bytes(1, '\x82');
    uint64_t length = 0;
    if (!room) {
        vf_assume((unsigned char)field[0] < 126);
        length = (unsigned char)field[0];
        bytes += char(0x80 | field[0]);
    }
    else {
        for (unsigned char c : field) length = length << 8 | c;
        bytes += room == 2 ? '\xfe' : '\xff';
        bytes += field;
    }
    bytes += mask;
    const size_t head = bytes.size();
    for (size_t i = 0; i < n; i++) bytes += char(content[i] ^ mask[i % 4]);
    // in one piece, or cut: in the header, right behind it, after some content
    const size_t at = cut == 0 ? 0 : cut == 1 ? 1 : cut == 2 ? head - 1 : cut == 3 ? head : head + 1;
    if (at >= bytes.size() && at) return;
    websocket::FrameDecoder d;
    bool done = false;
    size_t from = 0;
    for (size_t to : {at, bytes.size()}) {
        if (to == from) continue;
        Exact mem(std::string_view(bytes).substr(from, to - from));
        std::string_view piece = mem;
        done = d.parse(std::span(reinterpret_cast<const std::byte*>(piece.data()), piece.size()));
        const bool whole = to >= head && length <= to - head;
        vf_assert(done == whole, "a frame is complete with its last byte, not earlier and not later");
        if (done) {
            vf_assert(from + d.consumed() == head + length, "the frame ends where its length says");
            vf_assert(same(view(d.payload()), std::string_view(content).substr(0, (size_t)length)), "unmasked payload");
            vf_reach(wide == 0 ? "short form" : wide == 3 ? "16-bit form" : "64-bit form");
            return;
        }
        from = to;
    }
    vf_reach("waiting");
}
