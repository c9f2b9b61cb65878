// The WebSocket class on a network whose schedule the solver chooses.
#include "common.hpp"
#include "symnet.hpp"
#include "http/WebSocket.hpp"
using namespace webfront;
using WS = websocket::WebSocket<symnet::Net>;

static std::string refHeader(unsigned first, uint64_t size, bool masked) {
    std::string h(1, char(first));
    unsigned m = masked ? 0x80 : 0;
    if (size < 126) h += char(m | size);
    else if (size < 65536) { h += char(m | 126); h += char(size >> 8); h += char(size); }
    else { h += char(m | 127); for (int i = 7; i >= 0; i--) h += char(size >> (8 * i)); }
    return h;
}
static std::string pattern(size_t n, unsigned seed) { std::string s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = char(i * 7 + (i >> 8) + seed); return s; }
struct Msg { bool text; std::string data; };
static std::string maskedFrame(unsigned first, const std::string& data) {
    std::string s = refHeader(first, data.size(), true), mask = symStr("mask", 4);
    s += mask;
    for (size_t i = 0; i < data.size(); i++) s += char(data[i] ^ mask[i % 4]);
    return s;
}
static std::string clientFrame(const Msg& m) { return maskedFrame(0x80 | (m.text ? 1 : 2), m.data); }
// what the server decoded from the peer's bytes written by the server: a sequence of frames
struct Out { unsigned op; std::string data; };
static bool parseServer(const std::string& s, std::vector<Out>& out) {
    size_t i = 0;
    while (i < s.size()) {
        if (s.size() - i < 2) return false;
        unsigned b0 = (unsigned char)s[i], len = (unsigned char)s[i + 1];
        size_t h = 2, n = len;
        if (len == 126) { if (s.size() - i < 4) return false; n = (size_t)(unsigned char)s[i + 2] << 8 | (unsigned char)s[i + 3]; h = 4; }
        else if (len == 127) { if (s.size() - i < 10) return false; n = 0; for (size_t k = 2; k < 10; k++) n = n << 8 | (unsigned char)s[i + k]; h = 10; }
        else if (len > 127) return false;
        if (s.size() - i < h + n) return false;
        out.push_back({b0, s.substr(i + h, n)});
        i += h + n;
    }
    return true;
}

// ---- a stream of frames cut anywhere: every message is handed over once, whole and in order
struct Log {
    std::vector<Msg> got;
    int closes = 0;
    unsigned status = 0;
    void attach(WS& ws) {
        ws.onMessage([this](std::string_view t) { got.push_back({true, std::string(t)}); });
        ws.onMessage([this](std::span<const std::byte> d) { got.push_back({false, std::string(view(d))}); });
        ws.onClose([this](websocket::CloseEvent e) { closes++; status = e.status; });
    }
};
static void checkMessages(const Log& l, const std::vector<Msg>& sent) {
    vf_assert(l.got.size() == sent.size(), "every message is delivered exactly once");
    for (size_t i = 0; i < sent.size(); i++) {
        vf_assert(l.got[i].text == sent[i].text, "kind of message, in order");
        vf_assert(same(l.got[i].data, sent[i].data), "message content, in order");
    }
}
static void deliverAll(symnet::Conn& c, const std::string& stream, const std::vector<size_t>& cuts) {
    size_t at = 0;
    for (size_t i = 0; i <= cuts.size(); i++) {
        size_t to = i < cuts.size() ? cuts[i] : stream.size();
        while (at < to) {
            vf_assert(c.reads.size() == 1, "exactly one read outstanding");
            at += c.deliver(stream.data() + at, to - at);
        }
    }
}
HARNESS(ws_stream) {
    auto c = symnet::newConn();
    WS ws{symnet::Socket(c)};
    Log l;
    l.attach(ws);
    if (vf_pick("start", 0, 1)) ws.start(); // starting again must not matter
    size_t frames = vf_pick("frames", 1, (size_t)vf_param("frames", 3)), k = vf_pick("cuts", 0, (size_t)vf_param("cuts", 2));
    std::vector<Msg> sent;
    std::string stream;
    for (size_t i = 0; i < frames; i++) {
        size_t n = vf_pick("n", 0, (size_t)vf_param("n", 1));
        Msg m{vf_pick("text", 0, 1) != 0, symStr("data", n)};
        if (vf_param("n", 1) == 1 && n == 1 && vf_pick("longer", 0, 1)) m.data += pattern(4, 1);
        stream += clientFrame(m);
        sent.push_back(m);
    }
    std::vector<size_t> cuts;
    size_t last = 1;
    for (size_t i = 0; i < k && last < stream.size(); i++) { cuts.push_back(vf_pick("cut", last, stream.size() - 1)); last = cuts.back() + 1; }
    deliverAll(*c, stream, cuts);
    checkMessages(l, sent);
    vf_assert(l.closes == 0 && c->open, "still open");
    if (frames >= 2 && cuts.size() >= 2) vf_reach("frames and cuts");
    observe("messages", l.got.size());
    for (auto& m : l.got) observe("message", m.data);
}
// messages cut into fragments (RFC 6455, 5.4), with control frames in between
HARNESS(ws_fragments) {
    auto c = symnet::newConn();
    WS ws{symnet::Socket(c)};
    Log l;
    l.attach(ws);
    size_t messages = vf_pick("messages", 1, (size_t)vf_param("messages", 2));
    std::vector<Msg> sent;
    std::string stream;
    auto control = [&] {
        size_t kind = vf_pick("control", 0, (size_t)vf_param("control", 2));
        if (kind) { stream += maskedFrame(0x80 | (kind == 1 ? 9 : 10), kind == 1 ? symStr("ping", 1) : std::string()); vf_reach("control"); }
    };
    bool stray = vf_param("stray", 0) && vf_pick("stray", 0, 1);
    if (stray) { // continues nothing: part of no message
        unsigned final = vf_pick("final", 0, 1) ? 0x80 : 0;
        stream += maskedFrame(final, symStr("stray", 1));
    }
    for (size_t i = 0; i < messages; i++) {
        bool text = vf_pick("text", 0, 1) != 0;
        size_t parts = vf_pick("parts", 1, (size_t)vf_param("parts", 3));
        Msg m{text, {}};
        for (size_t p = 0; p < parts; p++) {
            std::string data = symStr("data", vf_pick("n", 0, (size_t)vf_param("n", 1)));
            if (vf_param("big", 0) && p == 0) data += pattern((size_t)vf_param("big", 0), 3);
            stream += maskedFrame((p + 1 == parts ? 0x80 : 0) | (p ? 0 : text ? 1 : 2), data);
            m.data += data;
            if (p + 1 < parts) control();
        }
        if (parts > 2) vf_reach("three fragments");
        sent.push_back(m);
    }
    std::vector<size_t> cuts;
    size_t last = 1, k = vf_pick("cuts", 0, (size_t)vf_param("cuts", 1));
    for (size_t i = 0; i < k && last < stream.size(); i++) { cuts.push_back(vf_pick("cut", last, stream.size() - 1)); last = cuts.back() + 1; }
    deliverAll(*c, stream, cuts);
    checkMessages(l, sent);
    vf_assert(l.closes == 0 && c->open, "still open");
    observe("messages", l.got.size());
    for (auto& m : l.got) observe("message", m.data);
}
// messages of many fragments, or of large ones
HARNESS(ws_fragments_many) {
    static const size_t shapes[][2] = {{300, 1}, {130, 700}, {3, 40000}, {2, 100000}};
    auto& shape = shapes[vf_pick("shape", 0, 3)];
    auto c = symnet::newConn();
    WS ws{symnet::Socket(c)};
    Log l;
    l.attach(ws);
    std::vector<Msg> sent;
    std::string stream;
    for (size_t i = 0; i < 2; i++) {
        Msg m{i == 0, {}};
        for (size_t p = 0; p < shape[0]; p++) {
            std::string data = pattern(shape[1], (unsigned char)(p + i));
            if (p + 1 == shape[0] || p == 1) vf_symbolic(&data[data.size() - 1], 1, "data");
            stream += maskedFrame((p + 1 == shape[0] ? 0x80 : 0) | (p ? 0 : m.text ? 1 : 2), data);
            m.data += data;
            if (p % 50 == 1 && p + 1 < shape[0]) stream += maskedFrame(p % 100 == 1 ? 0x89 : 0x8a, "ping");
        }
        sent.push_back(m);
    }
    std::vector<size_t> cuts;
    for (size_t step = vf_pick("step", 0, 1) ? 4099 : 1021, at = step; at < stream.size(); at += step) cuts.push_back(at);
    deliverAll(*c, stream, cuts);
    checkMessages(l, sent);
    vf_assert(l.closes == 0 && c->open, "still open");
    vf_reach("many fragments");
}
// frames around the reception buffer's size and the length borders
HARNESS(ws_big) {
    static const size_t sizes[] = {125, 126, 127, 8177, 8178, 8179, 8184, 8185, 65535, 65536, 140000};
    auto c = symnet::newConn();
    WS ws{symnet::Socket(c)};
    Log l;
    l.attach(ws);
    std::vector<Msg> sent;
    std::string stream;
    size_t which = vf_pick("size", 0, 10);
    sent.push_back({which % 2 != 0, pattern(sizes[which], 0)});
    vf_symbolic(&sent[0].data[sent[0].data.size() - 2], 2, "tail");
    sent.push_back({false, symStr("second", 2)});
    for (auto& m : sent) stream += clientFrame(m);
    std::vector<size_t> cuts;
    if (vf_pick("cuts", 0, 1)) { cuts.push_back(vf_pick("first", 1, which < 3 ? 15 : 5) * (which < 3 ? 1 : 3)); cuts.push_back(stream.size() - (which < 3 ? vf_pick("back", 1, 12) : 3)); }
    deliverAll(*c, stream, cuts);
    checkMessages(l, sent);
    vf_reach("big");
}

// ---- whatever bytes arrive, in whatever pieces: nothing breaks, memory stays bounded, and the read goes on or the connection is closed
HARNESS(ws_hostile) {
    vf_alloc_limit(1 << 17);
    auto c = symnet::newConn();
    auto ws = std::make_unique<WS>(symnet::Socket(c));
    size_t messages = 0, closes = 0, bytes = 0;
    unsigned sum = 0;
    ws->onMessage([&](std::string_view t) { messages++; bytes += t.size(); for (char x : t) sum = sum * 31 + (unsigned char)x; });
    ws->onMessage([&](std::span<const std::byte> d) { messages++; bytes += d.size(); for (auto x : d) sum = sum * 31 + (unsigned char)x; });
    ws->onClose([&](websocket::CloseEvent) { closes++; });
    size_t n = vf_pick("n", (size_t)vf_param("nmin", 1), (size_t)vf_param("n", 17)), k = vf_pick("pieces", 1, (size_t)vf_param("pieces", 2));
    std::string in = symStr("in", n);
    if (vf_param("long", 0) && n > 1) vf_assume((in[1] & 127) == (vf_param("long", 0) == 1 ? 126 : 127)); // extended lengths
    if (vf_param("long", 0) && n > 9) { // which are large
        auto b = [&](size_t i) { return (unsigned)(unsigned char)in[i]; };
        unsigned hi16 = b(2) | (b(3) >> 6), hi64 = b(2) | b(3) | b(4) | b(5) | b(6) | b(7) | b(8) | (b(9) >> 6);
        vf_assume(((b(1) & 127) == 126 ? hi16 : hi64) != 0);
    }
    size_t at = 0;
    for (size_t i = 0; i < k && at < n && c->wantsData(); i++) {
        size_t to = i + 1 == k ? n : vf_pick("to", at + 1, n);
        while (at < to && c->wantsData()) at += c->deliver(in.data() + at, to - at);
    }
    vf_assert(bytes <= n, "no more data than received");
    vf_assert(closes <= 1, "closed at most once");
    vf_assert(c->open ? c->reads.size() == 1 : c->reads.empty(), "either reading on or closed");
    vf_assert(c->open == (closes == 0), "closing is reported");
    symnet::world().settle();
    if (!c->open) vf_reach("closed");
    if (messages > 1) vf_reach("several messages");
    if (c->open && !messages) vf_reach("waiting");
    observe("messages", messages);
    observe("sum", (unsigned long)sum);
}

// ---- lifecycle: close frames, errors and stop() in any order
HARNESS(ws_lifecycle) {
    auto c = symnet::newConn();
    std::optional<WS> owner(std::in_place, symnet::Socket(c));
    WS& ws = *owner;
    size_t messages = 0, closes = 0;
    bool stopped = false, ended = false, afterEnd = false;
    size_t inHandler = vf_pick("stopInHandler", 0, 3); // 1: a message handler stops, 2: destroys the WebSocket, 3: the close handler destroys it
    ws.onMessage([&](std::string_view) { messages++; if (ended || stopped) afterEnd = true; if (inHandler == 1) { ws.stop(); stopped = true; } if (inHandler == 2) { stopped = true; vf_reach("destroyed"); owner.reset(); } });
    if (vf_pick("hasBinary", 0, 1)) ws.onMessage([&](std::span<const std::byte>) { messages++; if (ended || stopped) afterEnd = true; });
    bool hasClose = vf_pick("hasClose", 0, 1);
    if (hasClose) ws.onClose([&](websocket::CloseEvent) { closes++; if (closes == 1 && stopped) afterEnd = true; if (inHandler == 3) { vf_reach("destroyed"); owner.reset(); } });
    size_t steps = (size_t)vf_param("steps", 4);
    for (size_t i = 0; i < steps; i++) {
        size_t move = vf_pick("move", 0, 7);
        if (move < 3) { // a frame arrives: text, binary or close, possibly with another text frame right behind it
            if (!c->wantsData()) continue;
            std::string s = refHeader(0x80 | (move == 0 ? 1 : move == 1 ? 2 : 8), 1, true) + std::string("\0\0\0\0x", 5);
            if (vf_pick("behind", 0, 1)) s += refHeader(0x81, 1, true) + std::string("\0\0\0\0y", 5);
            size_t before = messages;
            c->deliver(s.data(), s.size());
            if (move == 2) { ended = true; vf_assert(messages == before, "nothing is delivered after the close frame"); vf_reach("close frame"); }
        }
        else if (move == 3) { if (c->failRead(symnet::anyError())) { ended = true; vf_reach("read error"); } }
        else if (move == 4) { if (owner) ws.write(std::string_view("hello")); }
        else if (move == 5) { if (c->failWrite(symnet::anyError())) { ended = true; vf_reach("write error"); } }
        else if (move == 6) { if (!ended) stopped = true; if (owner) ws.stop(); vf_reach("stop"); }
        else symnet::world().settle(4);
        vf_assert(c->maxReads <= 1, "one read at a time");
        vf_assert(c->maxWrites <= 1, "one write at a time");
        if (ended || stopped) vf_assert(!c->open, "the connection is closed");
        else vf_assert(c->open && c->reads.size() == 1, "open and reading");
    }
    symnet::world().settle();
    vf_assert(!afterEnd, "nothing is reported after the end");
    vf_assert(closes <= 1, "closing is reported at most once");
    if (hasClose && ended && !stopped) vf_assert(closes == 1, "closing is reported");
    if (!ended) vf_assert(closes == 0, "no close event without an end");
    vf_assert(symnet::world().orphans.empty() && c->ready.empty(), "no handler keeps going");
    observe("closes", closes);
    observe("messages", messages);
}

// ---- writes: the data given to write() may go away at once; frames leave whole and in the order of the calls
HARNESS(ws_writes) {
    auto c = symnet::newConn();
    WS ws{symnet::Socket(c)};
    size_t n = vf_pick("writes", 1, (size_t)vf_param("writes", 3));
    std::vector<Out> expected;
    size_t budget = (size_t)vf_param("moves", 6);
    auto env = [&](size_t moves) { // the network advances somewhat
        for (size_t i = 0; i < moves && budget && !c->writes.empty(); i++, budget--) c->progress(vf_pick("chunk", 0, 1) ? ~size_t(0) : 2);
    };
    for (size_t i = 0; i < n; i++) {
        size_t kind = vf_pick("kind", 0, 4);
        size_t size = kind == 4 ? 126 : vf_pick("size", 0, 1) * 3;
        {
            std::string data = symStr("data", size < 4 ? size : 2);
            if (size > data.size()) data += pattern(size - data.size(), (unsigned)i);
            if (kind == 0) ws.write(std::string_view(data));
            else if (kind == 1) ws.write(std::as_bytes(std::span(data)));
            else if (kind == 2) ws.write(std::as_bytes(std::span(data)), std::as_bytes(std::span(data)));
            else {
                websocket::Frame<symnet::Net> f{std::as_bytes(std::span(data)).first(data.size() / 2)};
                f.addBuffer(std::as_bytes(std::span(data)).subspan(data.size() / 2));
                ws.write(std::move(f));
            }
            expected.push_back({kind == 0 ? 0x81u : 0x82u, kind == 2 ? data + data : data});
            data.assign(data.size(), '#'); // and then it is gone
        }
        env(vf_pick("moves", 0, 2));
        if (c->writes.size() > 0 && i + 1 < n) vf_reach("write in progress while writing");
    }
    for (size_t i = 0; i < 8 * n && !c->writes.empty(); i++) c->progress();
    std::vector<Out> out;
    vf_assert(parseServer(c->sent, out), "a sequence of whole frames");
    vf_assert(out.size() == expected.size(), "every frame leaves once");
    for (size_t i = 0; i < out.size(); i++) {
        vf_assert(out[i].op == expected[i].op, "opcode, in order");
        vf_assert(same(out[i].data, expected[i].data), "payload, in order");
    }
    observe("sent", c->sent);
}
// two connections whose buffers may both be filled before either handler runs
HARNESS(ws_two) {
    symnet::Ref c[2] = {symnet::newConn(), symnet::newConn()};
    WS a{symnet::Socket(c[0])}, b{symnet::Socket(c[1])};
    Log l[2];
    l[0].attach(a);
    l[1].attach(b);
    std::string stream[2];
    std::vector<Msg> sent[2];
    size_t at[2] = {0, 0};
    for (int i = 0; i < 2; i++)
        for (size_t k = 0; k < 2; k++) {
            sent[i].push_back({vf_pick("text", 0, 1) != 0, symStr("data", k + 1)});
            stream[i] += clientFrame(sent[i].back());
        }
    size_t turns = (size_t)vf_param("turns", 4);
    for (size_t k = 0; k < turns; k++) {
        int i = (int)vf_pick("who", 0, 1);
        if (c[i]->runReady()) continue;
        size_t left = stream[i].size() - at[i];
        if (!left) continue;
        vf_assert(c[i]->reads.size() == 1, "one read outstanding");
        static const size_t parts[] = {3, 7, 9, 1000};
        size_t n = parts[vf_pick("part", 0, 3)];
        at[i] += c[i]->fill(stream[i].data() + at[i], n < left ? n : left);
    }
    for (int i = 0; i < 2; i++) {
        while (c[i]->runReady()) {}
        while (at[i] < stream[i].size()) at[i] += c[i]->deliver(stream[i].data() + at[i], stream[i].size() - at[i]);
        checkMessages(l[i], sent[i]);
        for (auto& m : l[i].got) observe("message", m.data);
    }
    vf_reach("two");
}
// long histories: many messages on one connection, cut in the same way again and again
HARNESS(ws_many) {
    auto c = symnet::newConn();
    WS ws{symnet::Socket(c)};
    Log l;
    l.attach(ws);
    size_t n = (size_t)vf_param("messages", 30), first = vf_pick("first", 0, 1), size = vf_pick("size", 0, 6), other = vf_pick("other", 0, 2) * 60, step = vf_pick("step", 1, 16);
    std::vector<Msg> sent;
    std::string stream, tail = symStr("data", 2);
    for (size_t i = 0; i < n; i++) {
        Msg m{i % 2 == first, pattern(i % 3 == 2 ? size + other : size, (unsigned)i)};
        if (m.data.size() > 1) m.data[1] = tail[i % 2];
        static const char mask[] = {1, 2, 3, char(0x84)};
        stream += refHeader(0x80 | (m.text ? 1 : 2), m.data.size(), true) + std::string(mask, 4);
        for (size_t k = 0; k < m.data.size(); k++) stream += char(m.data[k] ^ mask[k % 4]);
        sent.push_back(m);
    }
    std::vector<size_t> cuts;
    if (step < 16) for (size_t at = step; at < stream.size(); at += step) cuts.push_back(at);
    deliverAll(*c, stream, cuts);
    checkMessages(l, sent);
    vf_assert(l.closes == 0 && c->open && c->reads.size() == 1, "still open");
    vf_reach("many messages");
}
// many messages written while the first ones are on their way
HARNESS(ws_burst) {
    auto c = symnet::newConn();
    WS ws{symnet::Socket(c)};
    size_t n = (size_t)vf_param("writes", 20), kinds = vf_pick("kinds", 0, 3), every = vf_pick("every", 0, 4), chunk = vf_pick("chunk", 1, 5);
    std::string sym = symStr("data", 2);
    std::vector<Out> expected;
    for (size_t i = 0; i < n; i++) {
        size_t kind = kinds == 3 ? i % 3 : kinds;
        {
            std::string data = pattern(i % 4 * 3, (unsigned)i);
            if (data.size() > 1) data[1] = sym[i % 2];
            if (kind == 0) ws.write(std::string_view(data));
            else if (kind == 1) ws.write(std::as_bytes(std::span(data)));
            else ws.write(std::as_bytes(std::span(data)), std::as_bytes(std::span(data)));
            expected.push_back({kind == 0 ? 0x81u : 0x82u, kind == 2 ? data + data : data});
            data.assign(data.size(), '#');
        }
        if (every && i % every == 0) c->progress(chunk);
    }
    for (size_t i = 0; i < 40 * n && !c->writes.empty(); i++) c->progress(chunk == 5 ? 1000 : chunk);
    std::vector<Out> out;
    vf_assert(parseServer(c->sent, out), "a sequence of whole frames");
    vf_assert(out.size() == expected.size(), "every frame leaves once");
    for (size_t i = 0; i < out.size(); i++) vf_assert(out[i].op == expected[i].op && same(out[i].data, expected[i].data), "as it was written, in order");
    vf_reach("burst");
}
