// The link with a browser: messages of a WebLink, and whole sessions of a WebFront.
#include "common.hpp"
#include "symnet.hpp"
#include "browser.hpp"
#include "WebFront.hpp"
using namespace webfront;
using Net = symnet::Net;
static void logs() { log::setLogLevel((log::LogType)vf_param("log", 0)); }
// the messages which the browser received on a WebSocket; what is logged comes as debug texts, anywhere
struct Received { std::vector<std::string> messages, logged; bool closed = false; };
static Received received(const std::string& sent) {
    Received r;
    std::vector<ServerFrame> frames;
    vf_assert(parseServer(sent, frames), "whole frames are sent");
    for (auto& f : frames) {
        vf_assert(!r.closed, "nothing is sent after a close frame");
        if (f.op == 0x88) { r.closed = true; continue; }
        if (f.op == 0x81) continue; // plain texts are not part of the protocol
        vf_assert(f.op == 0x82 && f.data.size() >= 2, "binary messages");
        if (f.data[0] == 2 && f.data[1] == 0) {
            vf_assert(f.data.size() >= 4 && ((size_t)(unsigned char)f.data[2] << 8 | (unsigned char)f.data[3]) == f.data.size() - 4, "log texts of the announced size");
            r.logged.push_back(f.data.substr(4));
        }
        else r.messages.push_back(f.data);
    }
    return r;
}
static const char littleEndian = std::endian::native == std::endian::little ? 0 : 1;
static std::string ack() { return {char(1), littleEndian}; }
static void drain(symnet::Conn& c) { for (bool more = true; more;) { more = c.runReady(); if (c.progress()) more = true; } }

// ---- one link: every message in turn
struct Event { int code; WebLinkId id; std::string text, data; };
using Code = WebLinkEvent::Code;
// what the events handler does with a call
struct Failure : std::exception {};
enum React { accepts, unknown, fails };
struct Expect { bool ack = false, linked = false, call = false; std::string name, data; };
// the meaning of a binary message, from the protocol alone
static Expect meaning(const std::string& m, bool linked) {
    Expect e;
    if (m.size() < 2) return e;
    if (m[0] == 0) { e.ack = true; e.linked = !linked; return e; }
    if (m[0] != 3 || m.size() < 8) return e;
    uint32_t size = 0;
    std::memcpy(&size, m.data() + 4, 4);
    if (size > m.size() - 8) return e;
    std::string_view d = std::string_view(m).substr(8, vf_concrete(size));
    if (d.size() < 2) return e;
    size_t h = 0, n = 0;
    if (d[0] == 4) { h = 2; n = (unsigned char)d[1]; }
    else if ((d[0] == 5) | (d[0] == 6)) { if (d.size() < 3) return e; h = 3; n = (unsigned char)d[1] | (size_t)(unsigned char)d[2] << 8; }
    else return e;
    if (n > d.size() - h) return e;
    n = vf_concrete(n);
    e.call = true;
    e.name = d.substr(h, n);
    e.data = d.substr(h + n);
    return e;
}
static bool undefinedName(const std::string& m) { return m.size() > 8 && m[0] == 3 && m[8] == 0; } // an undefined name: which function is meant is not specified
struct LinkRun {
    symnet::Ref c = symnet::newConn();
    std::vector<Event> events;
    React react = accepts;
    size_t failures = 0, firstFailure = 0;
    std::unique_ptr<WebLink<Net>> link;
    bool linked = false;
    size_t acks = 0;
    std::vector<bool> returns; // functions returned in error
    LinkRun(WebLinkId id = 7) {
        link = std::make_unique<WebLink<Net>>(symnet::Socket(c), id, [this](WebLinkEvent e) {
            events.push_back({(int)e.code, e.webLinkId, e.text, std::string(view(e.data))});
            if (e.code != Code::cppFunctionCalled) return;
            if (react == unknown) throw std::out_of_range("no such function");
            if (react == fails) switch ((failures++ ? failures + firstFailure : firstFailure = vf_pick("failure", 0, 3)) % 4) {
                case 0: throw std::runtime_error("failed");
                case 1: throw std::invalid_argument("failed");
                case 2: throw std::bad_alloc();
                default: throw Failure();
            }
        });
    }
    void send(unsigned op, const std::string& m, size_t cut = ~size_t(0)) {
        std::string f = clientFrame(op, m);
        if (cut < f.size()) { for (size_t i = 0; i < cut;) i += c->deliver(f.data() + i, cut - i); f = f.substr(cut); }
        for (size_t i = 0; i < f.size();) {
            vf_assert(c->reads.size() == 1, "one read outstanding");
            i += c->deliver(f.data() + i, f.size() - i);
        }
    }
    void check(const std::string& m) { // sends one binary message and compares
        Expect e = meaning(m, linked);
        size_t before = events.size(), sentBefore = c->sent.size();
        send(0x82, m);
        drain(*c);
        vf_assert(c->open && c->reads.size() == 1, "the link stays open");
        Received r = received(c->sent.substr(sentBefore));
        vf_assert(!r.closed, "not closed");
        if (e.ack) {
            vf_assert(r.messages.size() == 1 && r.messages[0] == ack(), "a handshake is acknowledged, once, with the server's endianness");
            vf_assert(events.size() == before + (e.linked ? 1 : 0), "linked once");
            if (e.linked) { linked = true; vf_assert(events.back().code == (int)Code::linked && events.back().id == 7, "linked event"); }
            vf_reach("handshake");
        }
        else if (e.call) {
            vf_assert(events.size() == before + 1 && events.back().code == (int)Code::cppFunctionCalled && events.back().id == 7, "a call is dispatched once");
            vf_assert(same(events.back().text, e.name) && same(events.back().data, e.data), "with its name and parameters");
            if (react == unknown) {
                vf_assert(r.messages.size() == 1, "an unknown function is answered once");
                Call a = parseCall(r.messages[0]);
                vf_assert(a.ok && a.command == 4 && a.count == 1 && a.values.size() == 1 && a.values[0].type == 6 && a.values[0].s == "no such function", "with an error return");
                vf_reach("unknown");
            }
            else vf_assert(r.messages.empty(), "nothing else is sent");
            vf_reach("call");
        }
        else if (!undefinedName(m)) {
            vf_assert(events.size() == before && r.messages.empty(), "other messages are ignored");
            vf_reach("ignored");
        }
        observe("events", events.size());
    }
    void end(int how) {
        size_t before = events.size();
        if (how == 0) send(0x88, std::string("\x03\xe8", 2));
        if (how == 1) c->failRead(symnet::anyError());
        if (how == 2) { send(0x82, {0, 0}); c->failWrite(symnet::anyError()); drain(*c); if (!linked) { linked = true; before++; } }
        if (how == 3) { link.reset(); for (size_t i = 0; i < 8; i++) c->runReady(); vf_assert(events.size() == before && !c->open, "a destroyed link is silent and its connection closed"); vf_reach("destroyed"); return; }
        drain(*c);
        if (how == 2 && events.size() == before && c->wantsData()) c->failRead(symnet::anyError()); // the fault of a write shows at the next read
        drain(*c);
        vf_assert(events.size() == before + 1 && events.back().code == (int)Code::closed && events.back().id == 7, "closed is reported once");
        vf_reach("closed");
        link.reset();
        for (size_t i = 0; i < 8; i++) c->runReady();
        vf_assert(events.size() == before + 1, "and nothing after it");
    }
};
static std::string symText(const char* name, size_t max) { size_t n = vf_pick("len", 0, max); return symStr(name, n); }
HARNESS(link_messages) {
    logs();
    LinkRun l;
    size_t n = vf_pick("messages", 1, (size_t)vf_param("messages", 2));
    for (size_t k = 0; k < n; k++) {
        l.react = accepts;
        switch (vf_pick("kind", 0, 5)) {
        case 0: { std::string m(1, '\0'), e = symStr("endian", 1); m += e; l.check(m); } break;
        case 1: {
            l.react = (React)vf_pick("react", 0, 2);
            std::string name = symText("name", 2), params = symText("params", 2), body = wireText(name) + params;
            l.check(message(3, (unsigned)vf_range("count", 0, 255), body));
        } break;
        case 2: { std::string body = wireText("f"), m = message(3, 1, body); m.resize(vf_pick("cut", 0, m.size() - 1)); l.check(m); } break;
        case 3: { std::string m = message(3, 1, ""); std::string size = symStr("size", 2), body = symText("body", 3); m[4] = size[0]; m[7] = size[1]; l.check(m + body); } break;
        case 4: { std::string m = symStr("command", 1); vf_assume((m[0] != 0) & (m[0] != 3)); m += symText("more", 9); l.check(m); } break;
        case 5: { size_t before = l.events.size(); std::string t = symText("text", 2); l.send(0x81, t); drain(*l.c); vf_assert(l.events.size() == before && l.c->open, "texts are no events"); received(l.c->sent); } break;
        }
    }
    l.end((int)vf_pick("end", 0, 3));
}
// any bytes, in one message
HARNESS(link_any) {
    logs();
    LinkRun l;
    l.react = (React)vf_pick("react", 0, 2);
    if (vf_pick("linked", 0, 1)) l.check(std::string(2, '\0'));
    size_t n = vf_pick("n", 0, (size_t)vf_param("n", 12));
    std::string m = symStr("message", n);
    l.check(m);
    l.check(std::string(2, '\0')); // the link still works
}
// large messages and names
HARNESS(link_large) {
    logs();
    LinkRun l;
    static const size_t sizes[] = {0, 100, 125, 126, 255, 256, 1000, 20000, 65535 - 8 - 300};
    size_t n = sizes[vf_pick("name", 0, 5)], p = sizes[vf_pick("params", 0, std::size(sizes) - 1)];
    std::string name(n, 'n'), params(p, '\3'), s = symStr("sym", 2);
    if (n) name[n - 1] = s[0];
    if (p) params[p - 1] = s[1];
    l.check(message(3, 2, wireText(name) + params));
    l.end(0);
}
// the bytes of a message in any pieces, and what a log text is made of never breaks the protocol
HARNESS(link_cut) {
    logs();
    LinkRun l;
    std::string call = message(3, 1, wireText("fn") + symStr("params", 2));
    l.send(0x82, std::string(2, '\0'), vf_pick("cut", 0, 8));
    l.send(0x82, call, vf_pick("cut2", 0, 26));
    drain(*l.c);
    vf_assert(l.events.size() == 2 && l.events[0].code == (int)Code::linked && l.events[1].code == (int)Code::cppFunctionCalled && l.events[1].text == "fn" && same(l.events[1].data, call.substr(12)), "handshake and call");
    Received r = received(l.c->sent);
    vf_assert(r.messages.size() == 1 && r.messages[0] == ack(), "acknowledged");
    observe("params", l.events[1].data);
    l.end(0);
}
// log texts of any length reach the linked browsers only, whole or clipped, never as another message
HARNESS(link_logs) {
    log::setLogLevel(log::Info);
    LinkRun a, b;
    bool la = vf_pick("a", 0, 1), lb = vf_pick("b", 0, 1);
    if (la) a.send(0x82, std::string(2, '\0'));
    if (lb) b.send(0x82, std::string(2, '\0'));
    static const size_t sizes[] = {0, 1, 100, 125, 255, 65400, 65535, 65536, 70000, 131072};
    std::string text(sizes[vf_pick("size", 0, std::size(sizes) - 1)], 't');
    bool gone = vf_pick("gone", 0, 1);
    drain(*a.c);
    drain(*b.c);
    if (gone) { a.link.reset(); a.c->runReady(); }
    size_t as = a.c->sent.size(), bs = b.c->sent.size();
    log::info("{}", text);
    drain(*a.c);
    drain(*b.c);
    Received ra = received(a.c->sent.substr(as)), rb = received(b.c->sent.substr(bs));
    vf_assert(ra.messages.empty() && rb.messages.empty(), "only log texts");
    vf_assert(ra.logged.size() == (la && !gone ? 1 : 0) && rb.logged.size() == (lb ? 1 : 0), "each linked browser is told once");
    if (lb) {
        vf_assert(rb.logged[0].size() >= (text.size() < 60000 ? text.size() : 60000), "the text");
        if (text.size() < 60000) vf_assert(rb.logged[0].substr(rb.logged[0].size() - text.size()) == text, "unchanged");
    }
    vf_reach("logged");
    observe("size", text.size());
}

// a long history on one link
HARNESS(link_many) {
    logs();
    LinkRun l;
    size_t n = (size_t)vf_param("messages", 40), a = vf_pick("a", 0, 5), b = vf_pick("b", 0, 5);
    std::string sym = symStr("params", 2);
    for (size_t i = 0; i < n; i++) {
        size_t kind = i % 2 ? a : b;
        l.react = kind == 1 ? unknown : kind == 2 ? fails : accepts;
        switch (kind) {
        case 0: case 1: case 2: l.check(message(3, 1, wireText("name") + sym)); break;
        case 3: l.check(std::string(2, '\0')); break;
        case 4: l.check(std::string(9, '\7')); break;
        case 5: l.check(message(3, 1, wireText("name")).substr(0, 10)); break;
        }
    }
    l.end((int)vf_pick("end", 0, 3));
    vf_reach("many");
}

// ---- whole sessions
struct Files {
    Files(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p) {
        static const uint64_t words[] = {0x6162636465666768};
        if (p.string() == "index.html") return fs::File(std::span<const uint64_t>(words), 8);
        return {};
    }
};
using Front = BasicWF<Net, Files>;
using FrontUI = Front::UI;
static const std::string upgradeText = "GET / HTTP/1.1\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
static const std::string getText = "GET / HTTP/1.1\r\n\r\n";
struct Peer { // one browser
    symnet::Ref c;
    enum State { connected, upgraded, linked, ended } state = connected;
    size_t seen = 0;
    void send(unsigned op, const std::string& m) {
        std::string f = clientFrame(op, m);
        for (size_t i = 0; i < f.size() && c->wantsData();) i += c->deliver(f.data() + i, f.size() - i);
    }
    Received news() { // what came since the last look
        Received r = received(c->sent.substr(seen));
        seen = c->sent.size();
        return r;
    }
};
struct Session {
    symnet::World& w = symnet::world();
    std::unique_ptr<Front> wf = std::make_unique<Front>("80");
    std::vector<FrontUI> uis;
    std::vector<std::pair<std::string, double>> calls;
    std::vector<Peer> peers;
    std::vector<size_t> uiOf; // which ui belongs to which peer
    bool greet = false;
    void functions() {
        wf->cppFunction<void, std::string, double>("store", [this](std::string s, double d) { calls.push_back({s, d}); });
        wf->cppFunction<void>("fails", [] { if (vf_pick("failure", 0, 1)) throw Failure(); throw std::runtime_error("failed"); });
    }
    void handlers() { wf->onUIStarted([this](FrontUI ui) { uis.push_back(ui); if (greet) { ui.addScript("hello()"); auto f = ui.jsFunction("greet"); f(true); } }); }
    void flush() { for (bool more = true; more;) { more = w.runOrphan(); for (auto& c : w.conns) if (c->runReady() || c->progress()) more = true; } }
    Peer& connect() {
        vf_assert(w.connect(), "the server accepts");
        peers.push_back({w.conns.back()});
        uiOf.push_back(~size_t(0));
        return peers.back();
    }
    void upgrade(Peer& p) {
        p.c->deliver(upgradeText.data(), upgradeText.size());
        flush();
        vf_assert(p.c->sent.substr(0, 12) == "HTTP/1.1 101" && p.c->open && p.c->reads.size() == 1, "upgraded");
        p.seen = p.c->sent.find("\r\n\r\n") + 4;
        p.state = Peer::upgraded;
    }
    void link(size_t i) {
        auto& p = peers[i];
        size_t before = uis.size();
        p.send(0x82, std::string(2, '\0'));
        flush();
        Received r = p.news();
        if (p.state == Peer::linked) { vf_assert(r.messages.size() == 1 && r.messages[0] == ack() && uis.size() == before, "linked only once"); return; }
        vf_assert(r.messages.size() == (greet ? 3 : 1) && r.messages[0] == ack(), "acknowledged");
        vf_assert(uis.size() == before + 1, "the application is told once");
        if (greet) {
            vf_assert(r.messages[1] == std::string("\2\1\0\7hello()", 11), "script of the application");
            Call c = parseCall(r.messages[2]);
            vf_assert(c.ok && c.command == 3 && c.values.size() == 2 && c.values[0].s == "greet" && c.values[1].type == 1, "call of the application");
        }
        uiOf[i] = before;
        p.state = Peer::linked;
    }
    void othersQuiet(size_t i) { for (size_t k = 0; k < peers.size(); k++) if (k != i && peers[k].state != Peer::ended && peers[k].state != Peer::connected) vf_assert(peers[k].news().messages.empty(), "others are not concerned"); }
    void callCpp(size_t i) {
        auto& p = peers[i];
        size_t before = calls.size();
        std::string s = symStr("s", 1);
        double d;
        vf_symbolic(&d, 8, "d");
        p.send(0x82, message(3, 3, wireText("store") + wireText(s) + wireNumber(d)));
        flush();
        vf_assert(calls.size() == before + 1 && same(calls.back().first, s) && sameBits(calls.back().second, d), "the C++ function is called once with its arguments");
        vf_assert(p.news().messages.empty(), "nothing to answer");
        observe("s", calls.back().first);
        vf_reach("called C++");
    }
    void callWrong(size_t i) {
        auto& p = peers[i];
        size_t before = calls.size();
        bool none = false;
        switch (vf_pick("wrong", 0, 4)) {
        case 0: p.send(0x82, message(3, 1, wireText("none"))); none = true; break;
        case 1: p.send(0x82, message(3, 2, wireText("store") + wireText("x"))); break;
        case 2: p.send(0x82, message(3, 3, wireText("store") + wireNumber(1) + wireNumber(2))); break;
        case 3: p.send(0x82, message(3, 1, wireText("fails"))); break;
        case 4: { std::string junk = symStr("junk", 3); vf_assume(junk[0] != 0); p.send(0x82, junk); } break;
        }
        flush();
        Received r = p.news();
        vf_assert(p.c->open && calls.size() == before, "not called, and the session goes on");
        if (none) {
            vf_assert(r.messages.size() == 1, "answered");
            Call a = parseCall(r.messages[0]);
            vf_assert(a.ok && a.command == 4 && a.values.size() == 1 && a.values[0].type == 6, "with an error");
        }
        vf_reach("wrong call");
    }
    void callJs(size_t i) {
        auto& p = peers[i];
        auto f = uis[uiOf[i]].jsFunction("js");
        double d;
        vf_symbolic(&d, 8, "d");
        f(d, "text");
        if (vf_pick("again", 0, 1)) f(false);
        uis[uiOf[i]].addScript("1+1");
        flush();
        Received r = p.news();
        vf_assert(r.messages.size() >= 2, "sent to its browser");
        Call c = parseCall(r.messages[0]);
        vf_assert(c.ok && c.command == 3 && c.count == 3 && c.values.size() == 3 && c.values[0].s == "js" && c.values[1].type == 3 && sameBits(c.values[1].n, d) && c.values[2].s == "text", "the call with its arguments");
        if (r.messages.size() == 3) { Call c2 = parseCall(r.messages[1]); vf_assert(c2.ok && c2.count == 2 && c2.values.size() == 2 && c2.values[1].type == 2, "the second call"); }
        vf_assert(r.messages.size() <= 3 && r.messages.back() == std::string("\2\1\0\3" "1+1", 7), "the script");
        vf_reach("called js");
    }
    void end(size_t i) {
        auto& p = peers[i];
        switch (vf_pick("how", 0, 3)) {
        case 0: p.send(0x88, std::string("\x03\xe8", 2)); break;
        case 1: p.c->failRead(symnet::anyError()); break;
        case 2: if (p.state == Peer::linked) { uis[uiOf[i]].addScript("x"); uis[uiOf[i]].addScript("y"); } p.c->failWrite(symnet::anyError()); p.c->failRead(symnet::anyError()); break;
        case 3: if (p.state == Peer::linked) uis[uiOf[i]].addScript("x"); p.c->failRead(symnet::anyError()); break; // a write is pending when the read fails
        }
        flush();
        p.state = Peer::ended;
        vf_assert(!p.c->open, "its connection is closed");
        ended(i);
        vf_reach("ended");
    }
    void ended(size_t i) { // the application learns that this browser is gone
        if (uiOf[i] == ~size_t(0)) return;
        size_t seen = peers[i].c->sent.size();
        bool thrown = false, thrown2 = false;
        try { uis[uiOf[i]].addScript("x"); } catch (const ConnectionError&) { thrown = true; } catch (const std::exception&) {}
        auto f = uis[uiOf[i]].jsFunction("js");
        try { f(1); } catch (const std::exception&) { thrown2 = true; }
        flush();
        vf_assert(thrown && thrown2 && peers[i].c->sent.size() == seen, "a browser which is gone is forgotten");
    }
};
HARNESS(session) {
    logs();
    {
        Session s;
        bool handler = !vf_param("nohandler", 0);
        if (handler) s.handlers();
        s.functions();
        s.greet = vf_pick("greet", 0, 1);
        size_t n = (size_t)vf_param("clients", 1), steps = (size_t)vf_param("steps", 3);
        for (size_t i = 0; i < n; i++) s.connect();
        // browsers are already linked if the bounds say so
        for (size_t i = 0; i < n && (long)i < vf_param("linked", 0); i++) { s.upgrade(s.peers[i]); s.link(i); }
        for (size_t k = 0; k < steps; k++) {
            size_t i = n > 1 ? vf_pick("who", 0, n - 1) : 0;
            auto& p = s.peers[i];
            switch (p.state) {
            case Peer::connected: switch (vf_pick("move", 0, 2)) {
                case 0: s.upgrade(p); break;
                case 1: p.c->deliver(getText.data(), getText.size()); s.flush(); vf_assert(!p.c->open && p.c->sent.substr(0, 15) == "HTTP/1.1 200 OK" && p.c->sent.substr(p.c->sent.size() - 8) == "abcdefgh", "pages are served"); p.state = Peer::ended; break;
                case 2: p.c->failRead(symnet::anyError()); s.flush(); p.state = Peer::ended; break;
                } break;
            case Peer::upgraded: switch (vf_pick("move", 0, 3)) {
                case 0: if (handler) s.link(i); else { p.send(0x82, std::string(2, '\0')); s.flush(); auto r = p.news(); vf_assert(r.messages.size() == 1 && r.messages[0] == ack() && p.c->open, "acknowledged"); vf_reach("no handler"); } break;
                case 1: s.callCpp(i); break;
                case 2: s.callWrong(i); break;
                case 3: s.end(i); break;
                } break;
            case Peer::linked: switch (vf_pick("move", 0, 4)) {
                case 0: s.link(i); break;
                case 1: s.callCpp(i); break;
                case 2: s.callWrong(i); break;
                case 3: s.callJs(i); break;
                case 4: s.end(i); break;
                } break;
            case Peer::ended: break;
            }
            s.othersQuiet(i);
        }
        // everyone who is still there still works
        for (size_t i = 0; i < n; i++) {
            if (s.peers[i].state == Peer::ended) { s.ended(i); continue; }
            if (s.peers[i].state == Peer::connected) s.upgrade(s.peers[i]);
            if (handler) { if (s.peers[i].state == Peer::upgraded) s.link(i); s.callJs(i); }
            s.callCpp(i);
        }
        s.connect();
        s.upgrade(s.peers.back());
        s.callCpp(s.peers.size() - 1);
        for (size_t i = 0; i < n; i++) if (s.peers[i].state == Peer::ended) { s.ended(i); s.othersQuiet(s.peers.size()); } // newer sessions have nothing to do with those which are gone
        // the application stops with browsers connected and operations pending
        if (vf_pick("pending", 0, 1)) { for (auto& p : s.peers) if (p.state == Peer::linked) p.send(0x82, std::string(2, '\0')); }
        size_t calls = s.calls.size(), uis = s.uis.size();
        s.uis.clear();
        s.wf.reset();
        for (size_t k = 0; k < 8; k++) for (auto& c : s.w.conns) c->runReady();
        for (auto& c : s.w.conns) vf_assert(!c->open, "every connection is closed at the end");
        vf_assert(s.calls.size() == calls, "nothing happens after the end");
        unsigned u = (unsigned)uis;
        vf_observe("uis", &u, sizeof u);
    }
}
// writes in progress in pieces while the application calls several browsers
HARNESS(session_writes) {
    Session s;
    s.handlers();
    s.functions();
    for (size_t i = 0; i < 2; i++) { s.connect(); s.upgrade(s.peers[i]); s.link(i); }
    std::vector<std::vector<double>> want(2);
    {
        auto f0 = s.uis[0].jsFunction("zero"), f1 = s.uis[1].jsFunction("one");
        size_t steps = (size_t)vf_param("steps", 4);
        for (size_t k = 0; k < steps; k++) {
            double d = double(k);
            switch (vf_pick("move", 0, 3)) {
            case 0: want[0].push_back(d); f0(d, std::string("argument of a call")); break;
            case 1: want[1].push_back(d); f1(d, std::string("argument of a call")); break;
            case 2: s.peers[0].c->progress(vf_pick("n", 0, 1) ? 9 : 100); break;
            case 3: s.peers[1].c->progress(20); break;
            }
        }
    }
    if (vf_pick("gone", 0, 1)) { s.peers[1].c->failRead(symnet::anyError()); want[1].clear(); s.peers[1].state = Peer::ended; }
    s.flush();
    for (size_t i = 0; i < 2; i++) {
        if (s.peers[i].state == Peer::ended) { s.ended(i); continue; }
        Received r = s.peers[i].news();
        vf_assert(r.messages.size() == want[i].size(), "each call is sent once");
        for (size_t k = 0; k < want[i].size(); k++) {
            Call c = parseCall(r.messages[k]);
            vf_assert(c.ok && c.values.size() == 3 && c.values[0].s == (i ? "one" : "zero") && c.values[1].n == want[i][k] && c.values[2].s == "argument of a call", "in order, with its own arguments, to its own browser");
        }
    }
    observe("sent", s.peers[0].c->sent);
}
// a long history of sessions: opened and ended in any order
HARNESS(session_many) {
    Session s;
    s.handlers();
    s.functions();
    size_t n = (size_t)vf_param("sessions", 24), keep = vf_pick("keep", 1, 4), order = vf_pick("order", 0, 2);
    std::vector<size_t> living;
    for (size_t i = 0; i < n; i++) {
        s.connect();
        s.upgrade(s.peers[i]);
        s.link(i);
        living.push_back(i);
        s.othersQuiet(i);
        for (size_t k = 0; k < i; k++) if (s.peers[k].state == Peer::ended && (k < 2 || k + 6 > i)) { s.ended(k); s.othersQuiet(s.peers.size()); }
        if (living.size() > keep) { // the oldest, the newest or one in between leaves
            size_t k = order == 0 ? 0 : order == 1 ? living.size() - 1 : living.size() / 2;
            s.peers[living[k]].c->failRead(symnet::anyError());
            s.flush();
            s.peers[living[k]].state = Peer::ended;
            vf_assert(!s.peers[living[k]].c->open, "its connection is closed");
            s.ended(living[k]);
            living.erase(living.begin() + (std::ptrdiff_t)k);
        }
        for (size_t k : living) {
            auto f = s.uis[s.uiOf[k]].jsFunction("js");
            f(double(k));
            s.flush();
            Received r = s.peers[k].news();
            vf_assert(r.messages.size() == 1, "each browser gets its own calls");
            Call c = parseCall(r.messages[0]);
            vf_assert(c.ok && c.values.size() == 2 && c.values[1].n == double(k), "with their arguments");
            s.othersQuiet(k);
        }
    }
    vf_reach("many sessions");
}
