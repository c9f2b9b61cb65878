// Messages exchanged with the browser: encoding, decoding, calls of browser functions.
#include "common.hpp"
#include "symnet.hpp"
#include "browser.hpp"
#include "JsFunction.hpp"
#include "weblink/Messages.hpp"
#include <cmath>
using namespace webfront;
using Net = symnet::Net;
using Frame = websocket::Frame<Net>;

// ---- a call of a browser function
struct Link { std::vector<std::string>* out; void sendFrame(Frame f) { out->push_back(unframe(bytes(f.toBuffers()))); } };
struct Front {
    using Net = symnet::Net;
    std::vector<std::string> sent;
    Link getLink(WebLinkId) { return {&sent}; }
};
static size_t textSize(const char* name) { // sizes around each change of format
    static const size_t sizes[] = {0, 1, 2, 125, 126, 255, 256, 257, 1023, 1024, 1025, 4096, 65534, 65535};
    return sizes[vf_pick(name, 0, (size_t)vf_param("sizes", (long)std::size(sizes) - 1))];
}
static std::string longText(const char* name, size_t n) {
    std::string s(n, '\0'), sym = symStr(name, n < 3 ? n : 3);
    for (size_t i = 0; i < n; i++) s[i] = char(i * 13 + (i >> 8));
    for (size_t i = 0; i < sym.size(); i++) s[i * (n / 3 ? n / 3 : 1)] = sym[i];
    return s;
}
static Call only(Front& f) {
    vf_assert(f.sent.size() == 1, "one message per call");
    Call c = parseCall(f.sent[0]);
    vf_assert(c.ok && c.command == 3, "a function call whose sizes are those announced");
    vf_assert(c.count == countAll(c.values), "the announced number of parameters is sent");
    f.sent.clear();
    return c;
}
struct Arg { int kind; bool b; double n; std::string s; };
static bool sameValue(const Value& v, const Arg& a) {
    switch (a.kind) {
    case 0: return v.type == (a.b ? 1 : 2);
    case 1: return v.type == 3 && sameBits(v.n, a.n);
    default: return v.type == (a.s.size() < 256 ? 4 : 5) && same(v.s, a.s);
    }
}
HARNESS(js_calls) {
    Front front;
    std::string name = longText("name", vf_pick("long name", 0, 1) ? 300 : vf_pick("nname", 0, 2));
    std::string given = name; // the function's name does not have to live on
    JsFunction<Front> f(given, front, 1);
    given.assign(given.size(), '#');
    size_t calls = vf_pick("calls", 1, (size_t)vf_param("calls", 3));
    for (size_t k = 0; k < calls; k++) {
        std::vector<Arg> as;
        auto boolean = [&] { as.push_back({0, bool(vf_range("bool", 0, 1)), 0, {}}); return as.back().b; };
        auto number = [&] { as.push_back({1, false, symDouble("number"), {}}); return as.back().n; };
        auto integer = [&] { int i; vf_symbolic(&i, 4, "int"); as.push_back({1, false, double(i), {}}); return i; };
        auto text = [&] { as.push_back({2, false, 0, symStr("text", vf_pick("n", 0, 2))}); return as.back().s; };
        switch (vf_pick("shape", 0, 7)) {
        case 0: f(); break;
        case 1: { bool b = boolean(); f(b); } break;
        case 2: { double d = number(); bool b = boolean(); f(d, b); } break;
        case 3: { std::string s = text(); f(s); } break;
        case 4: { std::string s = text(); int i = integer(); std::string_view v = s; as.push_back(as[0]); f(v, i, s); } break;
        case 5: { as.push_back({2, false, 0, "literal"}); double d = number(); f("literal", d); } break;
        case 6: { const char* p = "c string"; as.push_back({2, false, 0, p}); bool b = boolean(); bool b2 = boolean(); f(p, b, b2); } break;
        case 7: { uint8_t c; vf_symbolic(&c, 1, "u8"); as.push_back({1, false, double(c), {}}); float x; vf_symbolic(&x, 4, "float"); vf_assume(x == x); as.push_back({1, false, double(x), {}}); int64_t l = (int64_t)vf_range("long", 0, 1ull << 53); as.push_back({1, false, double(l), {}}); f(c, x, l); } break;
        }
        Call c = only(front);
        vf_assert(c.values.size() == 1 + as.size(), "the function name and each argument");
        vf_assert(c.values[0].type == (name.size() < 256 ? 4 : 5) && same(c.values[0].s, name), "name of the function");
        for (size_t i = 0; i < as.size(); i++) vf_assert(sameValue(c.values[1 + i], as[i]), "own arguments of this call");
        if (k) vf_reach("called again");
        observe("name", c.values[0].s);
    }
}
HARNESS(js_long_texts) {
    Front front;
    JsFunction<Front> f("print", front, 1);
    size_t n = textSize("size");
    std::string s = longText("text", n), t = longText("text", vf_pick("two", 0, 1) ? textSize("size2") : 1);
    f(s, true, t);
    Call c = only(front);
    vf_assert(c.values.size() == 4 && c.values[0].s == "print" && c.values[2].type == 1, "every argument");
    vf_assert(sameValue(c.values[1], {2, false, 0, s}) && sameValue(c.values[3], {2, false, 0, t}), "texts are sent whole");
    observe("size", n);
}
// too much for a message: refused, and the next call is not affected
HARNESS(js_too_long) {
    Front front;
    JsFunction<Front> f("print", front, 1);
    static const size_t sizes[] = {65536, 65537, 65536 + 255, 65536 + 256, 131071, 131072};
    std::string s(sizes[vf_pick("size", 0, std::size(sizes) - 1)], 'x');
    bool refused = false;
    try { if (vf_pick("first", 0, 1)) f(true, s); else f(std::string_view(s), 1); }
    catch (const std::exception&) { refused = true; }
    vf_assert(refused ? front.sent.empty() : only(front).values.size() == 3, "refused, or sent whole");
    front.sent.clear();
    f(false);
    Call c = only(front);
    vf_assert(c.values.size() == 2 && c.values[1].type == 2, "the next call is whole");
    unsigned char o = refused;
    vf_observe("refused", &o, 1);
}
template<size_t... I> static void callMany(JsFunction<Front>& f, auto v, std::index_sequence<I...>) { f(((void)I, v)...); }
template<size_t N> static void many(auto v, double number, int type) {
    Front front;
    JsFunction<Front> f("f", front, 1);
    bool refused = false;
    try { callMany(f, v, std::make_index_sequence<N>()); }
    catch (const std::exception&) { refused = true; }
    if (refused) { vf_assert(front.sent.empty() && N > 100, "only what does not fit is refused"); vf_reach("refused"); }
    else {
        Call c = only(front);
        vf_assert(c.values.size() == N + 1, "every argument is sent");
        for (size_t i = 1; i <= N; i++) vf_assert(c.values[i].type == type && (type != 3 || sameBits(c.values[i].n, number)), "with its value");
        vf_reach("sent");
    }
    f(2.5);
    Call c = only(front);
    vf_assert(c.values.size() == 2 && c.values[1].n == 2.5, "the next call is whole");
    unsigned char o = refused;
    vf_observe("refused", &o, 1);
}
HARNESS(js_many) { // many arguments: sent whole or refused, never written beyond the message's memory
    double d = symDouble("number");
    switch (vf_pick("count", 0, 9)) {
    case 0: many<100>(d, d, 3); break;
    case 1: many<113>(d, d, 3); break;
    case 2: many<114>(d, d, 3); break;
    case 3: many<120>(d, d, 3); break;
    case 4: many<254>(true, 0, 1); break;
    case 5: many<255>(true, 0, 1); break;
    case 6: many<256>(true, 0, 1); break;
    case 7: many<300>(false, 0, 2); break;
    case 8: many<200>(std::string_view("s"), 0, 4); break;
    case 9: many<40>(d, d, 3); break;
    }
}
HARNESS(js_fill) { // the message's memory filled to its last byte, and beyond
    size_t numbers = vf_pick("numbers", 111, 114), bools = vf_pick("bools", 0, 9), last = vf_pick("last", 0, 3), more = vf_pick("more", 0, 2);
    double d = symDouble("number");
    std::vector<Arg> as;
    std::string kept[2] = {symStr("text", 1), std::string(300, 't')};
    msg::FunctionCall call;
    Frame frame{call.header()};
    bool refused = false;
    try {
        call.encodeParameter(std::string_view("f"), frame);
        auto number = [&] { as.push_back({1, false, d, {}}); call.encodeParameter(d, frame); };
        auto boolean = [&](bool b) { as.push_back({0, b, 0, {}}); call.encodeParameter(b, frame); };
        for (size_t i = 0; i < numbers; i++) number();
        for (size_t i = 0; i < bools; i++) boolean(i % 2);
        if (last == 0) boolean(true);
        else if (last == 1) number();
        else { as.push_back({2, false, 0, kept[last - 2]}); call.encodeParameter(kept[last - 2], frame); }
        for (size_t i = 0; i < more; i++) boolean(true);
    }
    catch (const std::exception&) { refused = true; }
    if (!refused) {
        Call c = parseCall(unframe(bytes(frame.toBuffers())));
        vf_assert(c.ok && c.command == 3 && c.values.size() == 1 + as.size() && c.count == c.values.size() && c.values[0].s == "f", "every parameter is announced and sent");
        for (size_t i = 0; i < as.size(); i++) vf_assert(sameValue(c.values[1 + i], as[i]), "with its value");
        vf_reach("sent");
    }
    else vf_reach("refused");
    unsigned char o = refused;
    vf_observe("refused", &o, 1);
}
HARNESS(js_repeat) { // a long history of calls on one object
    Front front;
    JsFunction<Front> f("f", front, 1);
    double d = symDouble("number");
    size_t n = vf_pick("times", 0, 2) * 70 + 2;
    for (size_t i = 0; i < n; i++) {
        f(d, "t", true);
        Call c = only(front);
        vf_assert(c.values.size() == 4 && sameBits(c.values[1].n, d) && c.values[2].s == "t" && c.values[3].type == 1, "each call has its own arguments");
    }
    observe("n", n);
}
HARNESS(js_tuples) {
    Front front;
    JsFunction<Front> f("f", front, 1);
    double d = symDouble("number");
    std::string s = symStr("text", 2);
    bool b = vf_range("bool", 0, 1);
    size_t shape = vf_pick("shape", 0, 3);
    if (shape == 0) f(std::tuple<double, std::string>{d, s}, b);
    if (shape == 1) f(std::tuple<bool, std::tuple<std::string, double>, double>{b, {s, d}, d});
    if (shape == 2) f(std::tuple<>{}, d);
    if (shape == 3) { std::tuple<int, bool> t{7, b}; f(t, t, s); }
    vf_assert(front.sent.size() == 1, "one message per call");
    Call c = parseCall(front.sent[0]);
    vf_assert(c.ok && c.command == 3 && c.values[0].s == "f", "a function call whose sizes are those announced");
    auto& v = c.values;
    Arg an{1, false, d, {}}, at{2, false, 0, s}, ab{0, b, 0, {}};
    if (shape == 0) vf_assert(v.size() == 3 && v[1].type == 18 && v[1].t.size() == 2 && sameValue(v[1].t[0], an) && sameValue(v[1].t[1], at) && sameValue(v[2], ab), "tuple");
    if (shape == 1) vf_assert(v.size() == 2 && v[1].t.size() == 3 && sameValue(v[1].t[0], ab) && v[1].t[1].type == 18 && v[1].t[1].t.size() == 2 && sameValue(v[1].t[1].t[0], at) && sameValue(v[1].t[1].t[1], an) && sameValue(v[1].t[2], an), "nested tuple");
    if (shape == 2) vf_assert(v.size() == 3 && v[1].type == 18 && v[1].t.empty() && sameValue(v[2], an), "empty tuple");
    if (shape == 3) vf_assert(v.size() == 4 && v[1].t.size() == 2 && v[1].t[0].n == 7 && sameValue(v[2].t[1], ab) && sameValue(v[3], at), "tuples");
    observe("message", front.sent[0]);
    vf_assert(c.count == countAll(c.values) || c.count == c.values.size(), "the announced number of parameters is sent");
    // a browser reads the announced number of values at the top level, and a tuple is one of them
    vf_assert(c.count == c.values.size(), "a browser finds as many parameters as announced");
}
// exceptions told to the browser
HARNESS(exceptions) {
    size_t n = textSize("size");
    if (vf_pick("huge", 0, 1)) n = 65536 + n;
    std::string what(n, 'e');
    std::string sym = symStr("what", n < 2 ? n : 2);
    for (size_t i = 0; i < sym.size(); i++) { vf_assume(sym[i] != 0); what[i] = sym[i]; }
    msg::FunctionReturn r;
    auto head = r.header();
    Frame frame{head};
    std::runtime_error e(what);
    r.encodeParameter(e, frame);
    std::string m = unframe(bytes(frame.toBuffers()));
    Call c = parseCall(m);
    vf_assert(c.ok && c.command == 4 && c.count == 1, "a function return whose sizes are those announced");
    vf_assert(c.values.size() == 1 && c.values[0].type == 6 && c.values[0].s.size() == (n < 65536 ? n : 65535) && same(c.values[0].s, std::string_view(what).substr(0, c.values[0].s.size())), "the text of the exception, as much as fits");
    observe("n", n);
}

// ---- round trips
template<typename T> static void roundTrip(const T& in, T& out, std::string_view after = {}) {
    msg::FunctionCall call;
    Frame frame{call.header()};
    call.encodeParameter(in, frame);
    std::string m = unframe(bytes(frame.toBuffers()));
    auto received = msg::FunctionCall::castFromRawData(asBytes(m));
    vf_assert(received->getPayloadSize() == m.size() - 8 && received->payload().size() == m.size() - 8, "announced size");
    auto data = received->payload();
    msg::FunctionCall::decodeParameter(out, data);
    vf_assert(data.empty(), "decoded to its end");
    observe("message", m);
}
HARNESS(roundtrip) {
    switch (vf_pick("type", 0, 9)) {
    case 0: { bool a = vf_pick("bool", 0, 1), b = vf_pick("before", 0, 1); roundTrip(a, b); vf_assert(a == b, "bool"); } break;
    case 1: { double a = symDouble("v"), b = 1; roundTrip(a, b); vf_assert(sameBits(a, b), "double"); } break;
    case 2: { int a, b = 1; vf_symbolic(&a, sizeof a, "v"); roundTrip(a, b); vf_assert(a == b, "int"); } break;
    case 3: { unsigned a, b = 1; vf_symbolic(&a, sizeof a, "v"); roundTrip(a, b); vf_assert(a == b, "unsigned"); } break;
    case 4: { uint8_t a, b = 1; vf_symbolic(&a, sizeof a, "v"); roundTrip(a, b); vf_assert(a == b, "uint8"); } break;
    case 5: { int16_t a, b = 1; vf_symbolic(&a, sizeof a, "v"); roundTrip(a, b); vf_assert(a == b, "int16"); } break;
    case 6: { float a, b = 1; vf_symbolic(&a, sizeof a, "v"); vf_assume(a == a); roundTrip(a, b); vf_assert(a == b, "float"); } break;
    case 7: { std::string a = longText("v", textSize("size")), b = "before"; roundTrip(a, b); vf_assert(same(a, b), "text"); } break;
    case 8: { size_t a = vf_range("v", 0, 1ull << 53), b = 1; roundTrip(a, b); vf_assert(a == b, "size_t"); } break;
    case 9: { long a = long(vf_range("v", 0, 1ull << 54)) - (1l << 53), b = 1; roundTrip(a, b); vf_assert(a == b, "long"); } break;
    }
}
HARNESS(roundtrip_tuple) {
    using T = std::tuple<double, std::string, bool, std::tuple<int, std::string>, std::string>;
    T a{symDouble("d"), symStr("s", vf_pick("n", 0, 2)), bool(vf_pick("b", 0, 1)), {0, symStr("t", 1)}, longText("u", vf_pick("long", 0, 1) * 300)}, b;
    vf_symbolic(&std::get<0>(std::get<3>(a)), 4, "i");
    roundTrip(a, b);
    vf_assert(sameBits(std::get<0>(a), std::get<0>(b)) && same(std::get<1>(a), std::get<1>(b)) && std::get<2>(a) == std::get<2>(b), "elements");
    vf_assert(std::get<0>(std::get<3>(a)) == std::get<0>(std::get<3>(b)) && same(std::get<1>(std::get<3>(a)), std::get<1>(std::get<3>(b))) && same(std::get<4>(a), std::get<4>(b)), "nested elements and those after them");
}
// ---- values as a browser encodes them
HARNESS(from_browser) {
    std::string params;
    double d = symDouble("d");
    std::string s = longText("s", textSize("size"));
    bool b = vf_pick("b", 0, 1);
    params += wireText("fn") + char(b ? 1 : 2) + wireText(s) + wireNumber(d) + char(18) + char(2) + wireText(s.substr(0, 2)) + char(b ? 2 : 1) + char(0) + wireText("end");
    std::string m = message(3, 7, params);
    auto call = msg::FunctionCall::castFromRawData(asBytes(m));
    vf_assert(call->getParametersCount() == 7 && call->getPayloadSize() == params.size(), "header");
    auto [name, data] = call->getFunctionName();
    vf_assert(name == "fn", "name of the function");
    bool ob = !b;
    std::string os = "x", oe;
    double od = 0;
    std::tuple<std::string, bool> ot{"z", b};
    int undefined = 5;
    msg::FunctionCall::decodeParameter(ob, data);
    msg::FunctionCall::decodeParameter(os, data);
    msg::FunctionCall::decodeParameter(od, data);
    msg::FunctionCall::decodeParameter(ot, data);
    msg::FunctionCall::decodeParameter(undefined, data);
    msg::FunctionCall::decodeParameter(oe, data);
    vf_assert(ob == b && same(os, s) && sameBits(od, d), "values");
    vf_assert(same(std::get<0>(ot), s.substr(0, 2)) && std::get<1>(ot) == !b, "tuple");
    vf_assert(undefined == 0 && oe == "end" && data.empty(), "an undefined value is a default one, and nothing is left");
    observe("text", os);
}
// ---- any bytes
template<typename T> static int decodeAny(std::span<const std::byte>& data, T& out) {
    size_t before = data.size();
    const std::byte* end = data.data() + data.size();
    try { msg::FunctionCall::decodeParameter(out, data); }
    catch (const std::exception&) { vf_reach("refused"); return 0; }
    vf_assert(data.data() + data.size() == end && data.size() < before, "only bytes of the message are consumed, and at least one");
    vf_reach("decoded");
    return 1;
}
HARNESS(decode_any) {
    size_t n = vf_pick("n", 0, (size_t)vf_param("n", 6));
    // the bytes in memory of their own: reading beyond them is an error
    std::vector<std::byte> mem = symBytes("bytes", n);
    std::span<const std::byte> data(mem);
    unsigned char r = 0;
    unsigned long v = 0;
    switch (vf_pick("type", 0, 9)) {
    case 0: { std::string o; r = decodeAny(data, o); if (r) { vf_assert(o.size() < n, "text of the message"); observe("text", o); } } break;
    case 1: { double o = 0; r = decodeAny(data, o); v = std::bit_cast<uint64_t>(o); } break;
    case 2: { int o = 0; r = decodeAny(data, o); v = (unsigned)o; } break;
    case 3: { bool o = false; r = decodeAny(data, o); v = o; } break;
    case 4: { std::tuple<bool, std::string> o; r = decodeAny(data, o); } break;
    case 5: { std::tuple<std::tuple<bool>, bool, bool> o; r = decodeAny(data, o); } break;
    case 6: { uint8_t o = 0; r = decodeAny(data, o); v = o; } break;
    case 7: { int64_t o = 0; r = decodeAny(data, o); v = (uint64_t)o; } break;
    case 8: { size_t o = 0; r = decodeAny(data, o); v = o; } break;
    case 9: { std::tuple<> o; r = decodeAny(data, o); } break;
    }
    vf_observe("decoded", &r, 1);
    if (r) vf_observe("value", &v, 8);
}
// numbers into integers: the integral part if it fits, refused otherwise
template<typename T> static void number(double d) {
    std::string m = wireNumber(d);
    auto data = asBytes(m);
    T o = 0;
    bool refused = false;
    try { msg::FunctionCall::decodeParameter(o, data); }
    catch (const std::exception&) { refused = true; }
    constexpr double lowest = double(std::numeric_limits<T>::lowest()), end = 2.0 * double(std::numeric_limits<T>::max() / 2 + 1);
    if (refused) { vf_assert(!(d >= lowest && d < end), "numbers which fit are accepted"); vf_reach("refused"); }
    else {
        vf_assert(data.empty(), "consumed");
        double back = double(o), frac = d - back;
        vf_assert((d > -9.0e15 && d < 9.0e15) ? frac > -1 && frac < 1 : back == d, "the integral part of the number");
        vf_reach("accepted");
    }
}
HARNESS(numbers) {
    double d = symDouble("d");
    switch (vf_pick("type", 0, 6)) {
    case 0: number<int>(d); break;
    case 1: number<unsigned>(d); break;
    case 2: number<uint8_t>(d); break;
    case 3: number<int8_t>(d); break;
    case 4: number<int64_t>(d); break;
    case 5: number<uint64_t>(d); break;
    case 6: number<uint16_t>(d); break;
    }
    vf_observe("d", &d, 8);
}
// messages of any header: refused when they announce more than was received
HARNESS(header_any) {
    size_t n = vf_pick("n", 0, 12);
    std::vector<std::byte> mem = symBytes("bytes", n);
    std::span<const std::byte> data(mem);
    unsigned char ok = 0;
    switch (vf_pick("kind", 0, 1)) {
    case 0: {
        try {
            auto call = msg::FunctionCall::castFromRawData(data);
            ok = 1;
            vf_assert(n >= 8 && call->payload().size() <= n - 8, "a message lies within the received bytes");
            auto p = call->payload();
            vf_assert(p.data() == mem.data() + 8 && call->header().size() == 8, "its parts");
            std::string all;
            for (auto b : p) all += char(b); // every byte is there
            observe("payload", all);
            vf_reach("call");
            try { auto [name, rest] = call->getFunctionName(); vf_assert(name.size() + rest.size() < p.size(), "name and parameters lie within the message"); observe("name", name); vf_reach("named"); }
            catch (const std::exception&) { vf_reach("unnamed"); }
        }
        catch (const std::exception&) { vf_reach("refused"); }
        if (!ok && n >= 8) { uint32_t size; std::memcpy(&size, mem.data() + 4, 4); vf_assert(size > n - 8, "complete messages are accepted"); }
    } break;
    case 1: {
        try { auto h = msg::Handshake::castFromRawData(data); ok = 1; vf_assert(n >= 2 && (unsigned char)h->getEndian() == (unsigned char)mem[1], "handshake"); vf_reach("handshake"); }
        catch (const std::exception&) { vf_assert(n < 2, "complete handshakes are accepted"); }
    } break;
    }
    vf_observe("ok", &ok, 1);
}

// ---- commands
HARNESS(text_command) {
    size_t n = textSize("size");
    std::string text = longText("text", n);
    auto op = vf_pick("op", 0, 1) ? msg::TxtOpcode::injectScript : msg::TxtOpcode::debugLog;
    msg::TextCommand c(op, text);
    std::string m(view(c.header()));
    m += view(c.payload());
    vf_assert(m.size() == 4 + n, "header and text");
    vf_assert(m[0] == 2 && m[1] == (op == msg::TxtOpcode::injectScript ? 1 : 0), "command and opcode");
    vf_assert(((size_t)(unsigned char)m[2] << 8 | (unsigned char)m[3]) == n, "announced size");
    vf_assert(same(m.substr(4), text), "text unchanged");
    vf_assert(c.getPayloadSize() == n, "payload size");
    observe("message", m);
}
HARNESS(text_command_long) {
    static const size_t sizes[] = {65536, 65537, 65791, 70000, 131071};
    std::string text(sizes[vf_pick("size", 0, std::size(sizes) - 1)], 't');
    unsigned char refused = 0;
    try {
        msg::TextCommand c(msg::TxtOpcode::injectScript, text);
        std::string m(view(c.header()));
        m += view(c.payload());
        vf_assert(((size_t)(unsigned char)m[2] << 8 | (unsigned char)m[3]) == m.size() - 4, "never announced with another size than sent");
    }
    catch (const std::exception&) { refused = 1; }
    vf_observe("refused", &refused, 1);
}
HARNESS(simple_commands) {
    msg::Ack a;
    std::string m(view(a.header()));
    m += view(a.payload());
    vf_assert(m.size() == 2 && m[0] == 1 && m[1] == (std::endian::native == std::endian::little ? 0 : 1), "acknowledgement with the server's endianness");
    msg::Handshake h;
    std::string hm(view(h.header()));
    vf_assert(hm.size() == 2 && hm[0] == 0 && view(h.payload()).empty(), "handshake");
    msg::FunctionCall call;
    vf_assert(view(call.header()) == std::string_view("\3\0\0\0\0\0\0\0", 8), "an empty function call");
    msg::FunctionReturn ret;
    vf_assert(view(ret.header()) == std::string_view("\4\0\0\0\0\0\0\0", 8), "an empty function return");
    uint8_t count = (uint8_t)vf_range("count", 0, 255);
    uint32_t size = (uint32_t)vf_range("size", 0, 0xffffffff);
    call.setParametersCount(count);
    call.setPayloadSize(size);
    std::string cm(view(call.header()));
    vf_assert((uint8_t)cm[1] == count && call.getParametersCount() == count && call.getPayloadSize() == size, "count and size");
    uint32_t got;
    std::memcpy(&got, cm.data() + 4, 4);
    vf_assert(got == size && cm[0] == 3, "in the header");
    observe("header", cm);
}
