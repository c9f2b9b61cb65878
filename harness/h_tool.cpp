// Tooling: log sinks and levels, type-erased functions, buffer views.
#include "common.hpp"
#include "networking/BasicNetworking.hpp"
#include "tooling/Logger.hpp"
#include "utils/TypeErasedFunction.hpp"
#include <map>
#include <memory>
using namespace webfront;

// ---- logger
static const char letters[] = {'?', 'E', 'W', 'I', 'D'};
struct Sink { size_t id; bool on; std::shared_ptr<std::vector<std::string>> got; };
// a log line: level, time, text
static bool isLine(const std::string& line, int level, std::string_view text) {
    return line.size() >= 4 + text.size() + 3 && line[0] == '[' && line[1] == letters[level] && line[2] == ']' && line[3] == ' ' && line.substr(line.size() - text.size() - 3, 3) == " | " && same(std::string_view(line).substr(line.size() - text.size()), text);
}
struct Emitted { int level; std::string text; };
// writes one message and tells its text
static Emitted emit(int level, bool forms) {
    std::string s = symStr("text", forms ? vf_pick("len", 0, 2) : 1);
    // formatted texts are UTF-8; a wider one would only be padded, never altered
    switch (forms ? vf_pick("form", 0, 3) : 0) {
    case 0: // text alone: never taken for a format
        if (level == log::Debug) { log::debug{s}; } else if (level == log::Info) log::info(s); else if (level == log::Warn) log::warn(s); else log::error(s);
        return {level, s};
    case 1:
        if (level == log::Debug) log::debug("{}", s); else if (level == log::Info) log::info("{}", s); else if (level == log::Warn) log::warn("{}", s); else log::error("{}", s);
        return {level, s};
    case 2:
        if (level == log::Debug) log::debug("a{}b{}", 12, s); else if (level == log::Info) log::info("a{}b{}", 12, s); else if (level == log::Warn) log::warn("a{}b{}", 12, s); else log::error("a{}b{}", 12, s);
        return {level, "a12b" + s};
    default:
        if (level == log::Debug) log::debug("{{{}}}", "{}"); else if (level == log::Info) log::info("{{{}}}", "{}"); else if (level == log::Warn) log::warn("{{{}}}", "{}"); else log::error("{{{}}}", "{}");
        return {level, "{{}}"};
    }
}
HARNESS(log_history) {
    std::vector<Sink> sinks;
    bool enabled[5] = {};
    for (int l = 1; l <= 4; l++) enabled[l] = log::is((log::LogType)l);
    auto newSink = [&] {
        auto got = std::make_shared<std::vector<std::string>>();
        return Sink{0, true, got};
    };
    size_t steps = (size_t)vf_param("steps", 4), lines = 0;
    for (size_t k = 0; k < steps; k++) {
        switch (vf_pick("move", 0, 5)) {
        case 0: {
            Sink s = newSink();
            s.id = log::addSinks([g = s.got](std::string_view t) { g->emplace_back(t); });
            for (auto& o : sinks) vf_assert(!o.on || o.id != s.id, "every sink has an id of its own");
            sinks.push_back(s);
            break;
        }
        case 1: { // two at once: the id of the last one is told
            Sink a = newSink(), b = newSink();
            b.id = log::addSinks([g = a.got](std::string_view t) { g->emplace_back(t); }, [g = b.got](std::string_view t) { g->emplace_back(t); });
            a.id = b.id - 1;
            for (auto& o : sinks) vf_assert(!o.on || (o.id != a.id && o.id != b.id), "every sink has an id of its own");
            sinks.push_back(a);
            sinks.push_back(b);
            break;
        }
        case 2: {
            if (sinks.empty()) break;
            auto& s = sinks[vf_pick("sink", 0, sinks.size() - 1)];
            if (s.on) log::removeSinks(s.id);
            s.on = false;
            break;
        }
        case 3: {
            int l = (int)vf_range("level", 0, 4);
            log::setLogLevel((log::LogType)l);
            for (int i = 1; i <= 4; i++) enabled[i] = i <= l;
            break;
        }
        case 4: {
            int l = (int)vf_pick("type", 1, 4);
            bool on = vf_range("on", 0, 1);
            log::set((log::LogType)l, on);
            enabled[l] = on;
            break;
        }
        case 5: {
            std::vector<size_t> before;
            for (auto& s : sinks) before.push_back(s.got->size());
            Emitted e = emit((int)vf_pick("type", 1, 4), k + 1 == steps);
            for (size_t i = 0; i < sinks.size(); i++) {
                bool expected = sinks[i].on && enabled[e.level];
                vf_assert(sinks[i].got->size() == before[i] + expected, "each sink gets a message of an enabled level once");
                if (expected) { vf_assert(isLine(sinks[i].got->back(), e.level, e.text), "level and text"); observe("text", std::string_view(sinks[i].got->back()).substr(sinks[i].got->back().size() - e.text.size())); lines++; vf_reach("logged"); }
                else vf_reach("not logged");
            }
            break;
        }
        }
        for (int i = 1; i <= 4; i++) vf_assert(log::is((log::LogType)i) == enabled[i], "enabled levels");
    }
    observe("lines", lines);
}
HARNESS(log_texts) { // texts and arguments of every kind
    log::setLogLevel(log::Debug);
    std::vector<std::string> got;
    auto id = log::addSinks([&](std::string_view t) { got.emplace_back(t); });
    static const size_t sizes[] = {0, 1, 15, 16, 100, 1000, 70000};
    size_t n = sizes[vf_pick("size", 0, std::size(sizes) - 1)];
    std::string s(n, 'x'), sym = symStr("sym", n < 3 ? n : 3);
    for (size_t i = 0; i < sym.size(); i++) s[i * (n / 3 ? n / 3 : 1)] = sym[i];
    int level = 0;
    std::string want;
    switch (vf_pick("form", 0, 7)) {
    case 0: log::info(s); level = 3; want = s; break;
    case 1: log::warn(s); level = 2; want = s; break;
    case 2: log::error(s); level = 1; want = s; break;
    case 3: log::debug{s}; level = 4; want = s; break;
    case 4: log::info("<{}> {}", s, true); level = 3; want = "<" + s + "> true"; break;
    case 5: log::error("{1} {0}", s, -7); level = 1; want = "-7 " + s; break;
    case 6: log::debug("{:04x}{}", 0xab, s); level = 4; want = "00ab" + s; break;
    case 7: log::warn("{}{}", s, std::string_view("{}")); level = 2; want = s + "{}"; break;
    }
    vf_assert(got.size() == 1 && isLine(got[0], level, want), "level and text");
    observe("text", std::string_view(got[0]).substr(got[0].size() - want.size()));
    // a dump is announced by its text
    got.clear();
    std::vector<std::byte> data = symBytes("data", 3);
    log::infoHex(s, data);
    vf_assert(got.size() == 2 && isLine(got[0], 3, s), "text, then dump");
    got.clear();
    log::set(log::Info, false);
    log::infoHex(s, data);
    vf_assert(got.empty(), "nothing when disabled");
    log::removeSinks(id);
    log::error("gone");
    vf_assert(got.empty(), "a removed sink is told nothing");
}
HARNESS(log_many) { // sinks come and go for long
    log::setLogLevel(log::Info);
    size_t total = 0, rounds = 200;
    std::vector<size_t> ids;
    size_t keep = vf_pick("keep", 0, 2);
    for (size_t r = 0; r < rounds; r++) {
        size_t got = 0;
        auto id = log::addSinks([&got, &total](std::string_view) { got++; total++; });
        log::info("{}", r);
        vf_assert(got == 1, "told once");
        log::removeSinks(id);
        log::info("{}", r);
        vf_assert(got == 1, "told nothing after its removal");
        if (r < keep) ids.push_back(log::addSinks([&total](std::string_view) { total++; }));
    }
    for (auto i : ids) log::removeSinks(i);
    size_t t = total;
    log::info("x");
    vf_assert(total == t, "nobody is left");
    observe("total", total);
}

// ---- type-erased functions
using utils::TypeErasedFunction;
struct Calls { std::vector<int> ints; std::vector<std::string> texts; std::vector<double> numbers; size_t n = 0; };
static Calls& calls() { static auto* c = new Calls; return *c; }
static void freeVoid(int a, std::string t) { calls().n++; calls().ints.push_back(a); calls().texts.push_back(std::move(t)); }
static int freeInt(int a, int b) { calls().n++; return int((unsigned)a * 3 + (unsigned)b); }
static void freeView(std::string_view t, double d, bool b) { calls().n++; calls().texts.emplace_back(t); calls().numbers.push_back(d); calls().ints.push_back(b); }
static int symInt(const char* name) { int i; vf_symbolic(&i, 4, name); return i; }
struct Adder { int base; int operator()(int x) const { calls().n++; return int((unsigned)base + (unsigned)x); } };
struct Counter { int count = 0; void operator()(int x) { count += x & 3; calls().n++; calls().ints.push_back(count); } };
template<typename F> static bool refused(F f) {
    size_t before = calls().n;
    try { f(); }
    catch (const std::invalid_argument&) { vf_assert(calls().n == before, "a refused call calls nothing"); return true; }
    return false;
}
HARNESS(erased_void) {
    int a = symInt("a");
    std::string t = symStr("t", vf_pick("n", 0, 2));
    size_t kind = vf_pick("kind", 0, 2);
    auto make = [&]() -> TypeErasedFunction {
        if (kind == 0) return TypeErasedFunction(freeVoid);
        if (kind == 1) return TypeErasedFunction([](int x, std::string s) { freeVoid(x, s); });
        return TypeErasedFunction(std::function<void(int, std::string)>(freeVoid));
    };
    TypeErasedFunction f0 = make();
    TypeErasedFunction f = std::move(f0); // the same function wherever it is moved
    f(int(a), std::string(t));
    vf_assert(calls().n == 1 && calls().ints.back() == a && same(calls().texts.back(), t), "called once with these arguments");
    f.call<void>(int(a), std::string(t));
    vf_assert(calls().n == 2 && calls().ints.back() == a && same(calls().texts.back(), t), "also when its result type is named");
    vf_assert(refused([&] { f(int(a)); }), "too few arguments");
    vf_assert(refused([&] { f(); }), "none");
    vf_assert(refused([&] { f(int(a), std::string(t), 1); }), "too many");
    vf_assert(refused([&] { f(std::string(t), int(a)); }), "another order");
    vf_assert(refused([&] { f(double(1), std::string(t)); }), "another type");
    vf_assert(refused([&] { f(int(a), 3); }), "another type");
    vf_assert(refused([&] { (void)f.call<int>(int(a), std::string(t)); }), "another result");
    f(5, std::string("last"));
    vf_assert(calls().n == 3 && calls().ints.back() == 5 && calls().texts.back() == "last", "calls go on afterwards");
    observe("text", calls().texts[0]);
}
HARNESS(erased_result) {
    int a = symInt("a"), b = symInt("b");
    TypeErasedFunction f(freeInt), g{Adder{a}}, h([&](std::string_view s) { calls().n++; return std::string(s) + "!"; });
    vf_assert(f.call<int>(int(a), int(b)) == int((unsigned)a * 3 + (unsigned)b) && calls().n == 1, "result of the call");
    vf_assert(g.call<int>(int(b)) == int((unsigned)a + (unsigned)b) && calls().n == 2, "function object");
    std::string s = symStr("s", 2);
    std::string r = h.call<std::string>(std::string_view(s));
    vf_assert(same(r, s + "!") && calls().n == 3, "text");
    f(int(a), int(b));
    vf_assert(calls().n == 4, "a result may be left");
    vf_assert(refused([&] { (void)f.call<int>(int(a)); }), "too few");
    vf_assert(refused([&] { (void)f.call<long>(int(a), int(b)); }), "another result type");
    vf_assert(refused([&] { f.call<void>(int(a), int(b)); }), "no result");
    vf_assert(refused([&] { (void)f.call<int>(int(a), long(b)); }), "another argument type");
    TypeErasedFunction m = std::move(g);
    vf_assert(m.call<int>(1) == int((unsigned)a + 1u), "moved");
    observe("r", r);
}
HARNESS(erased_map) { // as functions are kept: by name
    std::map<std::string, TypeErasedFunction> fs;
    fs.try_emplace("void", freeVoid);
    fs.try_emplace("view", freeView);
    fs.try_emplace("int", freeInt);
    fs.try_emplace("none", [] { calls().n += 10; });
    fs.try_emplace("count", Counter{});
    size_t steps = (size_t)vf_param("steps", 3);
    int count = 0;
    for (size_t k = 0; k < steps; k++) {
        size_t before = calls().n;
        switch (vf_pick("which", 0, 5)) {
        case 0: { int a = symInt("a"); std::string t = symStr("t", 1); fs.at("void")(int(a), std::string(t)); vf_assert(calls().n == before + 1 && calls().ints.back() == a && same(calls().texts.back(), t), "void"); } break;
        case 1: { std::string t = symStr("t", 1); double d = symInt("d"); bool b = vf_pick("b", 0, 1); fs.at("view")(std::string_view(t), double(d), bool(b)); vf_assert(calls().n == before + 1 && calls().numbers.back() == d && same(calls().texts.back(), t) && calls().ints.back() == b, "view"); } break;
        case 2: { int a = symInt("a"), b = symInt("b"); vf_assert(fs.at("int").call<int>(int(a), int(b)) == int((unsigned)a * 3 + (unsigned)b) && calls().n == before + 1, "int"); } break;
        case 3: fs.at("none")(); vf_assert(calls().n == before + 10, "none"); break;
        case 4: { int a = symInt("a"); count += a & 3; fs.at("count")(int(a)); vf_assert(calls().n == before + 1 && calls().ints.back() == count, "a function keeps its state from call to call"); } break;
        case 5: vf_assert(refused([&] { fs.at("none")(1); }) && refused([&] { fs.at("view")(std::string_view("x"), 1.0); }) && refused([&] { fs.at("void")(1, "literal"); }), "refused"); break;
        }
    }
    observe("n", calls().n);
}
struct Object { int base; int member(int x) { calls().n++; return int((unsigned)base + (unsigned)x); } };
HARNESS(erased_throw) { // what a function throws comes through
    int a = symInt("a");
    TypeErasedFunction f([](int x) { calls().n++; if (x > 5) throw std::runtime_error("function"); });
    bool thrown = false;
    try { f(int(a)); }
    catch (const std::runtime_error&) { thrown = true; }
    vf_assert(thrown == (a > 5) && calls().n == 1, "exceptions of the function");
    f(1);
    vf_assert(calls().n == 2, "and it can be called again");
    unsigned char t = thrown;
    vf_observe("thrown", &t, 1);
}

// ---- buffers
using Netw = networking::BasicNetworking<>;
using C = Netw::ConstBuffer;
using Mu = Netw::MutableBuffer;
static void within(const auto& b, const void* p, size_t n) { vf_assert(b.size() == n && (n == 0 || b.data() == p), "exactly this memory"); }
// bounded by a number of elements, which may be any
static void bounded(const auto& b, const void* p, size_t n, size_t bound, size_t element) {
    vf_assert(b.size() <= n && (b.size() == 0 || b.data() == p), "within this memory");
    if (bound <= ~size_t(0) / element) vf_assert(b.size() == (bound * element < n ? bound * element : n), "as much as asked for");
}
HARNESS(buffers) {
    size_t n = vf_pick("n", 0, 9), s = vf_range("bound", 0, ~0ul);
    unsigned char tag = 0;
    switch (vf_pick("from", 0, 13)) {
    case 0: { std::vector<char> v(n); const auto& c = v; within(Netw::Buffer(v), v.data(), n); within(Netw::Buffer(c), v.data(), n); bounded(Netw::Buffer(v, s), v.data(), n, s, 1); bounded(Netw::Buffer(c, s), v.data(), n, s, 1); tag = 1; } break;
    case 1: { std::vector<uint32_t> v(n); const auto& c = v; within(Netw::Buffer(v), v.data(), 4 * n); within(Netw::Buffer(c), v.data(), 4 * n); bounded(Netw::Buffer(v, s), v.data(), 4 * n, s, 4); bounded(Netw::Buffer(c, s), v.data(), 4 * n, s, 4); tag = 2; } break;
    case 2: { std::string v(n, 'x'); const auto& c = v; within(Netw::Buffer(v), v.data(), n); within(Netw::Buffer(c), v.data(), n); bounded(Netw::Buffer(v, s), v.data(), n, s, 1); bounded(Netw::Buffer(c, s), v.data(), n, s, 1); tag = 3; } break;
    case 3: { std::string v(n, 'x'); std::string_view w = v; within(Netw::Buffer(w), v.data(), n); bounded(Netw::Buffer(w, s), v.data(), n, s, 1); tag = 4; } break;
    case 4: { std::array<uint16_t, 5> v{}; const auto& c = v; within(Netw::Buffer(v), v.data(), 10); bounded(Netw::Buffer(v, s), v.data(), 10, s, 2); (void)c; tag = 5; } break;
    case 5: { std::array<const char, 3> v{'a', 'b', 'c'}; within(Netw::Buffer(v), v.data(), 3); bounded(Netw::Buffer(v, s), v.data(), 3, s, 1); tag = 6; } break;
    case 6: { uint64_t v[3] = {}; const auto& c = v; within(Netw::Buffer(v), v, 24); within(Netw::Buffer(c), v, 24); bounded(Netw::Buffer(v, s), v, 24, s, 8); bounded(Netw::Buffer(c, s), v, 24, s, 8); tag = 7; } break;
    case 7: { char v[16]; within(Netw::Buffer((void*)v, n), v, n); within(Netw::Buffer((const void*)v, n), v, n); tag = 8; } break;
    case 8: { char v[16]; Mu m(v, n); within(Netw::Buffer(m), v, n); bounded(Netw::Buffer(m, s), v, n, s, 1); C c(m); within(c, v, n); within(Netw::Buffer(c), v, n); bounded(Netw::Buffer(c, s), v, n, s, 1); tag = 9; } break;
    case 9: { Mu m; C c; vf_assert(m.size() == 0 && c.size() == 0 && !m.data() && !c.data(), "empty"); m += s; c += s; vf_assert(m.size() == 0 && c.size() == 0, "stay empty"); tag = 10; } break;
    case 10: { std::u32string v(n, U'x'); const auto& c = v; within(Netw::Buffer(v), v.data(), 4 * n); bounded(Netw::Buffer(c, s), v.data(), 4 * n, s, 4); tag = 11; } break;
    case 12: { std::u16string v(n, u'x'); std::u16string_view w = v; within(Netw::Buffer(w), v.data(), 2 * n); bounded(Netw::Buffer(w, s), v.data(), 2 * n, s, 2); bounded(Netw::Buffer(v, s), v.data(), 2 * n, s, 2); tag = 13; } break;
    case 13: { std::vector<std::array<char, 3>> v(n); const auto& c = v; double d[2] = {}; within(Netw::Buffer(c), v.data(), 3 * n); bounded(Netw::Buffer(v, s), v.data(), 3 * n, s, 3); bounded(Netw::Buffer(c, s), v.data(), 3 * n, s, 3); bounded(Netw::Buffer(d, s), d, 16, s, 8); tag = 14; } break;
    case 11: { std::array<char, 0> v{}; within(Netw::Buffer(v), v.data(), 0); std::vector<int> w; within(Netw::Buffer(w), nullptr, 0); bounded(Netw::Buffer(w, s), nullptr, 0, 0, 4); tag = 12; } break;
    }
    vf_observe("kind", &tag, 1);
}
HARNESS(buffer_advance) {
    char v[32];
    size_t n = vf_pick("n", 0, (size_t)vf_param("n", 8)), at = 0;
    Mu m(v, n);
    C c((const void*)v, n);
    size_t steps = (size_t)vf_param("steps", 3);
    for (size_t k = 0; k < steps; k++) {
        size_t by = vf_range("by", 0, ~0ul);
        Mu& rm = (m += by);
        C& rc = (c += by);
        vf_assert(&rm == &m && &rc == &c, "the buffer itself");
        at = by < n - at ? at + by : n;
        vf_assert(m.data() == v + at && m.size() == n - at && c.data() == v + at && c.size() == n - at, "advanced, never beyond the end");
    }
    observe("at", at);
}
