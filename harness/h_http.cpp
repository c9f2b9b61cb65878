// HTTP: parsing, request handling, responses, connections.
#include "common.hpp"
#include "symnet.hpp"
#include "http/HTTPServer.hpp"
using namespace webfront;
using http::Request;
using http::Response;
using Net = symnet::Net;
// log messages are prepared as in an application which logs
static void logs() { log::setLogLevel((log::LogType)vf_param("log", 0)); }

// ---- a file system which records what is opened
struct Entry { std::string name; std::vector<uint64_t> words; size_t size; std::string enc; };
static std::vector<Entry>& table() { static auto* t = new std::vector<Entry>; return *t; }
static std::vector<std::string>& opened() { static auto* t = new std::vector<std::string>; return *t; }
static void addFile(std::string name, std::string_view content, std::string enc = "") {
    Entry e{std::move(name), std::vector<uint64_t>((content.size() + 7) / 8), content.size(), std::move(enc)};
    for (size_t i = 0; i < content.size(); i++) e.words[i / 8] |= uint64_t((unsigned char)content[i]) << (8 * (7 - i % 8));
    table().push_back(std::move(e));
}
struct RecFS {
    RecFS(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p) {
        std::string s = p.string();
        opened().push_back(s);
        for (auto& e : table())
            if (s == e.name) return fs::File(std::span<const uint64_t>(e.words), e.size, e.enc);
        return {};
    }
};
using Handler = http::RequestHandler<Net, RecFS>;
using Server = http::Server<Net, RecFS>;

// ---- reference recogniser of requests, line by line
enum Verdict { pending, complete, bad };
struct Ref { Verdict verdict = pending; size_t end = 0; std::string method, uri; int major = 0, minor = 0; std::vector<std::pair<std::string, std::string>> headers; };
static bool ctl(unsigned char c) { return (c < 32) | (c == 127); }
static bool tchar(unsigned char c) {
    static const char sp[] = "()<>@,;:\\\"/[]?={} \t";
    bool r = (c > 32) & (c < 127);
    for (const char* p = sp; *p; p++) r &= c != (unsigned char)*p;
    return r;
}
struct Scan {
    std::string_view t;
    size_t i = 0;
    bool end() const { return i >= t.size(); }
    char c() const { return t[i]; }
};
static Ref reference(std::string_view text) {
    Ref r;
    Scan s{text};
#define NEED() if (s.end()) return r
#define BAD_UNLESS(x) if (!(x)) { r.verdict = bad; return r; }
    NEED();
    BAD_UNLESS(tchar(s.c()));
    do { r.method += s.c(); s.i++; NEED(); if (s.c() != ' ') BAD_UNLESS(tchar(s.c())); } while (s.c() != ' ');
    s.i++;
    for (;;) { NEED(); if (s.c() == ' ') break; BAD_UNLESS(!ctl(s.c())); r.uri += s.c(); s.i++; }
    s.i++;
    for (const char* p = "HTTP/"; *p; p++) { NEED(); BAD_UNLESS(s.c() == *p); s.i++; }
    for (int part = 0; part < 2; part++) {
        int& v = part ? r.minor : r.major;
        for (bool first = true;; first = false) {
            NEED();
            if (!first && s.c() == (part ? '\r' : '.')) break;
            BAD_UNLESS(s.c() >= '0' && s.c() <= '9');
            BAD_UNLESS(v <= 99);
            v = v * 10 + (s.c() - '0');
            s.i++;
        }
        s.i++;
    }
    NEED();
    BAD_UNLESS(s.c() == '\n');
    s.i++;
    for (;;) {
        NEED();
        if (s.c() == '\r') { s.i++; NEED(); BAD_UNLESS(s.c() == '\n'); r.verdict = complete; r.end = s.i + 1; return r; }
        bool more = !r.headers.empty() && (s.c() == ' ' || s.c() == '\t');
        if (more) { // continuation of the last value
            s.i++;
            for (;;) { NEED(); if (s.c() != ' ' && s.c() != '\t') break; s.i++; }
        }
        else {
            BAD_UNLESS(tchar(s.c()));
            r.headers.emplace_back();
            do { r.headers.back().first += s.c(); s.i++; NEED(); if (s.c() != ':') BAD_UNLESS(tchar(s.c())); } while (s.c() != ':');
            s.i++;
            NEED();
            BAD_UNLESS(s.c() == ' ');
            s.i++;
        }
        for (;;) { NEED(); if (s.c() == '\r') break; BAD_UNLESS(!ctl(s.c())); r.headers.back().second += s.c(); s.i++; }
        s.i++;
        NEED();
        BAD_UNLESS(s.c() == '\n');
        s.i++;
    }
#undef NEED
#undef BAD_UNLESS
}
static Verdict feed(Request& r, std::string_view bytes) {
    Exact mem(bytes);
    std::string_view part = mem;
    try { return r.parseSomeData(part.data(), part.data() + part.size()) ? complete : pending; }
    catch (const http::BadRequestException&) { return bad; }
}
static void sameFields(const Request& a, const Ref& b) {
    vf_assert(same(a.uri, b.uri), "request target");
    vf_assert(a.httpVersionMajor == b.major && a.httpVersionMinor == b.minor, "HTTP version");
    vf_assert(a.headers.size() == b.headers.size(), "number of headers");
    for (size_t i = 0; i < b.headers.size(); i++) {
        vf_assert(same(a.headers[i].name, b.headers[i].first), "header name");
        vf_assert(same(a.headers[i].value, b.headers[i].second), "header value");
    }
    static const std::pair<const char*, Request::Method> ms[] = {{"CONNECT", Request::Method::Connect}, {"DELETE", Request::Method::Delete}, {"GET", Request::Method::Get}, {"HEAD", Request::Method::Head}, {"OPTIONS", Request::Method::Options}, {"PATCH", Request::Method::Patch}, {"POST", Request::Method::Post}, {"PUT", Request::Method::Put}, {"TRACE", Request::Method::Trace}};
    auto want = Request::Method::Undefined;
    for (auto& m : ms)
        if (same(b.method, m.first)) want = m.second;
    vf_assert(a.method == want, "method");
}
// starts of requests which lead into each part of the grammar
static const char* const starts[] = {"", "GE", "GET ", "GET /a", "GET / HTT", "GET / HTTP/", "GET / HTTP/1.", "HEAD / HTTP/1.0\r", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nAb", "GET / HTTP/1.1\r\nA: b\r\n", "GET / HTTP/1.1\r\nA: b\r\nC:", "GET / HTTP/1.1\r\nA: b\r\nC: d"};
HARNESS(request_any) {
    const char* start = starts[vf_pick("start", 0, std::size(starts) - 1)];
    std::string text = start;
    text += symStr("text", (size_t)vf_param("n", 4));
    Ref ref = reference(text);
    Request r;
    Verdict v = feed(r, text);
    vf_assert(v == ref.verdict, "accepted, refused or still incomplete");
    if (v == complete) { sameFields(r, ref); vf_assert(r.completed(), "known to be complete"); vf_reach("complete"); }
    if (v == bad) vf_reach("bad");
    if (v == pending) { vf_assert(!r.completed(), "not complete before its end"); vf_reach("incomplete"); }
    unsigned char o = v;
    vf_observe("verdict", &o, 1);
    observe("uri", r.uri);
}
// a request of which one part is long, with one symbolic byte at its end
HARNESS(request_long) {
    static const size_t sizes[] = {1, 33, 101, 257, 1025, 4097, 10007, 70001};
    const size_t part = vf_pick("part", 0, 5), which = vf_pick("size", 0, std::size(sizes) - 1);
    const size_t size = sizes[which];
    auto grown = [&](size_t p, const char* text, char fill) { std::string t(text); if (part == p) { t.append(size, fill); t += symStr("byte", 1); } return t; };
    std::string text = grown(0, "GE", 'T') + " " + grown(1, "/", 'a') + " HTTP/1.1\r\n";
    const size_t headers = part == 4 ? std::min<size_t>(size, 2000) : 1;
    for (size_t i = 0; i < headers; i++) text += "N" + std::to_string(i) + ": v\r\n";
    text += grown(2, "Name", 'e') + ": " + grown(3, "", 'v') + "\r\n";
    if (part == 5)
        for (size_t i = 0; i < std::min<size_t>(size, 2000); i++) text += i % 2 ? " more\r\n" : "\t and\r\n";
    text += "\r\n";
    Ref ref = reference(text);
    Request r;
    Verdict v = feed(r, text);
    vf_assert(v == ref.verdict, "accepted, refused or still incomplete");
    if (v == complete) { sameFields(r, ref); vf_reach("complete"); }
    unsigned char o = v;
    vf_observe("verdict", &o, 1);
}
// a well-formed request of a given shape with any content
HARNESS(request_wellformed) {
    static const char* const methods[] = {"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "FOO", "G", "GETS", "get"};
    Ref want;
    want.method = methods[vf_pick("method", 0, std::size(methods) - 1)];
    want.uri = symStr("uri", vf_pick("nuri", 0, (size_t)vf_param("n", 3)));
    int ok = 1;
    for (char c : want.uri) ok &= !ctl(c) & (c != ' ');
    want.major = (int)vf_pick("major", 0, 11);
    want.minor = (int)vf_pick("minor", 0, 2);
    std::string text = want.method + " " + want.uri + " HTTP/" + std::to_string(want.major) + "." + std::to_string(want.minor) + "\r\n";
    size_t nh = vf_pick("headers", 0, (size_t)vf_param("headers", 2));
    for (size_t i = 0; i < nh; i++) {
        std::string n = symStr("name", vf_pick("nname", 1, 2)), v = symStr("value", vf_pick("nvalue", 0, 2));
        for (char c : n) ok &= tchar(c);
        for (char c : v) ok &= !ctl(c);
        text += n + ": " + v + "\r\n";
        want.headers.push_back({n, v});
    }
    text += "\r\n";
    vf_assume(ok);
    Request r;
    Verdict v1 = feed(r, std::string_view(text).substr(0, text.size() - 1));
    vf_assert(v1 == pending && !r.completed(), "not complete before its last byte");
    Verdict v2 = feed(r, std::string_view(text).substr(text.size() - 1));
    vf_assert(v2 == complete && r.completed(), "complete at its last byte");
    sameFields(r, want);
    observe("text", text);
}
// ---- segmentation and other requests
HARNESS(request_cut) {
    const char* start = starts[vf_pick("start", 0, std::size(starts) - 1)];
    size_t n = (size_t)vf_param("n", 3), skip = std::strlen(start) / 2;
    std::string text = start + symStr("text", n);
    Request whole;
    Verdict w = feed(whole, text);
    // the same bytes in pieces, with another request received in between
    size_t cut1 = vf_pick("cut", skip, text.size());
    const char* otherText = starts[vf_pick("other", 0, std::size(starts) - 1)];
    std::string_view other(otherText);
    size_t oc = other.size() / 2;
    Request pieces, second;
    Verdict o = feed(second, other.substr(0, oc));
    Verdict v = feed(pieces, std::string_view(text).substr(0, cut1));
    o = feed(second, other.substr(oc));
    if (v == pending) v = feed(pieces, std::string_view(text).substr(cut1));
    vf_assert(v == w, "the same verdict in pieces");
    vf_assert(o == pending, "the other request is incomplete");
    if (v == complete) {
        vf_assert(pieces.method == whole.method && pieces.httpVersionMajor == whole.httpVersionMajor && pieces.httpVersionMinor == whole.httpVersionMinor, "the same method and version");
        vf_reach("complete");
    }
    vf_assert(same(pieces.uri, whole.uri), "the same target");
    vf_assert(pieces.headers.size() == whole.headers.size(), "the same headers");
    for (size_t i = 0; i < whole.headers.size(); i++) {
        vf_assert(same(pieces.headers[i].name, whole.headers[i].name), "the same header names");
        vf_assert(same(pieces.headers[i].value, whole.headers[i].value), "the same header values");
    }
    // the other one goes on as if alone
    Request alone;
    feed(alone, other);
    std::string_view rest = "Z: z\r\n\r\n";
    if (other.ends_with("A: b\r\n")) {
        vf_assert(feed(second, rest) == complete && feed(alone, rest) == complete, "the other request is completed");
        vf_assert(second.method == Request::Method::Get && second.uri == "/" && second.headers.size() == 2 && second.headers[1].name == "Z" && second.headers[1].value == "z", "the other request has its own fields");
        vf_reach("other completed");
    }
    unsigned char ob = v;
    vf_observe("verdict", &ob, 1);
}
static std::string expected(std::string_view status, std::string_view headers, std::string_view content) { return "HTTP/1.1 " + std::string(status) + "\r\n" + std::string(headers) + "\r\n" + std::string(content); }
static std::string statusPage(int code, std::string_view text) {
    std::string t(text), c = "<html><head><title>" + t + "</title></head><body><h1>" + std::to_string(code) + " " + t + "</h1></body></html>";
    return expected(std::to_string(code) + " " + t, "Content-Length: " + std::to_string(c.size()) + "\r\nContent-Type: text/html\r\n", c);
}
// parsed answer of the server
struct Answer { bool ok = false; std::string status; std::vector<std::pair<std::string, std::string>> headers; std::string content; };
static Answer parseAnswer(const std::string& s) {
    Answer a;
    size_t e = s.find("\r\n");
    if (e == std::string::npos || s.substr(0, 9) != "HTTP/1.1 ") return a;
    a.status = s.substr(9, e - 9);
    for (size_t i = e + 2;;) {
        e = s.find("\r\n", i);
        if (e == std::string::npos) return a;
        if (e == i) { a.content = s.substr(e + 2); a.ok = true; return a; }
        size_t c = s.find(": ", i);
        if (c == std::string::npos || c > e) return a;
        a.headers.push_back({s.substr(i, c - i), s.substr(c + 2, e - c - 2)});
        i = e + 2;
    }
}
static bool hasHeader(const Answer& a, std::string_view n, std::string_view v) {
    int count = 0, right = 0;
    for (auto& h : a.headers)
        if (h.first == n) { count++; right += h.second == v; }
    return count == 1 && right == 1;
}
struct Script { std::string bytes; std::string status; std::string content; };
static const std::vector<Script>& scripts() {
    static auto* s = new std::vector<Script>{
        {"GET /a.html HTTP/1.1\r\nHost: x\r\n\r\n", "200 OK", "hello"},
        {"GET /none HTTP/1.1\r\n\r\n", "404 Not Found", "<"},
        {"POST /a.html HTTP/1.1\r\n\r\n", "501 Not Implemented", "<"},
        {"HEAD /a.html HTTP/1.0\r\n\r\n", "200 OK", ""},
        {"GET /../a HTTP/1.1\r\n\r\n", "400 Bad Request", "<"},
        {"GET /a.html HTTP/1.1\r\nA:b", "400 Bad Request", "<"},
        {"BREW /a.html HTTP/1.1\r\n\r\n", "501 Not Implemented", "<"},
        {"GET /a.html HTTP/1.1\r\nX-A-Header-Whose-Name-Is-Longer-Than-Most-Headers-Names-Are: " + std::string(300, 'v') + "\r\nA: b\r\nA: c\r\n d\r\n\r\n", "200 OK", "hello"},
        {"GET /a%2Ehtml HTTP/1.1\r\nUpgrade: websocket\r\n\r\n", "200 OK", "hello"},
    };
    return *s;
}
static void checkAnswer(const Script& s, const std::string& sent) {
    Answer a = parseAnswer(sent);
    vf_assert(a.ok, "a whole answer was sent");
    vf_assert(a.status == s.status, "status of the answer");
    if (s.content == "<") vf_assert(a.content.size() && a.content[0] == '<', "an error page");
    else { vf_assert(a.content == s.content, "content of the answer"); vf_assert(hasHeader(a, "Content-Length", "5") && hasHeader(a, "Content-Type", "text/html"), "headers of the file"); }
}
// two clients whose bytes arrive interleaved, in any pieces, get the answers to their own requests
HARNESS(server_interleaved) {
    logs();
    addFile("a.html", "hello");
    Server server("0.0.0.0", "80");
    auto& w = symnet::world();
    const Script* sc[2];
    size_t at[2] = {0, 0};
    for (int i = 0; i < 2; i++) { vf_assert(w.connect(), "connections are accepted"); sc[i] = &scripts()[vf_pick("request", 0, i ? (size_t)vf_param("second", 6) : 6)]; }
    size_t turns = (size_t)vf_param("turns", 3);
    bool late = vf_param("late", 0); // a handler runs some time after its buffer was filled
    for (size_t k = 0; k < turns; k++) {
        int i = (int)vf_pick("who", 0, 1);
        auto& c = *w.conns[i];
        if (c.runReady()) continue;
        size_t left = sc[i]->bytes.size() - at[i];
        if (!left) continue;
        size_t n = k + 2 < turns ? vf_pick("n", 1, left) : (vf_pick("some", 0, 1) ? left : (left + 1) / 2);
        vf_assert(c.wantsData(), "an incomplete request is read on");
        if (late) { at[i] += c.fill(sc[i]->bytes.data() + at[i], n); continue; }
        at[i] += c.deliver(sc[i]->bytes.data() + at[i], n);
        if (at[i] == sc[i]->bytes.size()) while (c.progress()) {}
    }
    for (int i = 0; i < 2; i++) {
        auto& c = *w.conns[i];
        while (c.runReady()) {}
        if (at[i] < sc[i]->bytes.size()) { vf_assert(c.sent.empty(), "no answer before the end of the request"); at[i] += c.deliver(sc[i]->bytes.data() + at[i], sc[i]->bytes.size() - at[i]); }
        while (c.progress()) {}
        checkAnswer(*sc[i], c.sent);
        vf_assert(!c.open, "closed after its answer");
        observe("sent", c.sent);
    }
}
// any bytes to the server: only a bad request, or silence while incomplete, or a regular answer
HARNESS(server_any) {
    logs();
    addFile("a", "x");
    Server server("0.0.0.0", "80");
    auto& w = symnet::world();
    w.connect();
    const char* start = starts[vf_pick("start", 0, std::size(starts) - 1)];
    std::string text = start + symStr("text", (size_t)vf_param("n", 3));
    Ref ref = reference(text);
    auto& c = *w.conns[0];
    c.deliver(text.data(), text.size());
    while (c.progress()) {}
    if (ref.verdict == pending) vf_assert(c.sent.empty() && c.open && c.wantsData(), "an incomplete request is waited for");
    else {
        Answer a = parseAnswer(c.sent);
        vf_assert(a.ok && !c.open, "answered and closed");
        if (ref.verdict == bad) { vf_assert(a.status == "400 Bad Request", "a malformed request gets a bad request"); vf_reach("bad"); }
        else vf_reach("complete");
    }
    observe("sent", c.sent);
}

// requests longer than a read, received in pieces of any size around it
HARNESS(server_long) {
    addFile("a.html", "hello");
    Server server("0.0.0.0", "80");
    auto& w = symnet::world();
    w.connect();
    auto& c = *w.conns[0];
    static const size_t lengths[] = {4000, 8160, 8192, 8193, 16384, 20000};
    size_t total = lengths[vf_pick("length", 0, std::size(lengths) - 1)] + vf_pick("more", 0, 2);
    bool many = vf_pick("many", 0, 1); // many headers or a long one
    std::string text = "GET /a.html HTTP/1.1\r\nHost: x\r\n";
    for (unsigned i = 0; many && text.size() + 40 < total; i++) text += "H" + std::to_string(i) + ": v\r\n";
    text += "Long: ";
    while (text.size() + 4 < total) text += char('a' + text.size() % 26);
    text += "\r\n\r\n";
    size_t chunk = vf_pick("chunk", 0, 2);
    size_t step = chunk == 0 ? text.size() : chunk == 1 ? text.size() - 1 : 1460;
    for (size_t at = 0; at < text.size();) {
        vf_assert(c.wantsData() && c.sent.empty(), "read on until the end of the request");
        at += c.deliver(text.data() + at, std::min(step, text.size() - at));
    }
    while (c.progress()) {}
    checkAnswer(scripts()[0], c.sent);
    observe("sent", c.sent);
}

// ---- paths
static Request makeRequest(const char* method, std::string uri) {
    Request r;
    r.setMethod(method);
    r.uri = std::move(uri);
    r.httpVersionMajor = r.httpVersionMinor = 1;
    return r;
}
static std::string wire(const Response& r) {
    std::string s;
    for (auto& b : r.toBuffers<Net>()) s.append(static_cast<const char*>(b.data()), b.size());
    return s;
}
static bool climbs(std::string_view p) { // some component is ".."
    bool r = false, start = true;
    for (size_t i = 0; i + 1 < p.size(); i++) {
        r |= start & (p[i] == '.') & (p[i + 1] == '.') & (i + 2 == p.size() ? true : (p[i + 2] == '/') | (p[i + 2] == '\0'));
        start = p[i] == '/';
    }
    return r;
}
HARNESS(path) {
    logs();
    static const char* const pre[] = {"/", "", "/a/", "/%2e", "//", "/..", "/%2", "/a%2f.", "/.%", "/a/../b", "/%252e"};
    static const char* const methods[] = {"GET", "HEAD", "POST"};
    addFile("index.html", "i");
    const char* m = methods[vf_pick("method", 0, 2)];
    std::string uri = pre[vf_pick("prefix", 0, std::size(pre) - 1)];
    uri += symStr("uri", (size_t)vf_param("n", 3));
    Handler h{std::filesystem::path("root")};
    Response r = h.handleRequest(makeRequest(m, uri));
    for (auto& p : opened()) {
        vf_assert(!p.empty() && p[0] != '/', "only relative paths are opened");
        vf_assert(!climbs(p), "no opened path climbs above the root");
        observe("opened", p);
        vf_reach("opened");
    }
    vf_assert(r.statusCode == Response::ok || r.statusCode == Response::notFound || r.statusCode == Response::badRequest || r.statusCode == Response::notImplemented, "status");
    if (r.statusCode == Response::badRequest) { vf_assert(opened().empty(), "nothing is opened for a refused target"); vf_reach("refused"); }
    unsigned st = r.statusCode;
    vf_observe("status", &st, sizeof st);
}

// the same with real files: nothing outside of the root is ever served
#include "system/NativeFS.hpp"
HARNESS(path_native) {
    static const char* const pre[] = {"/", "/%2e", "//", "/d/", "/d/%2e", "/%252e"};
    static const char inside[] = "inside", secret[] = "SECRET";
    std::string root = std::string(vf_root()) + "/w";
    auto add = [](const std::string& p, std::string_view c) { vf_file_add(p.data(), p.size(), c.data(), c.size()); };
    add(root + "/a", inside);
    add(root + "/d/a", inside);
    add(std::string(vf_root()) + "/a", secret);
    std::string uri = pre[vf_pick("prefix", 0, std::size(pre) - 1)];
    uri += symStr("uri", (size_t)vf_param("n", 3));
    http::RequestHandler<Net, fs::NativeDebugFS> h{std::filesystem::path(root)};
    Response r = h.handleRequest(makeRequest("GET", uri));
    if (r.statusCode == Response::ok) { vf_assert(r.content == inside, "only files inside of the root are served"); vf_reach("served"); }
    else vf_assert(r.content.find(secret) == std::string::npos, "nothing else is shown");
    unsigned st = r.statusCode;
    vf_observe("status", &st, sizeof st);
}

// ---- the handler
static std::string_view mimeOf(std::string_view ext) {
    static const std::pair<const char*, const char*> t[] = {{"js", "application/javascript"}, {"mjs", "application/javascript"}, {"htm", "text/html"}, {"html", "text/html"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"css", "text/css"}, {"png", "image/png"}, {"gif", "image/gif"}, {"json", "application/json"}, {"pdf", "application/pdf"}, {"ttf", "font/ttf"}, {"ico", "image/x-icon"}, {"svg", "image/svg+xml"}, {"webp", "image/webp"}, {"csv", "text/csv"}};
    std::string_view r = "text/plain";
    for (auto& e : t)
        if (same(ext, e.first)) r = e.second;
    return r;
}
struct Target { const char* uri; const char* path; const char* ext; };
static const Target targets[] = {{"/a.html", "a.html", "html"}, {"/", "index.html", "html"}, {"/d/", "d/index.html", "html"}, {"/b.csv", "b.csv", "csv"}, {"/d/x.tar.css", "d/x.tar.css", "css"}, {"/plain", "plain", ""}, {"/a%20b.js", "a b.js", "js"}, {"/%C3%A9.json", "\xC3\xA9.json", "json"}, {"//s.svg", "s.svg", "svg"}, {"/.png", ".png", ""}, {"/x.HTML", "x.HTML", "HTML"}};
static size_t ciFind(std::string_view s, std::string_view what) { // case-insensitive; npos if absent
    auto low = [](unsigned char c) { return (unsigned char)(c + ((c >= 'A') & (c <= 'Z')) * 32); };
    for (size_t i = 0; i + what.size() <= s.size(); i++) {
        bool eq = true;
        for (size_t k = 0; k < what.size(); k++) eq &= low(s[i + k]) == low(what[k]);
        if (eq) return i;
    }
    return std::string_view::npos;
}
HARNESS(handler_file) {
    logs();
    const Target& t = targets[vf_pick("target", 0, std::size(targets) - 1)];
    static const size_t sizes[] = {0, 1, 7, 8, 9, 511, 512, 513, 1024, 1031, 65536 + 700};
    static const char* const encs[] = {"", "br", "gzip"};
    size_t n = sizes[vf_pick("size", 0, std::size(sizes) - 1)];
    std::string content(n, '\0'), sym = symStr("content", n < 9 ? n : 9);
    for (size_t i = 0; i < n; i++) content[i] = char(i * 31 + (i >> 8));
    for (size_t i = 0; i < sym.size(); i++) content[(i * 129) % n] = sym[i];
    std::string enc = encs[vf_pick("encoding", 0, 2)];
    bool exists = vf_pick("exists", 0, 1);
    if (exists) addFile(t.path, content, enc);
    addFile("other", "x");
    bool head = vf_pick("head", 0, 1);
    Request q = makeRequest(head ? "HEAD" : "GET", t.uri);
    static const char* const accepts[] = {nullptr, "gzip, deflate, br", "GZip", "identity", "BR;q=1.0", ""};
    const char* acc = accepts[vf_pick("accept", 0, std::size(accepts) - 1)];
    q.headers.emplace_back("Host", "br gzip");
    if (acc) q.headers.emplace_back(vf_pick("case", 0, 1) ? "accept-encoding" : "Accept-Encoding", acc);
    Handler h{std::filesystem::path("root")};
    Response r = h.handleRequest(q);
    Answer a = parseAnswer(wire(r));
    vf_assert(a.ok, "a whole answer");
    vf_assert(opened().size() == 1 && opened()[0] == t.path, "exactly the file of the target is opened");
    bool accepted = enc.empty() || (acc && ciFind(acc, enc) != std::string_view::npos);
    if (head) vf_assert(a.content.empty(), "no content for HEAD");
    if (!exists) vf_assert(a.status == "404 Not Found", "a missing file is not found");
    else if (!accepted && !head) { vf_assert(a.status == "506 Variant Also Negotiates", "an encoding the client does not accept is refused"); vf_reach("refused encoding"); }
    else {
        vf_assert(a.status == "200 OK", "an existing file is served");
        vf_assert(hasHeader(a, "Content-Length", std::to_string(n)), "length of the file");
        vf_assert(hasHeader(a, "Content-Type", mimeOf(t.ext)), "media type of the file");
        vf_assert(enc.empty() ? a.headers.size() == 2 : hasHeader(a, "Content-Encoding", enc) && a.headers.size() == 3, "stored encoding of the file, and no other header");
        if (head) vf_reach("head");
        else { vf_assert(same(a.content, content), "exact content of the file"); vf_reach("get"); }
    }
    observe("status", a.status);
    observe("content", a.content);
}
HARNESS(handler_method) {
    logs();
    static const char* const names[] = {"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "FOO", "get", ""};
    size_t m = vf_pick("method", 0, std::size(names));
    std::string sym = m < std::size(names) ? std::string(names[m]) : symStr("method", 3);
    addFile("a", "x");
    Request q = makeRequest(sym.c_str(), "/a");
    q.setMethod(sym);
    Handler h{std::filesystem::path("root")};
    Answer a = parseAnswer(wire(h.handleRequest(q)));
    if (same(sym, "GET") || same(sym, "HEAD")) vf_assert(a.status == "200 OK", "served");
    else { vf_assert(a.status == "501 Not Implemented", "other methods are not implemented"); vf_assert(opened().empty(), "and open nothing"); vf_reach("501"); }
    observe("status", a.status);
}
HARNESS(handler_upgrade) {
    logs();
    Request q = makeRequest("GET", "/");
    addFile("index.html", "i");
    // any spelling of the header values, with anything around
    std::string con = "upgrade", up = "websocket";
    size_t k = vf_pick("where", 0, 4);
    for (size_t i = k; i < k + 3; i++) { con[i] = char(con[i] - 32 * vf_range("case", 0, 1)); up[i + k % 2] = char(up[i + k % 2] - 32 * vf_range("case", 0, 1)); }
    unsigned shape = (unsigned)vf_pick("shape", 0, 8);
    bool want = shape <= 1 || shape >= 6;
    if (shape == 6) q.headers.emplace_back("Connection", "keep-alive"); // two headers of this name
    if (shape == 7) { con = "keep-alive, an-option-with-quite-a-long-name, " + con + ", another"; up = "h2c, " + up; }
    if (shape == 8) q.uri = "/any/path?x=%20y";
    if (shape == 1) { con = "keep-alive, " + con; up += "/13"; }
    if (shape == 2) con = "keep-alive";
    if (shape == 3) up = "h2c";
    q.headers.emplace_back("connection", con);
    q.headers.emplace_back("Host", "h");
    if (shape != 4) q.headers.emplace_back("UPGRADE", up);
    if (shape != 5) q.headers.emplace_back("sec-websocket-key", "dGhlIHNhbXBsZSBub25jZQ==");
    if (vf_pick("head", 0, 1)) { q.setMethod("HEAD"); want = false; }
    Handler h{std::filesystem::path("root")};
    Answer a = parseAnswer(wire(h.handleRequest(q)));
    if (want) {
        vf_assert(a.status == "101 Switching Protocols", "an upgrade is accepted");
        vf_assert(hasHeader(a, "Sec-WebSocket-Accept", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="), "with the key's accept key");
        vf_assert(hasHeader(a, "Upgrade", "websocket") && hasHeader(a, "Connection", "Upgrade") && a.content.empty(), "as RFC 6455 prescribes");
        vf_assert(opened().empty(), "no file is served");
        vf_reach("101");
    }
    else { vf_assert(a.status == (shape == 8 ? "404 Not Found" : "200 OK"), "anything else is a regular request"); vf_reach("200"); }
    observe("status", a.status);
}
static std::string anyKey(std::string key) { // expected accept key, by the functions which C07 decides
    return websocket::getHashedSecKey(std::move(key));
}
HARNESS(handler_upgrade_key) { // the accept key is the one of this request's key
    Request q = makeRequest("GET", "/");
    q.headers.emplace_back("Connection", "Upgrade");
    q.headers.emplace_back("Upgrade", "websocket");
    std::string key = "dGhlIHNhbXBsZSBub25jZQ==";
    for (size_t i = 0; i < 3; i++) key[i * 9] = char('A' + vf_pick("key", 0, 2));
    q.headers.emplace_back("Sec-WebSocket-Key", key);
    Handler h{std::filesystem::path("root")};
    Answer a = parseAnswer(wire(h.handleRequest(q)));
    vf_assert(a.status == "101 Switching Protocols" && hasHeader(a, "Sec-WebSocket-Accept", anyKey(key)), "accept key of the request's key");
    observe("status", a.status);
}

// ---- responses
static const std::pair<Response::StatusCode, const char*> codes[] = {{Response::switchingProtocols, "101 Switching Protocols"}, {Response::ok, "200 OK"}, {Response::badRequest, "400 Bad Request"}, {Response::notFound, "404 Not Found"}, {Response::notImplemented, "501 Not Implemented"}, {Response::variantAlsoNegotiates, "506 Variant Also Negotiates"}};
HARNESS(response) {
    Response r[2];
    std::string want[2];
    for (int k = 0; k < 2; k++) {
        auto& c = codes[vf_pick("code", 0, k ? 5 : (size_t)vf_param("codes", 5))];
        r[k].statusCode = c.first;
        std::string hs;
        size_t nh = vf_pick("headers", 0, k ? 1 : 2);
        for (size_t i = 0; i < nh; i++) {
            std::string n = symStr("name", k ? 1 : vf_pick("nname", 1, 2)), v = symStr("value", k ? 2 : vf_pick("nvalue", 0, 2));
            r[k].headers.emplace_back(n, v);
            hs += n + ": " + v + "\r\n";
        }
        r[k].content = symStr("content", vf_pick("ncontent", 0, 2));
        want[k] = expected(c.second, hs, r[k].content);
    }
    auto b0 = r[0].toBuffers<Net>();
    auto b1 = r[1].toBuffers<Net>();
    auto again = r[0].toBuffers<Net>(); // a response may be prepared twice, the last one counts
    std::string s0, s1;
    for (auto& b : again) s0.append(static_cast<const char*>(b.data()), b.size());
    for (auto& b : b1) s1.append(static_cast<const char*>(b.data()), b.size());
    vf_assert(same(s0, want[0]), "first response on the wire");
    vf_assert(same(s1, want[1]), "second response on the wire");
    observe("wire", s0);
}
HARNESS(status_response) {
    for (auto& c : codes) {
        Response r = Response::getStatusResponse(c.first);
        Answer a = parseAnswer(wire(r));
        vf_assert(a.ok && a.status == c.second && hasHeader(a, "Content-Length", std::to_string(a.content.size())) && hasHeader(a, "Content-Type", "text/html"), "status page");
        vf_assert(a.content.find(c.second) != std::string::npos, "the page tells the status");
    }
    unsigned st = (unsigned)vf_pick("any", 0, 1);
    vf_observe("any", &st, sizeof st);
}
// answers being sent to several clients at once, each write taking any part
HARNESS(server_writes) {
    logs();
    addFile("a.html", "hello");
    Server server("0.0.0.0", "80");
    auto& w = symnet::world();
    const Script* sc[3];
    size_t n = (size_t)vf_param("clients", 2);
    for (size_t i = 0; i < n; i++) {
        w.connect();
        sc[i] = &scripts()[vf_pick("request", 0, i ? (size_t)vf_param("others", 2) : 6)];
        w.conns[i]->deliver(sc[i]->bytes.data(), sc[i]->bytes.size());
    }
    for (size_t k = 0; k < (size_t)vf_param("steps", 3); k++) {
        size_t i = vf_pick("who", 0, n - 1);
        static const size_t parts[] = {1, 9, 17, 40, 1000};
        w.conns[i]->progress(parts[vf_pick("part", 0, std::size(parts) - 1)]);
    }
    w.settle();
    for (size_t i = 0; i < n; i++) {
        checkAnswer(*sc[i], w.conns[i]->sent);
        vf_assert(!w.conns[i]->open && w.conns[i].use_count() == 1, "ended and released");
    }
}

// ---- connections and faults
HARNESS(lifecycle) {
    logs();
    addFile("a", "x");
    auto& w = symnet::world();
    size_t n = (size_t)vf_param("clients", 2), steps = (size_t)vf_param("steps", 4);
    static const std::string upgrade = "GET / HTTP/1.1\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", get = "GET /a HTTP/1.1\r\n\r\n", wrong = "\r\n", begin = "GET /a HTTP", headers = "GET /a HTTP/1.1\r\nHost: x";
    struct Client { int kind = -1; bool failedWrite = false, ended = false, upgraded = false; const std::string* part = nullptr; };
    Client cl[3];
    int upgrades = 0;
    std::vector<symnet::Socket> handed;
    {
        Server server("0.0.0.0", "80");
        bool handler = !vf_param("nohandler", 0);
        if (handler)
            server.onUpgrade([&](symnet::Socket&& s, http::Protocol p) {
                vf_assert(p == http::Protocol::WebSocket, "upgraded to WebSocket");
                vf_assert(s.is_open(), "an open socket is handed over");
                upgrades++;
                handed.push_back(std::move(s));
            });
        if (vf_pick("failed accept", 0, 1)) w.connect(symnet::anyError());
        size_t base = w.conns.size();
        for (size_t i = 0; i < n; i++) vf_assert(w.connect(), "connections are accepted");
        for (size_t k = 0; k < steps; k++) {
            size_t i = vf_pick("who", 0, n - 1);
            auto& c = *w.conns[base + i];
            auto& me = cl[i];
            int before = upgrades;
            switch (vf_pick("move", 0, 4)) {
            case 0: {
                if (!c.wantsData()) break;
                me.kind = me.kind == 3 ? 4 : (int)vf_pick("what", 0, 3);
                if (me.kind == 3) me.part = vf_pick("headers", 0, 1) ? &headers : &begin;
                const std::string& d = me.kind == 0 ? upgrade : me.kind == 1 ? get : me.kind == 2 ? wrong : me.kind == 3 ? *me.part : get;
                if (me.kind == 4) { std::string rest = me.part == &headers ? std::string("\r\n\r\n") : get.substr(begin.size()); c.deliver(rest.data(), rest.size()); }
                else c.deliver(d.data(), d.size());
                break;
            }
            case 1: if (c.failRead(symnet::anyError())) { me.ended = true; vf_reach("read error"); } break;
            case 2: if (c.failWrite(symnet::anyError())) { me.failedWrite = me.ended = true; vf_reach("write error"); } break;
            case 3: c.progress(vf_pick("partly", 0, 1) ? 20 : 100000); break;
            case 4: c.shutdownThrows = true; break;
            }
            if (upgrades > before) {
                vf_assert(upgrades == before + 1 && me.kind == 0 && !me.failedWrite && !me.upgraded && c.sent.find("\r\n\r\n") != std::string::npos && c.sent.substr(0, 12) == "HTTP/1.1 101" && c.writes.empty(), "handed over once, after its whole 101 response");
                me.upgraded = true;
                vf_reach("upgraded");
            }
            else if (handler && me.kind == 0 && !me.failedWrite && !me.ended && c.sent.size() > 20) vf_assert(me.upgraded || !c.writes.empty(), "upgraded once its response is sent");
            w.settle(0);
        }
        // everything pending goes through
        for (bool more = true; more;) {
            more = w.runOrphan();
            for (size_t i = 0; i < w.conns.size(); i++)
                if (i >= base) { int before = upgrades; if (w.conns[i]->runReady() || w.conns[i]->progress()) more = true; if (upgrades > before) { vf_assert(!cl[i - base].upgraded && cl[i - base].kind == 0, "handed over once"); cl[i - base].upgraded = true; } }
        }
        for (size_t i = 0; i < n; i++) {
            auto& c = *w.conns[base + i];
            auto& me = cl[i];
            if (me.upgraded) { vf_assert(c.open && c.reads.empty(), "an upgraded connection is left to its new owner"); continue; }
            if (me.kind == -1 || me.kind == 3) { if (!me.ended) { vf_assert(c.open && c.wantsData() && c.sent.empty(), "an unfinished request is waited for"); continue; } }
            vf_assert(!c.open, "closed at its end");
            vf_assert(w.conns[base + i].use_count() == 1, "released at its end");
            if (!me.failedWrite && me.kind >= 0 && me.kind != 3 && !(me.kind == 0)) {
                Answer a = parseAnswer(c.sent);
                vf_assert(a.ok && a.status == (me.kind == 2 ? "400 Bad Request" : "200 OK"), "answered");
                vf_assert(c.shut || c.shutdownThrows, "shut down");
            }
        }
        // the server still serves
        vf_assert(w.connect(), "still accepting");
        auto& c = *w.conns.back();
        c.deliver(get.data(), get.size());
        while (c.progress()) {}
        vf_assert(parseAnswer(c.sent).status == "200 OK" && !c.open && w.conns.back().use_count() == 1, "still serving");
        handed.clear();
    }
    for (auto& c : w.conns) while (c->runReady()) {}
    unsigned u = (unsigned)upgrades;
    vf_observe("upgrades", &u, sizeof u);
}

// a long history: many connections one after the other, and many at the same time
HARNESS(server_many) {
    logs();
    addFile("a.html", "hello");
    Server server("0.0.0.0", "80");
    auto& w = symnet::world();
    size_t n = (size_t)vf_param("connections", 40), together = vf_pick("together", 0, 2), a = vf_pick("first", 0, scripts().size() - 1), b = vf_pick("second", 0, scripts().size() - 1);
    size_t step = together == 0 ? 1 : together == 1 ? 5 : n;
    for (size_t i = 0; i < n; i += step) {
        for (size_t k = i; k < i + step; k++) vf_assert(w.connect(), "connections are accepted");
        for (size_t k = i; k < i + step; k++) { auto& s = scripts()[k % 2 ? a : b].bytes; for (size_t at = 0; at < s.size();) at += w.conns[k]->deliver(s.data() + at, s.size() - at); }
        for (size_t k = i + step; k-- > i;) {
            auto& c = *w.conns[k];
            while (c.progress()) {}
            checkAnswer(scripts()[k % 2 ? a : b], c.sent);
            vf_assert(!c.open && w.conns[k].use_count() == 1, "closed and released after its answer");
        }
    }
    vf_reach("many");
}

// ---- media types
HARNESS(mime) {
    std::string ext = symStr("ext", vf_pick("n", 0, (size_t)vf_param("n", 5)));
    bool dot = vf_pick("dot", 0, 1);
    std::string arg = (dot ? "." : "") + ext;
    if (!dot) vf_assume(ext.empty() || ext[0] != '.');
    std::string_view got = http::MimeType::fromExtension(Exact(arg)).toString(), got2 = http::MimeType(std::string_view(Exact(arg))).toString();
    vf_assert(same(got, mimeOf(ext)), "media type of the extension");
    vf_assert(same(got2, got), "however it is asked for");
    if (got != "text/plain") vf_reach("known");
    observe("type", got);
}
HARNESS(mime_types) {
    using M = http::MimeType;
    static const std::pair<M::Type, const char*> all[] = {{M::plain, "text/plain"}, {M::html, "text/html"}, {M::css, "text/css"}, {M::js, "application/javascript"}, {M::jpg, "image/jpeg"}, {M::png, "image/png"}, {M::gif, "image/gif"}, {M::json, "application/json"}, {M::pdf, "application/pdf"}, {M::ttf, "font/ttf"}, {M::ico, "image/x-icon"}, {M::svg, "image/svg+xml"}, {M::webp, "image/webp"}, {M::csv, "text/csv"}};
    auto& t = all[vf_pick("type", 0, std::size(all) - 1)];
    M m(t.first);
    vf_assert(m.type == t.first && m.toString() == t.second, "name of the type");
    observe("type", m.toString());
}
// the file name as the server sees it
HARNESS(mime_names) {
    std::string stem = symStr("stem", vf_pick("n", 0, (size_t)vf_param("n", 2)));
    for (char c : stem) vf_assume((c != '/') & (c != '%') & (c != '\0') & (c != '.') & (c != '+'));
    static const char* const exts[] = {"js", "mjs", "htm", "html", "jpg", "jpeg", "css", "png", "gif", "json", "pdf", "ttf", "ico", "svg", "webp", "csv", "txt", "x", "html.gz", "gz.html", "css.", "html~"};
    std::string ext = exts[vf_pick("ext", 0, std::size(exts) - 1)];
    if (vf_param("two", 0)) stem += "." + std::string(exts[vf_pick("before", 0, 17)]);
    std::string name = stem + "." + ext;
    std::string_view last = ext;
    if (auto p = last.rfind('.'); p != std::string_view::npos) last.remove_prefix(p + 1);
    else if (stem.empty()) last = "";
    vf_assume(name.find("..") == std::string::npos);
    addFile(name, "x");
    Handler h{std::filesystem::path("root")};
    Answer a = parseAnswer(wire(h.handleRequest(makeRequest("GET", "/" + name))));
    vf_assert(a.status == "200 OK" && hasHeader(a, "Content-Type", mimeOf(last)), "media type of the last extension");
    observe("name", name);
}

// ---- header lookups
static bool ciEq(std::string_view a, std::string_view b) { return a.size() == b.size() && ciFind(a, b) == 0; }
HARNESS(headers) {
    http::Headers hs;
    size_t n = vf_pick("headers", 0, (size_t)vf_param("headers", 2));
    std::vector<std::pair<std::string, std::string>> ref;
    for (size_t i = 0; i < n; i++) {
        ref.push_back({symStr("name", vf_pick("nname", 1, (size_t)vf_param("n", 2))), symStr("value", vf_pick("nvalue", 0, 2))});
        hs.headers.emplace_back(ref[i].first, ref[i].second);
    }
    std::string name = symStr("asked", vf_pick("nasked", 1, (size_t)vf_param("n", 2))), text = symStr("text", vf_pick("ntext", 1, 2));
    // only letters have cases here: what toupper makes of bytes above 127 depends on the locale
    auto got = hs.getHeaderValue(name);
    auto all = hs.getHeadersValues(name);
    bool contain = hs.headersContain(name, text);
    std::vector<std::string> want;
    bool in = false;
    for (auto& h : ref)
        if (ciEq(h.first, name)) { want.push_back(h.second); in |= ciFind(h.second, text) != std::string_view::npos; }
    vf_assert(got.has_value() == !want.empty(), "found exactly if there is one");
    if (got) { vf_assert(same(*got, want[0]), "the first one's value"); vf_reach("found"); }
    vf_assert(all.size() == want.size(), "all of them");
    size_t i = 0;
    for (auto& v : all) vf_assert(same(v, want[i++]), "their values in order");
    vf_assert(contain == in, "contained exactly if it is");
    unsigned char o = contain;
    vf_observe("contain", &o, 1);
}
// many headers with few names: every order of equal and other names, long names and values
HARNESS(headers_many) {
    static const char* const names[] = {"Accept", "accept", "X-A-Header-With-A-Rather-Long-Name", "Accept-Encoding"};
    http::Headers hs;
    size_t n = (size_t)vf_param("headers", 5), asked = vf_pick("asked", 0, 3);
    std::vector<std::pair<std::string, std::string>> ref;
    size_t where = vf_pick("long value", 0, n);
    for (size_t i = 0; i < n; i++) {
        ref.push_back({names[vf_pick("name", 0, 3)], symStr("value", 1) + (i == where ? std::string(200, 'v') : std::string()) + "Br"});
        hs.headers.emplace_back(ref[i].first, ref[i].second);
    }
    std::string name = names[asked], text = symStr("text", 1) + "r";
    auto got = hs.getHeaderValue(name);
    auto all = hs.getHeadersValues(name);
    bool contain = hs.headersContain(name, text);
    std::vector<std::string> want;
    bool in = false;
    for (auto& h : ref)
        if (ciEq(h.first, name)) { want.push_back(h.second); in |= ciFind(h.second, text) != std::string_view::npos; }
    vf_assert(got.has_value() == !want.empty(), "found exactly if there is one");
    if (got) vf_assert(same(*got, want[0]), "the first one's value");
    vf_assert(all.size() == want.size(), "all of them");
    size_t i = 0;
    for (auto& v : all) vf_assert(same(v, want[i++]), "their values in order");
    vf_assert(contain == in, "contained exactly if it is");
    if (want.size() > 2) vf_reach("several");
    unsigned char o = contain;
    vf_observe("contain", &o, 1);
}
