// Files: reading, embedded and native file systems, combinations.
#include "common.hpp"
#include "system/BabelFS.hpp"
#include "system/FileSystem.hpp"
#include "system/IndexFS.hpp"
#include "system/JasmineFS.hpp"
#include "system/NativeFS.hpp"
#include "system/ReactFS.hpp"
using namespace webfront;
using fs::File;

static void put(const std::string& path, std::string_view data) { vf_file_add(path.data(), path.size(), data.data(), data.size()); }
// reads a file through buffers of the chosen sizes: exactly its content, in order, then the end
struct Sizes {
    std::vector<size_t> s;
    size_t operator()(size_t k) const { return s[k < s.size() ? k : s.size() - 1]; }
};
static std::string readAll(File& f, const Sizes& sizes, size_t expected, bool moves = false) {
    std::string got;
    std::optional<File> other; // reading goes on from wherever the file is moved to
    File* p = &f;
    for (size_t k = 0; !p->eof(); k++) {
        vf_assert(k <= expected + sizes.s.size() + 2, "the end is reached");
        size_t n = sizes(k);
        std::vector<char> mem(n + 2, '#'); // the bytes around the buffer must stay
        size_t r = p->read(std::span<char>(mem.data() + 1, n));
        vf_assert(r <= n, "no more than what was asked for");
        vf_assert(mem[0] == '#' && mem[n + 1] == '#', "nothing is written outside of the buffer");
        got.append(mem.data() + 1, r);
        vf_assert(got.size() <= expected, "no more than the file's size");
        if (r < n) vf_assert(p->eof(), "a buffer is filled unless the end is reached");
        if (moves && k == 0) { other.emplace(std::move(f)); p = &*other; }
    }
    std::vector<char> mem(9, '#');
    vf_assert(p->read(std::span<char>(mem.data(), 8)) == 0 && p->eof(), "nothing after the end");
    vf_assert(got.size() == expected, "every byte of the file is read");
    return got;
}
static Sizes pickSizes(size_t max) {
    Sizes s;
    size_t k = vf_pick("sizes", 1, (size_t)vf_param("sizes", 3));
    for (size_t i = 0; i < k; i++) { size_t n = vf_pick("size", 0, max); s.s.push_back(n); }
    if (s.s.back() == 0) s.s.push_back(1 + vf_pick("then", 0, 1) * 4);
    return s;
}
static std::string wordBytes(std::span<const uint64_t> words, size_t size) {
    std::string r(size, '\0');
    for (size_t i = 0; i < size; i++) r[i] = char(words[i / 8] >> (8 * (7 - i % 8)));
    return r;
}
HARNESS(read_static) {
    size_t max = (size_t)vf_param("n", 17), size = vf_pick("file", 0, max);
    std::vector<uint64_t> words((size + 7) / 8);
    if (!words.empty()) vf_symbolic(words.data(), words.size() * 8, "words");
    std::string want = wordBytes(words, size);
    static const char* const encs[] = {"", "br", "gzip"};
    const char* enc = encs[vf_pick("encoding", 0, 2)];
    File f(std::span<const uint64_t>(words), size, enc);
    vf_assert(f.isEncoded() == (*enc != 0) && f.getEncoding() == enc, "encoding");
    vf_assert(f.eof() == (size == 0), "not read yet");
    bool moves = vf_pick("moves", 0, 1);
    Sizes s = pickSizes((size_t)vf_param("buffer", 10));
    std::string got = readAll(f, s, size, moves);
    vf_assert(same(got, want), "exact content");
    if (size > 8) vf_reach("several words");
    observe("got", got);
}
HARNESS(read_native) {
    size_t max = (size_t)vf_param("n", 10), size = vf_pick("file", 0, max);
    std::string want = symStr("content", size), root = std::string(vf_root()) + "/w";
    put(root + "/f", want);
    fs::NativeDebugFS n{std::filesystem::path(root)};
    auto f = n.open("f");
    vf_assert(f.has_value() && !f->isEncoded() && f->getEncoding().empty(), "opened");
    bool moves = vf_pick("moves", 0, 1);
    Sizes s = pickSizes((size_t)vf_param("buffer", 6));
    std::string got = readAll(*f, s, size, moves);
    vf_assert(same(got, want), "exact content");
    observe("got", got);
}
HARNESS(read_large) { // larger than any block
    static const size_t sizes[] = {511, 512, 513, 4095, 4096, 8191, 8192, 8193, 20000};
    size_t size = sizes[vf_pick("file", 0, std::size(sizes) - 1)];
    static const size_t bufs[] = {7, 8, 9, 512, 1000, 8192, 65536};
    Sizes s{{bufs[vf_pick("buffer", 0, std::size(bufs) - 1)], bufs[vf_pick("buffer2", 0, std::size(bufs) - 1)]}};
    std::string want(size, '\0');
    std::string sym = symStr("sym", 4);
    for (size_t i = 0; i < size; i++) want[i] = char(i * 31 + (i >> 8));
    for (size_t i = 0; i < 4; i++) want[i * (size / 4)] = sym[i];
    if (vf_pick("native", 0, 1)) {
        std::string root = std::string(vf_root()) + "/w";
        put(root + "/f", want);
        fs::NativeDebugFS n{std::filesystem::path(root)};
        auto f = n.open("f");
        vf_assert(f.has_value(), "opened");
        std::string got = readAll(*f, s, size);
        vf_assert(same(got, want), "exact content");
    }
    else {
        std::vector<uint64_t> words((size + 7) / 8);
        for (size_t i = 0; i < size; i++) words[i / 8] |= uint64_t((unsigned char)want[i]) << (8 * (7 - i % 8));
        File f(std::span<const uint64_t>(words), size);
        std::string got = readAll(f, s, size);
        vf_assert(same(got, want), "exact content");
    }
    observe("size", size);
}
HARNESS(read_two) { // two files read in turns do not disturb each other
    std::vector<uint64_t> a(2), b(2);
    vf_symbolic(a.data(), 16, "a");
    vf_symbolic(b.data(), 16, "b");
    bool same1 = vf_pick("same", 0, 1); // the same file opened twice
    File f(std::span<const uint64_t>(a), 13), g(std::span<const uint64_t>(same1 ? a : b), 13);
    std::string gf, gg, wf = wordBytes(a, 13), wg = wordBytes(same1 ? a : b, 13);
    for (size_t k = 0; k < 5; k++) {
        char buf[8];
        size_t n = vf_pick("n", 0, 2) * 3 + 1;
        bool first = vf_pick("which", 0, 1);
        File& x = first ? f : g;
        size_t r = x.read(std::span<char>(buf, n));
        (first ? gf : gg).append(buf, r);
    }
    vf_assert(same(gf, wf.substr(0, gf.size())) && same(gg, wg.substr(0, gg.size())), "each its own position");
    observe("f", gf);
    observe("g", gg);
}

// ---- embedded file systems
// what is embedded, as recorded by tools/assets.py when the assets were last upgraded
struct Asset { const char* asset; std::string_view encoding; size_t size; uint64_t digest; };
static const Asset assets[] = {
#include "assets.inc"
};
struct Embedded { const char* name; const Asset* asset; };
static Embedded emb(const char* name, std::string_view asset) {
    for (auto& a : assets) if (asset == a.asset) return {name, &a};
    vf_fail("asset not recorded");
    return {};
}
static std::vector<Embedded> filesOf(size_t which) {
    switch (which) {
    case 0: return {emb("index.html", "IndexHtml"), emb("favicon.ico", "WebFrontIco"), emb("WebFront.js", "WebFrontJs")};
    case 1: return {emb("babel-standalone@7.22.5/babel.min.js", "Babel")};
    case 2: return {emb("react@18/umd/react.production.min.js", "React"), emb("react-dom@18/umd/react-dom.production.min.js", "ReactDom")};
    default: return {emb("jasmine/4.6.0/jasmine_favicon.png", "JasmineFavicon"), emb("jasmine/4.6.0/jasmine.css", "JasmineCss"), emb("jasmine/4.6.0/jasmine.js", "JasmineJs"), emb("jasmine/4.6.0/jasmine-html.js", "JasmineHtml"), emb("jasmine/4.6.0/boot0.js", "Boot0"), emb("jasmine/4.6.0/boot1.js", "Boot1")};
    }
}
static std::optional<File> openIn(size_t which, const std::string& name) {
    std::filesystem::path root(".");
    switch (which) {
    case 0: { fs::IndexFS f(root); return f.open(name); }
    case 1: { fs::BabelFS f(root); return f.open(name); }
    case 2: { fs::ReactFS f(root); return f.open(name); }
    default: { fs::JasmineFS f(root); return f.open(name); }
    }
}
static void checkIs(std::optional<File>& f, const Embedded& e, bool whole) {
    const Asset& a = *e.asset;
    vf_assert(f.has_value(), "found by its name");
    vf_assert(f->getEncoding() == a.encoding && f->isEncoded() == !a.encoding.empty() && !f->eof(), "encoding");
    size_t n = whole ? a.size + 1 : 3;
    std::vector<char> buf(n);
    size_t r = f->read(std::span<char>(buf));
    vf_assert(r == (whole ? a.size : 3) && f->eof() == whole, "size");
    if (!whole) return;
    uint64_t h = 0xcbf29ce484222325ull;
    for (size_t i = 0; i < r; i++) h = (h ^ (unsigned char)buf[i]) * 0x100000001b3ull;
    vf_assert(h == a.digest, "own whole content");
}
HARNESS(embedded) {
    size_t w = vf_pick("fs", 0, 3);
    auto files = filesOf(w);
    size_t i = vf_pick("file", 0, files.size() - 1);
    auto& e = files[i];
    auto f = openIn(w, e.name);
    checkIs(f, e, true);
    vf_reach(e.name);
    observe("size", e.asset->size);
}
HARNESS(embedded_names) {
    size_t w = vf_pick("fs", 0, 3);
    auto files = filesOf(w);
    std::string name;
    switch (vf_pick("kind", 0, 3)) {
    case 0: name = symStr("name", vf_pick("n", 0, (size_t)vf_param("n", 4))); break;
    case 1: { name = files[vf_pick("file", 0, files.size() - 1)].name; size_t at = vf_pick("at", 0, name.size() - 1); name[at] = symStr("c", 1)[0]; } break; // one byte differs
    case 2: { name = files[vf_pick("file", 0, files.size() - 1)].name; size_t at = vf_pick("at", 0, name.size()); name.insert(at, symStr("c", 1)); } break; // one byte more
    case 3: { name = files[vf_pick("file", 0, files.size() - 1)].name; size_t at = vf_pick("at", 0, name.size() - 1); name.erase(at, vf_pick("all", 0, 1) ? std::string::npos : 1); } break; // less
    }
    for (char c : name) vf_assume(c != 0);
    auto f = openIn(w, name);
    std::string_view n = name;
    while (!n.empty() && n[0] == '/') n.remove_prefix(1); // an absolute path names the same file
    const Embedded* e = nullptr;
    for (auto& x : files)
        if (same(n, x.name)) e = &x;
    if (e) { checkIs(f, *e, false); vf_reach("found"); }
    else { vf_assert(!f.has_value(), "every other name is absent"); vf_reach("absent"); }
    unsigned char r = f.has_value();
    vf_observe("found", &r, 1);
}

// ---- combinations
struct Seen { int fs; std::string name; };
static std::vector<Seen>& seen() { static auto* v = new std::vector<Seen>; return *v; }
static unsigned has[4]; // which member has which of the names "a", "b"
static int emptyFiles = -1; // the member whose files are empty
template<int I> struct Member {
    std::string root;
    Member(std::filesystem::path r) : root(r.string()) {}
    std::optional<File> open(std::filesystem::path p) {
        vf_assert(root == "/docs", "every member gets the document root");
        seen().push_back({I, p.string()});
        static const uint64_t words[] = {0x0101010101010101ull * (I + 1)};
        std::string n = p.string();
        if (n.size() == 1 && (((n[0] == 'a') & (has[I] & 1)) | ((n[0] == 'b') & (has[I] >> 1 & 1)))) return File(std::span<const uint64_t>(words), I == emptyFiles ? 0 : 3, I == 2 ? "br" : "");
        return {};
    }
};
template<typename M, int N> static void multi(std::initializer_list<int> order) {
    M m(std::filesystem::path("/docs"));
    for (int i = 0; i < N; i++) has[i] = (unsigned)vf_range("has", 0, 3);
    emptyFiles = (int)vf_pick("empty", 0, N) - 1;
    size_t opens = vf_pick("opens", 1, (size_t)vf_param("opens", 2));
    for (size_t k = 0; k < opens; k++) {
        std::string name = symStr("name", vf_pick("n", 0, 2));
        for (char c : name) vf_assume(c != 0);
        seen().clear();
        auto f = m.open(name);
        int want = -1;
        for (int i : order)
            if (want < 0 && name.size() == 1 && (((name[0] == 'a') & (has[i] & 1)) | ((name[0] == 'b') & (has[i] >> 1 & 1)))) want = i;
        vf_assert(f.has_value() == (want >= 0), "found if any member has it");
        char b[4] = {};
        if (want >= 0) {
            vf_assert(f->read(std::span<char>(b, 4)) == (want == emptyFiles ? 0 : 3) && b[0] == char(want == emptyFiles ? 0 : want + 1) && f->getEncoding() == (want == 2 ? "br" : ""), "from the first member which has it");
            vf_reach(want ? "later" : "first");
        }
        else vf_reach("absent");
        size_t at = 0;
        for (auto& s : seen()) vf_assert(same(s.name, name), "members are asked for this name");
        for (int i : order) {
            vf_assert(at < seen().size() && seen()[at++].fs == i, "asked in order");
            if (i == want) break;
        }
        vf_observe("from", b, 4);
        if (vf_pick("changes", 0, 1)) has[0] = (unsigned)vf_range("has", 0, 3);
    }
}
HARNESS(multi) {
    switch (vf_pick("combination", 0, 4)) {
    case 0: multi<fs::Multi<Member<0>, Member<1>, Member<2>>, 3>({0, 1, 2}); break;
    case 1: multi<fs::Multi<Member<2>, Member<1>, Member<0>, Member<3>>, 4>({2, 1, 0, 3}); break;
    case 2: multi<fs::Multi<Member<0>>, 1>({0}); break;
    case 3: multi<fs::Multi<Member<1>, Member<0>>, 2>({1, 0}); break;
    case 4: multi<fs::Multi<fs::Multi<Member<0>, Member<1>>, Member<2>>, 3>({0, 1, 2}); break;
    }
}
HARNESS(multi_real) { // the document root together with embedded files, in both orders
    std::string root = std::string(vf_root()) + "/w", own = symStr("own", vf_pick("nown", 0, 1) * 3);
    bool shadow = vf_pick("shadow", 0, 1);
    if (shadow) put(root + "/index.html", own);
    put(root + "/x", own);
    static const char* const names[] = {"index.html", "WebFront.js", "jasmine/4.6.0/boot0.js", "x", "y"};
    std::string name = names[vf_pick("name", 0, 4)];
    bool nativeFirst = vf_pick("order", 0, 1);
    auto f = [&] {
        std::filesystem::path docs(root);
        if (nativeFirst) { fs::Multi<fs::NativeDebugFS, fs::IndexFS, fs::JasmineFS> m{docs}; return m.open(name); }
        fs::Multi<fs::JasmineFS, fs::IndexFS, fs::NativeDebugFS> m{docs};
        return m.open(name);
    }();
    vf_assert(f.has_value() == (name != "y"), "found");
    if (f) {
        bool mine = name == "x" || (name == "index.html" && shadow && nativeFirst);
        vf_assert(f->isEncoded() == !mine, "from the first which has it");
        std::vector<char> b(3);
        vf_assert(f->read(std::span<char>(b)) == (mine ? own.size() : 3), "read");
        if (mine) vf_assert(same(std::string_view(b.data(), own.size()), own), "own content");
        observe("content", std::string_view(b.data(), 3));
    }
}

// ---- the native file system
HARNESS(native) {
    std::string top = vf_root(), root = top + "/w";
    std::vector<std::pair<std::string, std::string>> files = {{"a", symStr("a", 2)}, {"d/b", symStr("b", 2)}, {"d/e/c", symStr("c", 1)}, {"a.b", ""}};
    for (auto& f : files) put(root + "/" + f.first, f.second);
    put(top + "/a", "SECRET");
    put(top + "/wa", "SECRET");
    put(top + "/secret/d/b", "SECRET");
    std::string name;
    static const char* const pre[] = {"", "d/", "d/e/", "./", "d//", "a/", "a.", "d/."};
    name = pre[vf_pick("prefix", 0, std::size(pre) - 1)];
    name += symStr("name", vf_pick("n", 0, (size_t)vf_param("n", 2)));
    if (!name.empty()) vf_assume(name[0] != '/'); // relative names without ".." are those the server asks for
    for (size_t i = 0; i < name.size(); i++) { vf_assume(name[i] != 0); if (i) vf_assume(!((name[i] == '.') & (name[i - 1] == '.'))); }
    static const char* const ends[] = {"", "/"};
    std::filesystem::path docRoot(root + ends[vf_pick("root", 0, 1)]);
    fs::NativeDebugFS n(docRoot);
    auto f = n.open(name);
    // which file the name means: components separated by slashes, "." and empty ones left out
    std::string norm;
    bool dir = name.empty();
    for (size_t i = 0; i < name.size();) {
        size_t e = i;
        while (e < name.size() && name[e] != '/') e++;
        std::string c = name.substr(i, e - i);
        dir = e < name.size();
        if (c == ".") dir = true;
        else if (!c.empty()) { if (!norm.empty()) norm += '/'; norm += c; }
        i = e + 1;
    }
    const std::string* want = nullptr;
    for (auto& x : files)
        if (!dir && same(norm, x.first)) want = &x.second;
    vf_assert(f.has_value() == (want != nullptr), "regular files are found, anything else is absent");
    if (f) {
        std::vector<char> b(8);
        size_t r = f->read(std::span<char>(b));
        vf_assert(r == want->size() && same(std::string_view(b.data(), r), *want) && f->eof(), "exact content");
        vf_assert(!f->isEncoded(), "as it is");
        vf_reach("found");
        observe("content", std::string_view(b.data(), r));
    }
    else vf_reach("absent");
}
HARNESS(native_several) { // several files opened, in any order, also the same one twice
    std::string root = std::string(vf_root()) + "/w";
    std::string c[2] = {symStr("a", 4), symStr("b", 4)};
    put(root + "/a", c[0]);
    put(root + "/b", c[1]);
    fs::NativeDebugFS n{std::filesystem::path(root)};
    std::vector<File> open;
    std::vector<size_t> which, pos;
    size_t steps = (size_t)vf_param("steps", 4);
    std::string all;
    for (size_t k = 0; k < steps; k++) {
        size_t op = vf_pick("op", 0, open.size() < 3 ? open.size() + 1 : open.size() - 1);
        if (op < open.size()) {
            char b[3];
            size_t r = open[op].read(std::span<char>(b, 3)), w = which[op];
            vf_assert(r == (c[w].size() - pos[op] < 3 ? c[w].size() - pos[op] : 3) && same(std::string_view(b, r), std::string_view(c[w]).substr(pos[op], r)), "each its own content and position");
            pos[op] += r;
            all.append(b, r);
        }
        else {
            size_t w = op - open.size();
            auto f = n.open(w ? "b" : "a");
            vf_assert(f.has_value(), "opened");
            open.push_back(std::move(*f));
            which.push_back(w);
            pos.push_back(0);
        }
    }
    observe("read", all);
}
HARNESS(native_working_directory) { // the working directory as root, by an empty path or "."
    std::string top = vf_root(), own = symStr("own", 2);
    put(top + "/a", own);
    put(top + "/d/b", own + "b");
    static const char* const roots[] = {"", ".", "./", "d/.."};
    static const char* const names[] = {"a", "d/b", "b", "d", "vf/root/a", "etc/passwd", "etc/hostname"};
    std::filesystem::path root(roots[vf_pick("root", 0, std::size(roots) - 1)]);
    fs::NativeDebugFS n(root);
    size_t which = vf_pick("name", 0, std::size(names) - 1);
    auto f = n.open(names[which]);
    vf_assert(f.has_value() == (which < 2), "found below the working directory");
    if (f) { char b[8]; size_t k = f->read(std::span<char>(b)); vf_assert(same(std::string_view(b, k), which ? own + "b" : own), "its content"); vf_reach("found"); }
    unsigned char o = f.has_value();
    vf_observe("found", &o, 1);
}
HARNESS(native_roots) { // roots of every form; missing roots and files
    std::string top = vf_root();
    put(top + "/w/x/a", "in");
    put(top + "/w/a", "up");
    put(top + "/a", "up");
    static const char* const roots[] = {"/w/x", "/w/x/", "/w/./x", "/w/x/../x", "/w//x", "w/x", "w/x/", "./w/x", "w/../w/x"}; // those without a slash first are below the working directory
    size_t r = vf_pick("root", 0, std::size(roots));
    std::filesystem::path p = r >= std::size(roots) ? top + "/none" : roots[r][0] == '/' ? top + roots[r] : roots[r];
    fs::NativeDebugFS n(p), copy = n, moved = std::move(copy);
    auto f = moved.open("a");
    vf_assert(f.has_value() == (r < std::size(roots)), "found below its root");
    if (f) { char b[4]; size_t k = f->read(std::span<char>(b, 4)); vf_assert(k == 2 && b[0] == 'i', "its content"); }
    vf_assert(!moved.open("b").has_value() && !moved.open("x").has_value() && !moved.open("").has_value() && !moved.open(".").has_value(), "others are absent");
    unsigned char o = f.has_value();
    vf_observe("found", &o, 1);
}
