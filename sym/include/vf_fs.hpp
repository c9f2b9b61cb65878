// Model of <filesystem> and of <fstream>'s input side for the symbolic runs: a path is its POSIX string, the file system a list of files.
// tests/fsdiff.cpp compares it with libstdc++'s on enumerated and random paths.
#pragma once
#include <bits/c++config.h>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <ios>
#include <istream>
#include <ostream>
#include <iterator>
#include <locale>
#include <codecvt>
#include <memory>
#include <compare>
#include <string>
#include <string_view>
#include <system_error>
#include <vector>
#include <chrono>
#ifndef VF_FS_NS
#define VF_FS_NS std::filesystem
#define VF_FS_STREAM 1
#endif
namespace VF_FS_NS {
class path {
    std::string s;
    // position of the filename (after the last separator)
    size_t fnPos() const { size_t p = s.rfind('/'); return p == std::string::npos ? 0 : p + 1; }
    size_t rootLen() const { size_t n = 0; while (n < s.size() && s[n] == '/') n++; return n; }
    size_t extPos(size_t f) const { // npos: no extension
        size_t n = s.size() - f;
        if (n == 0 || (n == 1 && s[f] == '.') || (n == 2 && s[f] == '.' && s[f + 1] == '.')) return std::string::npos;
        size_t p = s.rfind('.');
        return p == std::string::npos || p <= f ? std::string::npos : p;
    }

public:
    using value_type = char;
    using string_type = std::string;
    static constexpr char preferred_separator = '/';
    enum format : unsigned char { native_format, generic_format, auto_format };
    path() noexcept = default;
    path(const path&) = default;
    path(path&& o) noexcept : s(std::move(o.s)) { o.s.clear(); }
    path(string_type&& x, format = auto_format) : s(std::move(x)) {}
    path(const std::string& x, format = auto_format) : s(x) {}
    path(std::string_view x, format = auto_format) : s(x) {}
    path(const char* x, format = auto_format) : s(x) {}
    path(std::u8string_view x, format = auto_format) : s(reinterpret_cast<const char*>(x.data()), x.size()) {}
    template<typename It> requires(!std::is_convertible_v<It, std::string_view> && requires(It i) { *i; ++i; }) path(It a, It b, format = auto_format) : s(a, b) {}
    path& operator=(const path&) = default;
    path& operator=(path&& o) noexcept { if (this != &o) { s = std::move(o.s); o.s.clear(); } return *this; }
    path& operator=(string_type&& x) { s = std::move(x); return *this; }
    path& operator=(std::string_view x) { s = x; return *this; }
    path& operator=(const char* x) { s = x; return *this; }
    path& assign(string_type&& x) { s = std::move(x); return *this; }
    path& assign(std::string_view x) { s = x; return *this; }

    path& operator/=(const path& p) {
        if (p.is_absolute()) { s = p.s; return *this; }
        if (has_filename()) s += '/';
        s += p.s;
        return *this;
    }
    template<typename T> requires(std::is_convertible_v<const T&, std::string_view>) path& operator/=(const T& x) { return *this /= path(std::string_view(x)); }
    template<typename T> path& append(const T& x) { return *this /= path(x); }
    path& operator+=(const path& p) { s += p.s; return *this; }
    path& operator+=(const std::string& x) { s += x; return *this; }
    path& operator+=(std::string_view x) { s += x; return *this; }
    path& operator+=(const char* x) { s += x; return *this; }
    path& operator+=(char c) { s += c; return *this; }
    template<typename T> path& concat(const T& x) { return *this += path(x); }
    void clear() noexcept { s.clear(); }
    path& make_preferred() { return *this; }
    path& remove_filename() { s.erase(fnPos()); return *this; }
    path& replace_filename(const path& p) { remove_filename(); return *this /= p; }
    path& replace_extension(const path& p = path()) {
        size_t e = extPos(fnPos());
        if (e != std::string::npos) s.erase(e);
        if (!p.empty()) { if (p.s[0] != '.') s += '.'; s += p.s; }
        return *this;
    }
    void swap(path& o) noexcept { s.swap(o.s); }
    const string_type& native() const noexcept { return s; }
    const char* c_str() const noexcept { return s.c_str(); }
    operator string_type() const { return s; }
    std::string string() const { return s; }
    std::string generic_string() const { return s; }
    std::u8string u8string() const { return std::u8string(reinterpret_cast<const char8_t*>(s.data()), s.size()); }
    std::u8string generic_u8string() const { return u8string(); }
    inline int compare(const path& o) const noexcept;
    int compare(std::string_view o) const { return compare(path(o)); }
    int compare(const char* o) const { return compare(path(o)); }
    int compare(const std::string& o) const { return compare(path(o)); }
    path root_name() const { return {}; }
    path root_directory() const { return rootLen() ? path("/") : path(); }
    path root_path() const { return root_directory(); }
    path relative_path() const { return path(s.substr(rootLen())); }
    path parent_path() const {
        if (rootLen() == s.size()) return *this;
        size_t f = fnPos();
        size_t e = f;
        while (e > 0 && s[e - 1] == '/') e--;
        if (e == 0) return path(s.substr(0, f ? 1 : 0));
        return path(s.substr(0, e));
    }
    path filename() const { return path(s.substr(fnPos())); }
    path stem() const { size_t f = fnPos(), e = extPos(f); return path(e == std::string::npos ? s.substr(f) : s.substr(f, e - f)); }
    path extension() const { size_t e = extPos(fnPos()); return e == std::string::npos ? path() : path(s.substr(e)); }
    [[nodiscard]] bool empty() const noexcept { return s.empty(); }
    bool has_root_path() const noexcept { return rootLen(); }
    bool has_root_name() const noexcept { return false; }
    bool has_root_directory() const noexcept { return rootLen(); }
    bool has_relative_path() const noexcept { return rootLen() < s.size(); }
    bool has_parent_path() const { return !parent_path().empty(); }
    bool has_filename() const noexcept { return fnPos() < s.size(); }
    bool has_stem() const { return has_filename(); }
    bool has_extension() const { return extPos(fnPos()) != std::string::npos; }
    bool is_absolute() const noexcept { return rootLen(); }
    bool is_relative() const noexcept { return !rootLen(); }

    class iterator;
    using const_iterator = iterator;
    inline iterator begin() const;
    inline iterator end() const;

    path lexically_normal() const {
        // [fs.path.generic] normalisation
        if (rootLen() == s.size()) return *this;
        if (s.empty()) return *this;
        std::vector<std::string> out;
        bool abs = is_absolute(), dirEnd = false;
        size_t i = rootLen(), n = s.size();
        while (i < n) {
            size_t e = s.find('/', i);
            if (e == std::string::npos) e = n;
            std::string c = s.substr(i, e - i);
            bool last = e == n;
            if (c == ".") { dirEnd = true; }
            else if (c == "..") {
                if (!out.empty() && out.back() != "..") { out.pop_back(); dirEnd = true; }
                else if (abs && out.empty()) { dirEnd = false; }
                else { out.push_back(c); dirEnd = false; }
            }
            else { out.push_back(c); dirEnd = !last; }
            while (e < n && s[e] == '/') e++;
            i = e;
        }
        std::string r = abs ? "/" : "";
        for (size_t k = 0; k < out.size(); k++) { if (k) r += '/'; r += out[k]; }
        if (!out.empty() && dirEnd && out.back() != "..") r += '/';
        if (r.empty()) r = ".";
        return path(r);
    }
    inline path lexically_relative(const path& base) const;
    path lexically_proximate(const path& base) const { path r = lexically_relative(base); return r.empty() ? *this : r; }
    friend path operator/(const path& a, const path& b) { path r(a); r /= b; return r; }
    friend bool operator==(const path& a, const path& b) noexcept { return a.compare(b) == 0; }
    friend std::strong_ordering operator<=>(const path& a, const path& b) noexcept { return a.compare(b) <=> 0; }
    template<typename C, typename T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const path&) { return os; }
};
class path::iterator {
    const path* p = nullptr;
    size_t b = 0, e = 0; // current component
    bool atEnd = true;
    mutable path cur;
    friend class path;
    iterator(const path* q, bool end) : p(q), atEnd(end) {
        if (end || q->s.empty()) { atEnd = true; b = e = q->s.size(); return; }
        size_t r = q->rootLen();
        if (r) { b = 0; e = r; } else { e = q->s.find('/'); if (e == std::string::npos) e = q->s.size(); }
        load();
    }
    void load() { size_t r = p->rootLen(); cur = b < r && r < p->s.size() ? path("/") : path(p->s.substr(b, e - b)); }
public:
    using difference_type = std::ptrdiff_t;
    using value_type = path;
    using reference = const path&;
    using pointer = const path*;
    using iterator_category = std::bidirectional_iterator_tag;
    iterator() = default;
    reference operator*() const { return cur; }
    pointer operator->() const { return &cur; }
    iterator& operator++() {
        size_t n = p->s.size();
        size_t r = p->rootLen();
        if (e == n) { // past the last component
            if (b < e && e > r && false) {}
            atEnd = true; b = e = n; return *this;
        }
        size_t x = e;
        if (!(b < r)) while (x < n && p->s[x] == '/') x++; // separators after a component
        else x = r;
        if (x == n && !(b < r)) { if (trailing) { atEnd = true; b = e = n; return *this; } trailing = true; b = n; e = n; load(); return *this; }
        b = x;
        e = p->s.find('/', x);
        if (e == std::string::npos) e = n;
        load();
        return *this;
    }
    iterator operator++(int) { auto t = *this; ++*this; return t; }
    iterator& operator--() { // from the start: position is small
        iterator i(p, false), prev = i;
        while (!(i == *this)) { prev = i; ++i; }
        *this = prev;
        return *this;
    }
    iterator operator--(int) { auto t = *this; --*this; return t; }
    friend bool operator==(const iterator& x, const iterator& y) { return x.atEnd == y.atEnd && (x.atEnd || (x.b == y.b && x.e == y.e)); }
private:
    bool trailing = false;
};
inline path::iterator path::begin() const { return iterator(this, false); }
inline path::iterator path::end() const { return iterator(this, true); }
inline int path::compare(const path& o) const noexcept {
        bool ra = is_absolute(), rb = o.is_absolute();
        if (ra != rb) return ra ? 1 : -1;
        auto i = begin(), j = o.begin();
        for (; i != end() && j != o.end(); ++i, ++j) { int c = i->is_absolute() && j->is_absolute() ? 0 : i->s.compare(j->s); if (c) return c; }
        return i != end() ? 1 : j != o.end() ? -1 : 0;
    }
inline path path::lexically_relative(const path& base) const {
        if (is_absolute() != base.is_absolute()) return {};
        auto a = begin(); auto b = base.begin();
        while (a != end() && b != base.end() && (a->s == b->s || (a->is_absolute() && b->is_absolute()))) { ++a; ++b; }
        if (a == end() && b == base.end()) return path(".");
        int n = 0;
        for (; b != base.end(); ++b) { if (b->s == "..") n--; else if (!b->s.empty() && b->s != ".") n++; }
        if (n < 0) return {};
        if (n == 0 && (a == end() || a->s.empty())) return path(".");
        path r;
        while (n-- > 0) r /= path("..");
        for (; a != end(); ++a) r /= *a;
        return r;
    }
inline void swap(path& a, path& b) noexcept { a.swap(b); }
inline std::size_t hash_value(const path& p) noexcept { return std::hash<std::string>()(p.lexically_normal().string()); }
inline path u8path(std::string_view s) { return path(s); }

#ifdef VF_FS_STREAM
// ---- the file system
enum class file_type : signed char { none = 0, not_found = -1, regular = 1, directory = 2, unknown = 8 };
enum class perms : unsigned { none = 0, unknown = 0xFFFF };
enum class copy_options : unsigned short { none = 0 };
enum class directory_options : unsigned char { none = 0 };
class file_status { file_type t; public: file_status(file_type x = file_type::none) : t(x) {} file_type type() const { return t; } };
class filesystem_error : public std::system_error {
    path p;
public:
    filesystem_error(const std::string& w, std::error_code ec) : std::system_error(ec, w) {}
    filesystem_error(const std::string& w, const path& a, std::error_code ec) : std::system_error(ec, w), p(a) {}
    const path& path1() const noexcept { return p; }
};
struct VfFile { std::string name; std::string data; };
inline std::vector<VfFile>& vfFiles() { static std::vector<VfFile> v; return v; }
// absolute form without ".", ".." and repeated separators; trailing: named as a directory
inline std::string vfCanon(const path& p, bool& trailing) {
    std::string s = p.native(), r;
    if (s.empty()) { trailing = false; return r; }
    if (s[0] != '/') s = "/vf/root/" + s;
    trailing = s.back() == '/' || (s.size() >= 2 && s.compare(s.size() - 2, 2, "/.") == 0) || (s.size() >= 3 && s.compare(s.size() - 3, 3, "/..") == 0);
    size_t i = 0, n = s.size();
    while (i < n) {
        while (i < n && s[i] == '/') i++;
        size_t e = s.find('/', i);
        if (e == std::string::npos) e = n;
        std::string c = s.substr(i, e - i);
        if (c == "..") { size_t k = r.rfind('/'); r.erase(k == std::string::npos ? 0 : k); }
        else if (!c.empty() && c != ".") { r += '/'; r += c; }
        i = e;
    }
    return r;
}
inline VfFile* vfFind(const path& p, bool& dir) {
    dir = false;
    bool tr = false;
    if (p.native().find('\0') != std::string::npos) return vfFind(path(p.native().substr(0, p.native().find('\0'))), dir);
    std::string c = vfCanon(p, tr);
    if (p.empty()) return nullptr;
    for (auto& f : vfFiles()) {
        if (f.name == c) return tr ? nullptr : &f;
        if (f.name.size() > c.size() && f.name.compare(0, c.size(), c) == 0 && f.name[c.size()] == '/') dir = true;
    }
    if (c.empty()) dir = true;
    return nullptr;
}
inline file_status status(const path& p) { bool d; return vfFind(p, d) ? file_status(file_type::regular) : d ? file_status(file_type::directory) : file_status(file_type::not_found); }
inline file_status status(const path& p, std::error_code& ec) noexcept { auto s = status(p); if (s.type() == file_type::not_found) ec = std::make_error_code(std::errc::no_such_file_or_directory); else ec.clear(); return s; }
inline file_status symlink_status(const path& p) { return status(p); }
inline bool exists(file_status s) noexcept { return s.type() != file_type::none && s.type() != file_type::not_found; }
inline bool exists(const path& p) { return exists(status(p)); }
inline bool exists(const path& p, std::error_code& ec) noexcept { ec.clear(); return exists(status(p)); }
inline bool is_regular_file(file_status s) noexcept { return s.type() == file_type::regular; }
inline bool is_regular_file(const path& p) { return is_regular_file(status(p)); }
inline bool is_regular_file(const path& p, std::error_code& ec) noexcept { return is_regular_file(status(p, ec)); }
inline bool is_directory(file_status s) noexcept { return s.type() == file_type::directory; }
inline bool is_directory(const path& p) { return is_directory(status(p)); }
inline bool is_directory(const path& p, std::error_code& ec) noexcept { return is_directory(status(p, ec)); }
inline bool is_symlink(const path&) { return false; }
inline bool is_symlink(const path&, std::error_code& ec) noexcept { ec.clear(); return false; }
inline std::uintmax_t file_size(const path& p, std::error_code& ec) noexcept { bool d; auto* f = vfFind(p, d); if (!f) { ec = std::make_error_code(d ? std::errc::is_a_directory : std::errc::no_such_file_or_directory); return static_cast<std::uintmax_t>(-1); } ec.clear(); return f->data.size(); }
inline std::uintmax_t file_size(const path& p) { std::error_code ec; auto r = file_size(p, ec); if (ec) throw filesystem_error("file_size", p, ec); return r; }
inline bool is_empty(const path& p) { return file_size(p) == 0; }
inline path current_path() { return path("/vf/root"); }
inline path current_path(std::error_code& ec) { ec.clear(); return path("/vf/root"); }
inline path absolute(const path& p) { return current_path() / p; }
inline path absolute(const path& p, std::error_code& ec) { ec.clear(); return absolute(p); }
inline path weakly_canonical(const path& p) { return absolute(p).lexically_normal(); }
inline path weakly_canonical(const path& p, std::error_code& ec) { ec.clear(); return weakly_canonical(p); }
inline path canonical(const path& p, std::error_code& ec) { status(p, ec); return ec ? path() : weakly_canonical(p); }
inline path canonical(const path& p) { std::error_code ec; auto r = canonical(p, ec); if (ec) throw filesystem_error("canonical", p, ec); return r; }
inline path relative(const path& p, const path& base = current_path()) { return weakly_canonical(p).lexically_relative(weakly_canonical(base)); }
inline path proximate(const path& p, const path& base = current_path()) { return weakly_canonical(p).lexically_proximate(weakly_canonical(base)); }
inline bool equivalent(const path& a, const path& b) { return weakly_canonical(a) == weakly_canonical(b); }
inline path temp_directory_path() { return path("/tmp"); }
#endif
}
#ifdef VF_FS_STREAM
namespace std {
template<> struct hash<filesystem::path> { size_t operator()(const filesystem::path& p) const noexcept { return filesystem::hash_value(p); } };
// input file stream: the state machine of std::basic_ifstream<char> over an in-memory file
template<> class basic_ifstream<char, char_traits<char>> {
    filesystem::VfFile* f = nullptr;
    bool isOpen = false, dir = false;
    size_t pos = 0;
    streamsize cnt = 0;
    unsigned st = 0; // ios_base::iostate bits: bad 1, eof 2, fail 4
    enum { kBad = 1, kEof = 2, kFail = 4 };
public:
    using char_type = char;
    using int_type = int;
    using pos_type = long;
    using off_type = long;
    basic_ifstream() = default;
    explicit basic_ifstream(const char* n, ios_base::openmode m = ios_base::in) { open(n, m); }
    explicit basic_ifstream(const std::string& n, ios_base::openmode m = ios_base::in) { open(n, m); }
    explicit basic_ifstream(const filesystem::path& n, ios_base::openmode m = ios_base::in) { open(n, m); }
    basic_ifstream(basic_ifstream&& o) noexcept : f(o.f), isOpen(o.isOpen), dir(o.dir), pos(o.pos), cnt(o.cnt), st(o.st) { o.f = nullptr; o.isOpen = false; o.cnt = 0; }
    basic_ifstream& operator=(basic_ifstream&& o) noexcept { if (this != &o) { f = o.f; isOpen = o.isOpen; dir = o.dir; pos = o.pos; cnt = o.cnt; st = o.st; o.f = nullptr; o.isOpen = false; o.cnt = 0; } return *this; }
    void swap(basic_ifstream& o) { basic_ifstream t(std::move(o)); o = std::move(*this); *this = std::move(t); }
    void open(const filesystem::path& n, ios_base::openmode m = ios_base::in) {
        if (isOpen) { st |= kFail; return; }
        bool d = false;
        f = filesystem::vfFind(n, d);
        dir = !f && d;
        isOpen = f || dir;
        pos = 0;
        if (!isOpen) { st |= kFail; return; }
        st = 0;
        if ((m & ios_base::ate) && f) pos = f->data.size();
    }
    void open(const std::string& n, ios_base::openmode m = ios_base::in) { open(filesystem::path(n), m); }
    void open(const char* n, ios_base::openmode m = ios_base::in) { open(filesystem::path(n), m); }
    bool is_open() const { return isOpen; }
    void close() { if (!isOpen) st |= kFail; isOpen = false; f = nullptr; dir = false; }
    basic_ifstream& read(char* b, streamsize n) {
        cnt = 0;
        if (st) { st |= kFail; return *this; }
        if (dir) { if (n > 0) st |= kBad; return *this; }
        if (!isOpen) { if (n > 0) st |= kEof | kFail; return *this; }
        size_t left = f->data.size() - pos;
        cnt = n < 0 ? 0 : (size_t)n < left ? n : (streamsize)left;
        if (cnt) memcpy(b, f->data.data() + pos, (size_t)cnt);
        pos += (size_t)cnt;
        if (cnt != n) st |= kEof | kFail;
        return *this;
    }
    streamsize readsome(char* b, streamsize n) { cnt = 0; if (st) { st |= kFail; return 0; } size_t left = f ? f->data.size() - pos : 0; return read(b, n < (streamsize)left ? n : (streamsize)left).cnt; }
    int get() { char c; cnt = 0; if (st) { st |= kFail; return -1; } if (!f || pos >= f->data.size()) { st |= kEof | kFail; return -1; } c = f->data[pos++]; cnt = 1; return (unsigned char)c; }
    basic_ifstream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
    int peek() { cnt = 0; if (st) { return -1; } if (!f || pos >= f->data.size()) { st |= kEof; return -1; } return (unsigned char)f->data[pos]; }
    streamsize gcount() const { return cnt; }
    bool eof() const { return st & kEof; }
    bool fail() const { return st & (kFail | kBad); }
    bool bad() const { return st & kBad; }
    bool good() const { return st == 0; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    void clear() { st = 0; }
    long tellg() { return fail() ? -1 : (long)pos; }
    basic_ifstream& seekg(long p) { st &= ~(unsigned)kEof; if (!fail()) pos = (size_t)p; return *this; }
    basic_ifstream& seekg(long p, ios_base::seekdir d) { st &= ~(unsigned)kEof; if (!fail()) pos = (size_t)((d == ios_base::end ? (long)(f ? f->data.size() : 0) : d == ios_base::cur ? (long)pos : 0) + p); return *this; }
};
}
extern "C" {
inline const char* vf_root() { return "/vf/root"; }
inline void vf_file_add(const char* p, unsigned long n, const void* d, unsigned long m) {
    bool t;
    std::filesystem::vfFiles().push_back({std::filesystem::vfCanon(std::filesystem::path(std::string_view(p, n)), t), std::string(static_cast<const char*>(d), m)});
}
}
#endif
