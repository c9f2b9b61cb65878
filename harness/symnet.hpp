// A network whose scheduling is chosen by the harness: accepted connections, bytes arriving in pieces, writes that progress in pieces, errors, aborts.
// Behaves as the Networking TS does: no handler runs inside the call that starts the operation; a write reads the caller's buffers while it progresses,
// a read fills the caller's buffer when it completes; operations of one kind queue up in the order they were started; a composed write that was only partly
// taken queues up again behind the others; close() aborts what is pending.
#pragma once
#include "vf.h"
#include "networking/BasicNetworking.hpp"
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <system_error>
#include <vector>

namespace symnet {
using webfront::networking::buffers::ConstBuffer;
using webfront::networking::buffers::MutableBuffer;
using Handler = std::move_only_function<void(std::error_code, std::size_t)>;
inline std::error_code aborted() { return std::make_error_code(std::errc::operation_canceled); }
// any error but the one which close() causes
inline std::error_code anyError() {
    int e = (int)vf_range("error", 1, 133);
    vf_assume(e != (int)std::errc::operation_canceled);
    return {e, std::generic_category()};
}

struct ReadOp { MutableBuffer b; Handler h; };
struct WriteOp { std::vector<ConstBuffer> bufs; size_t done = 0, total = 0; Handler h; };
struct Done { Handler h; std::error_code ec; size_t n; };

struct Conn { // one accepted connection, server side
    bool open = true, shut = false, shutdownThrows = false;
    std::deque<ReadOp> reads;
    std::deque<WriteOp> writes;
    std::deque<Done> ready; // completed, handler still to run
    std::string sent;       // what the peer received
    size_t writeOps = 0, readOps = 0, maxReads = 0, maxWrites = 0;

    void close() {
        open = false;
        for (auto& r : reads) ready.push_back({std::move(r.h), aborted(), 0});
        for (auto& w : writes) ready.push_back({std::move(w.h), aborted(), w.done});
        reads.clear();
        writes.clear();
    }
    // --- the environment's moves; each returns false if there is nothing to do
    bool runReady() {
        if (ready.empty()) return false;
        Done d = std::move(ready.front());
        ready.pop_front();
        d.h(d.ec, d.n);
        return true;
    }
    bool wantsData() const { return open && !reads.empty(); }
    // n bytes arrive; returns how many the pending read took
    size_t deliver(const void* p, size_t n) {
        ReadOp r = std::move(reads.front());
        reads.pop_front();
        size_t k = n < r.b.size() ? n : r.b.size();
        if (k) std::memcpy(r.b.data(), p, k);
        r.h({}, k);
        return k;
    }
    // the same, but its handler only runs later
    size_t fill(const void* p, size_t n) {
        ReadOp r = std::move(reads.front());
        reads.pop_front();
        size_t k = n < r.b.size() ? n : r.b.size();
        if (k) std::memcpy(r.b.data(), p, k);
        ready.push_back({std::move(r.h), {}, k});
        return k;
    }
    bool failRead(std::error_code ec) {
        if (!wantsData()) return false;
        ReadOp r = std::move(reads.front());
        reads.pop_front();
        r.h(ec, 0);
        return true;
    }
    bool failWrite(std::error_code ec) {
        if (!open || writes.empty()) return false;
        WriteOp w = std::move(writes.front());
        writes.pop_front();
        w.h(ec, w.done);
        return true;
    }
    // the first pending write moves on by at most n bytes; its handler runs once it is complete
    bool progress(size_t n = ~size_t(0)) {
        if (!open || writes.empty()) return false;
        WriteOp w = std::move(writes.front());
        writes.pop_front();
        size_t skip = w.done;
        for (auto& b : w.bufs) {
            if (skip >= b.size()) { skip -= b.size(); continue; }
            size_t k = b.size() - skip;
            if (k > n) k = n;
            sent.append(static_cast<const char*>(b.data()) + skip, k);
            w.done += k;
            n -= k;
            skip = 0;
            if (!n) break;
        }
        if (w.done < w.total) { writes.push_back(std::move(w)); return true; }
        w.h({}, w.done);
        return true;
    }
};
using Ref = std::shared_ptr<Conn>;

class Socket {
    Ref c;
public:
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    Socket() = default;
    explicit Socket(Ref r) : c(std::move(r)) {}
    Socket(Socket&& o) noexcept : c(std::move(o.c)) { o.c.reset(); }
    Socket& operator=(Socket&& o) noexcept { if (this != &o) { close(); c = std::move(o.c); o.c.reset(); } return *this; }
    Socket(const Socket&) = delete;
    Socket& operator=(const Socket&) = delete;
    ~Socket() { close(); }
    bool is_open() const { return c && c->open; }
    void close() { if (is_open()) c->close(); }
    void close(std::error_code& ec) { ec.clear(); close(); }
    void cancel() { if (is_open()) { c->close(); c->open = true; } }
    void shutdown(shutdown_type t) { std::error_code ec; shutdown(t, ec); if (ec) throw std::system_error(ec, "shutdown"); }
    void shutdown(shutdown_type, std::error_code& ec) {
        ec.clear();
        if (!is_open()) { ec = std::make_error_code(std::errc::bad_file_descriptor); return; }
        if (c->shutdownThrows) { ec = std::make_error_code(std::errc::not_connected); return; }
        c->shut = true;
    }
    template<typename H> void async_read_some(const MutableBuffer& b, H&& h) { startRead(b, Handler(std::forward<H>(h))); }
    void startRead(MutableBuffer b, Handler h);
    void startWrite(std::vector<ConstBuffer> b, Handler h);
    template<typename H> void async_write_some(const ConstBuffer& b, H&& h) { startWrite({b}, Handler(std::forward<H>(h))); }
};

struct World {
    std::deque<Done> orphans; // operations started on a closed socket
    std::move_only_function<void(std::error_code, Socket)> acceptor;
    bool acceptorOpen = false;
    std::vector<Ref> conns;
    // a client connects; false: nobody accepts
    bool connect(std::error_code ec = {}) {
        if (!acceptor || !acceptorOpen) return false;
        auto h = std::move(acceptor);
        acceptor = nullptr;
        auto c = std::make_shared<Conn>();
        conns.push_back(c);
        h(ec, Socket(c));
        return true;
    }
    bool runOrphan() {
        if (orphans.empty()) return false;
        Done d = std::move(orphans.front());
        orphans.pop_front();
        d.h(d.ec, d.n);
        return true;
    }
    // completes everything that needs no decision; at most n handlers
    void settle(size_t n = 64) {
        for (bool more = true; more && n;) {
            more = false;
            if (runOrphan()) { more = true; n--; }
            for (size_t i = 0; i < conns.size() && n; i++)
                if (conns[i]->runReady() || conns[i]->progress()) { more = true; n--; }
        }
    }
};
inline World& world() { static World* w = new World; return *w; }
inline void Socket::startRead(MutableBuffer b, Handler h) {
    if (!is_open()) { world().orphans.push_back({std::move(h), std::make_error_code(std::errc::bad_file_descriptor), 0}); return; }
    c->reads.push_back({b, std::move(h)});
    c->readOps++;
    if (c->reads.size() > c->maxReads) c->maxReads = c->reads.size();
}
inline void Socket::startWrite(std::vector<ConstBuffer> b, Handler h) {
    if (!is_open()) { world().orphans.push_back({std::move(h), std::make_error_code(std::errc::bad_file_descriptor), 0}); return; }
    WriteOp w;
    for (auto& x : b) w.total += x.size();
    w.bufs = std::move(b);
    w.h = std::move(h);
    c->writes.push_back(std::move(w));
    c->writeOps++;
    if (c->writes.size() > c->maxWrites) c->maxWrites = c->writes.size();
}
inline Ref newConn() { auto c = std::make_shared<Conn>(); world().conns.push_back(c); return c; }

class IoContext { public: void run() {} void run_one() {} void stop() {} };
class Endpoint { public: int protocol() const { return 4; } };
class Resolver {
public:
    explicit Resolver(IoContext&) {}
    std::list<Endpoint> resolve(std::string_view, std::string_view) { return {Endpoint{}}; }
};
class Acceptor {
public:
    struct reuse_address { explicit reuse_address(bool) {} };
    explicit Acceptor(IoContext&) {}
    void open(int) { world().acceptorOpen = true; }
    void set_option(reuse_address) {}
    void bind(const Endpoint&) {}
    void listen(int = 0) {}
    void close() { world().acceptorOpen = false; }
    bool is_open() const { return world().acceptorOpen; }
    template<typename H> void async_accept(H&& h) { world().acceptor = std::forward<H>(h); }
};

class Net : public webfront::networking::BasicNetworking<> {
    using super = webfront::networking::BasicNetworking<>;
public:
    using Acceptor = symnet::Acceptor;
    using Endpoint = symnet::Endpoint;
    using IoContext = symnet::IoContext;
    using Resolver = symnet::Resolver;
    using Socket = symnet::Socket;
    using super::ConstBuffer;
    using super::MutableBuffer;
    template<typename B, typename H> static void AsyncWrite(Socket& s, const B& bufs, H&& h) {
        if constexpr (std::is_convertible_v<B, ConstBuffer>) s.startWrite({ConstBuffer(bufs)}, Handler(std::forward<H>(h)));
        else s.startWrite(std::vector<ConstBuffer>(bufs.begin(), bufs.end()), Handler(std::forward<H>(h)));
    }
    struct Error { static inline const auto OperationAborted = std::make_error_code(std::errc::operation_canceled); };
};
} // namespace symnet
