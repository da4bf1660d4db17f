// a network whose reads and writes complete when the test says so
#pragma once
#include "oracle.hpp"
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <optional>
#include <span>
#include <system_error>
#include <utility>
#include <filesystem>
#include <fstream>
#include <networking/BasicNetworking.hpp>
inline struct QuietNet { QuietNet() { std::cout.setstate(std::ios::badbit); std::clog.setstate(std::ios::badbit); } } quietNet;

using Handler = std::function<void(std::error_code, std::size_t)>;
struct Wire {
    struct Write { std::vector<webfront::networking::buffers::ConstBuffer> buffers; std::string atCall; Handler handler; };
    std::deque<Write> writes;           // started, not completed
    std::vector<std::string> done;      // bytes of each completed write
    std::vector<std::string> started;   // bytes of each write when it was started
    webfront::networking::buffers::MutableBuffer readBuffer;
    Handler reader;
    int closed = 0, shutdowns = 0, reads = 0, readsWhileReading = 0;
    bool bothWays = true;               // of the shutdowns
    std::string sent() const { std::string r; for (auto& d : started) r += d; return r; }
    static std::string flat(const std::vector<webfront::networking::buffers::ConstBuffer>& bs) {
        std::string r;
        for (auto& b : bs) if (b.size()) r.append(static_cast<const char*>(b.data()), b.size());
        return r;
    }
    bool reading() const { return bool(reader); }
    // one network read of at most the buffer size; returns the bytes taken
    size_t deliver(std::string_view s) {
        if (!reader) return 0;
        auto n = std::min(s.size(), readBuffer.size());
        if (n) memcpy(readBuffer.data(), s.data(), n);
        auto h = std::move(reader);
        reader = nullptr;
        h({}, n);
        return n;
    }
    void fail(std::error_code ec) {
        if (!reader) return;
        auto h = std::move(reader);
        reader = nullptr;
        h(ec, 0);
    }
    bool complete(std::error_code ec = {}) {
        if (writes.empty()) return false;
        auto w = std::move(writes.front());
        writes.pop_front();
        auto now = flat(w.buffers);      // AddressSanitizer sees buffers which did not stay valid
        same(now, w.atCall, "buffers changed while they were being written");
        if (!ec) done.push_back(now);
        w.handler(ec, ec ? 0 : now.size());
        return true;
    }
    void completeAll() { while (complete()) {} }
};
struct TNet : webfront::networking::BasicNetworking<> {
    struct IoContext { void run() {} void run_one() {} };
    struct Endpoint { std::string p; auto protocol() { return p; } };
    struct Socket {
        enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
        std::shared_ptr<Wire> wire;
        Socket() = default;
        explicit Socket(std::shared_ptr<Wire> w) : wire(std::move(w)) {}
        Socket(Socket&&) = default;
        Socket& operator=(Socket&&) = default;
        void async_read_some(MutableBuffer b, Handler h) {
            if (!wire) fail("read on a socket that was handed over");
            wire->reads++;
            if (wire->reader) wire->readsWhileReading++;
            wire->readBuffer = b;
            wire->reader = std::move(h);
        }
        void close() { if (wire) wire->closed++; }
        void shutdown(shutdown_type t) { if (!wire) fail("shutdown of a socket that was handed over"); wire->shutdowns++; wire->bothWays = wire->bothWays && t == shutdown_both; }
    };
    struct Resolver { Resolver(IoContext&) {} std::list<Endpoint> resolve(std::string_view, std::string_view p) { return {Endpoint{std::string(p)}}; } };
    struct Acceptor {
        struct reuse_address { bool v; };
        inline static std::function<void(std::error_code, Socket)> acceptHandler;
        bool opened = false;
        Acceptor(IoContext&) {}
        void open(auto) { opened = true; }
        void set_option(reuse_address) {}
        void bind(const Endpoint&) {}
        void listen(int = 5) {}
        bool is_open() const { return opened; }
        void async_accept(std::function<void(std::error_code, Socket)> h) { acceptHandler = std::move(h); }
    };
    template<typename WriteHandler>
    static void AsyncWrite(Socket& s, const std::vector<ConstBuffer>& buffers, WriteHandler h) {
        if (!s.wire) oracle::fail("write on a socket that was handed over");
        auto text = Wire::flat(buffers);
        s.wire->started.push_back(text);
        s.wire->writes.push_back({buffers, text, h});
    }
    struct Error { static inline const auto OperationAborted = std::make_error_code(std::errc::operation_canceled); };
};
inline std::shared_ptr<Wire> accept(std::error_code ec = {}) {
    auto w = std::make_shared<Wire>();
    auto h = std::exchange(TNet::Acceptor::acceptHandler, nullptr);
    EXPECT(bool(h), "the server does not accept connections any more");
    h(ec, TNet::Socket(w));
    return w;
}
// one frame as a server puts it on the wire: {opcode byte, payload}; removes it from s
struct WsFrame { uint8_t first; std::string payload; };
inline WsFrame takeFrame(std::string_view& s) {
    if (s.size() < 2) fail("truncated frame header");
    WsFrame f{uint8_t(s[0]), {}};
    uint8_t l = uint8_t(s[1]);
    EXPECT(!(l & 128), "server frame is masked");
    uint64_t n = l;
    size_t h = 2;
    if (l == 126) { if (s.size() < 4) fail("truncated frame header"); n = uint8_t(s[2]) * 256u + uint8_t(s[3]); h = 4; EXPECT(n >= 126, "length field is not minimal"); }
    if (l == 127) { if (s.size() < 10) fail("truncated frame header"); n = 0; for (int i = 2; i < 10; ++i) n = n * 256 + uint8_t(s[i]); h = 10; EXPECT(n >= 65536, "length field is not minimal"); }
    if (s.size() - h < n) fail("frame shorter than its length field");
    f.payload = std::string(s.substr(h, n));
    s.remove_prefix(h + n);
    return f;
}
// form: 0 minimal length, 1 16-bit, 2 64-bit
inline std::string clientFrame(uint8_t first, std::string_view payload, bool masked, uint32_t key, int form = 0) {
    std::string r(1, char(first));
    size_t n = payload.size();
    if (form == 0) form = n < 126 ? 0 : n < 65536 ? 1 : 2; 
    uint8_t m = masked ? 128 : 0;
    if (form == 0) r += char(m | n);
    else if (form == 1) { r += char(m | 126); r += char(n >> 8); r += char(n); }
    else { r += char(m | 127); for (int i = 7; i >= 0; --i) r += char(uint64_t(n) >> (8 * i)); }
    char k[4] = {char(key), char(key >> 8), char(key >> 16), char(key >> 24)};
    if (masked) r.append(k, 4);
    for (size_t i = 0; i < n; ++i) r += masked ? char(payload[i] ^ k[i % 4]) : payload[i];
    return r;
}
