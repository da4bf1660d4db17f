// network provider for contract proofs: real BasicNetworking buffers, ghost socket operations
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <list>
#include <string>
#include <system_error>
#include <vector>
#include "networking/BasicNetworking.hpp"
struct GSocket;
struct GBuffer { const void* p; size_t n; };
// ghost operations: the proofs give their contracts
using GDone = void (*)(void* handler, std::error_code* ec, size_t n);
template<typename H> void gInvoke(void* h, std::error_code* ec, size_t n) { (*static_cast<H*>(h))(*ec, n); }
extern "C" void g_read(GSocket* s, void* p, size_t n, void* handler, GDone invoke);
extern "C" void g_close(GSocket* s);
extern "C" void g_shutdown(GSocket* s, int how);
extern "C" void g_write(GSocket* s, const void* buffers, size_t count, void* handler, GDone invoke);
extern "C" void g_resume(void** handler, GDone* invoke); // a pending operation
extern "C" void g_accept(void* acceptor, void* handler, void (*invoke)(void*, std::error_code*, GSocket*));
extern "C" bool g_open(const void* acceptor);
extern "C" void g_moved(GSocket* from, GSocket* to);
struct GSocket {
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    int id{};
    GSocket() = default;
    GSocket(GSocket&& o) : id(o.id) { o.id = 0; }
    GSocket& operator=(GSocket&& o) { id = o.id; o.id = 0; return *this; }
    template<typename H> void async_read_some(webfront::networking::buffers::MutableBuffer b, H h) { g_read(this, b.data(), b.size(), new H(std::move(h)), &gInvoke<H>); }
    void close() { g_close(this); }
    void shutdown(shutdown_type t) { g_shutdown(this, t); }
};
struct GErr : std::error_code {};
struct GNet : webfront::networking::BasicNetworking<> {
    using Socket = GSocket;
    struct IoContext { void run() {} void run_one() {} };
    struct Endpoint { std::string p; auto protocol() { return p; } };
    struct Resolver { Resolver(IoContext&) {} std::array<Endpoint, 1> resolve(std::string_view, std::string_view p) { return {Endpoint{std::string(p)}}; } };
    struct Acceptor {
        struct reuse_address { bool v; };
        Acceptor(IoContext&) {}
        void open(auto) {}
        void set_option(reuse_address) {}
        void bind(const Endpoint&) {}
        void listen(int = 5) {}
        bool is_open() const { return g_open(this); }
        template<typename H> void async_accept(H h) { g_accept(this, new H(std::move(h)), [](void* k, std::error_code* ec, GSocket* s) { (*static_cast<H*>(k))(*ec, std::move(*s)); }); }
    };
    template<typename WH> static void AsyncWrite(Socket& s, const std::vector<ConstBuffer>& b, WH h) { auto keep = new WH(std::move(h)); g_write(&s, b.data(), b.size(), keep, &gInvoke<WH>); }
    struct Error { static constexpr int OperationAborted = 125; };
};
inline bool operator==(const std::error_code& e, int v) { return e.value() == v; }
