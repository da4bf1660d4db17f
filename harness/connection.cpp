// one HTTP connection between its ghost network and the answers of its request handler
#include <map>
#include <list>
#include "wsnet.hpp"
#include "http/HTTPServer.hpp"
using namespace webfront;
using namespace webfront::http;
struct GFS {
    explicit GFS(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p);
    char unused;
};
using H = RequestHandler<GNet, GFS>;
using C = Connection<GNet, GFS>;
extern "C" void g_upgrade(GSocket* s, int protocol);
extern "C" int g_pending(int which); // 0 the read, 1 the write
extern "C" void g_started(C* c);
extern "C" void g_read_done(C* c, int which);
static void resume(std::error_code* ec, size_t n) {
    void* h;
    GDone f;
    g_resume(&h, &f);
    f(h, ec, n);
}
// a connection, the completion of its first read, of the second read if there is one, and of its write if there is one
extern "C" void c_life(C* c, GSocket* s, Connections<C>* all, H* handler, bool upgrades, std::error_code* ec, size_t n1, size_t n2, size_t n3) {
    new (c) C(std::move(*s), *all, *handler);
    if (upgrades) c->onUpgrade = [](GSocket&& k, Protocol p) { g_upgrade(&k, static_cast<int>(p)); };
    all->start(c->shared_from_this());
    g_started(c);
    resume(ec, n1);
    g_read_done(c, 1);
    if (g_pending(0)) {
        resume(ec + 1, n2);
        g_read_done(c, 2);
    }
    if (g_pending(1)) resume(ec + 2, n3);
}
using V = Server<GNet, GFS>;
extern "C" void g_accepting(void** handler, void (**invoke)(void*, std::error_code*, GSocket*));
extern "C" C* g_accepted();
// a server, the completion of an accept, and an upgrade of the connection it started
extern "C" void v_accept(V* v, bool upgrades, std::error_code* ec, GSocket* s, GSocket* k) {
    new (v) V("0.0.0.0", "80");
    if (upgrades) v->onUpgrade([](GSocket&& x, Protocol p) { g_upgrade(&x, static_cast<int>(p)); });
    void* h;
    void (*f)(void*, std::error_code*, GSocket*);
    g_accepting(&h, &f);
    f(h, ec, s);
    if (auto c = g_accepted(); c && c->onUpgrade) c->onUpgrade(std::move(*k), Protocol::WebSocket);
}
