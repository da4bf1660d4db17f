// the top-level object, its links and registered functions over the ghost network
#include <map>
#include <list>
#include <functional>
#include <span>
#include <tuple>
#include "wsnet.hpp"
#include "WebFront.hpp"
using namespace webfront;
using Bytes = std::span<const std::byte>;
struct GFS {
    explicit GFS(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p);
    char unused;
};
using WF = BasicWF<GNet, GFS>;
using L = WebLink<GNet>;
using C = http::Connection<GNet, GFS>;
extern "C" void g_accepting(void** handler, void (**invoke)(void*, std::error_code*, GSocket*));
extern "C" C* g_accepted();
extern "C" void g_event(WebLinkEvent*);
extern "C" void g_ui(WF* wf, uint16_t id);
extern "C" L* g_link();
extern "C" void g_registered(std::function<void(Bytes)>* any);
extern "C" void g_any(const std::byte* p, size_t n);
static void make(WF* wf) {
    new (wf) WF("80");
    wf->onUIStarted([](WF::UI ui) { g_ui(&ui.webFront, ui.webLinkId); });
    std::function<void(Bytes)> any = [](Bytes b) { g_any(b.data(), b.size()); };
    g_registered(new std::function<void(Bytes)>(any));
}
// an upgrade, then an event of the link which it made
extern "C" void w_upgrade(WF* wf, std::error_code* ec, GSocket* s, GSocket* k, int protocol) {
    make(wf);
    void* h;
    void (*f)(void*, std::error_code*, GSocket*);
    g_accepting(&h, &f);
    f(h, ec, s);
    auto c = g_accepted();
    c->onUpgrade(std::move(*k), static_cast<http::Protocol>(protocol));
    if (auto l = g_link()) l->eventsHandler(WebLinkEvent(WebLinkEvent::Code::linked, 7));
}
extern "C" void w_event(WF* wf, WebLinkEvent* e) { make(wf); wf->onEvent(*e); }
extern "C" L* w_link(WF* wf, uint16_t id) { make(wf); return &wf->getLink(id); }
extern "C" void w_script(WF* wf, uint16_t id, std::string_view script) { make(wf); WF::UI(*wf, id).addScript(script); }
// a link and one binary message it receives
extern "C" void l_message(L* l, GSocket* s, uint16_t id, std::error_code* ec, size_t n) {
    new (l) L(std::move(*s), id, [](WebLinkEvent e) { g_event(&e); });
    void* h;
    GDone f;
    g_resume(&h, &f);
    f(h, ec, n);
}
// a registered function of each kind, and a call of it or of another name
extern "C" void g_called(int kind, void* const* args);
template<typename... A> static void call(WF* wf, std::string* name, WebLinkEvent* e, int kind) {
    make(wf);
    wf->template cppFunction<void, A...>(*name, [kind](A... a) { void* args[] = {&a..., nullptr}; g_called(kind, args); });
    wf->onEvent(*e);
}
extern "C" void c_none(WF* wf, std::string* name, WebLinkEvent* e) { call<>(wf, name, e, 0); }
extern "C" void c_is(WF* wf, std::string* name, WebLinkEvent* e) { call<int, std::string>(wf, name, e, 1); }
extern "C" void c_dbs(WF* wf, std::string* name, WebLinkEvent* e) { call<double, bool, std::string>(wf, name, e, 2); }
extern "C" void c_twice(WF* wf, std::string* name, std::string* other, WebLinkEvent* e) {
    make(wf);
    wf->cppFunction<void, int>(*name, [](int a) { void* args[] = {&a}; g_called(3, args); });
    wf->cppFunction<void, std::string>(*other, [](std::string a) { void* args[] = {&a}; g_called(4, args); });
    wf->onEvent(*e);
}
