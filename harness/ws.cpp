#include <map>
#include "wsnet.hpp"
#include "http/WebSocket.hpp"
using namespace webfront;
using namespace webfront::websocket;
using Bytes = std::span<const std::byte>;
using F = Frame<GNet>;
using W = WebSocket<GNet>;
extern "C" void h_set(Header* h, size_t n) { h->setPayloadSize(n); }
extern "C" size_t h_payload(const Header* h) { return h->payloadSize(); }
extern "C" size_t h_size(const Header* h) { return h->headerSize(); }
extern "C" uint64_t h_frame(const Header* h) { return h->getFrameSize(); }
extern "C" int h_opcode(const Header* h) { return static_cast<int>(h->opcode()); }
extern "C" int h_mask(const Header* h) { return h->MASK(); }
extern "C" int h_fin(const Header* h) { return h->FIN(); }
extern "C" void h_key(const Header* h, std::array<std::byte, 4>* k) { *k = h->maskingKey(); }
extern "C" int h_complete(const Header* h, size_t n) { return h->isComplete(n); }
extern "C" void f_text(F* f, std::string_view t) { new (f) F(t); }
extern "C" void f_data(F* f, Bytes* a) { new (f) F(*a); }
extern "C" void f_data2(F* f, Bytes* a, Bytes* b) { new (f) F(*a, *b); }
extern "C" size_t f_add(F* f, Bytes* a) { return f->addBuffer(*a); }
extern "C" void f_move(F* f, F* g) { new (f) F(std::move(*g)); }
extern "C" void w_text(W* w, std::string_view t) { w->write(t); }
extern "C" void w_data(W* w, Bytes* a) { w->write(*a); }
extern "C" void w_data2(W* w, Bytes* a, Bytes* b) { w->write(*a, *b); }
extern "C" void w_frame(W* w, F* f) { w->write(std::move(*f)); }
using D = FrameDecoder;
extern "C" void d_ctor(D* d) { new (d) D(); }
extern "C" void d_reset(D* d) { d->reset(); }
extern "C" int d_parse(D* d, Bytes* b) { return d->parse(*b); }
extern "C" void d_payload(D* d, Bytes* o) { *o = d->payload(); }
extern "C" size_t d_consumed(D* d) { return d->consumed(); }
extern "C" void w_ctor(W* w, GSocket* s) { new (w) W(std::move(*s)); }
// events of a websocket whose handlers are the ghost functions below
extern "C" void g_text(const char* p, size_t n);
extern "C" void g_binary(const std::byte* p, size_t n);
extern "C" void g_closed(unsigned status);
static void handlers(W* w, bool text, bool binary, bool close) {
    if (text) w->onMessage([](std::string_view t) { g_text(t.data(), t.size()); });
    if (binary) w->onMessage([](Bytes b) { g_binary(b.data(), b.size()); });
    if (close) w->onClose([](CloseEvent e) { g_closed(e.status); });
}
extern "C" void w_event(W* w, GSocket* s, bool text, bool binary, bool close, std::error_code* ec, size_t n) {
    new (w) W(std::move(*s));
    handlers(w, text, binary, close);
    void* h;
    GDone f;
    g_resume(&h, &f);
    f(h, ec, n);
}
extern "C" void w_written(W* w, GSocket* s, bool text, bool binary, bool close, std::error_code* ec, size_t n, Bytes* data) {
    new (w) W(std::move(*s));
    handlers(w, text, binary, close);
    w->write(*data);
    void* h;
    GDone f;
    g_resume(&h, &f);
    f(h, ec, n);
}
