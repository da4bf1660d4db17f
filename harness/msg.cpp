#include <memory>
#include <vector>
#include <map>
#include <optional>
#include "http/WebSocket.hpp"
#include "weblink/Messages.hpp"
#include "net.hpp"
using namespace webfront;
using Bytes = std::span<const std::byte>;
using F = websocket::Frame<PNet>;
template<typename T> void dec(T* o, Bytes* d) { msg::FunctionCall::decodeParameter(*o, *d); }
#define DEC(NAME, ...) extern "C" void NAME(__VA_ARGS__* o, Bytes* d) { dec(o, d); }
DEC(d_bool, bool)
DEC(d_u8, uint8_t)
DEC(d_i8, int8_t)
DEC(d_i16, int16_t)
DEC(d_i32, int)
DEC(d_u32, uint32_t)
DEC(d_i64, int64_t)
DEC(d_u64, uint64_t)
DEC(d_flt, float)
DEC(d_dbl, double)
DEC(d_str, std::string)
DEC(d_tis, std::tuple<int, std::string>)
DEC(d_tsd, std::tuple<std::string, double>)
DEC(d_tbt, std::tuple<bool, std::tuple<uint8_t, double>>)
template<typename T> void enc(msg::FunctionCall* c, F* f, T& t) { c->encodeParameter(t, *f); }
#define ENC(NAME, ...) extern "C" void NAME(msg::FunctionCall* c, F* f, __VA_ARGS__* t) { enc(c, f, *t); }
ENC(e_bool, bool)
ENC(e_u8, uint8_t)
ENC(e_i32, int)
ENC(e_i64, int64_t)
ENC(e_flt, float)
ENC(e_dbl, double)
ENC(e_str, std::string)
ENC(e_exc, std::out_of_range)
ENC(e_tis, std::tuple<int, std::string>)
using Lit = const char[6];
ENC(e_lit, Lit)
extern "C" void e_sv(msg::FunctionCall* c, F* f, std::string_view t) { c->encodeParameter(t, *f); }
extern "C" void e_cs(msg::FunctionCall* c, F* f, const char* t) { c->encodeParameter(t, *f); }
extern "C" void f_ctor(F* f, Bytes* a) { new (f) F(*a); }
extern "C" void c_ctor(msg::FunctionCall* c) { new (c) msg::FunctionCall(); }
extern "C" void r_ctor(msg::FunctionReturn* c) { new (c) msg::FunctionReturn(); }
extern "C" void c_reset(msg::FunctionCall* c) { c->resetParameters(); }
extern "C" void c_header(msg::FunctionCall* c, Bytes* o) { *o = c->header(); }
extern "C" void m_hand(const msg::Handshake** o, Bytes* d) { *o = msg::Handshake::castFromRawData(*d); }
extern "C" void m_call(const msg::FunctionCall** o, Bytes* d) { *o = msg::FunctionCall::castFromRawData(*d); }
extern "C" void m_text(const msg::TextCommand** o, Bytes* d) { *o = msg::TextCommand::castFromRawData(*d); }
extern "C" void m_name(Bytes* d, std::string* name, Bytes* rest) {
    auto c = msg::FunctionCall::castFromRawData(*d);
    auto [n, r] = c->getFunctionName();
    *name = n;
    *rest = r;
}
extern "C" void m_ack(Bytes* h, Bytes* p, msg::Ack* a) { new (a) msg::Ack(); *h = a->header(); *p = a->payload(); }
extern "C" void m_txt(Bytes* h, Bytes* p, msg::TextCommand* c, msg::TxtOpcode op, std::string_view t) { new (c) msg::TextCommand(op, t); *h = c->header(); *p = c->payload(); }
extern "C" int m_endian(const msg::Handshake* h) { return static_cast<int>(h->getEndian()); }
extern "C" void s_sizes(size_t* o) { o[0] = sizeof(msg::FunctionCall); o[1] = sizeof(F); o[2] = offsetof(F, buffers); o[3] = sizeof(msg::TextCommand); }
extern "C" size_t m_tsize(const msg::TextCommand* c) { return c->getPayloadSize(); }
