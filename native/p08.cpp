#include "net.hpp"
#include <http/WebSocket.hpp>
using namespace webfront::websocket;
using W = WebSocket<TNet>;
// a stream of frames, cut into network reads, ended by an error or not; handlers record what they are given
void check(In& in) {
    auto wire = std::make_shared<Wire>();
    TNet::Socket s(wire);
    auto w = std::make_unique<W>(std::move(s));
    std::vector<std::string> got, want;
    bool text = in.u8() % 8, binary = in.u8() % 8, close = in.u8() % 8;
    if (text) w->onMessage([&](std::string_view t) { got.push_back("t" + std::string(t)); });
    if (binary) w->onMessage([&](std::span<const std::byte> b) { got.push_back("b" + std::string(reinterpret_cast<const char*>(b.data()), b.size())); });
    if (close) w->onClose([&](CloseEvent) { got.push_back("close"); });
    std::string stream;
    bool closed = false;
    for (int k = in.u8() % 12; k--;) {
        int op = "\x1\x1\x1\x2\x2\x2\x9\xa\x0\x8\x3\x2"[in.u8() % 12];
        size_t n = in.u8() % 16 ? in.u8() % 140 : in.u16();
        auto flags = in.u8();
        auto key = in.u32();
        std::string p(n, 0);
        uint8_t a = in.u8();
        for (size_t i = 0; i < n; ++i) p[i] = char(a + 3 * i);
        stream += clientFrame(uint8_t(0x80 | op), p, flags & 1, key, (flags & 6) == 6 ? 2 : 0);
        if (closed) continue;
        if (op == 1 && text) want.push_back("t" + p);
        if (op == 2 && binary) want.push_back("b" + p);
        if (op == 8) { closed = true; if (close) want.push_back("close"); }
    }
    size_t pos = 0;
    for (int guard = 0; pos < stream.size() && wire->reading(); ++guard) {
        size_t n = guard > 200 ? 8192 : in.u8() % 3 ? in.u8() % 32 : in.u8() * 40;
        n = std::max<size_t>(1, std::min<size_t>(n, 8192));
        pos += wire->deliver(std::string_view(stream).substr(pos, n));
        EXPECT(wire->readsWhileReading == 0, "two reads at the same time");
    }
    if (!closed) {
        EXPECT(wire->reading(), "keeps reading while the connection is open");
        same(wire->closed, 0, "socket closed without reason");
        if (in.u8() % 2) {
            wire->fail(std::make_error_code(in.u8() % 2 ? std::errc::connection_reset : std::errc::operation_canceled));
            if (close) want.push_back("close");
            closed = true;
        }
    }
    if (closed) {
        EXPECT(wire->closed >= 1, "the socket is closed");
        EXPECT(!wire->reading(), "no read after the end");
    }
    same(got.size(), want.size(), "number of deliveries");
    for (size_t i = 0; i < want.size(); ++i) same(got[i], want[i], "delivery " + std::to_string(i));
}
std::string generate(Rng& r) {
    Out o;
    o.u8(r.byte()).u8(r.byte()).u8(r.byte()).u8(r.byte());
    for (int k = 0; k < 260; ++k) o.u8(r.byte());
    return o.d;
}
