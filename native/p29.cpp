#include "msgref.hpp"
#include "net.hpp"
#include <weblink/WebLink.hpp>
static std::string text(Bytes b) { return {reinterpret_cast<const char*>(b.data()), b.size()}; }
static_assert(std::endian::native == std::endian::little);
void check(In& in) {
    switch (in.u8() % 4) {
    case 0: { msg::Ack a; same(text(a.header()) + text(a.payload()), std::string("\x01\x00", 2), "acknowledge"); break; }
    case 1: {
        auto op = in.u8();
        auto n = in.u16();
        std::string s = in.bytes(200);
        s.resize(n, 'x');
        Exact e(s);
        msg::TextCommand c(msg::TxtOpcode(op), e);
        same(text(c.header()) + text(c.payload()), Out().u8(2).u8(op).u8(n >> 8).u8(n).raw(s).d, "text command");
        same(c.getPayloadSize(), s.size(), "payload size");
        break;
    }
    case 2: {
        Exact e(std::string(1, 0) + char(in.u8() % 3) + in.bytes(in.u8() % 3));
        same(int(msg::Handshake::castFromRawData(bytesOf(e))->getEndian()), int(e.data()[1]), "endianness of the handshake");
        break;
    }
    case 3: {   // a client's handshake is acknowledged and announced
        auto wire = std::make_shared<Wire>();
        int linked = 0;
        auto key = in.u32();
        WebLink<TNet> link(TNet::Socket(wire), 9, [&](WebLinkEvent e) { linked += e.code == WebLinkEvent::Code::linked && e.webLinkId == 9; });
        wire->deliver(clientFrame(0x82, std::string("\0", 1) + char(in.u8() % 2), true, key));
        same(linked, 1, "linked events");
        auto out = wire->sent();
        std::string_view v = out;
        auto f = takeFrame(v);
        same(int(f.first), 0x82, "frame of the acknowledge");
        same(f.payload, std::string("\x01\x00", 2), "acknowledge on the wire");
        auto script = in.bytes(300);
        auto before = wire->started.size();
        link.sendCommand(msg::TextCommand(msg::TxtOpcode::injectScript, script));
        same(wire->started.size(), before + 1, "writes for one command");
        v = wire->started.back();
        f = takeFrame(v);
        same(f.payload, Out().u8(2).u8(1).u8(script.size() >> 8).u8(script.size()).raw(script).d, "text command on the wire");
        wire->completeAll();
    }
    }
}
std::string generate(Rng& r) { return Out().u8(r.byte()).u8(r.byte()).u16(r.size(65535, {0, 255, 256, 65535})).raw(r.bytes(r.below(300))).d; }
