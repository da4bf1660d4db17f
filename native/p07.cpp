#include "net.hpp"
#include <http/WebSocket.hpp>
using namespace webfront::websocket;
// frames of every length form, masked or not, cut into chunks, through one decoder which is reset after each frame
void check(In& in) {
    FrameDecoder d;
    std::string stream;
    struct Want { int opcode; std::string payload; size_t end; };
    std::vector<Want> want;
    size_t total = 0;
    for (int k = in.u8() % 3 + 1; k--;) {
        uint8_t first = in.u8(), flags = in.u8();
        size_t n = in.u16();
        if (flags & 2) n += in.u32() % 70000;
        if ((total += n) > 150000) n = 3;
        uint32_t key = in.u32();
        std::string p(n, 0);
        uint8_t a = in.u8(), b = in.u8();
        for (size_t i = 0; i < n; ++i) p[i] = char(a + b * i);
        int form = n < 126 ? (flags >> 2) % 3 : n < 65536 ? 1 + (flags >> 2) % 2 : 2;
        stream += clientFrame(first, p, flags & 1, key, form == 0 ? 0 : form);
        want.push_back({first & 15, p, stream.size()});
    }
    size_t pos = 0, f = 0;
    bool tiny = in.u8() % 2;
    for (int guard = 0; f < want.size(); ++guard) {
        size_t n = tiny && guard < 4000 ? in.u8() % 5 : in.u16();
        if (guard > 300 && !tiny) n = stream.size();
        if (in.end() && !n) n = 1;
        Exact chunk(std::string_view(stream).substr(pos, n));
        std::span<const std::byte> s(reinterpret_cast<const std::byte*>(chunk.data()), chunk.size());
        bool last = pos + s.size() >= want[f].end;
        bool done = d.parse(s);
        EXPECT(done == last, "completion at byte " + std::to_string(pos + s.size()) + " of a frame that ends at " + std::to_string(want[f].end));
        same(d.consumed(), done ? want[f].end - pos : s.size(), "consumed bytes");
        pos += d.consumed();
        if (done) {
            same(int(d.frameType), want[f].opcode, "opcode");
            auto p = d.payload();
            same(p.size(), want[f].payload.size(), "payload size");
            same(std::string(reinterpret_cast<const char*>(p.data()), p.size()), want[f].payload, "payload");
            d.reset();
            ++f;
        }
        EXPECT(guard < 400000, "no progress");
    }
}
std::string generate(Rng& r) {
    Out o;
    o.u8(r.below(3));
    for (int k = 0; k < 3; ++k) {
        o.u8(r.byte()).u8(r.below(24) ? r.byte() & ~2 : r.byte()).u16(r.size(r.chance(97) ? 300 : 65535, {0, 125, 126, 127, 65535}));
        for (int j = 0; j < 10; ++j) o.u8(r.byte());
    }
    o.u8(r.byte());
    for (int k = 0; k < 200; ++k) o.u8(r.size(255, {0, 1}));
    return o.d;
}
