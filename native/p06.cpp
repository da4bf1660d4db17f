#include "net.hpp"
#include <http/WebSocket.hpp>
using namespace webfront;
using F = websocket::Frame<TNet>;
using W = websocket::WebSocket<TNet>;
static std::string payload(In& in, size_t n) {
    std::string r(n, 0);
    uint8_t a = in.u8(), b = in.u8();
    for (size_t i = 0; i < n; ++i) r[i] = char(a + b * i + (i >> 8) * 7);
    return r;
}
static std::span<const std::byte> bytes(const Exact& s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }
static void expect(std::string_view got, uint8_t first, const std::string& want, const char* what) {
    auto f = takeFrame(got);
    same(int(f.first), int(first), std::string(what) + ": first byte");
    same(f.payload.size(), want.size(), std::string(what) + ": payload size");
    same(f.payload, want, std::string(what) + ": payload");
    EXPECT(got.empty(), std::string(what) + ": bytes after the frame");
}
void check(In& in) {
    auto wire = std::make_shared<Wire>();
    TNet::Socket s(wire);
    W w(std::move(s));
    size_t writes = 0;
    for (int k = in.u8() % 3 + 1; k--;) {
        int kind = in.u8() % 6;
        size_t n = in.u32() % 70000, m = in.u16();
        std::string all;
        uint8_t first = 0x82;
        std::vector<std::unique_ptr<Exact>> parts;
        auto part = [&](size_t n) -> const Exact& { auto p = payload(in, n); all += p; parts.push_back(std::make_unique<Exact>(p)); return *parts.back(); };
        const char* what = "";
        switch (kind) {
        case 0: { what = "text"; first = 0x81; w.write(std::string_view(part(n))); break; }
        case 1: { what = "data"; w.write(bytes(part(n))); break; }
        case 2: { what = "two parts"; auto& a = part(n); auto& b = part(m); w.write(bytes(a), bytes(b)); break; }
        case 3: case 4: {
            what = "grown frame";
            F f(bytes(part(n)));
            for (int j = in.u8() % 5; j--;) {
                auto& a = part(in.u8() % 4 ? in.u8() : in.u16());
                same(f.addBuffer(bytes(a)), a.size(), "size of the added buffer");
                same(f.size(), all.size(), "size of the frame");
            }
            if (kind == 4) { F g(std::move(f)); f = F(std::string_view("other")); F h(std::move(g)); w.write(std::move(h)); }
            else w.write(std::move(f));
            break;
        }
        default: {
            what = "grown text frame";
            first = 0x81;
            F f{std::string_view(part(n))};
            for (int j = in.u8() % 3; j--;) f.addBuffer(bytes(part(in.u8())));
            std::string flat;
            for (auto& b : f.toBuffers()) flat.append(static_cast<const char*>(b.data()), b.size());
            expect(flat, first, all, "toBuffers");
            w.write(std::move(f));
        }
        }
        parts.clear();      // the caller's data is gone when the write completes
        EXPECT(wire->started.size() == ++writes, "exactly one write per frame");
        expect(wire->started.back(), first, all, what);
        if (in.u8() % 2) wire->completeAll();
    }
    wire->completeAll();
}
std::string generate(Rng& r) {
    Out o;
    o.u8(r.below(3));
    for (int k = 0; k < 3; ++k) {
        o.u8(r.below(6)).u32(r.size(69999, {125, 126, 127, 255, 256, 65535, 65536, 65537})).u16(r.size(65535, {0, 1, 125, 126, 65410}));
        for (int j = 0; j < 20; ++j) o.u8(r.below(4) ? r.byte() : r.below(3));
    }
    return o.d;
}
