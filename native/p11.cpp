#include "msgref.hpp"
#include <JsFunction.hpp>
struct Sent { WebLinkId id; std::string bytes; };
static std::vector<Sent> sent;
struct Link { WebLinkId id; void sendFrame(websocket::Frame<PNet> f) { sent.push_back({id, flat(f.toBuffers())}); } };
struct WF { using Net = PNet; std::map<WebLinkId, Link> links; Link& getLink(WebLinkId id) { return links.try_emplace(id, Link{id}).first->second; } };
template<typename... A> void call(JsFunction<WF>& f, const std::string& name, WebLinkId id, A&&... a) {
    sent.clear();
    std::string body = refEncode(name) + (std::string() + ... + refEncode(a));
    int count = 1 + (0 + ... + refCount(a));
    try { f(a...); }
    catch (const std::length_error&) {
        same(sent.size(), size_t(0), "message sent although the parameters were refused");
        size_t pieces = 0;
        for (size_t i = 0; i < 1; ++i) pieces += body.size();
        EXPECT(pieces > 900 || count > 200, "parameters refused");
        return;
    }
    same(sent.size(), size_t(1), "messages sent by one invocation");
    same(sent[0].id, id, "link");
    std::string want = Out().u8(3).u8(count).u16(0).u32(body.size()).raw(body).d;
    std::string h(1, char(0x82));
    size_t n = want.size();
    if (n < 126) h += char(n); else if (n < 65536) h += Out().u8(126).u8(n >> 8).u8(n).d; else { h += char(127); for (int i = 7; i >= 0; --i) h += char(uint64_t(n) >> (8 * i)); }
    same(sent[0].bytes, h + want, "message on the wire");
}
void check(In& in) {
    WF wf;
    auto name = in.str8();
    WebLinkId id = in.u16();
    auto f = std::make_unique<JsFunction<WF>>(name, wf, id);
    for (int n = 1 + in.u8() % 6; n--;) {
        switch (in.u8() % 8) {
        case 0: call(*f, name, id); break;
        case 1: { int a; read(in, a); call(*f, name, id, a); break; }
        case 2: { std::string a; read(in, a); call(*f, name, id, a); break; }
        case 3: { bool a; double b; read(in, a); read(in, b); call(*f, name, id, a, b); break; }
        case 4: { std::string a, b; read(in, a); read(in, b); call(*f, name, id, a, 7, b); break; }
        case 5: { std::tuple<int, std::string> a; read(in, a); call(*f, name, id, a, true); break; }
        case 6: { std::tuple<bool, std::tuple<uint8_t, double>> a; float b; read(in, a); read(in, b); call(*f, name, id, b, a); break; }
        case 7: { std::string a; read(in, a); double d = 1.5; call(*f, name, id, d, a, d, a, d, a, d, a, d, a, 'c', short(3), 0u, a, std::string_view(a)); break; }
        }
    }
}
std::string generate(Rng& r) {
    Out o;
    o.str8(r.bytes(r.size(255, {0, 254}))).u16(r.next()).u8(r.byte());
    for (int i = 0; i < 6; ++i) {
        auto m = r.below(8);
        o.u8(m);
        auto str = [&] { auto n = r.chance(3) ? r.size(65535, {65535, 65400}) : r.size(500, {0, 110, 255, 256}); auto k = std::min<size_t>(n, 64); o.u16(n).raw(r.bytes(k)); };
        auto num = [&] { o.u64(r.chance(50) ? r.next() : r.below(300)); };
        switch (m) {
        case 1: num(); break;
        case 2: case 7: str(); break;
        case 3: o.u8(r.byte()); num(); break;
        case 4: str(); str(); break;
        case 5: num(); str(); break;
        case 6: o.u8(r.byte()); num(); num(); num(); break;
        default: break;
        }
    }
    return o.d;
}
