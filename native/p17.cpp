#include "net.hpp"
#include <http/HTTPServer.hpp>
using namespace webfront;
using namespace webfront::http;
// responses with any headers and content, serialised several at a time; each serialised response keeps its bytes while the others are built
struct Case { Response r; std::string want; };
static const struct { int code; const char* reason; } codes[] = {{101, "Switching Protocols"}, {200, "OK"}, {400, "Bad Request"}, {404, "Not Found"}, {501, "Not Implemented"}, {506, "Variant Also Negotiates"}};
void check(In& in) {
    std::list<Case> cs;
    std::list<std::pair<std::vector<TNet::ConstBuffer>, const std::string*>> live;
    int count = in.u8() % 6 + 1;
    auto verify = [&] { for (auto& [b, w] : live) same(Wire::flat(b), *w, "serialised response"); };
    for (int i = 0; i < count; ++i) {
        auto& c = cs.emplace_back();
        auto k = in.u8();
        auto& code = codes[k % 6];
        auto status = static_cast<Response::StatusCode>(code.code);
        if (k & 64) {
            c.r = Response::getStatusResponse(status);
            std::string body = std::string("<html><head><title>") + code.reason + "</title></head><body><h1>" + std::to_string(code.code) + " " + code.reason + "</h1></body></html>";
            same(c.r.content, body, "content of a status response");
            same(c.r.headers.size(), size_t(2), "headers of a status response");
            same(c.r.headers[0].name + ":" + c.r.headers[0].value, "Content-Length:" + std::to_string(body.size()), "length header of a status response");
            same(c.r.headers[1].name + ":" + c.r.headers[1].value, std::string("Content-Type:text/html"), "type header of a status response");
        } else {
            c.r.statusCode = status;
            for (int h = in.u8() % 40; h--;) { auto n = in.str8(), v = in.u8() % 16 ? in.str8() : in.str16(); c.r.headers.emplace_back(n, v); }
            c.r.content = in.str16();
        }
        if (static_cast<int>(c.r.statusCode) != code.code) fail("status code");
        c.want = "HTTP/1.1 " + std::to_string(code.code) + " " + code.reason + "\r\n";
        for (auto& h : c.r.headers) c.want += h.name + ": " + h.value + "\r\n";
        c.want += "\r\n" + c.r.content;
        live.emplace_back(c.r.toBuffers<TNet>(), &c.want);
        verify();
        if (in.u8() % 3 == 0 && cs.size() > 1) {   // the first one goes away and the others stay
            live.pop_front();
            cs.pop_front();
            verify();
        }
    }
}
std::string generate(Rng& r) {
    Out o;
    int n = r.below(6);
    o.u8(n);
    for (int i = 0; i <= n; ++i) {
        o.u8(r.byte() & ~(r.chance(70) ? 64 : 0));
        int h = r.below(r.chance(90) ? 5 : 40);
        o.u8(h);
        while (h--) { o.str8(r.bytes(r.size(255, {15, 16}))); auto f = r.byte(); o.u8(f); if (f % 16) o.str8(r.bytes(r.size(255, {15, 16}))); else o.str16(r.bytes(r.size(3000))); }
        o.str16(r.bytes(r.size(r.chance(90) ? 300 : 65535, {0})));
        o.u8(r.byte());
    }
    return o.d;
}
