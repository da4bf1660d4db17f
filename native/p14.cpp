#include "net.hpp"
#include <http/HTTPServer.hpp>
using namespace webfront::http;
// header lists with names that differ in case, length or one character
static std::string up(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
void check(In& in) {
    Response h;
    std::string name = in.str8(), text = in.str8();
    for (int n = in.u8() % 40; n--;) { auto a = in.str8(), b = in.str8(); h.headers.emplace_back(a, b); }
    Exact n(name), t(text);
    std::list<std::string> want;
    bool contains = false;
    for (auto& x : h.headers) if (up(x.name) == up(name)) { want.push_back(x.value); contains = contains || up(x.value).find(up(text)) != std::string::npos; }
    auto one = h.getHeaderValue(n);
    EXPECT(one.has_value() == !want.empty(), "presence of a header");
    if (one) same(*one, want.front(), "first value");
    auto all = h.getHeadersValues(n);
    same(all.size(), want.size(), "number of values");
    auto w = want.begin();
    for (auto& v : all) same(v, *w++, "listed value");
    if (!text.empty()) same(h.headersContain(n, t), contains, "containment");
    Request q;
    q.headers = h.headers;
    auto has = [&](std::string a, std::string b) { for (auto& x : q.headers) if (up(x.name) == up(a) && up(x.value).find(up(b)) != std::string::npos) return true; return false; };
    if (!text.empty()) same(q.isUpgradeRequest(t), has("Connection", "upgrade") && has("Upgrade", text), "upgrade request");
}
std::string generate(Rng& r) {
    static const std::string names[] = {"Connection", "Upgrade", "X", "", "Sec-WebSocket-Key", "aZ[{@`\xe9\xc9"}, values[] = {"keep-alive, Upgrade", "upgrade", "websocket", "h2c", "WebSocket/13", "", "gzip, deflate", "a\xe9\xc9z"};
    auto vary = [&](std::string s) {
        for (auto& c : s) if (r.chance(40) && isalpha(uint8_t(c)) && uint8_t(c) < 128) c ^= 32;
        if (r.chance(12) && s.size()) s[r.below(s.size())] ^= char(r.chance(50) ? 32 : 1 << r.below(8));
        if (r.chance(8)) s += char(r.byte());
        if (r.chance(8) && s.size()) s.pop_back();
        return s;
    };
    auto value = [&] { return r.chance(30) ? r.text(r.size(60), "abAB,", 4) : vary(r.pick(values)) + (r.chance(20) ? vary(r.pick(values)) : ""); };
    Out o;
    std::string t = r.chance(50) ? std::string(r.pick(values)) : r.text(r.size(4) + 1, "abAB", 3);
    if (r.chance(30) && t.size() > 2) t = t.substr(r.below(t.size() - 1), r.below(t.size()) + 1);
    o.str8(vary(r.pick(names))).str8(vary(t));
    int n = r.size(30);
    o.u8(n);
    while (n--) { o.str8(vary(r.pick(names))); o.str8(value()); }
    return o.d;
}
