#include "oracle.hpp"
#include "http/Encodings.hpp"
using namespace webfront;
// a URI is made from its components: splitting has to give them back
struct Parts { std::string scheme, userinfo, host, port, path, query, fragment; uint8_t has; };
static std::string authority(const Parts& p) { return (p.has & 1 ? p.userinfo + "@" : "") + p.host + (p.has & 2 ? ":" + p.port : ""); }
static std::string text(const Parts& p) { return p.scheme + "://" + authority(p) + p.path + (p.has & 4 ? "?" + p.query : "") + (p.has & 8 ? "#" + p.fragment : ""); }
static void compare(const uri::URI& u, const Parts& p, const std::string& when) {
    auto in = " of " + text(p) + when;
    same(u.scheme, std::string_view(p.scheme), "scheme" + in);
    same(u.userinfo, std::string_view(p.has & 1 ? p.userinfo : ""), "userinfo" + in);
    same(u.host, std::string_view(p.host), "host" + in);
    same(u.port, std::string_view(p.has & 2 ? p.port : ""), "port" + in);
    auto a = authority(p);
    same(u.authority, std::string_view(a), "authority" + in);
    same(u.path, std::string_view(p.path), "path" + in);
    same(u.query, std::string_view(p.has & 4 ? p.query : ""), "query" + in);
    same(u.fragment, std::string_view(p.has & 8 ? p.fragment : ""), "fragment" + in);
}
static std::string part(In& in, std::string_view alphabet) {
    auto r = in.str8();
    for (auto& c : r) c = alphabet[uint8_t(c) % alphabet.size()];
    return r;
}
static Parts parts(In& in) {
    static const std::string name = "abzAZ09-._~%!$&'()*+,;=";
    Parts p;
    p.has = in.u8();
    p.scheme = "s" + part(in, "abzAZ019+-.");
    p.userinfo = part(in, name + ":");
    p.host = part(in, name);
    if (p.has & 16) p.host = "[" + part(in, "0123456789abcdef:::.") + "]";
    p.port = part(in, "0123456789");
    p.path = p.has & 32 ? "/" + part(in, name + ":@/:/@") : "";
    p.query = part(in, name + ":@/?" + "?/:@");
    p.fragment = part(in, name + ":@/?" + "?/:@");
    return p;
}
void check(In& in) {
    std::vector<Parts> all;
    std::vector<std::unique_ptr<uri::URI>> uris;
    for (int n = 0; n < 4 && (!n || !in.end()); ++n) {
        all.push_back(parts(in));
        uris.push_back(std::make_unique<uri::URI>(text(all.back())));
        compare(*uris.back(), all.back(), "");
        for (size_t k = 0; k < all.size(); ++k) compare(*uris[k], all[k], ", looked at later");
    }
    for (size_t k = 0; k < all.size(); ++k) {
        auto copy = std::make_unique<uri::URI>(*uris[k]);
        uris[k].reset();
        compare(*copy, all[k], ", copied");
        auto moved = std::make_unique<uri::URI>(std::move(*copy));
        copy.reset();
        compare(*moved, all[k], ", moved");
    }
}
std::string generate(Rng& r) {
    Out o;
    for (int n = 1 + int(r.below(3)); n; --n) {
        o.u8(r.byte());
        for (int k = 0; k < 8; ++k) o.str8(r.bytes(r.chance(30) ? 0 : r.chance(5) ? r.below(200) : r.below(12)));
    }
    return o.d;
}
