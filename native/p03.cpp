#include "oracle.hpp"
#include <http/Encodings.hpp>
static std::string reference(std::string_view s) {
    const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    uint32_t acc = 0; int bits = 0;
    for (uint8_t c : s) { acc = (acc << 8) | c; bits += 8; while (bits >= 6) { bits -= 6; o += a[(acc >> bits) & 63]; } }
    if (bits) o += a[(acc << (6 - bits)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
void check(In& in) {
    auto mode = in.u8() % 4;
    Exact e(in.rest());
    std::string_view v = e;
    if (mode == 0) same(webfront::base64::encode(v), reference(v), "base64::encode(string_view)");
    if (mode == 1) same(webfront::base64::encode(std::string(v)), reference(v), "base64::encode(string)");
    if (mode == 2) {
        std::array<uint32_t, 5> a{};
        memcpy(a.data(), v.data(), std::min<size_t>(20, v.size()));
        std::string be;
        for (auto w : a) { be += char(w >> 24); be += char(w >> 16); be += char(w >> 8); be += char(w); }
        same(webfront::base64::encodeInNetworkOrder(a), reference(be), "base64::encodeInNetworkOrder");
    }
    if (mode == 3) {
        std::vector<uint16_t> a(v.size() / 2);
        if (!a.empty()) memcpy(a.data(), v.data(), a.size() * 2);
        same(webfront::base64::encode(a), reference(v.substr(0, a.size() * 2)), "base64::encode(vector)");
    }
}
std::string generate(Rng& r) { return Out().u8(r.byte()).d + r.bytes(r.size(400)); }
