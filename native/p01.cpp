#include "oracle.hpp"
#include <http/Encodings.hpp>
static int hv(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
void check(In& in) {
    Exact s(in.rest());
    std::string want;
    std::string_view v = s;
    for (size_t i = 0; i < v.size();) {
        if (v[i] == '%' && v.size() - i >= 3 && hv(uint8_t(v[i + 1])) >= 0 && hv(uint8_t(v[i + 2])) >= 0) {
            want += char(hv(uint8_t(v[i + 1])) * 16 + hv(uint8_t(v[i + 2])));
            i += 3;
        } else want += v[i] == '+' ? ' ' : v[i], ++i;
    }
    same(webfront::uri::decode(v), want, "uri::decode");
}
std::string generate(Rng& r) { return r.text(r.size(300), "%%%%%0129aAbBcCfFgG+/:`@", 20); }
