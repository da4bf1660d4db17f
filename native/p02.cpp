#include "oracle.hpp"
#include <http/Encodings.hpp>
void check(In& in) {
    Exact s(in.rest());
    std::string want;
    for (uint8_t c : std::string_view(s)) {
        bool plain = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
        if (plain) want += char(c);
        else { char b[4]; snprintf(b, 4, "%%%02X", c); want += b; }
    }
    auto got = webfront::uri::encode(s);
    same(got, want, "uri::encode");
    same(webfront::uri::decode(got), std::string(std::string_view(s)), "decode(encode(x))");
}
std::string generate(Rng& r) { return r.chance(50) ? r.bytes(r.size(300)) : r.text(r.size(60), "azAZ09-_.~%+ \x7f\x80\xff@[`{/:", 10); }
