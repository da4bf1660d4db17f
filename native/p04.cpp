#include "oracle.hpp"
#include "sha1ref.hpp"
#include <http/Encodings.hpp>
void check(In& in) {
    Exact s(in.rest());
    auto want = sha1Reference(s);
    EXPECT(webfront::crypto::sha1(s) == want, "sha1 digest of " + std::to_string(s.size()) + " bytes differs from FIPS 180-4");
    std::string text;
    for (auto w : want) { char b[9]; snprintf(b, 9, "%08x", w); text += b; }
    same(webfront::crypto::sha1String(s), text, "sha1String");
}
std::string generate(Rng& r) { return r.bytes(r.chance(2) ? r.range(8000, 300000) : r.size(700, {0, 55, 56, 63, 64, 119, 120, 127, 128, 183, 191, 192, 256})); }
