#include "oracle.hpp"
#include "details/C++23Support.hpp"
#include "system/IndexFS.hpp"
#include "system/ReactFS.hpp"
#include "system/BabelFS.hpp"
#include "system/JasmineFS.hpp"
using namespace webfront::fs;
// published names, and names made from them by small changes, asked from each embedded file system
static const struct { int fs; const char* name; const char* encoding; size_t size; uint64_t hash; } published[] = {
    {0, "index.html", "br", 69, 0xd8636aeb73cced21},
    {0, "favicon.ico", "br", 528, 0xaf300a9fecf5b33e},
    {0, "WebFront.js", "gzip", 3501, 0x94cddbbcdf8f2343},
    {1, "react@18/umd/react.production.min.js", "br", 3761, 0xea9caa13782edc11},
    {1, "react-dom@18/umd/react-dom.production.min.js", "br", 37235, 0x8e0b87932d50e589},
    {2, "babel-standalone@7.22.5/babel.min.js", "br", 398150, 0x60b45032b81d07b7},
    {3, "jasmine/4.6.0/jasmine_favicon.png", "br", 1162, 0xd61e8c92a6e2bdf0},
    {3, "jasmine/4.6.0/jasmine.css", "br", 6409, 0xc95151709949124f},
    {3, "jasmine/4.6.0/jasmine.js", "br", 50056, 0xf5ecfa372bfdad9f},
    {3, "jasmine/4.6.0/jasmine-html.js", "br", 5166, 0x9d81d77d7c53083d},
    {3, "jasmine/4.6.0/boot0.js", "br", 990, 0x12b4f86ce0cced4e},
    {3, "jasmine/4.6.0/boot1.js", "br", 1475, 0x59401573445bb9df},
};
std::optional<File> open(int fs, const std::filesystem::path& p) {
    switch (fs) {
    case 0: return IndexFS(".").open(p);
    case 1: return ReactFS(".").open(p);
    case 2: return BabelFS(".").open(p);
    default: return JasmineFS(".").open(p);
    }
}
void check(In& in) {
    int fs = in.u8() % 4;
    size_t buffer = 1 + in.u16();
    std::string name = in.rest();
    auto f = open(fs, name);
    std::string r = name.substr(std::min(name.size(), name.find_first_not_of('/')));
    if (r.find("//") != r.npos || name.find('\0') != name.npos) return;
    for (auto& p : published) {
        if (p.fs != fs || r != p.name) continue;
        EXPECT(f.has_value(), std::string(p.name) + " is not served");
        same(std::string(f->getEncoding()), std::string(p.encoding), "encoding of " + r);
        uint64_t h = 0xcbf29ce484222325;
        size_t n = 0;
        std::string b(buffer, 0);
        while (!f->eof()) {
            auto k = f->read(b);
            EXPECT(k, "no progress");
            for (size_t i = 0; i < k; ++i) h = (h ^ uint8_t(b[i])) * 0x100000001b3;
            n += k;
        }
        same(n, p.size, "size of " + r);
        same(h, p.hash, "hash of the bytes of " + r);
        return;
    }
    EXPECT(!f.has_value(), "a file is served as " + r);
}
std::string generate(Rng& r) {
    Out o;
    auto& p = published[r.below(std::size(published))];
    o.u8(r.chance(85) ? p.fs : r.below(4));
    o.u16(r.chance(50) ? r.below(100) : 65535);
    std::string n = p.name;
    switch (r.below(12)) {
    case 0: n = "/" + n; break;
    case 1: n = "//" + n; break;
    case 2: n += r.text(1, "/ .a"); break;
    case 3: n.pop_back(); break;
    case 4: n = n.substr(n.rfind('/') + 1); break;
    case 5: { auto& c = n[r.below(n.size())]; c = char(c ^ (r.chance(70) ? 32 : 1 << r.below(7))); break; }
    case 6: n.erase(0, r.below(n.size())); break;
    case 7: n = n.substr(0, r.below(n.size())); break;
    case 8: n = r.text(r.below(12), "abjs./"); break;
    case 9: n = "./" + n; break;
    default: break;
    }
    return o.d + n;
}
