#include "oracle.hpp"
#include <span>
#include <string_view>
#include "details/C++23Support.hpp"
#include "system/FileSystem.hpp"
using namespace webfront::fs;
// size of the file, extra stored words, encoding, its bytes, then the sizes of the reads
void check(In& in) {
    size_t size = in.u16(), extra = in.u8() % 3;
    std::string enc = in.u8() % 2 ? "gzip" : "";
    size_t words = (size + 7) / 8 + extra;
    std::unique_ptr<uint64_t[]> d(new uint64_t[words]);   // exactly as many words as are stored
    std::string want;
    for (size_t w = 0; w < words; ++w) {
        d[w] = in.u64();
        for (int b = 7; b >= 0; --b) want += char(d[w] >> (8 * b));
    }
    want.resize(size);
    File f(std::span<const uint64_t>(d.get(), words), size, enc);
    same(f.isEncoded(), !enc.empty(), "isEncoded");
    same(std::string(f.getEncoding()), enc, "encoding");
    size_t pos = 0;
    EXPECT(f.eof() == (pos == size), "eof before the first read");
    for (int k = 0; k < 60; ++k) {
        size_t n = in.u16();
        if (k > 40) n = size;
        std::string guard(n, '\x5a');
        Exact buf(guard);
        size_t r = f.read(std::span<char>(buf.data(), n));
        same(r, std::min(n, size - pos), "number of bytes read at " + std::to_string(pos) + " of " + std::to_string(size));
        same(std::string(buf.data(), r), want.substr(pos, r), "bytes read at " + std::to_string(pos));
        for (size_t i = r; i < n; ++i) EXPECT(buf.data()[i] == '\x5a', "the buffer beyond the file is written");
        pos += r;
        EXPECT(f.eof() == (pos == size), "eof at " + std::to_string(pos) + " of " + std::to_string(size));
    }
}
std::string generate(Rng& r) {
    Out o;
    size_t size = r.size(300, {0, 8, 16, 64, 256}), extra = r.below(3);
    o.u16(size).u8(extra).u8(r.below(2));
    o.raw(r.bytes(((size + 7) / 8 + extra) * 8));
    bool tiny = r.chance(50);
    for (int k = 0; k < 60; ++k) o.u16(r.size(tiny ? 9 : 70, {0, 1, 7, 8, 9}));
    return o.d;
}
