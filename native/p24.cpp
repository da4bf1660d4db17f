#include "oracle.hpp"
#include <iomanip>
#include "tooling/HexDump.hpp"
using namespace webfront::utils;
// the text of the grammar, written from the property alone
static std::string dump(std::string_view d, size_t start) {
    std::string r;
    for (size_t a = 0; a < d.size(); a += 16) {
        char b[24];
        snprintf(b, sizeof b, "%08zx", start + a);
        if (a) r += '\n';
        r += b;
        for (size_t i = 0; i < 16; ++i) {
            if (i == 0 || i == 8) r += ' ';
            if (a + i < d.size()) { snprintf(b, sizeof b, " %02x", uint8_t(d[a + i])); r += b; }
            else r += "   ";
        }
        r += ' ';
        for (size_t i = a; i < a + 16 && i < d.size(); ++i) r += d[i] >= 32 && d[i] < 127 ? d[i] : '.';
    }
    return r;
}
// a buffer of elements in a heap block of exactly its size
template<typename T> struct Block {
    std::unique_ptr<T[]> p;
    size_t n;
    explicit Block(std::string_view s) : p(new T[s.size() / sizeof(T)]), n(s.size() / sizeof(T)) { if (n) memcpy(p.get(), s.data(), n * sizeof(T)); }
    const T* data() const { return p.get(); }
    size_t size() const { return n; }
    std::string_view bytes() const { return {reinterpret_cast<const char*>(p.get()), n * sizeof(T)}; }
};
template<typename T> void run(In& in) {
    auto what = in.u8();
    size_t start = in.u8() % 3 ? in.u32() : in.u64() >> 2;
    Block<T> a(in.str16()), b(in.str16());
    if (what % 4 == 0) same(hexDump(a), dump(a.bytes(), 0), "dump of a buffer");
    if (what % 4 == 1) same(hexDump(a, start), dump(a.bytes(), start), "dump of a buffer at an address");
    if (what % 4 == 2) {
        same(hexDump(a, b), dump(std::string(a.bytes()) + std::string(b.bytes()), 0), "dump of two buffers");
        Block<uint8_t> c(b.bytes());
        if constexpr (sizeof(T) > 1) same(hexDump(c, a), dump(std::string(c.bytes()) + std::string(a.bytes()), 0), "dump of two buffers of different elements");
    }
    if (what % 4 == 3) {
        std::ostringstream o;
        auto f = in.u8();
        if (f & 1) o << std::hex;
        if (f & 2) o << std::left;
        if (f & 4) o << std::showbase;
        if (f & 8) o << std::setfill('*');
        if (f & 16) o << std::oct;
        if (f & 32) o << std::internal;
        if (f & 64) o << std::showpos << std::boolalpha;
        auto flags = o.flags();
        auto fill = o.fill();
        o << HexDump<Block<T>>(a, start);
        same(o.str(), dump(a.bytes(), start), "dump on a stream");
        EXPECT(o.flags() == flags, "the flags of the stream are changed");
        EXPECT(o.fill() == fill, "the fill character of the stream is changed");
    }
}
void check(In& in) {
    switch (in.u8() % 4) {
    case 0: run<uint8_t>(in); break;
    case 1: run<char>(in); break;
    case 2: run<uint16_t>(in); break;
    default: run<uint32_t>(in); break;
    }
}
std::string generate(Rng& r) {
    Out o;
    o.u8(r.byte()).u8(r.byte());
    auto k = r.byte();
    o.u8(k);
    if (k % 3) o.u32(r.next() >> r.below(32)); else o.u64(r.next() >> r.below(64));
    o.str16(r.bytes(r.chance(2) ? r.size(65000, {4096, 32768}) : r.size(400, {1, 8, 15, 16, 17, 31, 32, 48}))).str16(r.bytes(r.size(300, {1, 8, 16, 32}))).u8(r.byte());
    return o.d;
}
