#include "oracle.hpp"
#include <algorithm>
#include <span>
#include <utility>
#include <networking/BasicNetworking.hpp>
struct N : webfront::networking::BasicNetworking<> {};
template<typename B> void is(const B& b, const void* p, size_t n, const char* what) {
    same(b.size(), n, std::string(what) + ": size");
    if (n) EXPECT(b.data() == p, std::string(what) + ": first byte");
    auto q = static_cast<const volatile char*>(b.data());
    for (size_t i = 0; i < b.size(); ++i) (void)q[i];   // AddressSanitizer sees a view which leaves its source
}
template<typename B> void advance(B b, In& in) {
    auto p = static_cast<const char*>(b.data());
    size_t n = b.size();
    for (int k = 0; k < 4; ++k) {
        size_t a = in.u8() % 3 ? in.u8() : in.u64();
        b += a;
        a = std::min(a, n);
        n -= a;
        if (p) p += a;
        same(b.size(), n, "size after advancing");
        EXPECT(static_cast<const char*>(b.data()) == p, "position after advancing");
    }
}
template<typename D> void both(D& d, const void* p, size_t n, size_t es, size_t want, In& in, const char* what) {
    auto min = std::min(n, want * es);
    is(N::Buffer(d), p, n, what);
    is(N::Buffer(d, want), p, min, what);
    is(N::Buffer(std::as_const(d)), p, n, what);
    is(N::ConstBuffer(N::Buffer(d)), p, n, what);
    is(N::Buffer(N::Buffer(d), want), p, std::min(n, want), what);
    advance(N::Buffer(d), in);
    advance(N::ConstBuffer(N::Buffer(d)), in);
}
void check(In& in) {
    size_t want = in.u8() % 4 ? in.u8() : in.u32(), n = in.u8();
    { char d[7]; both(d, d, 7, 1, want, in, "char[7]"); is(N::Buffer(std::as_const(d), want), d, std::min<size_t>(7, want), "const char[7]"); }
    { uint32_t d[5]; both(d, d, 20, 4, want, in, "uint32_t[5]"); is(N::Buffer(std::as_const(d), want), d, std::min<size_t>(20, want * 4), "const uint32_t[5]"); }
    { std::array<uint16_t, 9> d; is(N::Buffer(d), d.data(), 18, "array"); is(N::Buffer(d, want), d.data(), std::min<size_t>(18, want * 2), "array"); }
    { std::array<const uint16_t, 6> d{}; is(N::Buffer(d), d.data(), 12, "const array"); is(N::Buffer(d, want), d.data(), std::min<size_t>(12, want * 2), "const array"); }
    { std::vector<std::byte> d(n); both(d, d.data(), n, 1, want, in, "vector<byte>"); is(N::Buffer(std::as_const(d), want), d.data(), std::min(n, want), "const vector<byte>"); }
    { std::vector<uint32_t> d(n); both(d, d.data(), 4 * n, 4, want, in, "vector<uint32_t>"); is(N::Buffer(std::as_const(d), want), d.data(), std::min(4 * n, 4 * want), "const vector<uint32_t>"); }
    { std::string d(n, 'x'); both(d, d.data(), n, 1, want, in, "string"); is(N::Buffer(std::as_const(d), want), d.data(), std::min(n, want), "const string"); }
    { Exact e(in.str8()); std::string_view d(e); is(N::Buffer(d), d.data(), d.size(), "string_view"); is(N::Buffer(d, want), d.data(), std::min(d.size(), want), "string_view"); }
}
std::string generate(Rng& r) { return Out().u8(r.byte()).u32(r.chance(50) ? r.next() : r.below(300)).u8(r.byte()).raw(r.bytes(400)).d; }
