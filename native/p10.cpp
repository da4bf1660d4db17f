#include "msgref.hpp"
template<typename T> void roundTrip(const T& v, const std::string& prefix, size_t junk) {
    msg::FunctionCall c;
    websocket::Frame<PNet> f(std::span(reinterpret_cast<const std::byte*>(c.header().data()), c.header().size()));
    if (!prefix.empty()) c.encodeParameter(prefix, f);
    auto before = c.getPayloadSize();
    auto count = c.getParametersCount();
    size_t pieces = f.buffers.size();
    auto copy = v;
    c.encodeParameter(copy, f);
    std::string got;
    for (size_t i = pieces; i < f.buffers.size(); ++i) got.append(static_cast<const char*>(f.buffers[i].data()), f.buffers[i].size());
    auto want = refEncode(v);
    same(got, want, "encoding");
    same(c.getPayloadSize(), before + want.size(), "payload size");
    same(int(c.getParametersCount()), count + refCount(v), "parameter count");
    same(f.payloadSize(), 8 + before + want.size(), "frame length");
    if constexpr (!std::is_base_of_v<std::exception, T>) {
        T back{};
        Exact e(got + std::string(junk, 'J'));
        auto d = bytesOf(e);
        msg::FunctionCall::decodeParameter(back, d);
        EXPECT(equal(back, v), "decoded value differs from the original");
        same(d.size(), junk, "bytes left after decoding");
    }
    else {
        std::string back;
        Exact e(got + std::string(junk, 'J'));
        auto d = bytesOf(e);
        msg::FunctionCall::decodeParameter(back, d);
        same(back, std::string(v.what()), "exception text");
        same(d.size(), junk, "bytes left after decoding");
    }
}
template<typename T> void one(In& in) {
    T v{};
    read(in, v);
    if constexpr (std::is_integral_v<T> && sizeof(T) == 8) v %= T(1) << 53;
    std::string prefix = in.bytes(in.u8() % 4);
    roundTrip(v, prefix, in.u8() % 12);
}
static std::string cleanText(In& in) { std::string s; read(in, s); for (auto& c : s) if (!c) c = 'z'; return s; }
void check(In& in) {
    switch (in.u8() % 16) {
    case 0: one<bool>(in); break;
    case 1: one<uint8_t>(in); break;
    case 2: one<int8_t>(in); break;
    case 3: one<int16_t>(in); break;
    case 4: one<int>(in); break;
    case 5: one<uint32_t>(in); break;
    case 6: one<int64_t>(in); break;
    case 7: one<uint64_t>(in); break;
    case 8: one<float>(in); break;
    case 9: one<double>(in); break;
    case 10: one<std::string>(in); break;
    case 11: one<std::tuple<int, std::string>>(in); break;
    case 12: one<std::tuple<std::string, double>>(in); break;
    case 13: one<std::tuple<bool, std::tuple<uint8_t, double>>>(in); break;
    case 14: { auto s = cleanText(in); roundTrip(std::out_of_range(s), "", in.u8() % 5); break; }
    case 15: {
        auto s = cleanText(in);
        msg::FunctionCall c;
        websocket::Frame<PNet> f(std::span(reinterpret_cast<const std::byte*>(c.header().data()), c.header().size()));
        c.encodeParameter(s.c_str(), f);
        c.encodeParameter(std::string_view(s), f);
        c.encodeParameter("literal", f);
        f.buffers.erase(f.buffers.begin(), f.buffers.begin() + 2);
        same(flat(f.buffers), refEncode(s) + refEncode(s) + refEncode(std::string("literal")), "encodings");
    }
    }
}
std::string generate(Rng& r) {
    auto m = r.below(16);
    Out o;
    o.u8(m);
    auto str = [&] { auto n = r.chance(5) ? r.size(65535, {65535, 60000}) : r.size(600, {0, 255, 256}); o.u16(n).raw(r.bytes(std::min<size_t>(n, 64))); };
    auto num = [&] { if (r.chance(50)) o.raw(genNumber(r)); else o.u64(r.chance(50) ? r.next() : r.below(300)); };
    switch (m) {
    case 10: case 14: case 15: str(); break;
    case 11: num(); str(); break;
    case 12: str(); num(); break;
    case 13: o.u8(r.byte()); num(); num(); break;
    case 0: o.u8(r.byte()); break;
    default: num();
    }
    return o.raw(r.bytes(6)).d;
}
