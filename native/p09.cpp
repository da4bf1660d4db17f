#include "msgref.hpp"
template<typename T> void decode(std::string_view v) {
    Exact e(v);
    auto d = bytesOf(e);
    std::string_view r = e;
    T got{}, want{};
    bool ok = refDecode(r, want);
    try {
        msg::FunctionCall::decodeParameter(got, d);
        EXPECT(ok, "malformed parameter accepted");
        same(d.size(), r.size(), "bytes left after the parameter");
        EXPECT(d.empty() || (const char*)d.data() == r.data(), "position after the parameter");
        EXPECT(equal(got, want), "decoded value differs");
    }
    catch (const std::runtime_error&) { EXPECT(!ok, "well formed parameter refused"); }
}
template<typename M> void cast(std::string_view v, bool ok) {
    Exact e(v);
    try { auto m = M::castFromRawData(bytesOf(e)); EXPECT(ok, "incomplete message accepted"); EXPECT((const char*)m == e.data(), "message is not the data"); }
    catch (const std::runtime_error&) { EXPECT(!ok, "complete message refused"); }
}
static uint32_t u32(std::string_view s, size_t o) { uint32_t x; memcpy(&x, s.data() + o, 4); return x; }
void check(In& in) {
    auto mode = in.u8();
    auto s = in.rest();
    std::string_view v = s;
    switch (mode) {
    case 0: decode<bool>(v); break;
    case 1: decode<uint8_t>(v); break;
    case 2: decode<int8_t>(v); break;
    case 3: decode<int16_t>(v); break;
    case 4: decode<int>(v); break;
    case 5: decode<uint32_t>(v); break;
    case 6: decode<int64_t>(v); break;
    case 7: decode<uint64_t>(v); break;
    case 8: decode<float>(v); break;
    case 9: decode<double>(v); break;
    case 10: decode<std::string>(v); break;
    case 11: decode<std::tuple<int, std::string>>(v); break;
    case 12: decode<std::tuple<std::string, double>>(v); break;
    case 13: decode<std::tuple<bool, std::tuple<uint8_t, double>>>(v); break;
    case 14: decode<uint16_t>(v); break;
    case 15: decode<std::tuple<>>(v); break;
    case 16: decode<std::tuple<std::tuple<std::string>, std::string, bool>>(v); break;
    case 20: cast<msg::Handshake>(v, v.size() >= 2); break;
    case 21: cast<msg::FunctionCall>(v, v.size() >= 8 && v.size() - 8 >= u32(v, 4)); break;
    case 22: cast<msg::TextCommand>(v, v.size() >= 4 && v.size() - 4 >= uint8_t(v[2]) * 256u + uint8_t(v[3])); break;
    case 24: cast<msg::Ack>(v, v.size() >= 2); break;
    case 23: {
        Exact e(v);
        bool ok = v.size() >= 8 && v.size() - 8 >= u32(v, 4);
        std::string_view r = ok ? std::string_view(e).substr(8, u32(v, 4)) : std::string_view();
        std::string want;
        ok = ok && refDecode(r, want);
        try {
            auto [name, rest] = msg::FunctionCall::castFromRawData(bytesOf(e))->getFunctionName();
            EXPECT(ok, "malformed call accepted");
            same(name, want, "function name");
            same(rest.size(), r.size(), "parameter bytes");
            EXPECT(rest.empty() || (const char*)rest.data() == r.data(), "position of the parameters");
        }
        catch (const std::runtime_error&) { EXPECT(!ok, "well formed call refused"); }
        break;
    }
    default: break;
    }
}
std::string generate(Rng& r) {
    auto mode = r.below(25);
    std::string s;
    if (mode < 20) {
        if (mode == 11 || mode == 12 || mode == 13 || mode == 16) {
            s = Out().u8(18).u8(mode == 16 ? 3 : 2).d;
            auto str = [&] { auto n = r.size(300, {0, 255}); return n < 256 && r.chance(60) ? Out().u8(4).u8(n).d + r.bytes(n) : Out().u8(5).u16(n).d + r.bytes(n); };
            if (mode == 11) s += Out().u8(3).d + genNumber(r) + str();
            if (mode == 12) s += str() + Out().u8(3).d + genNumber(r);
            if (mode == 13) s += Out().u8(1 + r.below(2)).u8(18).u8(2).u8(3).d + genNumber(r) + Out().u8(3).d + genNumber(r);
            if (mode == 16) s += Out().u8(18).u8(1).d + str() + str() + Out().u8(1 + r.below(2)).d;
        }
        else if (mode == 10) { auto n = r.size(300, {0, 255}); s = n < 256 && r.chance(60) ? Out().u8(4).u8(n).d + r.bytes(n) : Out().u8(5 + r.below(2)).u16(n).d + r.bytes(n); }
        else s = r.chance(60) ? Out().u8(3).d + genNumber(r) : genParam(r);
    }
    else if (mode == 21 || mode == 23) {
        auto n = r.size(300, {0, 255});
        auto p = (n < 256 && r.chance(60) ? Out().u8(4).u8(n).d : Out().u8(5).u16(n).d) + r.bytes(n);
        while (r.chance(40)) p += genParam(r);
        s = Out().u8(3).u8(r.byte()).u16(r.byte()).u32(p.size() + (r.chance(20) ? r.below(5) - 2 : 0)).d + p;
        if (r.chance(10)) for (auto i = 4; i < 8; ++i) s[i] = char(r.byte());
    }
    else { auto n = r.size(600, {0, 255, 256}); s = Out().u8(2).u8(r.byte()).u8(n >> 8).u8(n).d + r.bytes(n); }
    switch (r.below(8)) {
    case 0: s = s.substr(0, r.below(s.size() + 1)); break;
    case 1: if (!s.empty()) s.pop_back(); break;
    case 2: s += r.bytes(r.below(4)); break;
    case 3: if (!s.empty()) s[r.below(s.size())] = char(r.byte()); break;
    case 4: if (!s.empty()) s[r.below(std::min<size_t>(s.size(), 3))] = char(r.below(20)); break;
    default: break;
    }
    return Out().u8(mode).d + s;
}
