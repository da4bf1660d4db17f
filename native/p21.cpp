#include "wf.hpp"
static std::string shown(const std::string& s) { return s; }
static std::string shown(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return std::isnan(d) ? "nan" : b; }
static std::string shown(bool v) { return v ? "T" : "F"; }
template<typename T> requires std::is_integral_v<T> std::string shown(T v) { return std::to_string(v); }
template<typename... A> std::string shown(const std::tuple<A...>& t) { return "(" + std::apply([](auto&... e) { return ((shown(e) + ";") + ... + ""); }, t) + ")"; }
using Calls = std::vector<std::string>;
struct Registered { int kind; int tag; };
// decodes the arguments as the reference does: the call, or none
template<typename... A> std::optional<std::string> wanted(std::string_view d) {
    std::tuple<A...> t;
    if (!std::apply([&](auto&... e) { return (refDecode(d, e) && ...); }, t)) return {};
    return std::apply([](auto&... e) { return ((shown(e) + "|") + ... + ""); }, t);
}
template<typename... A> struct Fn {
    Calls* calls;
    int tag, fails;
    void operator()(A... a) {
        calls->push_back(std::to_string(tag) + ":" + ((shown(a) + "|") + ... + ""));
        if (fails == 1) throw std::runtime_error("of the function");
        if (fails == 2) throw std::invalid_argument("of the function");
    }
};
static const std::string names[] = {"f", "", "f ", "ff", "g", std::string("a\0b", 3), std::string(300, 'n'), "F"};
void check(In& in) {
    Calls calls;
    std::deque<Client> clients;
    WF wf("80");
    size_t started = 0;
    wf.onUIStarted([&](WF::UI) { ++started; });
    std::map<std::string, Registered> known;
    auto add = [&](unsigned op, unsigned how) {
        std::string name = names[op % 8];
        int kind = how % 5, fails = how / 5 % 8, tag = op * 256 + how;
        switch (kind) {
        case 0: wf.cppFunction<void, int, std::string>(name, Fn<int, std::string>{&calls, tag, fails}); break;
        case 1: wf.cppFunction<void>(name, Fn<>{&calls, tag, fails}); break;
        case 2: wf.cppFunction<void, std::string>(name, Fn<std::string>{&calls, tag, fails}); break;
        case 3: wf.cppFunction<void, double, bool, std::string>(name, Fn<double, bool, std::string>{&calls, tag, fails}); break;
        case 4: wf.cppFunction<void, std::tuple<int, std::string>, double>(name, Fn<std::tuple<int, std::string>, double>{&calls, tag, fails}); break;
        }
        known.try_emplace(name, Registered{kind, tag});
    };
    for (int n = in.u8() % 4; n--;) clients.emplace_back();
    if (clients.empty()) clients.emplace_back();
    while (!in.end()) {
        auto op = in.u8();
        if (op % 4 == 0) { add(in.u8(), in.u8()); continue; }
        auto& c = clients[op / 4 % clients.size()];
        if (op % 4 == 1 && op & 64) {
            auto before = started;
            c.handshake(op);
            same(started, before + 1, "user interfaces started by a handshake");
            auto fs = c.news();
            same(fs.size(), size_t(1), "frames sent because of a handshake");
            same(fs[0].payload, std::string("\1\0", 2), "the acknowledge");
            continue;
        }
        if (op & 128) c.wire->completeAll();
        std::string name = in.u8() % 8 ? names[in.u8() % 8] : in.str8(), data = in.str16();
        auto first = in.u8();
        bool lying = first % 8 == 0;
        auto payload = refString(name, 5, first & 16) + data;
        if (lying && first & 32) payload.resize(in.u8() % (payload.size() + 1));
        uint32_t size = payload.size();
        if (lying) size = first & 64 ? in.u32() : size - in.u8() % (size + 1);
        auto message = Out().u8(3).u8(in.u8()).u8(in.u8()).u8(in.u8()).u32(size).raw(payload).d;
        if (lying && first & 128) message.resize(in.u8() % (message.size() + 1));
        // what the message says
        std::optional<std::string> callee;
        std::string_view d;
        if (message.size() >= 8 && size <= message.size() - 8) {
            d = std::string_view(message).substr(8);
            // the parameters are in the announced bytes
            std::string n;
            auto e = d.substr(0, size);
            if (refDecode(e, n)) { callee = n; d = e; }
        }
        if (message.empty()) continue;
        calls.clear();
        c.send(message, first, in.u8());
        bool unknown = callee && !known.count(*callee);
        Calls want;
        if (callee && !unknown) {
            auto& k = known[*callee];
            std::optional<std::string> w;
            switch (k.kind) {
            case 0: w = wanted<int, std::string>(d); break;
            case 1: w = wanted<>(d); break;
            case 2: w = wanted<std::string>(d); break;
            case 3: w = wanted<double, bool, std::string>(d); break;
            case 4: w = wanted<std::tuple<int, std::string>, double>(d); break;
            }
            if (w) want.push_back(std::to_string(k.tag) + ":" + *w);
        }
        same(calls.size(), want.size(), "functions called");
        if (!want.empty()) same(calls[0], want[0], "the function called and its arguments");
        for (auto& other : clients) {
            auto fs = other.news();
            same(fs.size(), size_t(&other == &c && unknown), "frames sent because of a call");
            if (fs.empty()) continue;
            auto& p = fs[0].payload;
            same(int(fs[0].first), 0x82, "frame of the exception");
            EXPECT(p.size() >= 11 && p[0] == 4, "not a function return message");
            same(int(uint8_t(p[1])), 1, "number of values of the exception message");
            uint32_t n;
            memcpy(&n, p.data() + 4, 4);
            same(size_t(n), p.size() - 8, "size announced by the exception message");
            same(int(uint8_t(p[8])), 6, "type of the value: exception");
            same(size_t(uint8_t(p[9]) + 256 * uint8_t(p[10])), p.size() - 11, "length of the exception's text");
        }
        EXPECT(c.wire->reading() && !c.wire->closed, "the connection ended");
    }
    hangUp(clients);
}
std::string generate(Rng& r) {
    Out o;
    o.u8(r.byte());
    auto value = [&]() -> std::string {
        switch (r.below(7)) {
        case 0: return refEncode(int(r.next()));
        case 1: return refEncode(r.bytes(r.size(40)));
        case 2: return refEncode(r.chance(50));
        case 3: return refEncode(double(int64_t(r.next())) / 8);
        case 4: return refEncode(std::tuple<int, std::string>(int(r.below(100)), r.bytes(r.below(9))));
        case 5: return std::string(1, char(r.chance(50) ? 0 : r.byte()));
        default: return refEncode(r.bytes(r.size(300, {255, 256})));
        }
    };
    for (int n = r.below(5) + 1; n--;) o.u8(0).u8(r.chance(60) ? r.below(3) : r.byte()).u8(r.chance(60) ? r.below(5) : r.byte());
    for (int n = r.below(10) + 1; n--;) {
        auto op = r.byte();
        if (op % 4 == 0) { o.u8(op).u8(r.chance(60) ? r.below(3) : r.byte()).u8(r.byte()); continue; }
        o.u8(op);
        if (op % 4 == 1 && op & 64) continue;
        std::string d;
        switch (r.below(7)) {
        case 0: d = refEncode(int(r.next())) + refEncode(r.bytes(r.below(20))); break;
        case 1: break;
        case 2: d = refEncode(r.bytes(r.size(300, {255, 256}))); break;
        case 3: d = refEncode(double(r.below(1000)) / 4) + refEncode(r.chance(50)) + refEncode(r.bytes(r.below(20))); break;
        case 4: d = refEncode(std::tuple<int, std::string>(int(r.below(100)), r.bytes(r.below(9)))) + refEncode(double(r.below(10))); break;
        default: for (int k = r.below(4); k--;) d += value();
        }
        if (r.chance(10) && !d.empty()) d.resize(r.below(d.size()));
        if (r.chance(10)) d += r.bytes(r.below(5));
        if (r.chance(90)) o.u8(1 + r.below(7)).u8(r.chance(70) ? r.below(3) : r.byte());
        else o.u8(0).str8(r.bytes(r.below(10)));
        o.u16(d.size()).raw(d);
        auto first = r.chance(80) ? r.byte() | 1 : r.byte();
        o.u8(first);
        if (first % 8 == 0) { if (first & 32) o.u8(r.byte()); if (first & 64) o.u32(r.chance(50) ? r.below(400) : r.next()); else o.u8(r.byte()); }
        o.u8(r.byte()).u8(r.byte()).u8(r.byte());
        if (first % 8 == 0 && first & 128) o.u8(r.byte());
        o.u8(r.byte());
    }
    return o.d;
}
