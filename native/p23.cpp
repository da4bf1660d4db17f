#include "oracle.hpp"
#include <deque>
#include "tooling/Logger.hpp"
using namespace webfront;
// sequences of level changes, sink registrations and removals, and messages; every sink keeps what it received
struct Watch { bool live; std::vector<std::string> got, want; size_t id; bool removable; };
static std::deque<Watch>& watches = *new std::deque<Watch>;   // sinks that cannot be removed keep referring to it
static bool level[5];
static void expectAll(const std::string& tail, char letter) {
    for (auto& w : watches) if (w.live) w.want.push_back((letter ? std::string("[") + letter + "] " : "") + "\x01" + tail);
}
static void compare() {
    for (auto& w : watches) {
        if (!w.live && !w.removable) continue;
        same(w.got.size(), w.want.size(), "messages delivered to a sink");
        for (size_t i = 0; i < w.got.size(); ++i) {
            auto cut = w.want[i].find('\x01');
            auto head = w.want[i].substr(0, cut), tail = w.want[i].substr(cut + 1);
            EXPECT(w.got[i].starts_with(head), "the line does not name its level: " + w.got[i]);
            EXPECT(w.got[i].ends_with(tail), "the message is not in the line: " + w.got[i]);
        }
        w.got.clear();
        w.want.clear();
    }
    for (uint8_t t = 1; t <= 4; ++t) EXPECT(log::is(t) == level[t], "level " + std::to_string(t));
}
static std::function<void(std::string_view)> sink() {
    auto& w = watches.emplace_back();
    w.live = w.removable = true;
    return [&w](std::string_view t) { w.got.emplace_back(t); };
}
template<typename T> void forget(T& out) { if constexpr (requires { out.sinks.clear(); }) { out.sinks.clear(); watches.clear(); } }
void check(In& in) {
    static const char letters[] = " EWID";
    for (auto& w : watches) if (w.live && w.removable) log::removeSinks(w.id), w.live = false;
    forget(log::out);
    for (auto& w : watches) w.live = false;
    for (auto& b : level) b = false;
    for (uint8_t t = 0; t <= 4; ++t) log::set(t, false);
    for (int steps = 0; steps < 60 && !in.end(); ++steps) {
        switch (in.u8() % 8) {
        case 0: { auto f = sink(); watches.back().id = log::addSinks(f); break; }
        case 1: { auto f = sink(), g = sink(); watches.back().id = log::addSinks(f, std::move(g)); watches[watches.size() - 2].removable = false; break; }
        case 2: {
            auto k = in.u8();
            if (watches.empty()) break;
            auto& w = watches[k % watches.size()];
            if (w.live && w.removable) { log::removeSinks(w.id); w.live = false; }
            break;
        }
        case 3: { uint8_t l = in.u8() % 6; log::setLogLevel(l); for (int t = 1; t <= 4; ++t) level[t] = t <= l; break; }
        case 4: { uint8_t t = 1 + in.u8() % 4; bool b = in.u8() % 2; log::set(t, b); level[t] = b; break; }
        case 5: {
            int x = in.u8();
            if (level[3]) expectAll("| text " + std::to_string(x), 'I');
            std::string c = in.str8();
            if (level[3]) expectAll("", 0);
            log::infoHex("text " + std::to_string(x), c);
            break;
        }
        default: {
            int t = 1 + in.u8() % 4, x = in.u8();
            bool plain = in.u8() % 2;
            std::string want = plain ? "| plain" : "| value " + std::to_string(x) + "!";
            if (level[t]) expectAll(want, letters[t]);
            if (plain) switch (t) {
                case 1: log::error("plain"); break;
                case 2: log::warn("plain"); break;
                case 3: log::info("plain"); break;
                default: log::debug("plain");
                }
            else switch (t) {
                case 1: log::error("value {}!", x); break;
                case 2: log::warn("value {}!", x); break;
                case 3: log::info("value {}!", x); break;
                default: log::debug("value {}!", std::move(x));
                }
        }
        }
        compare();
    }
}
std::string generate(Rng& r) { return r.bytes(r.below(200)); }
