// Bounded stand-in and counterexample replay: runs the real code of /repo on byte inputs against an independent oracle.
// usage: prog --search SECONDS SEED | --input FILE        (exit 1 when the oracle is contradicted)
// A driver defines: void check(In& in)  and  std::string generate(Rng& r).
#pragma once
#include <array>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iterator>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace oracle {
inline std::string current, outPath;
inline const char* cause = "the program was stopped by a sanitizer or a signal";
inline void report(const char* why) {
    static bool done = false;
    if (done) return;
    done = true;
    if (!outPath.empty()) {
        if (FILE* f = fopen(outPath.c_str(), "wb")) {
            fwrite(current.data(), 1, current.size(), f);
            fclose(f);
        }
    }
    printf("\nORACLE-FAIL %s\n", why);
    fflush(stdout);
}
inline void onDeath() { report(cause); }
inline void onSignal(int s) {
    report(s == SIGALRM || s == SIGVTALRM ? "does not terminate" : s == SIGABRT ? "the program aborted" : "the program crashed");
    _exit(1);
}
struct Failure : std::exception {
    std::string text;
    Failure(std::string t) : text(std::move(t)) {}
    const char* what() const noexcept override { return text.c_str(); }
};

// deterministic generator
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned percent) { return below(100) < percent; }
    uint8_t byte() { return uint8_t(next()); }
    template<typename C> auto& pick(C& c) { return *(std::begin(c) + long(below(std::size(c)))); }
    std::string bytes(size_t n) {
        std::string r(n, 0);
        for (auto& c : r) c = char(byte());
        return r;
    }
    // bytes mostly drawn from an alphabet
    std::string text(size_t n, std::string_view alphabet, unsigned alien = 0) {
        std::string r(n, 0);
        for (auto& c : r) c = alien && chance(alien) ? char(byte()) : alphabet[below(alphabet.size())];
        return r;
    }
    // a size which favours the neighbourhood of the given boundaries
    size_t size(size_t max, std::initializer_list<size_t> bounds = {}) {
        if (bounds.size() && chance(50)) {
            auto b = *(bounds.begin() + below(bounds.size()));
            auto d = long(below(5)) - 2;
            auto v = long(b) + d;
            return size_t(v < 0 ? 0 : v > long(max) ? long(max) : v);
        }
        switch (below(3)) {
        case 0: return below(std::min<size_t>(max, 4) + 1);
        case 1: return below(std::min<size_t>(max, 40) + 1);
        default: return below(max + 1);
        }
    }
};

// reads structured values out of a byte input (zeros once it is exhausted)
struct In {
    std::string_view data;
    size_t pos{0};
    explicit In(std::string_view d) : data(d) {}
    uint8_t u8() { return pos < data.size() ? uint8_t(data[pos++]) : uint8_t((++pos, 0)); }
    uint16_t u16() { auto a = u8(); return uint16_t(a | (u8() << 8)); }
    uint32_t u32() { auto a = u16(); return uint32_t(a | (uint32_t(u16()) << 16)); }
    uint64_t u64() { auto a = u32(); return a | (uint64_t(u32()) << 32); }
    bool end() const { return pos >= data.size(); }
    std::string bytes(size_t n) {
        n = std::min(n, data.size() - std::min(pos, data.size()));
        std::string r(data.substr(std::min(pos, data.size()), n));
        pos += n;
        return r;
    }
    std::string str8() { auto n = u8(); return bytes(n); }
    std::string str16() { auto n = u16(); return bytes(n); }
    std::string str32() { auto n = u32(); return bytes(n); }
    std::string rest() { return bytes(data.size()); }
};
// writes what In reads
struct Out {
    std::string d;
    Out& u8(uint64_t v) { d += char(v); return *this; }
    Out& u16(uint64_t v) { return u8(v).u8(v >> 8); }
    Out& u32(uint64_t v) { return u16(v).u16(v >> 16); }
    Out& u64(uint64_t v) { return u32(v).u32(v >> 32); }
    Out& raw(std::string_view s) { d += s; return *this; }
    Out& str8(std::string_view s) { s = s.substr(0, 255); return u8(s.size()).raw(s); }
    Out& str16(std::string_view s) { s = s.substr(0, 65535); return u16(s.size()).raw(s); }
    Out& str32(std::string_view s) { return u32(s.size()).raw(s); }
};

// a copy of bytes in its own heap block of exactly this size, so that any read outside is seen by AddressSanitizer
struct Exact {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
    char* data() const { return p.get(); }
    size_t size() const { return n; }
    operator std::string_view() const { return {p.get(), n}; }
};

inline std::string hex(std::string_view s, size_t max = 64) {
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, 4, "%02x", uint8_t(s[i])); r += b; }
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}
inline std::string show(std::string_view s) { return hex(s); }
inline void fail(std::string m) { throw Failure(std::move(m)); }
#define EXPECT(cond, msg) do { if (!(cond)) oracle::fail(std::string(msg)); } while (0)
template<typename A, typename B> void same(const A& got, const B& want, std::string what) {
    if (got == want) return;
    std::ostringstream o;
    if constexpr (std::is_convertible_v<A, std::string_view>) o << what << ": got " << hex(got) << " expected " << hex(want);
    else if constexpr (requires { o << got; }) o << what << ": got " << got << " expected " << want;
    else o << what;
    fail(o.str());
}
} // namespace oracle
using namespace oracle;

void check(In& in);
std::string generate(Rng& r);

int main(int argc, char** argv) {
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM}) signal(s, onSignal);
    auto run = [](const std::string& s) {
        current = s;
        itimerval t{{0, 0}, {5, 0}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
        try { In in(current); check(in); }
        catch (const Failure& f) { report(f.what()); exit(1); }
        catch (const std::exception& e) { report((std::string("unexpected exception: ") + e.what()).c_str()); exit(1); }
        catch (...) { report("unexpected exception"); exit(1); }
        t = {};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    };
    if (argc >= 3 && std::string(argv[1]) == "--input") {
        std::ifstream f(argv[2], std::ios::binary);
        run(std::string(std::istreambuf_iterator<char>(f), {}));
        printf("OK\n");
        return 0;
    }
    if (argc < 5) return 2;
    double seconds = atof(argv[2]);
    outPath = argv[4];
    Rng r(uint64_t(atoll(argv[3])));
    auto start = std::chrono::steady_clock::now();
    uint64_t n = 0;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() < seconds) {
        auto s = generate(r);
        uint64_t h = 1469598103934665603ull;
        for (uint8_t c : s) h = (h ^ c) * 1099511628211ull;
        if (s.size() > 1 && seen.size() < 5000000) seen.insert(h);
        if (samples.size() < 3) samples.push_back(s);
        run(s);
        ++n;
    }
    printf("\nORACLE-EVALS %llu %llu\n", (unsigned long long)n, (unsigned long long)seen.size());
    for (auto& s : samples) printf("ORACLE-SAMPLE %s\n", hex(s).c_str());
    return 0;
}
