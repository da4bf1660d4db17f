#include "oracle.hpp"
#include "utils/TypeErasedFunction.hpp"
using namespace webfront::utils;
using F = TypeErasedFunction;
struct Quiet : std::streambuf { int overflow(int c) override { return c; } };
static std::vector<std::string> calls;
struct Refusal { int v; };
static bool throwing;
static void note(std::string s) { calls.push_back(std::move(s)); if (throwing) throw Refusal{7}; }
static std::string n(auto v) { return std::to_string(v); }
static int sum(int a, long b) { note("sum " + n(a) + " " + n(b)); return int(unsigned(a) * 3u + unsigned(b)); }
static void none() { note("none"); }
static double real(double a) { note("real " + n(a)); return a / 3; }
static void text(std::string s, int a) { note("text " + s + " " + n(a)); }
static std::string join(std::string s, std::string t) { note("join"); return s + t; }
static std::unique_ptr<int> own(std::unique_ptr<int> p) { note("own " + n(*p)); return p; }
// what happened: "ok", "refused" or "thrown"
template<typename C> std::string outcome(C&& c) {
    calls.clear();
    try { c(); return "ok"; }
    catch (const std::invalid_argument&) { return "refused"; }
    catch (const Refusal& r) { return r.v == 7 ? "thrown" : "other"; }
}
template<typename C> void accepted(const char* what, std::string want, C&& c) {
    auto o = outcome(c);
    same(o, std::string(throwing ? "thrown" : "ok"), std::string("outcome of ") + what);
    same(calls.size(), size_t(1), std::string("calls of the wrapped function: ") + what);
    if (!want.empty()) same(calls[0], want, std::string("arguments: ") + what);
}
template<typename C> void refused(const char* what, C&& c) {
    auto o = outcome(c);
    same(o, std::string("refused"), std::string("outcome of ") + what);
    same(calls.size(), size_t(0), std::string("calls of the wrapped function: ") + what);
}
void check(In& in) {
    static Quiet quiet;
    std::cout.rdbuf(&quiet);
    throwing = in.u8() % 4 == 0;
    int a = int(in.u32());
    long b = long(in.u64());
    std::string s = in.str8(), t = in.str8();
    double d = double(a) / 16;
    F fs(&sum), fn(&none), fr(&real), ft(&text), fj(&join), fo(&own), fl([b, t](int x) { note("lambda " + n(b) + t + n(x)); return b + x; });
    F fx(std::move(fs));
    F bound(&sum, int(a), long(b)), boundText(&text, std::string(s), int(a)), boundLambda([](std::string u, int x) { note("bl " + u + n(x)); return x; }, std::string(t), int(a));
    accepted("call<int>(int, long)", "sum " + n(a) + " " + n(b), [&] { same(fx.call<int>(int(a), long(b)), int(unsigned(a) * 3u + unsigned(b)), "result"); });
    accepted("operator()(int, long)", "sum " + n(a) + " " + n(b), [&] { fx(int(a), long(b)); });
    accepted("operator()()", "none", [&] { fn(); });
    accepted("call<void>()", "none", [&] { fn.call<void>(); });
    accepted("call<double>(double)", "real " + n(d), [&] { same(fr.call<double>(double(d)), d / 3, "result"); });
    accepted("operator()(string, int)", "text " + s + " " + n(a), [&] { ft(std::string(s), int(a)); });
    accepted("call<string>(string, string)", "join", [&] { same(fj.call<std::string>(std::string(s), std::string(t)), s + t, "result"); });
    accepted("call of a lambda", "lambda " + n(b) + t + n(a), [&] { fl(int(a)); });
    accepted("call of a function that takes a unique pointer", "own " + n(a), [&] { same(*fo.call<std::unique_ptr<int>>(std::make_unique<int>(a)), a, "result"); });
    for (int k = 0; k < 2; ++k) {
        accepted("operator() with bound arguments", "sum " + n(a) + " " + n(b), [&] { bound(int(1), long(2)); });
        accepted("call with bound arguments", "sum " + n(a) + " " + n(b), [&] { same(bound.call<int>(int(1), long(2)), int(unsigned(a) * 3u + unsigned(b)), "result"); });
        accepted("operator() with a bound text", "text " + s + " " + n(a), [&] { boundText(std::string("x"), int(2)); });
        accepted("call with a bound text", "text " + s + " " + n(a), [&] { boundText.call<void>(std::string("x"), int(2)); });
        accepted("operator() of a bound lambda", "bl " + t + n(a), [&] { boundLambda(std::string("x"), int(2)); });
        accepted("call of a bound lambda", "bl " + t + n(a), [&] { same(boundLambda.call<int>(std::string("x"), int(2)), a, "result"); });
    }
    refused("fewer arguments", [&] { fx(int(a)); });
    refused("more arguments", [&] { fx(int(a), long(b), int(a)); });
    refused("no arguments", [&] { fx(); });
    refused("swapped arguments", [&] { fx(long(b), int(a)); });
    refused("narrower argument", [&] { fx(int(a), int(b)); });
    refused("unsigned argument", [&] { fx(unsigned(a), long(b)); });
    refused("another result", [&] { fx.call<long>(int(a), long(b)); });
    refused("no result", [&] { fx.call<void>(int(a), long(b)); });
    refused("call with fewer arguments", [&] { fx.call<int>(int(a)); });
    refused("float instead of double", [&] { fr.call<double>(float(a)); });
    refused("literal instead of string", [&] { ft("text", int(a)); });
    refused("arguments for none", [&] { fn(int(a)); });
    refused("result of none", [&] { fn.call<int>(); });
    refused("another type for a bound function", [&] { boundText(int(2)); });
}
std::string generate(Rng& r) { return r.bytes(r.below(60)); }
