#include "net.hpp"
#include <http/HTTPServer.hpp>
using namespace webfront::http;
// a stream of bytes given to two parsers under two different cuttings, against a recursive-descent reading of the grammar
struct Want { bool bad = false, done = false; size_t at = 0; std::string method, uri; long long major = 0, minor = 0; std::vector<std::pair<std::string, std::string>> headers; };
static bool ctl(uint8_t c) { return c < 32 || c == 127; }
static bool token(uint8_t c) { return c < 128 && !ctl(c) && !strchr("()<>@,;:\\\"/[]?={} \t", c); }
Want reference(std::string_view s) {
    Want w;
    size_t p = 0;
    struct More {}; struct Bad {};
    auto peek = [&]() -> uint8_t { if (p >= s.size()) throw More{}; return uint8_t(s[p]); };
    auto expect = [&](std::string_view t) { for (char c : t) { if (peek() != uint8_t(c)) throw Bad{}; ++p; } };
    auto number = [&](char stop) {
        long long v = 0;
        int n = 0;
        while (true) {
            auto c = peek();
            if (n && c == uint8_t(stop)) break;
            if (c < '0' || c > '9') throw Bad{};
            v = v >= 100000000 ? v : v * 10 + c - '0';
            ++n, ++p;
        }
        ++p;
        return v;
    };
    try {
        while (true) { auto c = peek(); if (w.method.size() && c == ' ') break; if (!token(c)) throw Bad{}; w.method += char(c); ++p; }
        ++p;
        while (true) { auto c = peek(); if (c == ' ') break; if (ctl(c)) throw Bad{}; w.uri += char(c); ++p; }
        ++p;
        expect("HTTP/");
        w.major = number('.');
        w.minor = number('\r');
        expect("\n");
        while (peek() != '\r') {
            if (w.headers.size() && (peek() == ' ' || peek() == '\t')) {
                while (peek() == ' ' || peek() == '\t') ++p;
            } else {
                if (!token(peek())) throw Bad{};
                auto& h = w.headers.emplace_back();
                while (true) { auto c = peek(); if (c == ':') break; if (!token(c)) throw Bad{}; h.first += char(c); ++p; }
                expect(": ");
            }
            while (true) { auto c = peek(); if (c == '\r') break; if (ctl(c)) throw Bad{}; w.headers.back().second += char(c); ++p; }
            expect("\r\n");
        }
        expect("\r\n");
        w.done = true;
    }
    catch (More) {}
    catch (Bad) { w.bad = true; }
    w.at = p;
    return w;
}
void check(In& in) {
    uint16_t seedA = in.u8(), seedB = in.u8();
    std::string stream = in.rest();
    auto w = reference(stream);
    for (int round = 0; round < 2; ++round) {
        Request q;
        uint32_t rnd = round ? seedB : seedA;
        bool bad = false, done = false;
        size_t pos = 0, reads = 0;
        EXPECT(!q.completed(), "complete at the start");
        while (pos < stream.size() && !bad && !done) {
            rnd = rnd * 1664525u + 1013904223u;
            size_t n = (seedA | seedB) == 0 ? stream.size() : (rnd >> 16) % ((rnd >> 8) % 4 ? 4 : 40);
            if (reads++ > 200000) n = stream.size();
            Exact chunk(std::string_view(stream).substr(pos, n));
            try { done = q.parseSomeData(chunk.data(), chunk.data() + chunk.size()); }
            catch (const BadRequestException&) { bad = true; }
            if (!bad) EXPECT(done == q.completed(), "completed() contradicts the parser");
            if (!bad) EXPECT(done == (w.done && pos + chunk.size() >= w.at), "completion after " + std::to_string(pos + chunk.size()) + " bytes, the request has " + std::to_string(w.at));
            if (bad) EXPECT(w.bad && w.at < pos + chunk.size() && w.at >= pos, "rejected in bytes " + std::to_string(pos) + " to " + std::to_string(pos + chunk.size()));
            else EXPECT(!w.bad || w.at >= pos + chunk.size(), "the malformed byte " + std::to_string(w.at) + " is accepted");
            pos += chunk.size();
        }
        if (done) {
            static const char* names[] = {"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
            int m = 9;
            for (int i = 0; i < 9; ++i) if (w.method == names[i]) m = i;
            same(int(q.method), m, "method");
            same(q.uri, w.uri, "URI");
            if (w.major < 100000000) same((long long)q.httpVersionMajor, w.major, "major version");
            if (w.minor < 100000000) same((long long)q.httpVersionMinor, w.minor, "minor version");
            same(q.headers.size(), w.headers.size(), "number of headers");
            for (size_t i = 0; i < w.headers.size(); ++i) {
                same(q.headers[i].name, w.headers[i].first, "header name");
                same(q.headers[i].value, w.headers[i].second, "header value");
            }
        }
    }
}
std::string generate(Rng& r) {
    static const std::string tok = "ABCGETHOPSUabcxyz0129-_!#$%&'*+.^`|~", uri = "/abc%20?x=1&y#.~\xc3\xa9", val = "abc ;:\"/=,\xe9\t()", methods[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "PATCH", "TRACE", "UNDEFINED", "get", "GETT", "GE"};
    std::string s = r.chance(60) ? std::string(r.pick(methods)) : r.text(r.size(12), tok);
    s += " " + r.text(r.size(r.chance(95) ? 60 : 9000), uri) + " HTTP/";
    auto num = [&] { return r.chance(60) ? std::string(r.chance(50) ? "1" : "0") : r.text(r.size(14, {8, 9, 10}) + 1, "0123456789"); };
    s += num() + "." + num() + "\r\n";
    for (int h = r.size(12); h--;) {
        s += r.text(r.size(20) + 1, tok) + ": " + r.text(r.size(60), val.substr(0, val.size() - 3));
        while (r.chance(20)) s += "\r\n" + r.text(r.size(5) + 1, " \t") + r.text(r.size(20), val.substr(0, 5));
        s += "\r\n";
    }
    s += "\r\n";
    if (r.chance(30)) s += r.bytes(r.size(20));
    for (int k = r.chance(50) ? 0 : r.size(4) + 1; k--;) {
        size_t p = r.below(s.size() + 1);
        switch (r.below(4)) {
        case 0: if (p < s.size()) s[p] = char(r.byte()); break;
        case 1: if (p < s.size()) s.erase(p, r.size(4) + 1); break;
        case 2: s.insert(p, r.text(1, std::string("\r\n \t:/H.0\x7f\x80\xff\0(", 14))); break;
        default: if (r.chance(20)) s.resize(p);
        }
    }
    Out o;
    o.u8(r.chance(20) ? 0 : r.byte()).u8(r.chance(20) ? 0 : r.byte()).raw(s);
    return o.d;
}
