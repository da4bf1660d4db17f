// whole answers of RequestHandler over an in-memory file system, compared with a reference answer
#pragma once
#include "net.hpp"
#include "sha1ref.hpp"
#include <http/HTTPServer.hpp>
#include <system/NativeFS.hpp>
using namespace webfront;
using namespace webfront::http;
struct Stored { std::string bytes, encoding; std::vector<uint64_t> words; };
// runs of slashes name the same file as one slash
inline std::string collapsed(const std::string& d) {
    std::string r;
    for (auto c : d) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c;
    return r;
}
struct MapFS {
    inline static std::map<std::string, Stored> files;
    inline static std::vector<std::string> opened;
    explicit MapFS(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p) {
        opened.push_back(p.string());
        auto f = files.find(collapsed(p.string()));
        if (f == files.end()) return {};
        return fs::File(std::span<const uint64_t>(f->second.words), f->second.bytes.size(), f->second.encoding);
    }
};
static_assert(fs::Provider<MapFS>);
inline void put(const std::string& name, const std::string& bytes, const std::string& encoding) {
    Stored s{bytes, encoding, {}};
    for (size_t i = 0; i < bytes.size(); i += 8) {
        uint64_t w = 0;
        for (size_t k = 0; k < 8; ++k) w = w << 8 | (i + k < bytes.size() ? uint8_t(bytes[i + k]) : 0);
        s.words.push_back(w);
    }
    MapFS::files[name] = s;
}
inline std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
inline std::string decoded(const std::string& s) {
    std::string r;
    auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size() && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0) { r += char(hex(s[i + 1]) * 16 + hex(s[i + 2])); i += 2; }
        else r += s[i] == '+' ? ' ' : s[i];
    }
    return r;
}
// name of the file which a decoded absolute URI stands for
inline std::string fileName(const std::string& d) {
    std::string r;
    for (size_t i = 0; i < d.size(); ++i) if (!(d[i] == '/' && (r.empty() || r.back() == '/'))) r += d[i];
    if (r.empty() || r.back() == '/') r += "index.html";
    return r;
}
inline std::string mimeOf(const std::string& path) {
    auto name = path.substr(path.rfind('/') + 1);      // npos + 1 == 0
    auto dot = name.rfind('.');
    std::string e = name == "." || name == ".." || dot == std::string::npos || dot == 0 ? "" : name.substr(dot + 1);
    static const std::map<std::string, std::string> types{{"js", "application/javascript"}, {"mjs", "application/javascript"}, {"htm", "text/html"}, {"html", "text/html"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"css", "text/css"},
        {"png", "image/png"}, {"gif", "image/gif"}, {"json", "application/json"}, {"pdf", "application/pdf"}, {"ttf", "font/ttf"}, {"ico", "image/x-icon"}, {"svg", "image/svg+xml"}, {"webp", "image/webp"}, {"csv", "text/csv"}};
    auto t = types.find(e);
    return t == types.end() ? "text/plain" : t->second;
}
inline std::string acceptKey(const std::string& key) {
    std::string d;
    for (auto w : sha1Reference(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")) for (int i = 24; i >= 0; i -= 8) d += char(w >> i);
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (size_t i = 0; i < d.size(); i += 3) {
        uint32_t v = 0;
        for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < d.size() ? uint8_t(d[i + k]) : 0);
        for (size_t k = 0; k < 4; ++k) r += i + k > d.size() ? '=' : a[v >> (18 - 6 * k) & 63];
    }
    return r;
}
inline std::vector<std::string> valuesOf(const Headers& h, const std::string& n) {
    std::vector<std::string> r;
    for (auto& x : h.headers) if (upper(x.name) == upper(n)) r.push_back(x.value);
    return r;
}
inline bool says(const Headers& h, const std::string& n, const std::string& t) {
    for (auto& v : valuesOf(h, n)) if (upper(v).find(upper(t)) != std::string::npos) return true;
    return false;
}
inline void one(const Response& r, const char* n, const std::string& want) {
    auto v = valuesOf(r, n);
    same(v.size(), size_t(1), std::string("number of headers ") + n);
    same(v[0], want, std::string("header ") + n);
}
inline void statusPage(const Response& r, int code, const char* reason) {
    same(static_cast<int>(r.statusCode), code, "status code");
    std::string body = std::string("<html><head><title>") + reason + "</title></head><body><h1>" + std::to_string(code) + " " + reason + "</h1></body></html>";
    same(r.content, body, "status page");
    one(r, "Content-Length", std::to_string(body.size()));
    one(r, "Content-Type", "text/html");
}
enum { PATHS = 1, HANDSHAKE = 2, ANSWERS = 4 };
inline void checkRequest(RequestHandler<TNet, MapFS>& handler, const Request& q, int what) {
    MapFS::opened.clear();
    auto get = q.method == Request::Method::Get, head = q.method == Request::Method::Head;
    auto d = decoded(q.uri);
    auto r = handler.handleRequest(q);
    auto code = static_cast<int>(r.statusCode);
    auto& opened = MapFS::opened;
    bool bad = d.empty() || d[0] != '/' || d.find("..") != std::string::npos;
    if (what & PATHS) {
        for (auto& p : opened) {
            EXPECT(!p.empty() && p[0] != '/', "a path handed to the file system is not relative: " + p);
            EXPECT(p.find("..") == std::string::npos, "a path handed to the file system contains '..': " + p);
        }
        if (bad) { same(code, 400, "status of a malformed URI"); EXPECT(opened.empty(), "a malformed URI opens a file"); }
    }
    auto keys = valuesOf(q, "Sec-WebSocket-Key");
    bool shake = !bad && get && says(q, "Connection", "upgrade") && says(q, "Upgrade", "websocket") && !keys.empty();
    if (what & HANDSHAKE) {
        EXPECT((code == 101) == shake, "status 101 exactly for a handshake");
        if (shake) {
            one(r, "Upgrade", "websocket");
            auto c = valuesOf(r, "Connection");
            EXPECT(c.size() == 1 && upper(c[0]) == "UPGRADE", "Connection header");
            one(r, "Sec-WebSocket-Accept", acceptKey(keys[0]));
            EXPECT(r.content.empty(), "a handshake has no content");
        }
    }
    if (!(what & ANSWERS) || shake) return;
    if (bad) return statusPage(r, 400, "Bad Request");
    if (!get && !head) return statusPage(r, 501, "Not Implemented");
    auto name = fileName(d);
    EXPECT(!opened.empty(), "no file is opened");
    for (auto& p : opened) same(collapsed(p), name, "file opened");
    auto f = MapFS::files.find(name);
    if (f == MapFS::files.end()) return statusPage(r, 404, "Not Found");
    auto& e = f->second.encoding;
    if (get && !e.empty() && !says(q, "Accept-Encoding", e)) return statusPage(r, 506, "Variant Also Negotiates");
    same(code, 200, "status code");
    if (get) same(r.content, f->second.bytes, "content");
    else EXPECT(r.content.empty(), "HEAD has content");
    one(r, "Content-Length", std::to_string(r.content.size()));
    one(r, "Content-Type", mimeOf(name));
    if (get) {
        auto v = valuesOf(r, "Content-Encoding");
        same(v.size(), size_t(!e.empty()), "number of Content-Encoding headers");
        if (v.size()) same(v[0], e, "Content-Encoding");
    }
}
inline void checkCase(In& in, int what) {
    RequestHandler<TNet, MapFS> handler{"root"};
    MapFS::files.clear();
    for (int n = in.u8() % 4; n--;) {
        auto name = in.str8(), enc = in.str8();
        auto size = in.u16();
        auto seed = in.u8();
        std::string bytes(size, 0);
        for (size_t i = 0; i < bytes.size(); ++i) bytes[i] = char(i * 31 + i / 251 + seed);
        put(name, bytes, enc);
    }
    for (int n = in.u8() % 4 + 1; n--;) {
        Request q;
        q.method = static_cast<Request::Method>(in.u8() % 10);
        q.uri = in.str8();
        for (int h = in.u8() % 12; h--;) {
            auto a = in.str8(), b = in.str8();
            q.headers.push_back({});
            q.headers.back().name = a;
            q.headers.back().value = b;
        }
        checkRequest(handler, q, what);
    }
}
inline std::string randomCase(Rng& r) {
    Out o;
    static const std::string parts[] = {"/", "/", "/", "a", "b.html", "index.html", ".", "..", "%2e", "%2E", "%2f", "x.js", "x.mjs", "d/", "%00", "+", "%", "%2", "?q=1", "#f", "\xc3\xa9", "a.b.css", "img.jpeg", ".png", "//", "c.csv", "\\", "%5c", "C:"};
    static const std::string encs[] = {"", "", "br", "gzip"};
    auto vary = [&](std::string s) { for (auto& c : s) if (r.chance(30) && isalpha(uint8_t(c)) && uint8_t(c) < 128) c ^= 32; if (r.chance(4) && s.size()) s[r.below(s.size())] = char(r.byte()); return s; };
    int n = r.below(3) + 1;
    std::vector<std::string> uris;
    for (int i = 0; i < n; ++i) {
        std::string u = r.chance(93) ? "/" : "";
        for (int k = r.below(6); k--;) u += r.chance(92) ? r.pick(parts) : r.bytes(r.below(3) + 1);
        if (r.chance(1)) u += r.text(200, "/ab.", 0);
        uris.push_back(u.substr(0, 255));
    }
    o.u8(n);
    for (auto& u : uris) { o.str8(fileName(decoded(r.chance(85) ? u : r.pick(uris))).substr(0, 255)); o.str8(r.pick(encs)); auto z = r.size(r.chance(80) ? 1100 : 20000, {0, 511, 512, 513, 1024}); o.u16(uint16_t(z)); o.u8(r.byte()); }
    n = r.below(4);
    o.u8(n);
    for (int i = 0; i <= n; ++i) {
        o.u8(r.chance(70) ? 2 : r.chance(40) ? 3 : r.byte());
        o.str8(r.pick(uris));
        std::vector<std::pair<std::string, std::string>> hs;
        static const std::string key = "Sec-WebSocket-Key", conn = "Connection", up = "Upgrade", acc = "Accept-Encoding";
        if (r.chance(60)) hs.emplace_back(vary(acc), vary(r.chance(50) ? "gzip, deflate, br" : r.chance(50) ? "br" : "gzip"));
        if (r.chance(60)) hs.emplace_back(vary(conn), vary(r.chance(70) ? "Upgrade" : r.chance(50) ? "keep-alive, Upgrade" : "close"));
        if (r.chance(60)) hs.emplace_back(vary(up), vary(r.chance(80) ? "websocket" : "h2c"));
        if (r.chance(60)) hs.emplace_back(vary(key), r.chance(50) ? "dGhlIHNhbXBsZSBub25jZQ==" : r.bytes(r.size(120, {0, 19, 20, 27, 28})));
        if (r.chance(15)) hs.emplace_back(vary(key), r.bytes(5));
        if (r.chance(30)) hs.emplace_back(vary("Host"), "x");
        for (size_t k = hs.size(); k > 1; --k) std::swap(hs[k - 1], hs[r.below(k)]);
        o.u8(uint8_t(hs.size()));
        for (auto& [a, b] : hs) { o.str8(a); o.str8(b); }
    }
    return o.d;
}
// a real document root, with a file beside it that must not be served
struct Tree {
    std::filesystem::path top;
    std::map<std::string, std::string> files{{"root/index.html", "index"}, {"root/a", std::string(1300, 'a')}, {"root/b.html", "b"}, {"root/d/index.html", "d index"}, {"root/d/x.js", ""}, {"root/.png", "dot"}, {"root/c", "SECRET?"}, {"a", "SECRET"}, {"b.html", "SECRET"}, {"x.js", "SECRET"}};
    Tree() {
        char name[] = "/tmp/webfront-tree-XXXXXX";
        if (!mkdtemp(name)) abort();
        top = name;
        for (auto& [n, b] : files) {
            std::filesystem::create_directories((top / n).parent_path());
            std::ofstream(top / n, std::ios::binary) << b;
        }
    }
    ~Tree() { std::error_code ec; for (auto& [n, b] : files) std::filesystem::remove(top / n, ec); for (auto d : {"root/d", "root", ""}) std::filesystem::remove(top / d, ec); }
};
inline Tree& tree() { static Tree t; return t; }
inline void checkTree(In& in, int what) {
    static bool once = (tree(), true);
    (void)once;
    RequestHandler<TNet, fs::NativeDebugFS> handler{tree().top / "root"};
    Request q;
    q.method = in.u8() % 4 ? Request::Method::Get : Request::Method::Head;
    q.uri = in.str8();
    auto d = decoded(q.uri);
    auto r = handler.handleRequest(q);
    if (what & PATHS) EXPECT(r.content.find("SECRET") == std::string::npos || r.content == "SECRET?", "a file beside the document root is served");
    if (!(what & ANSWERS) || d.empty() || d[0] != '/' || d.find("..") != std::string::npos || d.find('\0') != std::string::npos) return;
    auto name = fileName(d), plain = std::string();
    for (size_t i = 0; i < name.size(); ++i) {     // "." components name the directory itself
        if (name[i] == '.' && (i == 0 || name[i - 1] == '/') && (i + 1 == name.size() || name[i + 1] == '/')) { if (i + 1 == name.size()) return; ++i; continue; }
        plain += name[i];
    }
    auto f = tree().files.find("root/" + plain);
    if (f == tree().files.end()) return statusPage(r, 404, "Not Found");
    same(static_cast<int>(r.statusCode), 200, "status code");
    same(r.content, q.method == Request::Method::Get ? f->second : std::string(), "content");
    one(r, "Content-Type", mimeOf(name));
}
inline std::string randomTree(Rng& r) {
    Out o;
    static const std::string parts[] = {"/", "/", "/", "a", "b.html", "index.html", ".", "..", "%2e", "d", "d/", "x.js", "c", ".png", "%2f", "//", "./", "../", "%2e%2e/", "root"};
    o.u8(r.byte());
    std::string u = "/";
    for (int k = r.below(6); k--;) u += r.chance(96) ? r.pick(parts) : r.bytes(1);
    if (r.chance(30)) u = "/" + (tree().top / (r.chance(50) ? "a" : "root/a")).string() + u;
    o.str8(u);
    return o.d;
}
