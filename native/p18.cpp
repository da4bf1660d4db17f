#include "oracle.hpp"
#include <http/MimeType.hpp>
#include <map>
static const std::map<std::string, std::string> table{{"html", "text/html"}, {"htm", "text/html"}, {"css", "text/css"}, {"js", "application/javascript"}, {"mjs", "application/javascript"},
  {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"png", "image/png"}, {"gif", "image/gif"}, {"json", "application/json"}, {"pdf", "application/pdf"}, {"ttf", "font/ttf"},
  {"ico", "image/x-icon"}, {"svg", "image/svg+xml"}, {"webp", "image/webp"}, {"csv", "text/csv"}};
void check(In& in) {
    Exact s(in.rest());
    std::string e{std::string_view(s)};
    if (e.starts_with('.')) e = e.substr(1);
    auto it = table.find(e);
    same(std::string(webfront::http::MimeType(std::string_view(s)).toString()), it == table.end() ? "text/plain" : it->second, "MIME type of '" + e + "'");
    same(std::string(webfront::http::MimeType::fromExtension(s).toString()), it == table.end() ? "text/plain" : it->second, "MIME type of '" + e + "'");
}
std::string generate(Rng& r) {
    std::string s(std::next(table.begin(), long(r.below(table.size())))->first);
    if (r.chance(30)) s = r.text(r.size(6), "abcdefghijklmnopqrstuvwxyz");
    for (auto k = r.chance(50) ? 0 : r.below(3); k--;) {
        auto p = r.below(s.size() + 1);
        switch (r.below(4)) {
        case 0: s.insert(p, 1, ".xXsSjJ0 \0"[r.below(10)]); break;
        case 1: if (p < s.size()) s.erase(p, 1); break;
        case 2: if (p < s.size()) s[p] = char(s[p] ^ 0x20); break;
        default: if (p < s.size()) s[p] = char(r.byte());
        }
    }
    return r.chance(50) ? "." + s : s;
}
