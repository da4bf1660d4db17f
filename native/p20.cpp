#include "oracle.hpp"
#include <map>
#include "details/C++23Support.hpp"
#include "system/FileSystem.hpp"
using namespace webfront::fs;
// up to four providers holding arbitrary sets of names; the file opened must be that of the first one which has it, and no later one may be asked
struct World { std::map<std::string, std::pair<std::string, std::string>> files; std::vector<std::string> roots; std::vector<uint64_t> words; };
static World worlds[4];
static std::vector<int> asked;
static std::string askedPath;
template<int N>
struct Some {
    explicit Some(std::filesystem::path p) { worlds[N].roots.push_back(p.string()); }
    std::optional<File> open(std::filesystem::path p) {
        asked.push_back(N);
        same(p.string(), askedPath, "path given to provider " + std::to_string(N));
        auto f = worlds[N].files.find(p.string());
        if (f == worlds[N].files.end()) return {};
        worlds[N].words.assign(f->second.first.size() / 8 + 1, 0);
        for (size_t i = 0; i < f->second.first.size(); ++i) worlds[N].words[i / 8] |= uint64_t(uint8_t(f->second.first[i])) << (56 - 8 * (i % 8));
        return File(std::span<const uint64_t>(worlds[N].words), f->second.first.size(), f->second.second);
    }
};
template<typename M, int... order>
void run(const std::string& root, const std::vector<std::string>& paths) {
    for (auto& w : worlds) w.roots.clear();
    M m{std::filesystem::path(root)};
    for (int n : {order...}) EXPECT(worlds[n].roots == std::vector<std::string>{root}, "provider " + std::to_string(n) + " is not made once from the root");
    for (auto& p : paths) {
        asked.clear();
        askedPath = p;
        auto f = m.open(p);
        std::vector<int> want;
        int winner = -1;
        for (int n : {order...}) {
            want.push_back(n);
            if (worlds[n].files.contains(p)) { winner = n; break; }
        }
        EXPECT(asked == want, "providers asked");
        EXPECT(f.has_value() == (winner >= 0), "a file is found");
        if (f) {
            auto& e = worlds[winner].files[p];
            std::string got(e.first.size() + 5, 0);
            got.resize(f->read(got));
            same(got, e.first, "content");
            same(std::string(f->getEncoding()), e.second, "encoding");
            EXPECT(f->eof(), "end of the file");
        }
    }
}
void check(In& in) {
    std::vector<std::string> names;
    for (int k = 1 + in.u8() % 4; k--;) names.push_back(in.str8());
    for (auto& w : worlds) {
        w.files.clear();
        for (auto& n : names)
            if (auto f = in.u8(); f % 3) w.files[n] = {in.str8(), f & 8 ? "gzip" : f & 16 ? std::string(40, 'e') : ""};
    }
    auto root = in.str8();
    std::erase(root, 0);
    switch (in.u8() % 4) {
    case 0: return run<Multi<Some<0>>, 0>(root, names);
    case 1: return run<Multi<Some<2>, Some<1>>, 2, 1>(root, names);
    case 2: return run<Multi<Some<0>, Some<1>, Some<2>>, 0, 1, 2>(root, names);
    default: return run<Multi<Some<3>, Some<0>, Some<2>, Some<1>>, 3, 0, 2, 1>(root, names);
    }
}
std::string generate(Rng& r) {
    Out o;
    int n = r.below(4);
    o.u8(n);
    for (int k = 0; k <= n; ++k) o.str8(r.text(r.below(20), "ab/.", 0));
    for (int w = 0; w < 4; ++w)
        for (int k = 0; k <= n; ++k) {
            auto f = r.byte();
            o.u8(f);
            if (f % 3) o.str8(r.chance(20) ? "" : r.bytes(r.below(60)));
        }
    o.str8(r.text(r.below(10), "ab/."));
    o.u8(r.byte());
    return o.d;
}
