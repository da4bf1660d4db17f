#include <map>
#include <list>
#include "wsnet.hpp"
#include "http/HTTPServer.hpp"
using namespace webfront;
using namespace webfront::http;
struct GFS {
    explicit GFS(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p);   // contract given by the proofs
    char unused;
};
using Handler = RequestHandler<GNet, GFS>;
extern "C" void h_handle(Handler* h, const Request* q, Response* out) { new (out) Response(h->handleRequest(*q)); }
extern "C" void h_accept(const std::string* key, std::string* out) { new (out) std::string(websocket::getHashedSecKey(*key)); }
extern "C" void h_layout(Request* q, Response* r) { new (q) Request(); new (r) Response(); }
extern "C" void h_file(fs::File* f, const uint64_t* d, size_t n) { new (f) fs::File(std::span(d, n), n); }
#include "system/NativeFS.hpp"
extern "C" void h_native(fs::NativeDebugFS* f, const std::filesystem::path* p, std::optional<fs::File>* out) { new (out) std::optional<fs::File>(f->open(*p)); }
extern "C" void h_native_root(fs::NativeDebugFS* f, const std::filesystem::path* p) { new (f) fs::NativeDebugFS(*p); }
