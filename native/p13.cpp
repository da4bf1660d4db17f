#include "handler.hpp"
#include <http/WebSocket.hpp>
#include <list>
#include <thread>
// several connections (requests answered by the one shared handler, websocket frames being decoded, responses being serialised), each run alone and then interleaved step by step;
// every connection must produce the same in both. Some steps run on a thread of their own.
struct Step { int kind; size_t n; };
struct Conn {
    bool socket;
    std::string stream;
    std::vector<size_t> cuts;
    size_t pos = 0, at = 0;
    std::string log;
    std::unique_ptr<Request> q = std::make_unique<Request>();
    websocket::FrameDecoder d;
    struct Sent { Response r; std::vector<TNet::ConstBuffer> b; std::string first; };
    std::list<Sent> sent;
    bool dead = false;
    bool finished() const { return pos >= stream.size() || dead; }
    void step(RequestHandler<TNet, MapFS>& h) {
        size_t n = cuts.empty() ? stream.size() : cuts[at++ % cuts.size()];
        if (at > 3000) n = stream.size();
        Exact chunk(std::string_view(stream).substr(pos, n));
        if (socket) {
            std::span<const std::byte> s(reinterpret_cast<const std::byte*>(chunk.data()), chunk.size());
            bool done = d.parse(s);
            pos += d.consumed();
            log += "[" + std::to_string(done) + " " + std::to_string(d.consumed());
            if (done) {
                log += " " + std::to_string(int(d.frameType)) + " ";
                log.append(reinterpret_cast<const char*>(d.payload().data()), d.payload().size());
                d.reset();
            }
            log += "]";
            return;
        }
        pos += chunk.size();
        try {
            bool done = q->parseSomeData(chunk.data(), chunk.data() + chunk.size());
            log += "[" + std::to_string(done) + "]";
            if (done) {
                auto& s = sent.emplace_back();
                s.r = h.handleRequest(*q);
                s.b = s.r.toBuffers<TNet>();
                s.first = Wire::flat(s.b);
                log += s.first;
                q->reset();
            }
        }
        catch (const BadRequestException&) {
            auto& s = sent.emplace_back();
            s.r = Response::getStatusResponse(Response::badRequest);
            s.b = s.r.toBuffers<TNet>();
            s.first = Wire::flat(s.b);
            log += "[bad]" + s.first;
            dead = true;
        }
        verify();
    }
    void verify() { for (auto& s : sent) same(Wire::flat(s.b), s.first, "a response serialised earlier"); }
};
void check(In& in) {
    MapFS::files.clear();
    put("index.html", "<html></html>", "");
    put("a.js", std::string(700, 'x') + "end", "");
    put("z.css", "body{}", "gzip");
    int count = 2 + in.u8() % 3;
    std::vector<std::function<std::unique_ptr<Conn>()>> makers;
    for (int k = 0; k < count; ++k) {
        bool socket = in.u8() % 3 == 0;
        auto stream = std::make_shared<std::string>();
        auto cuts = std::make_shared<std::vector<size_t>>();
        if (socket) {
            for (int f = 1 + in.u8() % 3; f--;) {
                auto p = in.str8();
                uint8_t fl = in.u8();
                *stream += clientFrame(0x81 + fl % 2, p, true, in.u32(), p.size() < 126 && fl & 4 ? 1 : 0);
            }
        } else
            for (int f = 1 + in.u8() % 3; f--;) {
                static const char* methods[] = {"GET", "HEAD", "GET", "POST"};
                static const char* uris[] = {"/", "/a.js", "/z.css", "/none", "/../x", "/%61.js"};
                *stream += std::string(methods[in.u8() % 4]) + " " + uris[in.u8() % 6] + " HTTP/1.1\r\n";
                auto fl = in.u8();
                if (fl & 1) *stream += "Accept-Encoding: gzip\r\n";
                if (fl & 2) *stream += "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: " + std::string(in.u8() % 40, char('a' + fl % 26)) + "\r\n";
                if (fl & 4) *stream += "X-" + std::string(in.u8() % 60, 'h') + ": " + std::string(in.u8(), char('A' + fl % 26)) + "\r\n";
                if (fl == 77) *stream += " bad\x01";
                *stream += "\r\n";
            }
        for (int c = in.u8() % 6; c--;) cuts->push_back(1 + in.u8());
        // a request ends a read: what follows it is not given to the parser
        makers.push_back([=] {
            auto c = std::make_unique<Conn>();
            c->socket = socket;
            c->stream = *stream;
            if (socket) c->cuts = *cuts;
            else {   // cut at the ends of requests as well
                size_t at = 0, left = 0, i = 0;
                auto next = [&] { return cuts->empty() ? stream->size() : (*cuts)[i++ % cuts->size()]; };
                left = next();
                while (at < stream->size()) {
                    auto e = stream->find("\r\n\r\n", at);
                    size_t end = e == std::string::npos ? stream->size() : e + 4, n = std::min(left, end - at);
                    c->cuts.push_back(n);
                    at += n;
                    left = next();
                }
            }
            return c;
        });
    }
    std::filesystem::path root{"/nowhere"};
    RequestHandler<TNet, MapFS> h{root};
    auto turn = [&](Conn& c, bool thread) {
        if (!thread) return c.step(h);
        std::exception_ptr x;
        std::thread([&] { try { c.step(h); } catch (...) { x = std::current_exception(); } }).join();
        if (x) std::rethrow_exception(x);
    };
    std::vector<std::string> alone;
    for (auto& mk : makers) {
        auto c = mk();
        while (!c->finished()) c->step(h);
        alone.push_back(c->log);
    }
    std::vector<std::unique_ptr<Conn>> all;
    for (auto& mk : makers) all.push_back(mk());
    for (int guard = 0; guard < 20000; ++guard) {
        std::vector<int> open;
        for (int k = 0; k < count; ++k) if (!all[size_t(k)]->finished()) open.push_back(k);
        if (open.empty()) break;
        auto r = in.u8();
        turn(*all[size_t(open[r % open.size()])], r > 250);
        for (auto& c : all) c->verify();
    }
    for (int k = 0; k < count; ++k) same(all[size_t(k)]->log, alone[size_t(k)], "what connection " + std::to_string(k) + " produces");
}
std::string generate(Rng& r) {
    Out o;
    o.d += r.bytes(60 + r.below(200));
    return o.d + r.bytes(100 + r.below(300));
}
