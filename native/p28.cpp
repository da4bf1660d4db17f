#include "handler.hpp"
// a server with several connections; what each receives and how its reads and writes end is part of the input
struct Peer {
    std::shared_ptr<Wire> wire;
    Request parsed;
    std::string expected;      // the one response, once the request is complete
    bool answered = false, upgrade = false, over = false, handedOver = false;
};
static void observe(Peer& p) {
    auto& w = *p.wire;
    EXPECT(w.started.size() == (p.answered ? 1u : 0u), "responses written: " + std::to_string(w.started.size()) + ", requests completed: " + std::to_string(p.answered));
    if (p.answered) same(w.started[0], p.expected, "the response");
    EXPECT(w.readsWhileReading == 0, "two reads are pending");
    EXPECT(w.reading() == (!p.answered && !p.over), p.answered ? "a read is pending after the request" : p.over ? "a read is pending after an error" : "no read is pending before the request is complete");
}
void check(In& in) {
    MapFS::files.clear();
    put("index.html", "<html></html>", "");
    put("a.css", "body {}", "br");
    put("empty.txt", "", "");
    bool handler = in.u8() % 8 != 0;
    std::vector<std::shared_ptr<Wire>> upgraded;
    std::vector<TNet::Socket> sockets;
    {
        Server<TNet, MapFS> server("0.0.0.0", "80");
        RequestHandler<TNet, MapFS> reference(".");
        if (handler) server.onUpgrade([&](TNet::Socket&& s, Protocol pr) {
            EXPECT(pr == Protocol::WebSocket, "the protocol of a handed over socket");
            upgraded.push_back(s.wire);
            sockets.push_back(std::move(s));
        });
        std::deque<Peer> peers;
        while (!in.end()) {
            unsigned op = in.u8();
            if (peers.empty() || (op % 16 == 0 && peers.size() < 4)) {
                if (op & 128) {
                    auto refused = accept(std::make_error_code(std::errc::connection_aborted));
                    EXPECT(!refused->reading() && refused->started.empty(), "a connection is started on an error of accept");
                    continue;
                }
                Peer p;
                p.wire = accept();
                peers.push_back(std::move(p));
                observe(peers.back());
                continue;
            }
            Peer& p = peers[op / 16 % peers.size()];
            auto& w = *p.wire;
            auto handed = upgraded.size();
            int closed = w.closed, shut = w.shutdowns;
            bool ended = false, ok = false;
            switch (op % 8) {
            case 0: case 1: case 2: case 3: case 4: {
                std::string text = op % 8 < 4 ? in.str8() : in.str16();
                if (!w.reading()) break;
                text.resize(std::min<size_t>(text.size(), 8192));
                if (p.answered || p.over) fail("a read is pending after the end");
                try {
                    std::string copy = text;
                    p.parsed.parseSomeData(copy.data(), copy.data() + copy.size());
                    if (p.parsed.completed()) {
                        auto r = reference.handleRequest(p.parsed);
                        p.expected = Wire::flat(r.toBuffers<TNet>());
                        p.upgrade = r.statusCode == Response::switchingProtocols;
                        p.answered = true;
                    }
                }
                catch (const BadRequestException&) {
                    p.expected = Wire::flat(Response::getStatusResponse(Response::badRequest).toBuffers<TNet>());
                    EXPECT(p.expected.starts_with("HTTP/1.1 400 "), "status of a malformed request");
                    p.answered = true;
                }
                w.deliver(text);
                break;
            }
            case 5: {
                if (!w.reading()) break;
                auto ec = op & 128 ? std::make_error_code(std::errc::operation_canceled) : std::make_error_code(std::errc::connection_reset);
                p.over = true;
                w.fail(ec);
                ended = ec.value() != ECANCELED;
                if (!ended) EXPECT(w.closed == closed, "an aborted read closes again");
                break;
            }
            default: {
                if (w.writes.empty()) break;
                auto ec = op % 8 == 6 ? std::error_code{} : op & 128 ? std::make_error_code(std::errc::operation_canceled) : std::make_error_code(std::errc::broken_pipe);
                p.over = true;
                ok = !ec;
                w.complete(ec);
                ended = ec.value() != ECANCELED;
                break;
            }
            }
            observe(p);
            EXPECT(upgraded.size() == handed + (ok && p.upgrade && handler ? 1 : 0), "sockets handed over: " + std::to_string(upgraded.size() - handed));
            if (ok && p.upgrade && handler) {
                EXPECT(upgraded.back() == p.wire, "another socket was handed over");
                EXPECT(w.closed == 0 && w.shutdowns == 0, "a socket was closed before it was handed over");
                p.handedOver = true;
            }
            if (p.handedOver) EXPECT(w.closed == 0 && w.shutdowns == 0, "a socket which was handed over was closed");
            else if (ended) {
                EXPECT(w.closed > 0, "the socket is not closed after the end");
                if (!p.upgrade) EXPECT((w.shutdowns - shut) == (ok ? 1 : 0), "shutdowns: " + std::to_string(w.shutdowns - shut));
                EXPECT(w.bothWays, "only one direction is shut down");
            }
            else EXPECT(w.closed == closed && w.shutdowns == shut, "the socket is closed before the end");
            // released: only this test, and the one it was handed over to, know the socket
            if (ended) EXPECT(p.wire.use_count() == 1 + 2 * long(p.handedOver), "the connection is kept after its end: " + std::to_string(p.wire.use_count()));
            else if (!p.over) EXPECT(p.wire.use_count() > 1, "the connection is released before its end");
        }
        // the connections do not wait for each other
        for (auto& p : peers) { p.wire->reader = nullptr; p.wire->writes.clear(); }
        sockets.clear();
        upgraded.clear();
        TNet::Acceptor::acceptHandler = nullptr;
    }
}
std::string generate(Rng& r) {
    auto request = [&] {
        static const std::string uris[] = {"/", "/a.css", "/none", "/empty.txt", "/%61.css", "/x/../a.css", "*", "a.css"}, methods[] = {"GET", "GET", "GET", "HEAD", "POST", "PUT", "FOO"};
        std::string s = std::string(r.pick(methods)) + " " + std::string(r.pick(uris)) + " HTTP/" + (r.chance(95) ? "1.1" : "x") + "\r\n";
        if (r.chance(40)) s += "Host: h\r\n";
        if (r.chance(35)) { s += "Connection: Upgrade\r\nUpgrade: websocket\r\n"; if (r.chance(85)) s += "Sec-WebSocket-Key: " + r.text(r.size(30), "abc/+=", 3) + "\r\n"; }
        if (r.chance(10)) s += r.text(r.size(20), "ab: \r\n", 3);
        s += "\r\n";
        if (r.chance(10)) s += "GET / HTTP/1.1\r\n\r\n";
        return s;
    };
    Out o;
    o.u8(r.byte());
    int n = 1 + r.below(3);
    for (int i = 0; i < n; ++i) { if (r.chance(20)) o.u8(128); o.u8(0); }
    for (int k = r.below(4) + 1; k--;) {
        unsigned who = r.below(n) << 4;
        auto s = request();
        while (!s.empty()) {
            size_t c = r.chance(50) ? s.size() : 1 + r.below(s.size());
            c = std::min<size_t>(c, 250);
            o.u8(who | 1).str8(s.substr(0, c));
            s = s.substr(c);
            if (r.chance(4)) break;
            if (r.chance(10)) o.u8((r.below(n) << 4) | (5 + r.below(3)) | (r.chance(30) ? 128 : 0));
        }
        if (r.chance(70)) o.u8(who | (r.chance(70) ? 6 : 5 + r.below(3)) | (r.chance(20) ? 128 : 0));
    }
    if (r.chance(3)) o.u8(4).str16(r.text(9000, "GET /ab\r\n", 4));
    for (int i = 0; i < n; ++i) if (r.chance(80)) o.u8((i << 4) | 6);
    return o.d;
}
