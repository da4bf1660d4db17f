// the whole server with several clients: a BasicWF over the test network
#pragma once
#include "msgref.hpp"
#include "handler.hpp"
#define private public       // the events of a link, which no network history can cause, are given directly
#include <WebFront.hpp>
#undef private
using WF = BasicWF<TNet, MapFS>;
struct Client {
    std::shared_ptr<Wire> wire;
    size_t seen = 0;             // writes already looked at
    bool linked = false;
    // an upgraded connection
    Client() {
        wire = accept();
        wire->deliver("GET /x HTTP/1.1\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n");
        EXPECT(wire->started.size() == 1 && wire->started[0].starts_with("HTTP/1.1 101 "), "the answer to an upgrade request");
        wire->complete();
        seen = 1;
        EXPECT(wire->reading(), "the websocket is not reading");
    }
    // frames written since the last look
    std::vector<WsFrame> news() {
        std::vector<WsFrame> r;
        for (; seen < wire->started.size(); ++seen) {
            std::string_view v = wire->started[seen];
            r.push_back(takeFrame(v));
            EXPECT(v.empty(), "bytes after a frame");
        }
        return r;
    }
    void send(std::string_view message, uint32_t key, size_t cut = 0) {
        auto f = clientFrame(0x82, message, true, key);
        std::string_view v = f;
        if (cut && cut < v.size()) { deliver(v.substr(0, cut)); v.remove_prefix(cut); }
        deliver(v);
    }
    void deliver(std::string_view v) {
        while (!v.empty()) {
            auto n = wire->deliver(v);
            if (!n) fail("the websocket stopped reading");
            v.remove_prefix(n);
        }
    }
    void handshake(uint32_t key) { send(std::string("\0\1", 2), key); }
};
inline std::string textCommand(int op, std::string_view s) { return Out().u8(2).u8(op).u8(s.size() >> 8).u8(s.size()).raw(s).d; }
// the link does not outlive its server: pending operations are dropped
inline void hangUp(std::deque<Client>& cs) { for (auto& c : cs) { c.wire->reader = nullptr; c.wire->writes.clear(); } TNet::Acceptor::acceptHandler = nullptr; }
