#include "wf.hpp"
// identifiers of the links which exist
template<typename W> std::set<WebLinkId> existing(W& wf) {
    std::set<WebLinkId> r;
    if constexpr (requires { wf.webLinks.begin()->first; }) for (auto& l : wf.webLinks) r.insert(l.first);
    else for (unsigned id = 0; id < 65536; ++id) try { (void)wf.getLink(WebLinkId(id)); r.insert(WebLinkId(id)); } catch (const std::out_of_range&) {}
    return r;
}
void check(In& in) {
    std::deque<Client> clients;
    WF wf("80");
    std::vector<WF::UI> started;
    wf.onUIStarted([&](WF::UI ui) { started.push_back(ui); });
    std::vector<WebLinkId> ids;
    std::vector<WF::UI> uis;
    std::set<WebLinkId> live;
    std::vector<bool> closed;
    bool wrapped = false;        // an identifier may be used again: none is closed from then on
    if constexpr (requires { wf.idsCounter; }) if (in.u8() % 2) wf.idsCounter = WebLinkId(in.u8() % 2 ? 65533 + in.u8() % 3 : 0);
    auto addClient = [&](uint32_t key) {
        auto n = started.size();
        clients.emplace_back();
        same(started.size(), n, "user interfaces started by an upgrade");
        clients.back().handshake(key);
        same(started.size(), n + 1, "user interfaces started by a handshake");
        auto now = existing(wf);
        same(now.size(), live.size() + 1, "links after an upgrade");
        auto id = *std::find_if(now.begin(), now.end(), [&](auto i) { return !live.count(i); });
        live.insert(id);
        EXPECT(now == live, "an upgrade removes a link");
        ids.push_back(id);
        uis.push_back(started.back());
        closed.push_back(false);
        clients.back().news();
    };
    // exactly this client (or none) receives exactly this
    auto only = [&](size_t who, const std::string& payload, const char* what) {
        for (size_t i = 0; i < clients.size(); ++i) {
            if (i < closed.size() && closed[i]) continue;
            auto f = clients[i].news();
            same(f.size(), size_t(i == who), std::string("frames received by client ") + std::to_string(i) + " of " + what);
            if (i == who) same(f[0].payload, payload, what);
        }
    };
    while (!in.end()) {
        auto op = in.u8();
        if (clients.empty() || (op % 8 == 0 && clients.size() < 6)) { addClient(in.u32()); only(999, "", "a handshake"); continue; }
        size_t k = op / 8 % clients.size();
        switch (op % 8) {
        case 1: case 2: {
            auto s = in.str8();
            try {
                uis[k].addScript(s);
                EXPECT(!closed[k], "a command to a closed link is accepted");
                only(k, textCommand(1, s), "a script");
            }
            catch (const ConnectionError&) { EXPECT(closed[k], "a command to a live link fails"); only(999, "", "a failed command"); }
            break;
        }
        case 3: {
            auto name = in.str8();
            auto f = uis[k].jsFunction(name);
            try {
                f(int(op));
                EXPECT(!closed[k], "a call on a closed link is accepted");
                auto data = refString(name) + refEncode(int(op));
                only(k, Out().u8(3).u8(2).u16(0).u32(data.size()).d + data, "a call");
            }
            catch (const std::exception&) { EXPECT(closed[k], "a call on a live link fails"); only(999, "", "a failed call"); }
            break;
        }
        case 4: {
            WebLinkId id = in.u16();
            if (op & 64) id = ids[k];
            bool found = true;
            try { (void)wf.getLink(id); }
            catch (const std::out_of_range&) { found = false; }
            same(found, live.count(id) == 1, "a link is found");
            if (!found) {
                bool refused = false;
                try { WF::UI(wf, id).addScript("x"); }
                catch (const ConnectionError&) { refused = true; }
                EXPECT(refused, "a command to an unknown link is accepted");
                only(999, "", "a failed command");
            }
            break;
        }
        case 5:
            if (closed[k] || wrapped) break;
            if constexpr (requires { wf.onEvent(WebLinkEvent(WebLinkEvent::Code::closed, ids[k])); }) {
                clients[k].wire->reader = nullptr;
                clients[k].wire->writes.clear();
                wf.onEvent(WebLinkEvent(WebLinkEvent::Code::closed, ids[k]));
                closed[k] = true;
                live.erase(ids[k]);
                for (auto id : ids) { bool f = true; try { (void)wf.getLink(id); } catch (const std::out_of_range&) { f = false; } same(f, live.count(id) == 1, "links left after one was closed"); }
            }
            break;
        case 6:
            if (closed[k]) break;
            {   // a second handshake refers to the same link
                auto n = started.size();
                clients[k].handshake(op);
                same(started.size(), n + 1, "user interfaces started by a handshake");
                clients[k].news();
                only(999, "", "a handshake");
                started.back().addScript("again");
                only(k, textCommand(1, "again"), "a script");
            }
            break;
        default:
            for (auto id : live) { auto& l = wf.getLink(id); for (auto o : live) if (o != id) EXPECT(&wf.getLink(o) != &l, "two identifiers of one link"); }
            if (!closed[k]) clients[k].wire->completeAll();
            // 65536 connections later
            if constexpr (requires { wf.idsCounter; }) if (op >= 128 && std::count(closed.begin(), closed.end(), true) == 0) { wf.idsCounter = ids[k]; wrapped = true; }
        }
    }
    hangUp(clients);
}
std::string generate(Rng& r) {
    Out o;
    o.u8(r.byte()).u8(r.byte()).u8(r.byte());
    for (int n = r.below(30) + 2; n--;) {
        auto op = r.chance(20) ? 0u : r.byte();
        o.u8(op);
        switch (op % 8) { case 0: o.u32(r.next()); break; case 1: case 2: case 3: o.str8(r.bytes(r.size(40))); break; case 4: o.u16(r.chance(70) ? r.below(8) : r.next()); break; default: break; }
    }
    return o.d;
}
