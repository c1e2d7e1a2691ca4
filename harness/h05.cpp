// H05: a connection becomes a WebSocket exactly when asked for, exactly once, after the whole 101 answer.
#include "server_rig.hpp"
using namespace h;

namespace {
using Headers = std::vector<std::pair<std::string, std::string>>;
void files() { MemFS<0>::files = {{"a.txt", MemFile(pattern(300, 2))}, {"index.html", MemFile("<i>")}, {"e.js", MemFile("zz", "br")}}; }
const std::string sampleKey = "dGhlIHNhbXBsZSBub25jZQ==";

std::string answer101(const std::string& wire) { auto r = parseResponse(wire); return r.complete && r.status == 101 ? wire.substr(0, r.size) : std::string(); }

struct Watch { // sees the handovers of a server
    struct Held { std::unique_ptr<Net::Socket> socket; size_t wireAtHandover; ConnP conn; uint64_t readsIssued, writesIssued, closes; };
    std::vector<Held> held;
    std::map<const sim::Conn*, int> count;
    Srv<>& s;
    explicit Watch(Srv<>& srv) : s(srv) {
        s.onUpgraded = [this](Net::Socket&& sock) {
            MC_REQUIRE(sock.simId() >= 0, "handover", "the socket handed over is empty");
            auto c = s.world().conns.at(static_cast<size_t>(sock.simId()));
            ++count[c.get()];
            auto w = str(c->wire);
            auto r = parseResponse(w);
            MC_REQUIRE(r.complete && r.status == 101 && r.size == w.size(), "handover-early", "c%d is handed over with %s on the wire", c->id, show(w).c_str());
            MC_REQUIRE(c->open, "handover", "the socket handed over is closed");
            MC_REQUIRE(c->reads.empty() && c->writes.empty(), "handover", "operations of the HTTP side are pending at the handover");
            held.push_back({std::make_unique<Net::Socket>(std::move(sock)), w.size(), c, c->readsIssued, c->writesIssued, c->closes});
        };
    }
    void check(const ConnP& c, int times, const std::string& what) {
        auto n = count.count(c.get()) ? count[c.get()] : 0;
        MC_REQUIRE(n == times, "handover", "%s: handed over %d times instead of %d", what.c_str(), n, times);
    }
    // the HTTP side left alone what it handed over
    void untouched(const std::string& what) {
        for (auto& x : held) {
            MC_REQUIRE(x.conn->open, "touched", "%s: c%d is closed after the handover", what.c_str(), x.conn->id);
            MC_REQUIRE(!x.conn->shutSend && !x.conn->shutRecv, "touched", "%s: c%d is shut down after the handover", what.c_str(), x.conn->id);
            MC_REQUIRE(x.conn->wire.size() == x.wireAtHandover && x.conn->writesIssued == x.writesIssued, "touched", "%s: c%d is written to after the handover", what.c_str(), x.conn->id);
            MC_REQUIRE(x.conn->readsIssued == x.readsIssued && x.conn->reads.empty(), "touched", "%s: c%d is read from after the handover", what.c_str(), x.conn->id);
            MC_REQUIRE(x.conn->closes == x.closes, "touched", "%s: c%d was closed", what.c_str(), x.conn->id);
        }
    }
    // what the holder does with a transport works, whatever happened to the rest
    void usable(Held& x, const std::string& arrived) {
        std::array<std::byte, 64> in{};
        std::string got;
        bool wrote = false;
        std::string out = "from the holder";
        x.socket->async_read_some(std::experimental::net::buffer(in.data(), in.size()), [&](std::error_code ec, std::size_t n) { if (!ec) got = str(std::span(in.data(), n)); });
        Net::AsyncWrite(*x.socket, std::vector<Net::ConstBuffer>{std::experimental::net::const_buffer(out.data(), out.size())}, [&](std::error_code ec, std::size_t n) { wrote = !ec && n == out.size(); });
        s.run();
        MC_REQUIRE(got == arrived, "unusable", "the holder reads %s", show(got).c_str());
        MC_REQUIRE(wrote && str(x.conn->wire).substr(x.wireAtHandover) == out, "unusable", "the holder could not write");
    }
};
void request(Srv<>& s, Watch& w, const Ask& a, const ConnP& c, const std::string& what) {
    deliver(c, a.text());
    s.run();
    auto e = expected(a, MemFS<0>::files);
    checkAnswer(str(c->wire), e, a.method == "HEAD", what);
    w.check(c, e.status == 101, what);
    w.untouched(what);
    if (e.status != 101) MC_REQUIRE(!c->open, "not-closed", "%s: a connection which is not upgraded stays open", what.c_str());
    mc::outcome(mc::hash(a.text()));
}
} // namespace

void declare() {
    bool t = mc::thorough();
    static const std::vector<std::string> methods{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "GETS", "get", "G"};
    static const std::vector<Headers> connections{{}, {{"Connection", "Upgrade"}}, {{"Connection", "upgrade"}}, {{"connection", "UPGRADE"}}, {{"Connection", "keep-alive, Upgrade"}}, {{"Connection", "Upgrade, close"}},
        {{"Connection", "keep-alive"}}, {{"Connection", "Upgrad"}}, {{"Connection", "pgrade"}}, {{"Connection", ""}}, {{"Connection", "close"}, {"CONNECTION", "Upgrade"}}, {{"Connection", "Upgrade"}, {"Connection", "close"}}, {{"Connections", "Upgrade"}}, {{"X-Connection", "Upgrade"}}, {{"Proxy", "Connection: Upgrade"}}};
    static const std::vector<Headers> upgrades{{}, {{"Upgrade", "websocket"}}, {{"upgrade", "WebSocket"}}, {{"UPGRADE", "WEBSOCKET"}}, {{"Upgrade", "h2c, websocket"}}, {{"Upgrade", "h2c"}}, {{"Upgrade", "websocke"}},
        {{"Upgrade", "ebsocket"}}, {{"Upgrade", "web socket"}}, {{"Upgrade", "h2c"}, {"Upgrade", "websocket"}}, {{"Upgrade", "websocket/13"}}, {{"Upgrades", "websocket"}}, {{"Upgrade", ""}}};
    static const std::vector<Headers> keys{{}, {{"Sec-WebSocket-Key", sampleKey}}, {{"sec-websocket-key", "x"}}, {{"SEC-WEBSOCKET-KEY", "AAAAAAAAAAAAAAAAAAAAAA=="}}, {{"Sec-WebSocket-Key", ""}}, {{"Sec-WebSocket-Key", "first"}, {"Sec-WebSocket-Key", sampleKey}}, {{"Sec-WebSocket-Keys", sampleKey}}, {{"Sec-WebSocket-Accept", sampleKey}}};
    static const std::vector<std::string> targets{"/", "/a.txt", "/none", "/../a", "*", "/chat?x=1", "/e.js", "/%2e%2e/x", "/%61.txt", "ws"};
    // 1. the whole product of headers, for the methods and targets
    for (auto& m : methods)
        for (auto& tg : targets)
            mc::add("grid/" + m + "/" + tg, [=] {
                files();
                Headers hs;
                auto& c = mc::pickOf(connections);
                auto& u = mc::pickOf(upgrades);
                // the product with every key form for the forms that matter, with and without key otherwise
                auto& k = mc::pickOf(keys);
                for (auto p : {&c, &u, &k}) hs.insert(hs.end(), p->begin(), p->end());
                Srv<> s;
                Watch w(s);
                request(s, w, {m, tg, hs}, s.open(), m + " " + tg);
            });
    // 2. any order of the headers, with others in between
    mc::add("order", [=] {
        files();
        Headers all{{"Host", "h"}, {"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", sampleKey}, {"Sec-WebSocket-Version", "13"}};
        auto missing = mc::pick(6);
        if (missing < 5) all.erase(all.begin() + missing);
        Headers hs;
        while (!all.empty()) {
            auto i = mc::pick(static_cast<int>(all.size()));
            hs.push_back(all[static_cast<size_t>(i)]);
            all.erase(all.begin() + i);
        }
        Srv<> s;
        Watch w(s);
        request(s, w, {"GET", "/", hs}, s.open(), "order");
    });
    // 3. the accept value of keys of any length and content
    mc::add("keys", [=] {
        files();
        std::string k(static_cast<size_t>(mc::pick(201)), 0);
        auto kind = mc::pick(6);
        static const std::string alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=";
        for (size_t i = 0; i < k.size(); ++i) k[i] = kind == 0 ? alpha[i * 7 % alpha.size()] : kind == 1 ? '=' : kind == 2 ? '~' : kind == 3 ? static_cast<char>(33 + (i * 41 + 3) % 94) : kind == 4 ? alpha[(i * i + 5) % alpha.size()] : 'A';
        Srv<> s;
        Watch w(s);
        request(s, w, {"GET", "/", {{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", k}}}, s.open(), mc::fmt("key of %zu", k.size()));
    });
    for (int bits = 7; bits <= 17; ++bits) // none of the headers has a size limit
        mc::add(mc::fmt("long/2^%d", bits), [=] {
            files();
            auto n = (size_t{1} << bits) + static_cast<size_t>(mc::pick(3)) - 1;
            auto which = mc::pick(5);
            auto pad = std::string(n, 'p');
            Headers hs{{"Connection", which == 0 ? pad + ",upgrade" : which == 1 ? "upgrade, " + pad : "Upgrade"}, {"Upgrade", which == 2 ? pad + " websocket" : "websocket"}, {"Sec-WebSocket-Key", which == 3 ? pad : sampleKey}};
            if (which == 4) hs.insert(hs.begin(), {"X-" + pad, pad});
            Srv<> s;
            Watch w(s);
            request(s, w, {"GET", "/", hs}, s.open(), mc::fmt("long header of %zu", n));
        });
    mc::add("key-characters", [=] {
        files();
        auto k = sampleKey;
        k[static_cast<size_t>(mc::pick(static_cast<int>(k.size())))] = static_cast<char>(33 + mc::pick(94));
        Srv<> s;
        Watch w(s);
        request(s, w, {"GET", "/", {{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", k}}}, s.open(), "key characters");
    });
    // 4. the exchange under every schedule, with every cut of the request and something happening to the client
    for (int how = 0; how < 6; ++how)
        mc::add(mc::fmt("exchange/%d", how), [=] {
            files();
            Srv<> s;
            s.world().spontaneousOrder = true;
            s.world().partials = {1, 0};
            Watch w(s);
            auto q = upgradeRequest(sampleKey);
            auto c = s.open();
            auto cut = static_cast<size_t>(mc::pick(3)) * (q.size() / 3);
            auto sc = addScript();
            if (cut) sc->then("begin", [=] { deliver(c, q.substr(0, cut)); });
            sc->then("end", [=] { deliver(c, q.substr(cut)); });
            auto e = addScript();
            switch (how) {
            case 0: break;
            case 1: e->then("reset", [=] { c->reset = true; }); break;
            case 2: e->then("end of stream", [=] { c->finArrived = true; }); break;
            case 3: e->then("writes fail", [=] { c->failWrites = true; }); break;
            case 4: e->then("bytes for the WebSocket", [=] { deliver(c, "frame bytes"); }, [=] { return !answer101(str(c->wire)).empty(); }); break;
            case 5: e->then("another request", [&s] { deliver(s.open(), "GET /a.txt HTTP/1.1\r\n\r\n"); }); break;
            }
            s.run();
            auto whole = parseResponse(str(c->wire));
            bool handed = w.count.count(c.get());
            if (handed) w.check(c, 1, "exchange");
            else MC_REQUIRE(how >= 1 && how <= 3, "no-handover", "a successful exchange is not handed over");
            if (how != 1) w.untouched("exchange");
            if (!handed) MC_REQUIRE(!c->open && s.world().openSockets == 0, "not-closed", "a failed exchange leaves the connection open");
            if (how == 0 || how == 4) w.usable(w.held.at(0), how == 4 ? "frame bytes" : "");
            mc::outcome(mc::mix(static_cast<uint64_t>(how), s.world().steps * 2 + handed));
        }, t ? 5 : 4);
    // 5. sending the answer fails after every number of bytes
    mc::add("answer-cut", [=] {
        files();
        Srv<> s;
        s.world().partials = {};
        Watch w(s);
        auto c = s.open(), other = s.open();
        c->failWriteAfter = mc::pick(400);
        deliver(c, upgradeRequest(sampleKey));
        if (mc::flip()) deliver(other, upgradeRequest("other"));
        else deliver(other, "GET /a.txt HTTP/1.1\r\n\r\n");
        s.run();
        bool whole = parseResponse(str(c->wire)).complete;
        w.check(c, whole, "answer cut");
        w.untouched("answer cut");
        if (!whole) MC_REQUIRE(!c->open, "not-closed", "the connection whose answer failed stays open");
        mc::outcome(c->wire.size());
    });
    // 6. histories of connections: each is handed over on its own merits and then left alone while the others live
    mc::add("histories", [=] {
        files();
        Srv<> s;
        Watch w(s);
        Headers up{{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", sampleKey}};
        static const std::vector<std::string> tails{"one", "two", "three", "four", "five", "six"};
        uint64_t o = 0;
        std::map<const sim::Conn*, std::string> arrived;
        int n = mc::thorough() ? 5 : 4;
        for (int i = 0; i < n; ++i) {
            auto k = mc::pick(7);
            o = mc::mix(o, static_cast<uint64_t>(k));
            auto mine = up;
            mine[2].second += tails[static_cast<size_t>(i)];
            auto c = s.open();
            switch (k) {
            case 0: request(s, w, {"GET", "/", mine}, c, "upgrade"); break;
            case 1: request(s, w, {"GET", "/a.txt", {}}, c, "plain"); break;
            case 2: request(s, w, {"POST", "/", mine}, c, "post"); break;
            case 3: request(s, w, {"HEAD", "/", mine}, c, "head"); break;
            case 4: request(s, w, {"GET", "/", {up[0], up[1]}}, c, "no key"); break;
            case 5: deliver(c, "GET / HT"); c->reset = true; s.run(); break;
            case 6: c->failWriteAfter = 40; deliver(c, Ask{"GET", "/", mine}.text()); s.run(); w.check(c, 0, "failed answer"); break;
            }
            for (auto& x : w.held)
                if (!arrived.count(x.conn.get())) { arrived[x.conn.get()] = tails[static_cast<size_t>(i)]; deliver(x.conn, tails[static_cast<size_t>(i)]); }
            s.run();
            w.untouched("histories");
        }
        for (auto& x : w.held) w.usable(x, arrived[x.conn.get()]);
        auto kept = w.held.size();
        MC_REQUIRE(s.world().openSockets == static_cast<int>(kept), "leak", "%d sockets open, %zu were handed over", s.world().openSockets, kept);
        while (!w.held.empty()) {
            auto c = w.held.back().conn;
            w.held.pop_back();
            MC_REQUIRE(!c->open && s.world().openSockets == static_cast<int>(--kept), "not-owned", "the holder's socket does not own the connection");
        }
        mc::outcome(o);
    });
    // 7. two upgrades and a plain request at once, every order within 2 (3) deviations
    mc::add("together", [=] {
        files();
        Srv<> s;
        s.world().spontaneousOrder = true;
        s.world().partials = {0};
        Watch w(s);
        auto a = s.open(), b = s.open(), c = s.open();
        auto failing = mc::pick(3);
        deliver(a, upgradeRequest("key a"));
        if (failing == 1) a->failWriteAfter = 50;
        deliver(b, "GET /a.txt HTTP/1.1\r\n\r\n");
        deliver(c, upgradeRequest("key c"));
        if (failing == 2) b->reset = true;
        s.run();
        w.check(a, failing != 1, "together a");
        w.check(b, 0, "together b");
        w.check(c, 1, "together c");
        w.untouched("together");
        checkAnswer(str(c->wire), expected({"GET", "/", {{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", "key c"}}}, MemFS<0>::files), false, "together c");
        if (failing != 1) checkAnswer(str(a->wire), expected({"GET", "/", {{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", "key a"}}}, MemFS<0>::files), false, "together a");
        mc::outcome(s.world().steps);
    }, t ? 3 : 2);
}
int main(int c, char** v) { return mc::run(c, v, declare); }
