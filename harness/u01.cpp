// U01: sessions are isolated from each other.
#include "wf_rig.hpp"
using namespace h;

namespace {
using WF = WFOn<5>;
// One client with what it has to receive
struct Peer {
    Client client;
    bool connected = false, upgraded = false, lost = false;
    std::vector<std::pair<char, std::string>> expected; // 'a' ack, 's' script, 'c' call of the named function, 't' text reply, 'x' exception
    std::vector<WF::UI> uis;
    size_t frozen = 0;                                  // bytes received when it was lost
};
struct Rig {
    WorldScope scope;
    std::unique_ptr<WF> wf;
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<std::string> ran, expectedRan;
    std::vector<WF::UI> started;
    int handshaking = -1, marks = 0;
    explicit Rig(size_t n) {
        quiet();
        MemFS<5>::files.clear();
        scope.world.spontaneousOrder = false;
        wf = std::make_unique<WF>("80");
        wf->onUIStarted([this](WF::UI ui) {
            ui.addScript("start " + std::to_string(started.size()));
            started.push_back(ui);
        });
        wf->cppFunction<void, std::string>("mark", [this](std::string m) { ran.push_back(m); });
        // a function which talks to every session started so far
        wf->cppFunction<void, std::string>("broadcast", [this](std::string m) {
            ran.push_back(m);
            for (auto& u : started) try { u.addScript(m); } catch (const webfront::ConnectionError&) {}
        });
        for (size_t i = 0; i < n; ++i) peers.push_back(std::make_unique<Peer>());
    }
    std::string mark() { return "m" + std::to_string(marks++); }
    Peer& peer(size_t i) { return *peers[i]; }
    size_t add() { peers.push_back(std::make_unique<Peer>()); return peers.size() - 1; }
    void connect(size_t i) { peer(i).connected = true; peer(i).client.connect(); wf->run(); peer(i).upgraded = true; MC_REQUIRE(peer(i).client.upgradedSeen(), "no-upgrade", "client %zu is not upgraded", i); }
    void handshake(size_t i) {
        auto n = started.size();
        peer(i).client.binary(handshakeMessage(static_cast<int>(i % 2)));
        wf->run();
        MC_REQUIRE(started.size() == n + 1, "no-start", "a handshake of client %zu starts %zu UIs", i, started.size() - n);
        peer(i).expected.emplace_back('a', "");
        peer(i).expected.emplace_back('s', "start " + std::to_string(n));
        peer(i).uis.push_back(started.back());
    }
    void call(size_t i) { auto m = mark(); expectedRan.push_back(m); peer(i).client.binary(callMessage("mark", {text(m)})); wf->run(); }
    void broadcast(size_t i) {
        auto m = mark();
        expectedRan.push_back(m);
        for (auto& p : peers) if (!p->lost) for (size_t k = 0; k < p->uis.size(); ++k) p->expected.emplace_back('s', m);
        peer(i).client.binary(callMessage("broadcast", {text(m)}));
        wf->run();
    }
    void unknown(size_t i) { peer(i).client.binary(callMessage("nothing", {text(mark())})); peer(i).expected.emplace_back('x', ""); wf->run(); }
    void textMessage(size_t i) { peer(i).client.text("t"); peer(i).expected.emplace_back('t', ""); wf->run(); }
    void garbage(size_t i) { peer(i).client.binary("\3\7garbage"); wf->run(); }
    void appCall(size_t i, size_t ui, int how) {
        auto m = mark();
        try {
            if (how) peer(i).uis[ui].addScript(m);
            else { auto f = peer(i).uis[ui].jsFunction(m); f(1, "x"); }
            if (!peer(i).lost) peer(i).expected.emplace_back(how ? 's' : 'c', m);
        }
        catch (const webfront::ConnectionError&) { MC_REQUIRE(peer(i).lost, "connection-error", "the handle of the live client %zu reports a lost connection", i); }
        wf->run();
    }
    void lose(size_t i, int how) {
        auto& p = peer(i);
        if (how == 0) p.client.send({true, 8, "", 1});
        else if (how == 1) p.client.conn->finArrived = true;
        else p.client.conn->reset = true;
        wf->run();
        p.lost = true;
        p.frozen = p.client.conn->wire.size();
    }
    void check() {
        for (size_t i = 0; i < peers.size(); ++i) {
            auto& p = *peers[i];
            if (!p.upgraded) continue;
            if (p.lost) { MC_REQUIRE(p.client.conn->wire.size() == p.frozen, "sent-to-lost", "client %zu receives something after it left", i); }
            else MC_REQUIRE(p.client.conn->open, "disconnected", "client %zu is disconnected by what others do", i);
            auto f = p.client.frames();
            MC_REQUIRE(f.size() == p.expected.size(), "wrong-count", "client %zu received %zu messages instead of %zu", i, f.size(), p.expected.size());
            for (size_t k = 0; k < f.size(); ++k) {
                auto [kind, what] = p.expected[k];
                std::string got = "?";
                auto& m = f[k].payload;
                TextMsg t;
                CallMsg c;
                if (f[k].opcode == 1) got = m == textReply ? "t" : "?";
                else if (m == ackMessage()) got = "a";
                else if (decodeTextCommand(m, t).empty()) got = "s" + t.text;
                else if (decodeCall(m, c).empty()) got = c.command == 4 && c.values.size() == 1 ? "x" : c.command == 3 && !c.values.empty() ? "c" + c.values[0].s : "?";
                MC_REQUIRE(got == std::string(1, kind) + what, "wrong-client", "message %zu of client %zu is '%s' instead of '%c%s'", k, i, show(got).c_str(), kind, what.c_str());
            }
        }
        MC_REQUIRE(ran == expectedRan, "wrong-calls", "%zu calls ran, %zu made", ran.size(), expectedRan.size());
    }
};
// one event on a client; false if it makes no sense there
constexpr int kinds = 11;
bool event(Rig& r, size_t i, int kind) {
    auto& p = r.peer(i);
    if (kind == 0) { if (p.connected) return false; r.connect(i); return true; }
    if (!p.connected) return false;
    if (kind == 4 || kind == 5) { // the handle outlives its session
        if (p.uis.empty()) return false;
        r.appCall(i, kind == 4 ? 0 : p.uis.size() - 1, kind == 4);
        return true;
    }
    if (p.lost) return false;
    switch (kind) {
    case 1: r.handshake(i); break;
    case 2: r.call(i); break;
    case 3: r.unknown(i); break;
    case 6: r.lose(i, 0); break;
    case 7: r.lose(i, 2); break;
    case 8: r.broadcast(i); break;
    case 9: r.textMessage(i); break;
    case 10: r.garbage(i); break;
    }
    return true;
}
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. all histories over three clients, from nothing and from three linked sessions
    auto history = [](Rig& r, size_t clients, int depth, int first, bool reduced) {
        uint64_t o = clients;
        for (int d = 0; d < depth; ++d) {
            auto k = d == 0 && first >= 0 ? first : mc::pick(static_cast<int>(clients) * kinds);
            auto i = static_cast<size_t>(k / kinds);
            // clients which did nothing yet are interchangeable
            if (reduced && i > 0 && !r.peer(i).connected && !r.peer(i - 1).connected) throw mc::Prune{};
            if (!event(r, i, k % kinds)) throw mc::Prune{};
            o = mc::mix(o, static_cast<uint64_t>(k));
        }
        r.check();
        mc::outcome(o);
    };
    mc::add("from-nothing", [=] { Rig r(3); history(r, 3, t ? 6 : 5, 0, true); });
    for (int first = 0; first < 3 * kinds; ++first) {
        if (first % kinds == 0) continue;
        mc::add(mc::fmt("linked/%d", first), [=] {
            Rig r(3);
            for (size_t i = 0; i < 3; ++i) { r.connect(i); r.handshake(i); }
            history(r, 3, t ? 4 : 3, first, false);
        });
    }
    for (int first = 1; first < kinds; ++first)
        mc::add(mc::fmt("two-linked/%d", first), [=] {
            Rig r(2);
            for (size_t i = 0; i < 2; ++i) { r.connect(i); r.handshake(i); }
            history(r, 2, t ? 5 : 4, first, false);
        });
    // 2. clients come and go: all sequences of arrivals and departures; handles of those which left are kept and used
    mc::add("coming-and-going", [t] {
        Rig r(0);
        std::vector<size_t> live;
        uint64_t o = 0;
        for (int d = 0; d < (t ? 11 : 9); ++d) {
            auto k = static_cast<size_t>(mc::pick(static_cast<int>(std::min<size_t>(live.size(), 3)) + 1));
            o = mc::mix(o, k);
            if (k == 0) { auto i = r.add(); r.connect(i); r.handshake(i); live.push_back(i); }
            else { r.lose(live[k - 1], static_cast<int>(k) % 3); live.erase(live.begin() + static_cast<long>(k - 1)); }
        }
        for (size_t i = 0; i < r.peers.size(); ++i) { r.appCall(i, 0, 1); r.appCall(i, 0, 0); if (!r.peer(i).lost) r.call(i); }
        if (!live.empty()) r.broadcast(live[0]);
        r.check();
        mc::outcome(o);
    });
    // 3. everything at once: three clients whose messages are treated in any order
    for (int first = 0; first < 12; ++first) mc::add(mc::fmt("concurrent/%d", first), [first] {
        Rig r(3);
        for (size_t i = 0; i < 3; ++i) { r.connect(i); if (i < 2) r.handshake(i); }
        r.scope.world.spontaneousOrder = true;
        r.scope.world.partials = {2};
        std::array<int, 3> script{first % 4, mc::pick(4), first / 4};
        std::vector<std::string> calls;
        for (size_t i = 0; i < 3; ++i) {
            auto& c = r.peer(i).client;
            auto m1 = "one" + std::to_string(i), m2 = "two" + std::to_string(i);
            switch (script[i]) {
            case 0: c.binary(callMessage("mark", {text(m1)})); c.binary(callMessage("mark", {text(m2)})); calls.push_back(m1); calls.push_back(m2); break;
            case 1: c.binary(callMessage("mark", {text(m1)})); c.binary(callMessage("nothing", {})); c.text("t"); calls.push_back(m1); r.peer(i).expected.emplace_back('x', ""); r.peer(i).expected.emplace_back('t', ""); break;
            case 2: c.text("t"); c.binary(callMessage("mark", {text(m1)})); calls.push_back(m1); r.peer(i).expected.emplace_back('t', ""); break;
            case 3: c.send({true, 8, "", 1}); r.peer(i).lost = true; break;
            }
            if (script[i] != 3 && i < 2) { r.peer(i).uis[0].addScript("app" + std::to_string(i)); r.peer(i).expected.emplace_back('s', "app" + std::to_string(i)); }
        }
        r.wf->run();
        for (size_t i = 0; i < 3; ++i) {
            auto& p = r.peer(i);
            if (p.lost) { p.frozen = p.client.conn->wire.size(); continue; }
            // the script was sent before the messages were read or between: order by kind only
            if (i < 2) {
                auto f = p.client.frames();
                auto at = f.size();
                for (size_t k = 0; k < f.size(); ++k) { TextMsg tm; if (decodeTextCommand(f[k].payload, tm).empty() && tm.text == "app" + std::to_string(i)) at = k; }
                MC_REQUIRE(at < f.size(), "missing", "client %zu misses its script", i);
                auto e = p.expected.back();
                p.expected.pop_back();
                p.expected.insert(p.expected.begin() + static_cast<long>(std::min(at, p.expected.size())), e);
            }
        }
        // calls of one client run in its order
        std::sort(calls.begin(), calls.end());
        auto sorted = r.ran;
        std::sort(sorted.begin(), sorted.end());
        MC_REQUIRE(sorted == calls, "wrong-calls", "%zu calls ran, %zu made", sorted.size(), calls.size());
        for (size_t i = 0; i < 3; ++i) {
            auto a = std::find(r.ran.begin(), r.ran.end(), "one" + std::to_string(i)), b = std::find(r.ran.begin(), r.ran.end(), "two" + std::to_string(i));
            MC_REQUIRE(b == r.ran.end() || a < b, "order", "the calls of client %zu ran in another order", i);
        }
        r.expectedRan = r.ran;
        r.check();
        mc::outcome(static_cast<uint64_t>(script[0] * 16 + script[1] * 4 + script[2]));
    }, t ? 2 : 1);
    // 4. sessions starting at the same time: each handle leads to one client, the one which got the script of its start
    mc::add("starting", [] {
        Rig r(3);
        auto n = static_cast<size_t>(2 + mc::pick(2));
        for (size_t i = 0; i < n; ++i) connectTo(r.peer(i).client.conn), deliver(r.peer(i).client.conn, upgradeRequest());
        r.scope.world.spontaneousOrder = true;
        auto s = addScript();
        for (size_t i = 0; i < n; ++i) s->then(mc::fmt("handshake of %zu", i), [&r, i] { r.peer(i).client.binary(handshakeMessage(static_cast<int>((i + 1) % 2))); }, [&r, i] { return r.peer(i).client.upgradedSeen(); });
        r.wf->run();
        MC_REQUIRE(r.started.size() == n, "starts", "%zu UIs started for %zu clients", r.started.size(), n);
        r.scope.world.spontaneousOrder = false;
        for (size_t k = 0; k < n; ++k) { r.started[k].addScript("again " + std::to_string(k)); auto f = r.started[k].jsFunction("call " + std::to_string(k)); f(); }
        r.wf->run();
        std::set<std::string> served;
        for (size_t i = 0; i < n; ++i) {
            auto f = r.peer(i).client.frames();
            MC_REQUIRE(f.size() == 4 && f[0].payload == ackMessage(), "wrong-count", "client %zu received %zu messages", i, f.size());
            TextMsg a, b;
            CallMsg c;
            MC_REQUIRE(decodeTextCommand(f[1].payload, a).empty() && a.text.starts_with("start "), "wrong-client", "client %zu: no start", i);
            auto k = a.text.substr(6);
            MC_REQUIRE(served.insert(k).second, "wrong-client", "start %s reaches two clients", k.c_str());
            MC_REQUIRE(decodeTextCommand(f[2].payload, b).empty() && b.text == "again " + k, "wrong-client", "client %zu gets '%s' through the handle %s", i, b.text.c_str(), k.c_str());
            MC_REQUIRE(decodeCall(f[3].payload, c).empty() && c.values.size() == 1 && c.values[0].s == "call " + k, "wrong-client", "client %zu gets another call than that of handle %s", i, k.c_str());
        }
        mc::outcome(n);
    }, t ? 4 : 3);
    // 4b. any number of sessions at the same time, starting in any order
    for (size_t n : t ? std::vector<size_t>{20, 70, 300, 1100, 3000} : std::vector<size_t>{20, 70, 300, 1100})
        mc::add(mc::fmt("crowd/%zu", n), [n] {
            Rig r(n);
            auto order = mc::pick(4); // of the handshakes
            r.scope.world.horizon = 10000000;
            mc::ex().recording = false;
            for (size_t i = 0; i < n; ++i) {
                r.connect(i);
                if (order == 0) r.handshake(i);
            }
            auto at = [&](size_t k) { return order == 1 ? n - 1 - k : order == 2 ? (k * 2 < n ? k * 2 : (k - (n + 1) / 2) * 2 + 1) : k; };
            if (order) for (size_t k = 0; k < n; ++k) r.handshake(at(k));
            for (size_t k = 0; k < n; ++k) { r.appCall(k, 0, k % 2); if (k % 3 == 0) r.call(k); }
            r.check();
            // half of them leave
            for (size_t k = order % 2; k < n; k += 2) r.lose(k, static_cast<int>(k / 2 % 3));
            for (size_t k = 0; k < n; ++k) r.appCall(k, 0, static_cast<int>(k + 1) % 2);
            for (size_t k = (order + 1) % 2; k < n; k += 2) r.call(k);
            r.broadcast((order + 1) % 2);
            mc::ex().recording = true;
            r.check();
            mc::outcome(mc::mix(n, static_cast<uint64_t>(order)));
        });
    // 5. an id is never given twice, however many sessions there were (16 bits of ids go round here)
    mc::add("many-sessions", [] {
        mc::ex().recording = false;
        mc::watchdogSeconds = 600;
        mc::armWatchdog(600);
        Rig r(2);
        r.connect(0);
        r.handshake(0);
        r.connect(1);
        r.handshake(1);
        auto first = r.peer(1).uis[0];
        r.lose(1, 0);
        auto stale = first.jsFunction("stale");
        std::unique_ptr<Client> c;
        size_t rounds = 65540;
        for (size_t n = 0; n < rounds; ++n) {
            if (c) { c->send({true, 8, "", 1}); r.wf->run(); r.scope.world.conns.pop_back(); }
            c = std::make_unique<Client>();
            c->connect();
            r.wf->run();
            if (n % 4096 == 0 || n > 65530) {
                // the newest client got nothing but what is its own
                auto before = r.started.size();
                c->binary(handshakeMessage(1));
                r.wf->run();
                MC_REQUIRE(r.started.size() == before + 1, "no-start", "session %zu does not start", n);
                auto got = c->frames().size();
                bool thrown = false;
                try { first.addScript("stale"); } catch (const webfront::ConnectionError&) { thrown = true; }
                MC_REQUIRE(thrown, "stale-handle", "the handle of a lost session does not report it after %zu other sessions", n);
                thrown = false;
                try { stale(1); } catch (const webfront::ConnectionError&) { thrown = true; }
                MC_REQUIRE(thrown, "stale-handle", "the function of a lost session does not report it after %zu other sessions", n);
                r.wf->run();
                MC_REQUIRE(c->frames().size() == got, "wrong-client", "session %zu receives what is meant for a lost one", n);
            }
            if (n % 8192 == 0) { mc::armWatchdog(600); r.appCall(0, 0, 1); }
        }
        r.appCall(0, 0, 1);
        r.call(0);
        r.check();
        mc::ex().recording = true;
        mc::watchdogSeconds = 30;
        mc::outcome(rounds);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
