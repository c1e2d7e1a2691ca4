// U02: a lost client is noticed and its session is fully retired.
#include "alloc.hpp"
#include "wf_rig.hpp"
using namespace h;

namespace {
using WF = WFOn<6>;
enum Loss { closeFrame, fin, reset, failingWrites, closeThenFin, losses };
const char* lossNames[] = {"close frame", "end of stream", "reset", "failing writes", "close frame then end of stream"};

struct Peer {
    Client client;
    std::vector<WF::UI> uis;
    bool lost = false;
};
struct Rig {
    WorldScope scope;
    std::unique_ptr<WF> wf;
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<std::string> ran;
    std::function<void(WF::UI)> onStarted;
    std::function<void()> inHandler;
    int current = -1;
    int shift = 0; // clients of both byte orders: those of index i with (i + shift) odd are big-endian
    std::string hello(size_t i) const { return handshakeMessage(static_cast<int>(i + static_cast<size_t>(shift)) % 2); }
    explicit Rig(size_t n, webfront::log::LogType level = webfront::log::Disabled) {
        quiet();
        MemFS<6>::files.clear();
        scope.world.spontaneousOrder = false;
        webfront::log::setLogLevel(level);
        wf = std::make_unique<WF>("80");
        wf->onUIStarted([this](WF::UI ui) {
            if (current >= 0) peers[static_cast<size_t>(current)]->uis.push_back(ui);
            if (onStarted) onStarted(ui);
        });
        wf->cppFunction<void, std::string>("mark", [this](std::string m) { ran.push_back(m); });
        wf->cppFunction<void, std::string>("work", [this](std::string m) { ran.push_back(m); if (inHandler) inHandler(); });
        for (size_t i = 0; i < n; ++i) peers.push_back(std::make_unique<Peer>());
    }
    ~Rig() {
        wf.reset();
        clearSinks();
        webfront::log::setLogLevel(webfront::log::Disabled);
    }
    Peer& peer(size_t i) { return *peers[i]; }
    void link(size_t i) {
        peer(i).client.connect();
        wf->run();
        current = static_cast<int>(i);
        peer(i).client.binary(hello(i));
        wf->run();
        current = -1;
        MC_REQUIRE(peer(i).uis.size() == 1, "no-start", "client %zu is not started", i);
    }
    void lose(size_t i, int how) {
        auto& c = peer(i).client;
        peer(i).lost = true;
        switch (how) {
        case closeFrame: c.send({true, 8, std::string("\x03\xe8", 2), 1}); break;
        case fin: c.conn->finArrived = true; break;
        case reset: c.conn->reset = true; break;
        case failingWrites: c.conn->failWrites = true; break;
        case closeThenFin: c.send({true, 8, "", 1}); c.conn->finArrived = true; break;
        }
    }
    // every use of a handle: true if it reported a lost connection
    bool script(size_t i) { return reports([&] { peer(i).uis.at(0).addScript("script"); }); }
    bool call(size_t i) { return reports([&] { auto f = peer(i).uis.at(0).jsFunction("f"); f(1, "two"); }); }
    template<typename F> bool reports(F f) {
        try { f(); return false; }
        catch (const webfront::ConnectionError& e) { MC_REQUIRE(std::string(e.what()).find("onnection") != std::string::npos, "not-a-connection-error", "the handle reports '%s'", e.what()); return true; }
        catch (const mc::Violation&) { throw; }
        catch (const std::exception& e) { mc::fail("not-a-connection-error", std::string("the handle of a lost client throws ") + e.what()); }
    }
    size_t linesMirrored(size_t i, const std::string& line) {
        size_t n = 0;
        for (auto& f : peer(i).client.frames()) { TextMsg t; if (decodeTextCommand(f.payload, t).empty() && t.opcode == 0 && t.text.find(line) != std::string::npos) ++n; }
        return n;
    }
    // the session of client i is retired; the others work
    void retired(size_t i) {
        auto& c = *peer(i).client.conn;
        MC_REQUIRE(!c.open, "socket-not-released", "client %zu left but its socket is still open", i);
        MC_REQUIRE(c.reads.empty() && c.writes.empty(), "operation-outstanding", "operations are still in progress for client %zu", i);
        auto issued = c.writesIssued, reads = c.readsIssued;
        auto after = c.writesAfterClose + c.readsAfterClose;
        auto size = c.wire.size();
        MC_REQUIRE(script(i), "no-connection-error", "addScript on the lost client %zu reports nothing", i);
        MC_REQUIRE(call(i), "no-connection-error", "a JsFunction of the lost client %zu reports nothing", i);
        webfront::log::setLogLevel(webfront::log::Error);
        auto line = "line of " + std::to_string(i);
        webfront::log::error("{}", line);
        wf->run();
        webfront::log::setLogLevel(webfront::log::Disabled);
        MC_REQUIRE(c.writesIssued == issued && c.readsIssued == reads && c.writesAfterClose + c.readsAfterClose == after && c.wire.size() == size, "still-used", "the lost client %zu is still sent to or read from", i);
        for (size_t k = 0; k < peers.size(); ++k)
            if (!peer(k).lost && !peer(k).uis.empty()) MC_REQUIRE(linesMirrored(k, line) == 1, "log-lost", "a line logged after client %zu left is mirrored %zu times to client %zu", i, linesMirrored(k, line), k);
    }
    void alive(size_t i) {
        auto& p = peer(i);
        webfront::log::setLogLevel(webfront::log::Disabled);
        MC_REQUIRE(p.client.conn->open, "disconnected", "client %zu is disconnected", i);
        auto before = p.client.frames().size();
        auto count = ran.size();
        MC_REQUIRE(!script(i) && !call(i), "connection-error", "the handle of the live client %zu reports a lost connection", i);
        p.client.binary(callMessage("mark", {text("alive")}));
        wf->run();
        MC_REQUIRE(p.client.frames().size() == before + 2 && ran.size() == count + 1, "not-served", "the live client %zu is not served", i);
    }
    void settle() {
        wf->run();
        for (size_t i = 0; i < peers.size(); ++i) { if (peer(i).lost) retired(i); }
        for (size_t i = 0; i < peers.size(); ++i) if (!peer(i).lost && !peer(i).uis.empty()) alive(i);
        // a new client is served as the first one
        peers.push_back(std::make_unique<Peer>());
        link(peers.size() - 1);
        alive(peers.size() - 1);
    }
};
const std::array<webfront::log::LogType, 3> levels{webfront::log::Disabled, webfront::log::Error, webfront::log::Debug};
// what a session may be doing when it is lost
constexpr int kinds = 7;
void activity(Rig& r, size_t i, int kind) {
    auto& p = r.peer(i);
    switch (kind) {
    case 0: r.script(i); break;
    case 1: r.call(i); break;
    case 2: p.client.binary(callMessage("mark", {text("m")})); break;
    case 3: p.client.binary(callMessage("nothing", {})); break;
    case 4: p.client.text("text"); break;
    case 5: webfront::log::error("a line"); break;
    case 6: r.wf->run(); break;
    }
}
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. all histories of a session with a loss at every place, at each log level; one or two sessions
    for (int two = 0; two < 2; ++two)
        for (int loss = 0; loss < losses; ++loss)
            for (size_t level = 0; level < levels.size(); ++level)
                mc::add(mc::fmt("history/%d/%s/%zu", two, lossNames[loss], level), [=] {
                    Rig r(two ? 2 : 1, levels[level]);
                    r.shift = two ? (loss + static_cast<int>(level)) % 2 : mc::pick(2);
                    for (size_t i = 0; i < r.peers.size(); ++i) r.link(i);
                    auto depth = (two ? 3 : 4) - (level == 2 ? 1 : 0) + (mc::thorough() ? 1 : 0);
                    auto at = mc::pick(depth + 1);
                    uint64_t o = static_cast<uint64_t>(at);
                    r.scope.world.eager = level == 1;
                    for (int d = 0; d <= depth; ++d) {
                        if (d == at) { r.lose(0, loss); continue; }
                        auto k = mc::pick(two && d < at ? kinds : two ? 2 * kinds : kinds);
                        o = mc::mix(o, static_cast<uint64_t>(k));
                        activity(r, static_cast<size_t>(k / kinds), k % kinds);
                    }
                    if (loss == failingWrites) r.script(0); // it takes a write to notice
                    r.settle();
                    mc::outcome(o);
                });
    // 2. the loss arrives while writes are in progress, in every order and with partial transfers
    for (int loss = 0; loss < losses; ++loss)
        for (int kind = 0; kind < kinds; ++kind)
            mc::add(mc::fmt("in-flight/%s/%d", lossNames[loss], kind), [=] {
                Rig r(2, levels[static_cast<size_t>(mc::pick(2))]);
                r.shift = (loss + kind) % 2;
                r.scope.world.eager = kind % 2;
                r.link(0);
                r.link(1);
                r.scope.world.spontaneousOrder = true;
                r.scope.world.partials = {1};
                auto k = mc::pick(kinds);
                auto s = addScript();
                s->then("first", [&] { if (kind != 6) activity(r, 0, kind); });
                s->then("second", [&] { if (k != 6) activity(r, 0, k); });
                s->then("loss", [&] { r.lose(0, loss); });
                s->then("after", [&] { if (kind < 2) activity(r, 0, kind); if (loss == failingWrites) r.script(0); });
                s->then("other", [&] { activity(r, 1, 0); });
                r.wf->run();
                r.scope.world.spontaneousOrder = false;
                r.settle();
                mc::outcome(mc::mix(static_cast<uint64_t>(kind), static_cast<uint64_t>(k)));
            }, t ? 3 : 2);
    // 3. the connection breaks after every number of bytes sent by the server
    for (int loss = 0; loss < 3; ++loss)
        mc::add(mc::fmt("byte/%d", loss), [=] {
            Rig r(2, levels[static_cast<size_t>(mc::pick(2))]);
            r.shift = mc::pick(2);
            r.link(1);
            auto& c = r.peer(0).client;
            auto n = mc::pick(240);
            r.scope.world.eager = mc::flip();
            c.conn->failWriteAfter = n;
            r.peer(0).lost = true;
            c.connect();
            r.wf->run();
            r.current = 0;
            c.binary(r.hello(0));
            r.wf->run();
            r.current = -1;
            auto use = [&](auto f) { if (!r.peer(0).uis.empty()) f(); };
            for (int i = 0; i < 6; ++i) { use([&] { if (loss == 0) r.script(0); else if (loss == 1) r.call(0); else webfront::log::error("line"); }); r.wf->run(); }
            c.conn->failWrites = true;
            use([&] { r.script(0); });
            r.wf->run();
            MC_REQUIRE(!c.conn->open, "socket-not-released", "writing fails after %d bytes but the socket is still open", n);
            use([&] { r.retired(0); });
            r.alive(1);
            mc::outcome(static_cast<uint64_t>(n));
        });
    // 4. the application works in a handler of a session when this or another one is lost
    for (int loss = 0; loss < losses; ++loss)
      for (size_t level = 0; level < levels.size(); ++level)
        mc::add(mc::fmt("in-handler/%s/%zu", lossNames[loss], level), [=] {
            Rig r(2, levels[level]);
            r.shift = loss % 2;
            r.link(0);
            r.link(1);
            r.scope.world.spontaneousOrder = true;
            auto who = static_cast<size_t>(mc::pick(2));       // whose handler runs
            auto when = mc::pick(3);                            // 0 before the call arrives, 1 during the handler, 2 right behind the call
            auto uses = mc::pick(4);
            r.scope.world.eager = uses < 2 && mc::flip();
            r.inHandler = [&, n = 0]() mutable {
                if (when == 1 && n++ == 0) r.lose(0, loss);
                if (uses & 1) { r.script(0); r.call(0); }
                if (uses & 2) webfront::log::error("from the handler");
                r.script(1);
            };
            if (when == 0) r.lose(0, loss);
            if (!(when == 0 && who == 0 && loss != failingWrites && loss != reset)) r.peer(who).client.binary(callMessage("work", {text("w")}));
            if (when == 2) r.lose(0, loss);
            r.wf->run();
            if (when == 1 && r.ran.empty()) throw mc::Prune{};
            r.inHandler = {};
            r.scope.world.spontaneousOrder = false;
            if (loss == failingWrites) r.script(0);
            r.settle();
            mc::outcome(static_cast<uint64_t>(who * 12) + static_cast<uint64_t>(when * 4 + uses));
        }, (t ? 3 : 2) - (level == 2 ? 1 : 0));
    // 5. the loss and messages in the same segments: call then close, close then call
    mc::add("same-segment", [] {
        Rig r(1, levels[static_cast<size_t>(mc::pick(3))]);
        r.link(0);
        auto call = encodeFrame({true, 2, callMessage("work", {text("w")}), 1}), close = encodeFrame({true, 8, "", 1}), hs = encodeFrame({true, 2, r.hello(0), 1}), txt = encodeFrame({true, 1, "t", 2}), unknown = encodeFrame({true, 2, callMessage("none", {}), 1});
        std::vector<std::string> parts{call, hs, txt, unknown};
        std::string s;
        auto n = mc::pick(3), m = mc::pick(3);
        for (int i = 0; i < n; ++i) s += mc::pickOf(parts);
        s += close;
        for (int i = 0; i < m; ++i) s += mc::pickOf(parts);
        auto sent = s.size();
        auto cut = mc::pick(4);
        r.peer(0).lost = true;
        r.inHandler = [&] { r.script(0); r.call(0); };
        for (auto& seg : cutAt(s, cut ? std::vector<size_t>{sent * static_cast<size_t>(cut) / 4} : std::vector<size_t>{})) deliver(r.peer(0).client.conn, seg);
        r.current = 0;
        r.wf->run();
        r.current = -1;
        r.settle();
        mc::outcome(mc::hash(s));
    });
    // 6. lost before it is linked: after the upgrade, in the start handler, and during the answer
    for (int loss = 0; loss < losses; ++loss)
        mc::add(mc::fmt("early/%s", lossNames[loss]), [=] {
            Rig r(2, levels[static_cast<size_t>(mc::pick(3))]);
            r.shift = mc::pick(2);
            r.link(1);
            auto when = mc::pick(4);
            auto& c = r.peer(0).client;
            r.onStarted = [&](WF::UI ui) {
                if (r.current != 0) return;
                if (when == 2) { r.lose(0, loss); }
                r.reports([&] { ui.addScript("first"); });
                if (when == 3) r.lose(0, loss);
                r.reports([&] { auto f = ui.jsFunction("f"); f("second"); });
            };
            c.connect();
            r.scope.world.spontaneousOrder = true;
            r.wf->run();
            r.current = 0;
            if (when == 0) r.lose(0, loss);
            if (when < 2 || loss != closeFrame) c.binary(r.hello(0));
            if (when == 1) r.lose(0, loss);
            if (when >= 2 && loss == closeFrame) c.binary(r.hello(0));
            r.wf->run();
            r.current = -1;
            r.scope.world.spontaneousOrder = false;
            r.onStarted = {};
            if (!r.peer(0).uis.empty()) { if (loss == failingWrites) r.script(0); r.settle(); }
            else {
                if (loss == failingWrites) { c.text("x"); r.wf->run(); }
                MC_REQUIRE(!c.conn->open, "socket-not-released", "a client lost before its handshake keeps its socket");
                r.peer(0).lost = true;
                r.alive(1);
            }
            mc::outcome(static_cast<uint64_t>(when));
        }, t ? 3 : 2);
    // 7. the server is destroyed with sessions in any state
    mc::add("destruction", [] {
        Rig r(3, levels[static_cast<size_t>(mc::pick(3))]);
        for (size_t i = 0; i < 3; ++i) r.link(i);
        for (size_t i = 0; i < 3; ++i) {
            auto k = mc::pick(kinds + losses);
            if (k < kinds) activity(r, i, k);
            else r.lose(i, k - kinds);
        }
        r.wf.reset();
        webfront::log::setLogLevel(webfront::log::Error);
        webfront::log::error("nobody hears this");
        mc::outcome(1);
    });
    // 8. nothing remains of the sessions which are gone
    for (int loss = 0; loss < losses; ++loss)
        mc::add(mc::fmt("memory/%s", lossNames[loss]), [=] {
            Rig r(1, levels[static_cast<size_t>(mc::pick(2))]);
            r.link(0);
            auto kind = mc::pick(kinds);
            auto handshakes = mc::pick(4);
            mc::ex().recording = false;
            size_t after10 = 0;
            auto round = [&] {
                auto p = std::make_unique<Peer>();
                auto& c = p->client;
                r.peers.push_back(std::move(p));
                auto i = r.peers.size() - 1;
                if (!handshakes) { // it leaves before it becomes a session of the application
                    c.connect();
                    r.wf->run();
                    if (kind % 2) c.text("x");
                    c.upgradedSeen();
                    r.lose(i, loss);
                    if (loss == failingWrites) { c.text("x"); r.wf->run(); }
                    r.wf->run();
                    MC_REQUIRE(!c.conn->open, "socket-not-released", "round: socket still open");
                    r.peers.pop_back();
                    r.scope.world.conns.pop_back();
                    return;
                }
                r.link(i);
                for (int n = 1; n < handshakes; ++n) { c.binary(r.hello(i + static_cast<size_t>(n))); r.wf->run(); }
                activity(r, i, kind);
                r.wf->run();
                r.lose(i, loss);
                if (loss == failingWrites) r.script(i);
                r.wf->run();
                MC_REQUIRE(!c.conn->open, "socket-not-released", "round: socket still open");
                r.peers.pop_back();
                r.scope.world.conns.pop_back();
                auto& first = r.peer(0).client; // what it received is no matter
                first.upgradedSeen();
                first.conn->wire.resize(first.responseSize);
                first.conn->wire.shrink_to_fit();
                first.conn->wireHashed = 0;
                r.ran.clear();
            };
            r.peers.reserve(100);
            r.ran.reserve(100);
            alloc::start();
            for (int n = 0; n < 12; ++n) round();
            after10 = alloc::live;
            for (int n = 0; n < 48; ++n) round();
            auto growth = alloc::live > after10 ? alloc::live - after10 : 0;
            alloc::stop();
            mc::ex().recording = true;
            auto limit = size_t(48) * 200;
            MC_REQUIRE(growth < limit, "memory-grows", "%zu bytes more after 48 further sessions ended by %s", growth, lossNames[loss]);
            mc::outcome(mc::mix(static_cast<uint64_t>(kind), static_cast<uint64_t>(handshakes)));
        });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
