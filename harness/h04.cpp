// H04: each connection gets one answer, then is closed and fully released.
#include "alloc.hpp"
#include "server_rig.hpp"
using namespace h;

namespace {
void files() { MemFS<0>::files = {{"a.txt", MemFile(pattern(900, 1))}, {"index.html", MemFile("i")}, {"e.js", MemFile("zz", "br")}}; }
std::vector<Ask> asks() { return {{"GET", "/a.txt", {}}, {"GET", "/", {}}, {"GET", "/none", {}}, {"HEAD", "/a.txt", {}}, {"PUT", "/", {}}, {"GET", "/a/../b", {}}, {"GET", "/e.js", {}}, {"GET", "/e.js", {{"Accept-Encoding", "br"}}}}; }
std::string badHead() { return "GET / HTTP/1.1\r\nBad(Header: x\r\n\r\n"; }

void released(Srv<>& s, const char* when) {
    size_t open = 0;
    for (auto& c : s.world().conns) {
        if (c->open) ++open;
        MC_REQUIRE(!(!c->open && (!c->reads.empty() || !c->writes.empty())), "not-released", "%s: operations are pending on the closed c%d", when, c->id);
        MC_REQUIRE(c->maxReads <= 1, "several-reads", "%s: %d receives at once on c%d", when, c->maxReads, c->id);
        MC_REQUIRE(c->closes <= 1, "several-closes", "%s: c%d was closed %llu times", when, c->id, (unsigned long long)c->closes);
    }
    MC_REQUIRE(static_cast<int>(open) == s.world().openSockets, "leak", "%s: %d sockets open, %zu connections", when, s.world().openSockets, open);
}
void finished(Srv<>& s, const ConnP& c, const std::string& what) {
    MC_REQUIRE(!c->open, "not-closed", "%s: the connection is still open (%zu reads, %zu writes pending, %zu bytes sent)", what.c_str(), c->reads.size(), c->writes.size(), c->wire.size());
    released(s, what.c_str());
}
void accepting(Srv<>& s) {
    MC_REQUIRE(s.world().acceptsOutstanding == 1, "not-accepting", "%d accepts are outstanding on the idle server", s.world().acceptsOutstanding);
    auto c = s.open();
    deliver(c, "GET / HTTP/1.1\r\n\r\n");
    auto order = s.world().spontaneousOrder;
    s.world().spontaneousOrder = false;
    s.run();
    s.world().spontaneousOrder = order;
    checkAnswer(str(c->wire), expected({"GET", "/", {}}, MemFS<0>::files), false, "later request");
    finished(s, c, "later request");
}
void oneAnswer(const ConnP& c, bool head, const std::string& what, bool mayBePartial) {
    auto w = str(c->wire);
    if (w.empty()) return;
    auto r = parseResponse(w, head);
    MC_REQUIRE(!r.malformed, "malformed", "%s: %s", what.c_str(), r.why.c_str());
    if (r.complete) MC_REQUIRE(r.size == w.size(), "several-answers", "%s: %zu bytes after the response: %s", what.c_str(), w.size() - r.size, show(std::string_view(w).substr(r.size)).c_str());
    else MC_REQUIRE(mayBePartial, "partial-answer", "%s: the answer is incomplete: %s", what.c_str(), show(w).c_str());
}
} // namespace

void declare() {
    bool t = mc::thorough();
    auto all = asks();
    // 1. one connection, a request, and an ending at any moment, every schedule within 3 (4) deviations
    for (size_t i = 0; i <= all.size(); ++i)
        for (int how = 0; how < 6; ++how)
            mc::add(mc::fmt("ending/%zu/%d", i, how), [=] {
                files();
                Srv<> s;
                s.world().spontaneousOrder = true;
                s.world().partials = {1};
                auto request = i < all.size() ? all[i].text() : badHead();
                bool head = i < all.size() && all[i].method == "HEAD";
                auto c = s.open();
                auto sc = addScript();
                auto cut = mc::pick(3);
                if (cut == 0) sc->then("request", [=] { deliver(c, request); });
                else {
                    sc->then("first half", [=] { deliver(c, request.substr(0, request.size() / 2)); });
                    if (cut == 1) sc->then("second half", [=] { deliver(c, request.substr(request.size() / 2)); });
                }
                auto e = addScript();
                bool more = false;
                switch (how) {
                case 0: break;
                case 1: e->then("end of stream", [=] { c->finArrived = true; }); break;
                case 2: e->then("reset", [=] { c->reset = true; }); break;
                case 3: e->then("writes fail", [=] { c->failWrites = true; }); break;
                case 4: e->then("more bytes", [=] { deliver(c, "more bytes GET / HTTP/1.1\r\n\r\n"); }, [=] { return sc->done(); }); more = true; break;
                case 5: c->failWriteAfter = mc::pick(3) * 50; break;
                }
                s.run();
                bool unanswered = cut == 2 || more;
                std::string what = mc::fmt("request %zu ending %d", i, how);
                oneAnswer(c, head, what, how >= 2 && how != 4);
                if (cut != 2 || how == 1 || how == 2) { if (!more || !c->wire.empty()) finished(s, c, what); }
                else if (how != 4) {
                    MC_REQUIRE(c->open || !c->wire.empty(), "dropped", "%s: closed without an answer while the request is incomplete", what.c_str());
                    if (c->open) MC_REQUIRE(c->reads.size() == 1, "not-reading", "%s: %zu receives outstanding while the request is incomplete", what.c_str(), c->reads.size());
                }
                if (cut != 2 && (how == 0)) MC_REQUIRE(!c->wire.empty(), "no-answer", "%s: no answer", what.c_str());
                (void)unanswered;
                released(s, what.c_str());
                accepting(s);
                mc::outcome(mc::mix(mc::mix(i * 8 + static_cast<size_t>(how), static_cast<uint64_t>(cut)), mc::hash(str(c->wire))));
            }, t ? 4 : 3);
    // 2. an ending after every byte of the request and of the answer
    for (size_t i = 0; i <= all.size(); ++i)
        mc::add(mc::fmt("each-byte/%zu", i), [=] {
            files();
            auto request = i < all.size() ? all[i].text() : badHead();
            bool head = i < all.size() && all[i].method == "HEAD";
            Srv<> s;
            auto c = s.open();
            auto how = mc::pick(4);
            if (how < 2) {
                auto n = static_cast<size_t>(mc::pick(static_cast<int>(request.size()) + 1));
                deliver(c, request.substr(0, n));
                if (mc::flip()) s.run();
                if (how) c->reset = true; else c->finArrived = true;
            }
            else {
                c->failWriteAfter = mc::pick(300);
                deliver(c, request);
                if (how == 3) { s.run(); c->reset = true; }
            }
            s.run();
            oneAnswer(c, head, "each byte", true);
            finished(s, c, "each byte");
            accepting(s);
            mc::outcome(mc::mix(i * 4 + static_cast<size_t>(how), mc::hash(str(c->wire))));
        });
    // 3. two connections, each with its own ending, every schedule within 2 deviations
    for (int h1 = 0; h1 < 5; ++h1)
        for (int h2 = 0; h2 < 5; ++h2)
            mc::add(mc::fmt("two/%d/%d", h1, h2), [=] {
                files();
                Srv<> s;
                s.world().spontaneousOrder = true;
                std::vector<ConnP> cs{s.open(), s.open()};
                int hows[2] = {h1, h2};
                size_t which[2] = {static_cast<size_t>(mc::pick(3)), 3 + static_cast<size_t>(mc::pick(3))};
                for (int k = 0; k < 2; ++k) {
                    auto sc = addScript();
                    auto c = cs[static_cast<size_t>(k)];
                    auto q = all[which[k]].text();
                    if (hows[k] != 4) sc->then("request", [=] { deliver(c, q); });
                    else sc->then("half a request", [=] { deliver(c, q.substr(0, 9)); });
                    switch (hows[k]) {
                    case 1: sc->then("reset", [=] { c->reset = true; }); break;
                    case 2: c->failWriteAfter = 30; break;
                    case 3: case 4: sc->then("end of stream", [=] { c->finArrived = true; }); break;
                    }
                }
                s.run();
                for (int k = 0; k < 2; ++k) {
                    auto c = cs[static_cast<size_t>(k)];
                    auto& q = all[which[k]];
                    finished(s, c, "two");
                    if (hows[k] == 0) checkAnswer(str(c->wire), expected(q, MemFS<0>::files), q.method == "HEAD", "two");
                    else oneAnswer(c, q.method == "HEAD", "two", true);
                }
                accepting(s);
                mc::outcome(mc::mix(static_cast<uint64_t>(h1 * 8 + h2), s.world().steps));
            }, t ? 3 : 2);
    // 4. failing accepts at any place of a history of connections
    mc::add("accept-errors", [=] {
        files();
        Srv<> s;
        s.world().spontaneousOrder = true;
        std::vector<std::pair<ConnP, size_t>> cs;
        int n = mc::thorough() ? 5 : 4;
        for (int i = 0; i < n; ++i) {
            auto k = mc::pick(4);
            if (k == 0) sim::world().backlog.push_back({nullptr, std::experimental::net::error::make_error_code(std::experimental::net::error::connection_aborted)});
            else if (k == 1) sim::world().backlog.push_back({nullptr, std::experimental::net::error::make_error_code(std::experimental::net::error::no_descriptors)});
            else {
                auto c = s.open();
                if (k == 3) c->reset = true;
                deliver(c, all[static_cast<size_t>(i)].text());
                cs.emplace_back(c, k == 3 ? 99 : static_cast<size_t>(i));
            }
        }
        s.run();
        for (auto& [c, i] : cs) {
            finished(s, c, "accept errors");
            if (i != 99) checkAnswer(str(c->wire), expected(all[i], MemFS<0>::files), all[i].method == "HEAD", "accept errors");
        }
        MC_REQUIRE(s.world().maxAccepts <= 1, "several-accepts", "%d accepts outstanding at once", s.world().maxAccepts);
        accepting(s);
        mc::outcome(cs.size());
    }, 2);
    // 5. nothing accumulates: memory stays the same however many connections were served and however they ended
    for (int how = 0; how < 10; ++how)
        mc::add(mc::fmt("accumulation/%d", how), [=] {
            files();
            auto i = static_cast<size_t>(mc::pick(static_cast<int>(all.size()) + 2));
            auto request = i < all.size() ? all[i].text() : i == all.size() ? badHead() : upgradeRequest();
            bool handler = mc::flip();
            Srv<> s(".", handler);
            size_t reference = 0;
            for (int round = 0; round < 24; ++round) {
                if (round == 4) { mc::ex().recording = false; alloc::start(); alloc::live = reference = 1ull << 40; }
                {
                    auto c = how == 9 ? ConnP{} : s.open();
                    switch (how) {
                    case 0: deliver(c, request); break;
                    case 1: deliver(c, request.substr(0, 10)); c->finArrived = true; break;
                    case 2: deliver(c, request.substr(0, 10)); s.run(); c->reset = true; break;
                    case 3: c->reset = true; break;
                    case 4: c->finArrived = true; break;
                    case 5: c->failWrites = true; deliver(c, request); break;
                    case 6: c->failWriteAfter = 20; deliver(c, request); break;
                    case 7: deliver(c, request); s.run(); c->reset = true; break;
                    case 8: deliver(c, request.substr(0, 10)); s.run(); deliver(c, request.substr(10)); deliver(c, "more"); break;
                    case 9: sim::world().backlog.push_back({nullptr, std::experimental::net::error::make_error_code(std::experimental::net::error::connection_aborted)}); break;
                    }
                    s.run();
                    s.upgraded.clear();
                    if (c) MC_REQUIRE(!c->open, "not-closed", "connection still open");
                }
                s.world().conns.clear();
                MemFS<0>::opened.clear();
                MC_REQUIRE(s.world().openSockets == 0, "leak", "%d sockets still open", s.world().openSockets);
            }
            auto growth = static_cast<long long>(alloc::live) - static_cast<long long>(reference);
            alloc::stop();
            mc::ex().recording = true;
            MC_REQUIRE(growth < 20 * 48, "accumulation", "20 finished connections leave %lld bytes behind", growth);
            mc::outcome(static_cast<uint64_t>(how) * 32 + i);
        });
    // 6. any number of connections one after the other, however each ends; any number at the same time
    for (size_t n : {300, 1100, 5000, 70000})
        mc::add(mc::fmt("lifetime/%zu", n), [=] {
            files();
            Srv<> s;
            auto only = mc::pick(7); // endings: one kind, or all of them in turn
            mc::ex().recording = false;
            for (size_t k = 0; k < n; ++k) {
                auto how = only < 6 ? static_cast<size_t>(only) : k % 6;
                auto i = k % all.size();
                auto request = all[i].text();
                auto c = how == 5 ? ConnP{} : s.open();
                switch (how) {
                case 0: deliver(c, request); break;
                case 1: deliver(c, request.substr(0, 10)); c->finArrived = true; break;
                case 2: deliver(c, request.substr(0, 10)); s.run(); c->reset = true; break;
                case 3: c->failWriteAfter = 20; deliver(c, request); break;
                case 4: deliver(c, badHead()); break;
                case 5: sim::world().backlog.push_back({nullptr, std::experimental::net::error::make_error_code(std::experimental::net::error::connection_aborted)}); break;
                }
                s.world().steps = 0;
                s.run();
                if (how == 0) checkAnswer(str(c->wire), expected(all[i], MemFS<0>::files), all[i].method == "HEAD", mc::fmt("connection %zu", k));
                MC_REQUIRE(s.world().openSockets == 0, "leak", "%d sockets open after connection %zu", s.world().openSockets, k);
                s.world().conns.clear();
                MemFS<0>::opened.clear();
            }
            mc::ex().recording = true;
            accepting(s);
            mc::outcome(mc::mix(n, static_cast<uint64_t>(only)));
        });
    for (size_t n : {20, 70, 300, 1100, 3000})
        mc::add(mc::fmt("crowd/%zu", n), [=] {
            files();
            Srv<> s;
            auto order = mc::pick(3);
            mc::ex().recording = false;
            std::vector<ConnP> cs;
            for (size_t k = 0; k < n; ++k) {
                cs.push_back(s.open());
                deliver(cs.back(), all[k % all.size()].text().substr(0, k % 15));
                if (order) s.run();
            }
            s.run();
            for (size_t j = 0; j < n; ++j) {
                auto k = order == 2 ? n - 1 - j : j;
                deliver(cs[k], all[k % all.size()].text().substr(k % 15));
                if (order) s.run();
            }
            s.run();
            mc::ex().recording = true;
            for (size_t k = 0; k < n; ++k) {
                checkAnswer(str(cs[k]->wire), expected(all[k % all.size()], MemFS<0>::files), all[k % all.size()].method == "HEAD", mc::fmt("one of %zu", n));
                MC_REQUIRE(!cs[k]->open, "not-closed", "one of %zu connections is still open", n);
            }
            released(s, "crowd");
            s.world().conns.clear();
            accepting(s);
            mc::outcome(mc::mix(n, static_cast<uint64_t>(order)));
        });
    // 7. the server is destroyed while connections are in any state
    mc::add("server-destroyed", [=] {
        files();
        auto s = std::make_unique<Srv<>>();
        s->world().spontaneousOrder = true;
        auto a = s->open(), b = s->open();
        deliver(a, all[0].text());
        deliver(b, "GET /");
        auto n = mc::pick(12);
        for (int i = 0; i < n; ++i) s->server->runOne();
        s->server.reset();
        MC_REQUIRE(!a->open && !b->open && s->world().openSockets == 0, "leak", "sockets survive the server");
        mc::outcome(static_cast<uint64_t>(n));
    }, 2);
}
int main(int c, char** v) { return mc::run(c, v, declare); }
