// S01: the servers of a process are independent of each other.
#include "wf_rig.hpp"
#include "server_rig.hpp"
#include <system/IndexFS.hpp>
#include <system/NativeFS.hpp>
#include <unistd.h>
using namespace h;

namespace {
// Files by document root: servers of one and the same type have different files
struct RootFS {
    std::string root;
    explicit RootFS(std::filesystem::path r) : root(r.string()) {}
    std::optional<webfront::fs::File> open(std::filesystem::path p) {
        auto& f = files[root];
        auto it = f.find(p.string());
        if (it == f.end()) return {};
        return webfront::fs::File(std::span<const uint64_t>(it->second.words), it->second.content.size(), it->second.encoding);
    }
    inline static std::map<std::string, std::map<std::string, MemFile>> files;
};
using WF = webfront::BasicWF<Net, RootFS>;

struct Peer {
    Client client;
    bool linked = false, lost = false;
    std::string rest, restMark;                         // what follows a message begun, what it runs
    std::vector<std::pair<char, std::string>> expected; // as in U01
    std::vector<WF::UI> uis;
    size_t frozen = 0;
};
struct Visitor { ConnP conn; Ask ask; std::string rest; bool answered = false; size_t frozen = 0; bool gone = false; };
struct Node {
    std::string port, root;
    std::unique_ptr<WF> wf;
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<std::unique_ptr<Visitor>> visitors;
    std::vector<std::string> ran, expectedRan;
    std::vector<WF::UI> started;
    std::function<void()> inside; // run within the function "mark"
    int generation = 0;
    bool live() const { return wf != nullptr; }
};
struct Rig {
    WorldScope scope;
    std::vector<std::unique_ptr<Node>> nodes;
    int marks = 0;
    explicit Rig(size_t n) {
        quiet();
        RootFS::files.clear();
        scope.world.spontaneousOrder = false;
        for (size_t k = 0; k < n; ++k) {
            nodes.push_back(std::make_unique<Node>());
            nodes[k]->port = std::to_string(80 + k);
            nodes[k]->root = "root" + std::to_string(k);
            auto& f = RootFS::files[nodes[k]->root];
            f["index.html"] = MemFile("index of " + nodes[k]->root + std::string(k * 7, '.'));
            f["only" + std::to_string(k)] = MemFile("file " + std::to_string(k));
        }
    }
    Node& node(size_t k) { return *nodes[k]; }
    void create(size_t k) {
        auto& n = node(k);
        ++n.generation;
        n.wf = std::make_unique<WF>(n.port, n.root);
        auto p = &n;
        n.wf->onUIStarted([p](WF::UI ui) {
            ui.addScript("start " + p->root + " " + std::to_string(p->started.size()));
            p->started.push_back(ui);
        });
        n.wf->cppFunction<void, std::string>("mark", [p](std::string m) { p->ran.push_back(p->root + m); if (p->inside) p->inside(); });
        n.wf->cppFunction<void, std::string>("only" + std::to_string(k), [p](std::string m) { p->ran.push_back(p->root + "only" + m); });
    }
    void destroy(size_t k) {
        auto& n = node(k);
        n.wf.reset();
        n.started.clear();
        for (auto& p : n.peers) {
            p->uis.clear();
            MC_REQUIRE(!p->client.conn->open, "leak", "the connection of a client survives its server");
            if (!p->lost) p->frozen = p->client.conn->wire.size();
            p->lost = true;
        }
        for (auto& v : n.visitors) if (!v->answered && !v->gone) { v->gone = true; v->frozen = v->conn->wire.size(); }
    }
    void settle(size_t k) { if (node(k).live()) node(k).wf->run(); }
    void settle() { for (size_t k = 0; k < nodes.size(); ++k) settle(k); }
    void arrive(Node& n, const ConnP& c) { scope.world.backlog.push_back({c, {}, n.port}); }
    std::string mark() { return "m" + std::to_string(marks++); }
    Peer& connect(size_t k) {
        auto& n = node(k);
        n.peers.push_back(std::make_unique<Peer>());
        auto& p = *n.peers.back();
        arrive(n, p.client.conn);
        deliver(p.client.conn, upgradeRequest());
        settle(k);
        MC_REQUIRE(p.client.upgradedSeen(), "no-upgrade", "a client of server %zu is not upgraded", k);
        return p;
    }
    void handshake(size_t k, Peer& p) {
        auto& n = node(k);
        auto before = n.started.size();
        p.client.binary(handshakeMessage(static_cast<int>(k)));
        settle(k);
        MC_REQUIRE(n.started.size() == before + 1, "no-start", "a handshake with server %zu starts %zu UIs", k, n.started.size() - before);
        p.linked = true;
        p.expected.emplace_back('a', "");
        p.expected.emplace_back('s', "start " + n.root + " " + std::to_string(before));
        p.uis.push_back(n.started.back());
    }
    void log() {
        auto line = "line " + mark();
        for (auto& n : nodes)
            for (auto& p : n->peers)
                if (p->linked && !p->lost) p->expected.emplace_back('l', line);
        webfront::log::setLogLevel(webfront::log::Error);
        webfront::log::error("{}", line);
        webfront::log::setLogLevel(webfront::log::Disabled);
        settle();
    }
    // the connections accepted by one server are those made to its port: what they get tells
    void check() {
        int open = 0;
        for (size_t k = 0; k < nodes.size(); ++k) {
            auto& n = node(k);
            for (size_t i = 0; i < n.peers.size(); ++i) {
                auto& p = *n.peers[i];
                if (p.lost) { MC_REQUIRE(p.client.conn->wire.size() == p.frozen, "sent-to-lost", "a client of server %zu receives something after it left", k); }
                else {
                    MC_REQUIRE(p.client.conn->open, "disconnected", "a client of server %zu is disconnected", k);
                    ++open;
                }
                auto f = p.client.frames();
                MC_REQUIRE(f.size() == p.expected.size(), "wrong-count", "client %zu of server %zu received %zu messages instead of %zu", i, k, f.size(), p.expected.size());
                for (size_t j = 0; j < f.size(); ++j) {
                    auto [kind, what] = p.expected[j];
                    std::string got = "?";
                    auto& m = f[j].payload;
                    TextMsg t;
                    CallMsg c;
                    if (f[j].opcode == 1) got = m == textReply ? "t" : "?";
                    else if (m == ackMessage()) got = "a";
                    else if (decodeTextCommand(m, t).empty()) got = t.opcode == 1 ? "s" + t.text : kind == 'l' && t.text.ends_with(what) ? "l" + what : "l" + t.text;
                    else if (decodeCall(m, c).empty()) got = c.command == 4 && c.values.size() == 1 ? "x" : c.command == 3 && !c.values.empty() ? "c" + c.values[0].s : "?";
                    MC_REQUIRE(got == std::string(1, kind) + what, "wrong-message", "message %zu of client %zu of server %zu is '%s' instead of '%c%s'", j, i, k, show(got).c_str(), kind, what.c_str());
                }
            }
            for (auto& v : n.visitors) {
                auto w = str(v->conn->wire);
                if (v->answered) {
                    checkAnswer(w, expected(v->ask, RootFS::files[n.root]), v->ask.method == "HEAD", mc::fmt("%s %s of server %zu", v->ask.method.c_str(), v->ask.target.c_str(), k));
                    MC_REQUIRE(!v->conn->open, "not-closed", "an answered connection of server %zu is still open", k);
                }
                else {
                    MC_REQUIRE(w.empty(), "early-answer", "a connection of server %zu is answered before its request is complete: %s", k, show(w).c_str());
                    MC_REQUIRE(v->conn->open == !v->gone, v->gone ? "leak" : "disconnected", "a visitor of server %zu is %s", k, v->gone ? "still connected after its end" : "disconnected");
                    open += !v->gone;
                }
            }
            MC_REQUIRE(n.ran == n.expectedRan, "wrong-calls", "server %zu: %zu calls ran, %zu made", k, n.ran.size(), n.expectedRan.size());
        }
        MC_REQUIRE(scope.world.openSockets == open, "leak", "%d sockets are open for %d live connections", scope.world.openSockets, open);
    }
};
constexpr int kinds = 15;
Ask request(size_t k, int i) {
    Ask a;
    a.method = i % 3 == 1 ? "HEAD" : "GET";
    a.target = i % 4 == 0 ? "/" : i % 4 == 1 ? "/only0" : i % 4 == 2 ? "/only1" : "/%2e%2e/x";
    a.headers = {{"Host", "h" + std::to_string(k)}};
    return a;
}
bool event(Rig& r, size_t k, int kind) {
    auto& n = r.node(k);
    if (kind == 13) { if (n.live()) return false; r.create(k); return true; }
    if (kind == 14) { // a line logged by the application goes to every session of the process
        if (k) return false;
        r.log();
        return true;
    }
    if (!n.live()) return false;
    auto live = [&]() -> Peer* { for (auto i = n.peers.rbegin(); i != n.peers.rend(); ++i) if (!(*i)->lost) return i->get(); return nullptr; };
    auto p = live();
    auto whole = [&] { return p && p->linked && p->rest.empty(); };
    auto m = r.mark();
    switch (kind) {
    case 0: r.connect(k); return true;
    case 1: if (!p || !p->rest.empty()) return false; r.handshake(k, *p); return true;
    case 2: if (!whole()) return false; n.expectedRan.push_back(n.root + m); p->client.binary(callMessage("mark", {text(m)})); break;
    case 3: if (!whole()) return false; p->client.binary(callMessage("only" + std::to_string(1 - std::min<size_t>(k, 1)), {text(m)})); p->expected.emplace_back('x', ""); break;
    case 4: if (!p || p->uis.empty()) return false; p->uis.back().addScript(m); p->expected.emplace_back('s', m); break;
    case 5: if (!p || p->uis.empty()) return false; { auto f = p->uis.front().jsFunction(m); f(static_cast<int>(k), "x"); } p->expected.emplace_back('c', m); break;
    case 6: case 7: {
        n.visitors.push_back(std::make_unique<Visitor>());
        auto& v = *n.visitors.back();
        v.conn = newConn();
        v.ask = request(k, static_cast<int>(n.visitors.size() * 3 + k));
        r.arrive(n, v.conn);
        auto text = v.ask.text();
        auto cut = kind == 6 ? text.size() : 9 + k;
        deliver(v.conn, text.substr(0, cut));
        v.rest = text.substr(cut);
        v.answered = kind == 6;
    } break;
    case 8: {
        Visitor* v = nullptr;
        for (auto& x : n.visitors) if (!x->rest.empty() && !x->gone) { v = x.get(); break; }
        if (!v) return false;
        deliver(v->conn, std::exchange(v->rest, ""));
        v->answered = true;
    } break;
    case 9: { // a message begun: in the middle of a frame
        if (!whole()) return false;
        auto f = (encodeFrame({true, 2, callMessage("mark", {text(m)}), 1}));
        deliver(p->client.conn, f.substr(0, 4 + 5 * k));
        p->rest = f.substr(4 + 5 * k);
        p->restMark = n.root + m;
    } break;
    case 10: { // between two fragments
        if (!whole()) return false;
        auto msg = callMessage("mark", {text(m)});
        p->client.send({false, 2, msg.substr(0, 7 + k), 1});
        p->rest = (encodeFrame({true, 0, msg.substr(7 + k), 1}));
        p->restMark = n.root + m;
    } break;
    case 11: if (!p) return false; {
        if (!p->rest.empty()) return false;
        p->client.send({true, 8, "", 1});
        r.settle(k);
        p->lost = true;
        p->uis.clear();
        p->frozen = p->client.conn->wire.size();
        return true;
    }
    case 12: for (auto& x : n.peers) if (!x->rest.empty() && !x->lost) return false; r.destroy(k); return true;
    }
    r.settle(k);
    return true;
}
// messages begun are ended, in either order of the servers
void finish(Rig& r, bool backwards) {
    for (size_t j = 0; j < r.nodes.size(); ++j) {
        auto k = backwards ? r.nodes.size() - 1 - j : j;
        for (auto& p : r.node(k).peers)
            if (!p->lost && !p->rest.empty()) { r.node(k).expectedRan.push_back(p->restMark); deliver(p->client.conn, std::exchange(p->rest, "")); r.settle(k); }
    }
    r.check();
}
} // namespace

void declare() {
    bool t = mc::thorough();
    auto history = [](Rig& r, int depth, int first) {
        auto n = static_cast<int>(r.nodes.size());
        uint64_t o = 1;
        for (int d = 0; d < depth; ++d) {
            auto k = d == 0 && first >= 0 ? first : mc::pick(n * kinds);
            if (!event(r, static_cast<size_t>(k / kinds), k % kinds)) throw mc::Prune{};
            o = mc::mix(o, static_cast<uint64_t>(k));
        }
        finish(r, o & 1);
        mc::outcome(o);
    };
    // 1. all histories over two servers, from nothing and with a linked client each
    for (int first = 0; first < 2 * kinds; ++first)
        if (first % kinds == 0 || first == 6 || first == 7 || first == 12 || first == 2 * kinds - 1)
            mc::add(mc::fmt("from-nothing/%d", first), [=] { Rig r(2); event(r, 0, 13); history(r, t ? 6 : 5, first); });
    for (int first = 0; first < 2 * kinds; ++first)
        mc::add(mc::fmt("linked/%d", first), [=] {
            Rig r(2);
            for (size_t k = 0; k < 2; ++k) { r.create(k); r.handshake(k, r.connect(k)); }
            history(r, 4, first);
        });
    // 2. a message, a request or an upgrade cut anywhere on both servers
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b)
            mc::add(mc::fmt("cuts/%d%d", a, b), [a, b] {
                Rig r(2);
                std::array<int, 2> kind{a, b};
                for (size_t k = 0; k < 2; ++k) { r.create(k); r.handshake(k, r.connect(k)); }
                std::array<std::string, 2> rest;
                std::array<ConnP, 2> conn;
                uint64_t o = static_cast<uint64_t>(a * 3 + b);
                for (size_t k = 0; k < 2; ++k) {
                    auto& n = r.node(k);
                    std::string bytesOf;
                    if (kind[k] == 0) {
                        conn[k] = n.peers[0]->client.conn;
                        bytesOf = (encodeFrame({true, 2, callMessage("mark", {text(k ? "Second" : "first")}), 1}));
                        n.expectedRan.push_back(n.root + (k ? "Second" : "first"));
                    }
                    else if (kind[k] == 1) {
                        n.visitors.push_back(std::make_unique<Visitor>());
                        auto& v = *n.visitors.back();
                        v.conn = conn[k] = newConn();
                        v.ask = request(k, k ? 2 : 1);
                        v.answered = true;
                        r.arrive(n, conn[k]);
                        bytesOf = v.ask.text();
                    }
                    else {
                        n.peers.push_back(std::make_unique<Peer>());
                        conn[k] = n.peers.back()->client.conn;
                        r.arrive(n, conn[k]);
                        bytesOf = upgradeRequest();
                        bytesOf.insert(bytesOf.find("\r\n") + 2, k ? "Host: other.example\r\n" : "Host: a\r\n");
                    }
                    auto step = kind[k] == 2 ? 7u : 1u;
                    auto cut = 1 + step * static_cast<unsigned>(mc::pick(static_cast<int>((bytesOf.size() - 1) / step)));
                    o = mc::mix(o, cut);
                    deliver(conn[k], bytesOf.substr(0, cut));
                    rest[k] = bytesOf.substr(cut);
                    r.settle(k);
                }
                auto last = static_cast<size_t>(mc::pick(2));
                for (size_t j = 0; j < 2; ++j) { auto k = j ^ last; deliver(conn[k], rest[k]); r.settle(k); }
                for (size_t k = 0; k < 2; ++k) if (kind[k] == 2) MC_REQUIRE(r.node(k).peers.back()->client.upgradedSeen(), "no-upgrade", "a client of server %zu is not upgraded", k);
                r.check();
                mc::outcome(mc::mix(o, last));
            });
    // 3. everything at once: the loops of the servers turn in any order
    for (int variant = 0; variant < 6; ++variant) mc::add(mc::fmt("concurrent/%d", variant), [variant] {
        size_t servers = variant >= 4 ? 3 : 2;
        Rig r(servers);
        for (size_t k = 0; k < servers; ++k) { r.create(k); r.handshake(k, r.connect(k)); }
        r.scope.world.partials = {3};
        for (size_t k = 0; k < servers; ++k) {
            auto& n = r.node(k);
            auto& p = *n.peers[0];
            auto m = "m" + std::to_string(k);
            if (variant != 1 || k == 0) { p.client.binary(callMessage("mark", {text(m)})); n.expectedRan.push_back(n.root + m); }
            if (variant == 0 || variant == 4) { p.uis[0].addScript("app" + m); p.expected.emplace_back('s', "app" + m); }
            if (variant == 1 || variant == 2) {
                n.visitors.push_back(std::make_unique<Visitor>());
                auto& v = *n.visitors.back();
                v.conn = newConn();
                v.ask = request(k, static_cast<int>(k) + variant);
                v.answered = true;
                r.arrive(n, v.conn);
                auto text = v.ask.text();
                deliver(v.conn, text.substr(0, 8));
                deliver(v.conn, text.substr(8));
            }
            if (variant == 3 || variant == 5) { p.client.binary(callMessage("only2", {text("!")})); if (k != 2) p.expected.emplace_back('x', ""); }
        }
        if (variant == 5) r.node(2).expectedRan.push_back("root2only!");
        r.scope.world.spontaneousOrder = variant < 4;
        std::vector<bool> idle(servers);
        for (size_t turn = 0;;) {
            std::vector<size_t> ready;
            for (size_t j = 0; j < servers; ++j) if (!idle[(turn + j) % servers]) ready.push_back((turn + j) % servers);
            if (ready.empty()) break;
            auto k = ready[static_cast<size_t>(mc::choose(static_cast<int>(ready.size())))];
            auto before = sim::stateHash();
            r.node(k).wf->runOne();
            if (sim::stateHash() == before) idle[k] = true;
            turn = k + 1;
        }
        r.scope.world.spontaneousOrder = false;
        r.settle();
        r.check();
        mc::outcome(static_cast<uint64_t>(variant));
    }, t ? 5 : 4);
    // 4. a function called on one server turns the loop of another, sends to its clients, destroys or creates it
    for (int what = 0; what < 6; ++what)
        mc::add(mc::fmt("inside/%d", what), [what] {
            Rig r(2);
            auto big = static_cast<size_t>(mc::pick(3)) * 300;
            auto self = static_cast<size_t>(mc::pick(2)), other = 1 - self;
            for (size_t k = 0; k < 2; ++k) if (what != 4 || k == self) { r.create(k); r.handshake(k, r.connect(k)); r.handshake(k, r.connect(k)); }
            auto& n = r.node(self);
            auto& q = r.node(other);
            auto pending = mc::pick(3); // on the other server when the function runs
            if (what != 4) {
                auto& p = *q.peers[0];
                if (pending == 1) { p.client.binary(callMessage("mark", {text("pending" + std::string(big, 'p'))})); q.expectedRan.push_back(q.root + "pending" + std::string(big, 'p')); }
                if (pending == 2) { p.client.binary(callMessage("none", {})); if (what != 3) p.expected.emplace_back('x', ""); }
            }
            bool once = false;
            n.inside = [&] {
                if (once) return;
                once = true;
                switch (what) {
                case 0: r.settle(other); break;
                case 1: for (auto& p : q.peers) { p->uis[0].addScript("bridge" + std::string(big, 'b')); } break;
                case 2: r.settle(other); event(r, other, 0); event(r, other, 1); event(r, other, 2); event(r, other, 6); break;
                case 3: r.destroy(other); if (pending == 1) q.expectedRan.clear(); break;
                case 4: r.create(other); event(r, other, 0); event(r, other, 1); event(r, other, 3); break;
                case 5: r.settle(other); event(r, other, 11); r.settle(other); break;
                }
            };
            // the bridge comes before the exception of what is pending
            if (what == 1) for (auto& p : q.peers) p->expected.insert(p->expected.begin() + 2, {'s', "bridge" + std::string(big, 'b')});
            auto& p = *n.peers[0];
            for (int i = 0; i < 2; ++i) {
                auto m = mc::fmt("%d", i) + std::string(big, 'm');
                p.client.binary(callMessage("mark", {text(m)}));
                n.expectedRan.push_back(n.root + m);
                p.client.binary(callMessage("none", {text(std::string(big, 'n'))}));
                p.expected.emplace_back('x', "");
            }
            r.settle(self);
            r.settle(other);
            n.inside = {};
            MC_REQUIRE(once, "wrong-calls", "the function did not run");
            for (size_t k = 0; k < 2; ++k) if (r.node(k).live()) { event(r, k, 2); event(r, k, 4); event(r, k, 6); }
            r.check();
            mc::outcome(mc::mix(static_cast<uint64_t>(what), static_cast<uint64_t>(big + self + static_cast<size_t>(pending) * 2)));
        });
    // 5. servers of native and bundled files with different document roots
    for (int order = 0; order < 2; ++order)
        mc::add(mc::fmt("files/%d", order), [order] {
            quiet();
            auto base = std::filesystem::absolute(std::filesystem::path(mc::ex().data)) / mc::fmt("s01-%d-%d", static_cast<int>(getpid()), order);
            struct Cleanup { std::filesystem::path p; ~Cleanup() { std::error_code ec; std::filesystem::remove_all(p, ec); } } cleanup{base};
            std::vector<std::string> names{"f", "d/f", "index.html", "only0", "only1"};
            std::array<std::map<std::string, std::string>, 2> on;
            for (size_t k = 0; k < 2; ++k) {
                for (size_t i = 0; i < 5; ++i)
                    if (i < 2 || (i == 2 && k == 1) || i == 3 + k) on[k][names[i]] = mc::fmt("%zu on %zu", i, k) + std::string(k * 600, 'x');
                for (auto& [n, c] : on[k]) {
                    auto path = base / mc::fmt("r%zu", k) / n;
                    std::filesystem::create_directories(path.parent_path());
                    std::ofstream(path, std::ios::binary) << c;
                }
            }
            WorldScope scope;
            scope.world.spontaneousOrder = false;
            using Files = webfront::fs::Multi<webfront::fs::NativeDebugFS, webfront::fs::IndexFS>;
            using Server = webfront::http::Server<Net, Files>;
            std::array<std::unique_ptr<Server>, 2> servers;
            auto create = [&](size_t k) { servers[k] = std::make_unique<Server>("0.0.0.0", k ? "81" : "80", base / mc::fmt("r%zu", k)); };
            create(static_cast<size_t>(order));
            create(static_cast<size_t>(1 - order));
            uint64_t o = static_cast<uint64_t>(order);
            for (int d = 0; d < 3; ++d) {
                auto what = mc::pick(12);
                o = mc::mix(o, static_cast<uint64_t>(what));
                if (what >= 10) { servers[static_cast<size_t>(what - 10)].reset(); create(static_cast<size_t>(what - 10)); continue; }
                auto k = static_cast<size_t>(what / 5);
                auto& name = names[static_cast<size_t>(what % 5)];
                auto c = newConn();
                scope.world.backlog.push_back({c, {}, k ? "81" : "80"});
                deliver(c, "GET /" + name + " HTTP/1.1\r\nAccept-Encoding: br, gzip\r\n\r\n");
                servers[k]->run();
                auto a = parseResponse(str(c->wire));
                auto want = on[k].find(name);
                MC_REQUIRE(a.complete, "no-response", "'%s' is not answered", name.c_str());
                if (want != on[k].end()) { MC_REQUIRE(a.status == 200 && a.body == want->second && !a.count("Content-Encoding"), "wrong-file", "server %zu answers %d with another file than its own for '%s'", k, a.status, name.c_str()); }
                else if (name == "index.html") { MC_REQUIRE(a.status == 200 && a.count("Content-Encoding") == 1, "wrong-file", "server %zu does not serve the bundled index.html", k); }
                else MC_REQUIRE(a.status == 404, "wrong-file", "server %zu answers %d for '%s', a file of another server", k, a.status, name.c_str());
            }
            mc::outcome(o);
        });
    // 6. a server replaced many times, beside another which stays; what the previous ones left does not show
    for (int left = 0; left < 5; ++left)
        mc::add(mc::fmt("replaced/%d", left), [left, t] {
            Rig r(2);
            r.create(0);
            r.handshake(0, r.connect(0));
            auto rounds = t ? 300 : 60, every = mc::pick(3);
            mc::ex().recording = false;
            for (int i = 0; i < rounds; ++i) {
                r.create(1);
                auto& n = r.node(1);
                for (int j = 0; j <= left; ++j) { event(r, 1, 0); event(r, 1, 1); event(r, 1, 2); event(r, 1, 3); event(r, 1, 5); }
                event(r, 1, left == 1 ? 7 : 6);
                event(r, 0, every == 0 ? 2 : every == 1 ? 4 : 6);
                if (left == 2) { auto& p = *n.peers.back(); auto m = callMessage("mark", {text("unfinished")}); p.client.send({false, 2, m.substr(0, 9), 1}); r.settle(1); }
                if (left == 3) event(r, 1, 11);
                if (left == 4) { auto& p = *n.peers.back(); p.client.conn->stalled = true; p.uis[0].addScript("never"); r.settle(1); }
                r.check();
                r.destroy(1);
                r.check();
                n.peers.clear();
                n.visitors.clear();
                std::erase_if(r.scope.world.conns, [](auto& c) { return !c->open; });
                r.node(0).visitors.clear();
            }
            mc::ex().recording = true;
            mc::outcome(mc::mix(static_cast<uint64_t>(left), static_cast<uint64_t>(every)));
        });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
