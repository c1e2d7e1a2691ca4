// Runs the same scripts over the simulated transport and, built with REAL, over Boost.Asio and the loopback network; prints what
// the clients and the application saw. The two outputs have to be equal line by line.
//   driver PART PARTS
#ifdef REAL
#include <experimental/net>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <poll.h>
#endif
#include "wf_rig.hpp"

// ------------------------------------------------------------------------------------------------ clients
#ifdef REAL
static int port;
struct Peer {
    int fd = -1;
    std::string wire;
    bool fin = false, gone = false, stalled = false;
    void connect() {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(static_cast<uint16_t>(port));
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a)) { perror("connect"); exit(97); }
    }
    void send(std::string_view s) { (void)!::send(fd, s.data(), s.size(), MSG_NOSIGNAL); }
    void end() { ::shutdown(fd, SHUT_WR); }
    void reset() {
        collect();
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        close(fd);
        fd = -1;
        gone = true;
    }
    bool collect() {
        bool some = false;
        if (fd < 0 || stalled || fin) return false;
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); // else the server's next small write waits for a delayed ACK
        for (char b[65536];;) {
            auto n = recv(fd, b, sizeof b, MSG_DONTWAIT);
            if (n > 0) { wire.append(b, static_cast<size_t>(n)); some = true; setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); continue; }
            if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) { fin = true; some = true; }
            return some;
        }
    }
    ~Peer() { if (fd >= 0) close(fd); }
};
struct Scope {};
template<typename S> void settle(S& server, std::vector<std::unique_ptr<Peer>>& peers) {
    for (bool more = true; more;) {
        server.run();
        more = false;
        for (auto& p : peers) more |= p->collect();
    }
}
#else
static int port = 80;
struct Peer {
    sim::ConnP c = h::newConn();
    std::string wire;
    bool fin = false, gone = false, stalled = false;
    void connect() { h::connectTo(c); }
    void send(std::string_view s) { if (c->open || !c->closes) h::deliver(c, s); }
    void end() { c->finArrived = true; }
    void reset() { collect(); c->reset = true; gone = true; }
    bool collect() {
        if (gone || stalled) return false;
        wire = h::str(c->wire);
        fin = c->clientSawFin;
        return false;
    }
};
struct Scope {
    h::WorldScope scope;
    Scope() {
        scope.world.spontaneousOrder = false;
        scope.world.eager = true;
    }
};
template<typename S> void settle(S& server, std::vector<std::unique_ptr<Peer>>& peers) {
    for (auto& p : peers) p->collect();
    server.run();
    for (auto& p : peers) p->collect();
}
#endif

// size and hash, the times of log lines left out
static std::string brief(std::string s) {
    auto digit = [](char c) { return c >= '0' && c <= '9'; };
    for (size_t i = 0; i + 8 < s.size(); ++i)
        if (digit(s[i]) && digit(s[i + 1]) && s[i + 2] == ':' && digit(s[i + 3]) && s[i + 5] == ':' && digit(s[i + 6]))
            for (; i < s.size() && (digit(s[i]) || s[i] == ':' || s[i] == '.'); ++i) s[i] = '-';
    return std::to_string(s.size()) + ":" + std::to_string(std::hash<std::string>{}(s));
}
static std::string state(std::vector<std::unique_ptr<Peer>>& peers) {
    std::string s;
    for (auto& p : peers)
        s += p->gone ? " [reset after " + brief(p->wire) + "]" : " [" + brief(p->wire) + (p->fin ? " ended]" : "]");
    return s;
}
static int part, parts, number;
static bool mine() { return number++ % parts == part; }

// ------------------------------------------------------------------------------------------------ the HTTP server
static const char* httpNames[]{"get", "half1", "half2", "bad", "head", "upgrade", "end", "reset", "stall", "unstall"};
static void httpScript(const std::vector<int>& events, bool each) {
    Scope scope;
    h::MemFS<0>::files.clear();
    h::MemFS<0>::files["a"] = h::MemFile("content of a");
    h::MemFS<0>::files["big"] = h::MemFile(h::pattern(300000));
    webfront::http::Server<h::Net, h::MemFS<0>> server("127.0.0.1", std::to_string(port));
    std::vector<std::unique_ptr<h::Net::Socket>> upgraded;
    int upgrades = 0;
    server.onUpgrade([&](h::Net::Socket&& s, webfront::http::Protocol) { ++upgrades; upgraded.push_back(std::make_unique<h::Net::Socket>(std::move(s))); });
    std::vector<std::unique_ptr<Peer>> peers;
    for (int i = 0; i < 2; ++i) {
        peers.push_back(std::make_unique<Peer>());
        peers.back()->connect();
    }
    settle(server, peers);
    std::string log = "http";
    for (int e : events) {
        auto& p = *peers[static_cast<size_t>(e % 2)];
        log += std::string(" ") + httpNames[e / 2] + std::to_string(e % 2);
        if (!p.gone) switch (e / 2) {
        case 0: p.send("GET /a HTTP/1.1\r\n\r\n"); break;
        case 1: p.send("GET /big HT"); break;
        case 2: p.send("TP/1.1\r\nA: b\r\n\r\n"); break;
        case 3: p.send("GET\n"); break;
        case 4: p.send("HEAD /big HTTP/1.1\r\n\r\n"); break;
        case 5: p.send(h::upgradeRequest()); break;
        case 6: p.end(); break;
        case 7: p.reset(); break;
        case 8: p.stalled = true; break;
        case 9: p.stalled = false; break;
        }
        if (each) { settle(server, peers); if (!p.stalled) log += state(peers); }
    }
    for (auto& p : peers) p->stalled = false;
    settle(server, peers);
    std::cerr << log << " |" << state(peers) << " upgrades " << upgrades << "\n";
    upgraded.clear();
}
// ------------------------------------------------------------------------------------------------ the whole of WebFront
static const char* wfNames[]{"handshake", "call", "bad-call", "text", "frame1", "frame2", "close", "end", "reset", "script", "js", "log"};
static void wfScript(const std::vector<int>& events) {
    Scope scope;
    using WF = h::WFOn<0>;
    std::string log = "webfront", app;
    {
        WF wf(std::to_string(port));
        webfront::log::setLogLevel(webfront::log::Error);
        std::vector<WF::UI> uis;
        wf.onUIStarted([&](WF::UI ui) { app += " started"; uis.push_back(ui); });
        wf.cppFunction<void, std::string, int>("f", [&](std::string s, int i) { app += " f(" + s + "," + std::to_string(i) + ")"; });
        std::vector<std::unique_ptr<Peer>> peers;
        for (int i = 0; i < 2; ++i) {
            peers.push_back(std::make_unique<Peer>());
            peers.back()->connect();
            settle(wf, peers);
            peers.back()->send(h::upgradeRequest());
            settle(wf, peers);
        }
        auto f = h::encodeFrame({true, 2, h::callMessage("f", {h::text("half"), h::num(7)}), 1});
        for (int e : events) {
            auto k = static_cast<size_t>(e % 2);
            auto& p = *peers[k];
            log += std::string(" ") + wfNames[e / 2] + std::to_string(e % 2);
            auto frame = [&](int op, std::string s) { if (!p.gone) p.send(h::encodeFrame({true, op, s, 2})); };
            switch (e / 2) {
            case 0: frame(2, h::handshakeMessage()); break;
            case 1: frame(2, h::callMessage("f", {h::text("x"), h::num(e)})); break;
            case 2: frame(2, h::callMessage("g", {})); break;
            case 3: frame(1, "hello"); break;
            case 4: if (!p.gone) p.send(f.substr(0, 11)); break;
            case 5: if (!p.gone) p.send(f.substr(11)); break;
            case 6: frame(8, "\x03\xe8"); break;
            case 7: if (!p.gone) p.end(); break;
            case 8: if (!p.gone) p.reset(); break;
            case 9: case 10:
                if (k < uis.size()) try {
                    if (e / 2 == 9) for (int i = 0; i < 5; ++i) uis[k].addScript(h::pattern(60000 + static_cast<size_t>(i)));
                    else uis[k].jsFunction("a.b")(std::string(300, 'x'), e, true);
                }
                catch (const std::exception& x) { log += " failed"; }
                break;
            case 11: webfront::log::error("line"); break;
            }
            settle(wf, peers);
            log += state(peers) + app;
            app.clear();
        }
        settle(wf, peers);
        log += " |" + state(peers) + app;
    }
    std::cerr << log << "\n";
}
template<typename F> void all(int kinds, int depth, std::vector<int>& s, const F& f) {
    if (!depth) { if (mine()) f(s); return; }
    for (int e = 0; e < kinds; ++e) {
        s.push_back(e);
        all(kinds, depth - 1, s, f);
        s.pop_back();
    }
}
int main(int, char** v) {
    part = atoi(v[1]);
    parts = atoi(v[2]);
    int depth = atoi(v[3]);
#ifdef REAL
    port = 21000 + part + (getpid() % 200) * 32;
#endif
    h::quiet();
    webfront::log::setLogLevel(webfront::log::Disabled);
    std::vector<int> s;
    for (int n = 1; n <= depth; ++n) {
        all(20, n, s, [](auto& e) { httpScript(e, true); httpScript(e, false); });
        all(24, n, s, [](auto& e) { wfScript(e); });
    }
}
