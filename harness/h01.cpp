// H01: request parsing is independent of segmentation and of other connections.
#include "server_rig.hpp"
using namespace h;

namespace {
struct Req {
    std::string name, bytes, trailing; // trailing: bytes after the end of the head, which change nothing
    size_t answerAt;                   // number of bytes after which the answer has to start
};
std::vector<Req> requests() {
    std::vector<Req> v;
    auto add = [&](std::string n, std::string b, std::string t = {}, size_t at = 0) { v.push_back({std::move(n), b, std::move(t), at ? at : b.size()}); };
    add("get", "GET /a.txt HTTP/1.1\r\n\r\n");
    add("headers", "GET /b.js HTTP/1.1\r\nHost: h\r\nAccept-Encoding: gzip\r\nX: \r\n\r\n");
    add("encoded", "GET /e.js HTTP/1.1\r\nAccept-Encoding: gzip, br\r\n\r\n");
    add("refused", "GET /e.js HTTP/1.1\r\nAccept-Encoding:\r\n\r\n", {}, 37);
    add("not-accepted", "GET /e.js HTTP/1.1\r\nAccept: gzip\r\n\r\n");
    add("continuation", "GET /e.js HTTP/1.0\r\nAccept-Encoding: br\r\n , gzip\r\n\t x\r\n\r\n");
    add("head", "HEAD /b.js HTTP/1.1\r\nA: b\r\n\r\n");
    add("post", "POST /a.txt HTTP/1.1\r\nContent-Length: 3\r\n\r\n", "a=b");
    add("missing", "GET /nothing HTTP/1.1\r\n\r\n");
    add("bad-target", "GET /%2e%2e/a.txt HTTP/1.1\r\n\r\n");
    add("relative-target", "GET a.txt HTTP/1.1\r\n\r\n");
    add("upgrade", upgradeRequest());
    add("upgrade-other-key", "GET /x HTTP/1.1\r\nUPGRADE: WebSocket\r\nconnection: keep-alive, Upgrade\r\nSec-WebSocket-Key: AAAA\r\n\r\n");
    add("pipelined", "GET /a.txt HTTP/1.1\r\n\r\n", "GET /b.js HTTP/1.1\r\n\r\n");
    add("bad-method", "G(T / HTTP/1.1\r\n\r\n", {}, 2);
    add("bad-version", "GET / HTTQ/1.1\r\n\r\n", {}, 10);
    add("bad-newline", "GET / HTTP/1.1\n\r\n", {}, 15);
    add("bad-header", "GET / HTTP/1.1\r\nA b: c\r\n\r\n", {}, 18);
    add("percent", "GET /%61%2etxt HTTP/1.1\r\n\r\n");
    return v;
}
void files() {
    MemFS<0>::files = {{"a.txt", MemFile("content of a")}, {"b.js", MemFile(pattern(1000, 3))}, {"e.js", MemFile(pattern(77, 4), "gzip")}, {"index.html", MemFile("index")}};
}
// the answer to the request alone on a new server, whole
std::string alone(const Req& r) {
    Srv<> s;
    return s.ask(r.bytes);
}
std::string& cachedAlone(const Req& r) {
    static std::map<std::string, std::string> c;
    auto it = c.find(r.name);
    if (it == c.end()) {
        auto previous = sim::current();
        auto a = alone(r);
        sim::current() = previous;
        it = c.emplace(r.name, a).first;
    }
    return it->second;
}
void checkProgress(const ConnP& c, const Req& r, size_t received, const std::string& how) {
    if (received < r.answerAt) MC_REQUIRE(c->wire.empty(), "early-answer", "%s (%s): answer started after %zu of %zu bytes", r.name.c_str(), how.c_str(), received, r.answerAt);
    else {
        auto& a = cachedAlone(r);
        MC_REQUIRE(str(c->wire) == a, "answer-differs", "%s (%s), %zu bytes received: answer %s instead of %s", r.name.c_str(), how.c_str(), received, show(str(c->wire)).c_str(), show(a).c_str());
    }
}
void sendPieces(Srv<>& s, const Req& r, const std::vector<std::string>& pieces, const std::string& how) {
    auto c = s.open();
    size_t received = 0;
    s.run();
    for (auto& p : pieces) {
        deliver(c, p);
        received += p.size();
        s.run();
        checkProgress(c, r, received, how);
        if (!c->open) break;
    }
    mc::note("%s %s -> %s", r.name.c_str(), how.c_str(), show(str(c->wire), 20).c_str());
}
std::vector<std::string> bytewise(const std::string& s) {
    std::vector<std::string> v;
    for (char c : s) v.emplace_back(1, c);
    return v;
}
std::string pad(size_t total) { // a valid request of the given size
    std::string s = "GET /a.txt HTTP/1.1\r\n";
    size_t i = 0;
    while (s.size() + 2 + 60 < total) s += mc::fmt("H%zu: ", i++) + std::string(40, 'v') + "\r\n";
    auto rest = total - s.size() - 2;
    s += "P: " + std::string(rest - 5, 'p') + "\r\n\r\n";
    return s;
}
} // namespace

void declare() {
    bool t = mc::thorough();
    files();
    auto all = requests();
    for (auto& r : all) {
        // 1. every segmentation with up to 2 (3) cuts, and byte by byte
        mc::add("cuts/" + r.name, [=] {
            files();
            auto full = r.bytes + r.trailing;
            Srv<> s;
            if (mc::flip()) return sendPieces(s, r, bytewise(full), "byte by byte");
            std::vector<size_t> cuts;
            size_t from = 0;
            for (int i = 0; i < (mc::thorough() ? 3 : 2) && from < full.size(); ++i) {
                auto k = static_cast<size_t>(mc::pick(static_cast<int>(full.size() - from)));
                if (!k) break;
                cuts.push_back(from += k);
            }
            auto pieces = cutAt(full, cuts);
            std::string how;
            for (auto& p : pieces) how += std::to_string(p.size()) + " ";
            sendPieces(s, r, pieces, how);
            mc::outcome(mc::mix(mc::hash(r.name), mc::hash(how)));
        });
        // 2. the same with the transport events in every order within 1 (2) deviations, reads merging segments or not
        mc::add("schedules/" + r.name, [=] {
            files();
            cachedAlone(r);
            Srv<> s;
            s.world().spontaneousOrder = true;
            auto full = r.bytes + r.trailing;
            auto cut = static_cast<size_t>(mc::pick(static_cast<int>(full.size())));
            auto c = s.open();
            auto sc = addScript();
            for (auto& p : cutAt(full, {cut})) sc->then("piece", [=] { deliver(c, p); });
            s.run();
            checkProgress(c, r, full.size(), "any order");
            mc::outcome(mc::mix(mc::hash(r.name), cut));
        }, t ? 2 : 1);
        // 3. after every other request, complete or abandoned at any byte, on an earlier connection
        mc::add("history/" + r.name, [=] {
            files();
            Srv<> s;
            auto& before = all[static_cast<size_t>(mc::pick(static_cast<int>(all.size())))];
            auto n = 1 + static_cast<size_t>(mc::pick(static_cast<int>(before.bytes.size())));
            auto c = s.open();
            deliver(c, before.bytes.substr(0, n));
            auto end = mc::pick(3);
            if (end == 1) c->finArrived = true;
            if (end == 2) { s.run(); c->reset = true; }
            s.run();
            auto cut = r.bytes.size() / 2;
            sendPieces(s, r, cutAt(r.bytes, {cut}), "after " + before.name);
            mc::outcome(mc::mix(mc::mix(mc::hash(r.name), mc::hash(before.name)), n));
        });
        // 4. two connections: each pair of requests, all cut into 3 pieces at chosen places, all interleavings of the pieces
        for (auto& q : all)
            mc::add("interleaved/" + r.name + "/" + q.name, [=] {
                files();
                Srv<> s;
                auto a = cutAt(r.bytes, {static_cast<size_t>(2 + mc::pick(mc::thorough() ? 3 : 1)), r.bytes.size() - 1 - static_cast<size_t>(mc::pick(mc::thorough() ? 3 : 1))});
                auto b = cutAt(q.bytes, {static_cast<size_t>(1 + 4 * mc::pick(3)), q.bytes.size() / 2 + 1, q.bytes.size() - 2});
                auto ca = s.open(), cb = s.open();
                size_t i = 0, j = 0, ra = 0, rb = 0;
                std::string how;
                while (i < a.size() || j < b.size()) {
                    bool takeA = i < a.size() && (j == b.size() || !mc::flip());
                    how += takeA ? 'a' : 'b';
                    if (takeA) { deliver(ca, a[i]); ra += a[i++].size(); }
                    else { deliver(cb, b[j]); rb += b[j++].size(); }
                    s.run();
                    checkProgress(ca, r, ra, how);
                    checkProgress(cb, q, rb, how);
                }
                mc::outcome(mc::mix(mc::mix(mc::hash(r.name), mc::hash(q.name)), mc::hash(how)));
            });
    }
    // 5. three connections, all interleavings of 2 pieces each, then all schedules with 1 deviation
    for (size_t i = 0; i < all.size(); ++i)
        mc::add("three/" + all[i].name, [=] {
            files();
            for (auto& r : all) cachedAlone(r);
            Srv<> s;
            std::vector<const Req*> rs{&all[i], &all[(i + 1 + static_cast<size_t>(mc::pick(mc::thorough() ? 4 : 1))) % all.size()], &all[(i * 7 + 5) % all.size()]};
            std::vector<ConnP> cs;
            std::vector<ScriptP> scripts;
            s.world().spontaneousOrder = true;
            for (auto r : rs) {
                auto c = s.open();
                cs.push_back(c);
                auto sc = addScript();
                for (auto& p : cutAt(r->bytes, {r->bytes.size() / 3, r->bytes.size() - 1})) sc->then("piece for c" + std::to_string(c->id), [=] { deliver(c, p); });
            }
            s.run();
            for (size_t k = 0; k < 3; ++k) checkProgress(cs[k], *rs[k], rs[k]->bytes.size(), "three at once");
            mc::outcome(mc::mix(i, s.world().steps));
        }, t ? 3 : 2);
    // 6. heads around the size of the reception buffer
    for (size_t size : {8190, 8191, 8192, 8193, 8194, 16384, 16385, 30000, 65535, 65536, 70000})
        mc::add(mc::fmt("long/%zu", size), [=] {
            files();
            Req r{"long", pad(size), "", size};
            if (r.bytes.size() != size) mc::fail("harness", "padding");
            Srv<> s;
            std::vector<size_t> chunk{100000, 8192, 8191, 4096, 1000, 97, 1};
            auto n = mc::pickOf(chunk);
            std::vector<std::string> p;
            for (size_t i = 0; i < size; i += n) p.push_back(r.bytes.substr(i, n));
            Req same{"get", r.bytes, "", size}; // same answer as the short request for the same file
            auto c = s.open();
            size_t received = 0;
            (void)cachedAlone(requests()[0]);
            for (auto& x : p) {
                deliver(c, x);
                received += x.size();
                s.run();
                checkProgress(c, same, received, mc::fmt("chunks of %zu", n));
            }
            mc::outcome(mc::mix(size, n));
        });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
