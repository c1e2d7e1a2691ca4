// H03: responses reach the wire complete, well-formed and unmixed.
#include "server_rig.hpp"
using namespace h;

namespace {
std::vector<Ask> asks() {
    return {{"GET", "/a.txt", {}}, {"GET", "/big.bin", {}}, {"GET", "/e.js", {{"Accept-Encoding", "br, gzip"}}}, {"GET", "/e.js", {}}, {"HEAD", "/big.bin", {}}, {"GET", "/missing", {}}, {"GET", "/..", {}},
            {"POST", "/a.txt", {}}, {"GET", "/empty", {}}, {"GET", "/", {{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="}}}, {"HEAD", "/missing", {}}, {"GET", "/page.html", {}}, {"OPTIONS", "*", {}}};
}
void files(size_t big) {
    MemFS<0>::files = {{"a.txt", MemFile("short content")}, {"big.bin", MemFile(pattern(big, 9))}, {"e.js", MemFile(pattern(700, 4), "gzip")}, {"empty", MemFile("")}, {"page.html", MemFile(pattern(513, 5))}};
}
std::string nameOf(const Ask& a) { return a.method + " " + a.target + (a.headers.empty() ? "" : " +"); }

// Connections whose requests are all received before the answers are transferred, under every order of transfers
void inFlight(const std::vector<Ask>& qs, bool endings) {
    Srv<> s;
    s.world().spontaneousOrder = true;
    s.world().partials = {1, 0};
    std::vector<ConnP> cs;
    for (auto& q : qs) {
        auto c = s.open();
        deliver(c, q.text());
        cs.push_back(c);
    }
    if (endings) { // one of the clients goes away in the middle
        auto k = static_cast<size_t>(mc::pick(static_cast<int>(cs.size())));
        auto sc = addScript();
        auto how = mc::pick(2);
        sc->then("client goes away", [=] { if (how) cs[k]->reset = true; else cs[k]->finArrived = true; });
        s.run();
        for (size_t i = 0; i < qs.size(); ++i) {
            auto e = expected(qs[i], MemFS<0>::files);
            if (i != k) checkAnswer(str(cs[i]->wire), e, qs[i].method == "HEAD", nameOf(qs[i]));
            else if (!cs[i]->wire.empty() && !how) checkAnswer(str(cs[i]->wire), e, qs[i].method == "HEAD", nameOf(qs[i]));
        }
    }
    else {
        s.run();
        for (size_t i = 0; i < qs.size(); ++i) checkAnswer(str(cs[i]->wire), expected(qs[i], MemFS<0>::files), qs[i].method == "HEAD", nameOf(qs[i]));
    }
    uint64_t o = 0;
    for (auto& q : qs) o = mc::mix(o, mc::hash(q.text()));
    mc::outcome(mc::mix(o, s.world().steps));
}
} // namespace

void declare() {
    bool t = mc::thorough();
    auto all = asks();
    // 1. each response alone: every chunking with up to 3 (4) partial writes
    for (auto& a : all)
        mc::add("alone/" + nameOf(a), [=] {
            std::vector<size_t> sizes{3000, 0, 1, 511, 512, 513};
            files(mc::pickOf(sizes));
            inFlight({a}, false);
        }, t ? 4 : 3);
    // 1b. bodies around every power of two up to 2^24 (2^26)
    for (int bits = 12; bits <= (t ? 26 : 24); ++bits)
        mc::add(mc::fmt("large/2^%d", bits), [=] {
            files((size_t{1} << bits) + static_cast<size_t>(mc::pick(3)) - 1);
            Ask a{mc::flip() ? "HEAD" : "GET", "/big.bin", {}};
            Srv<> s;
            auto c = s.open();
            deliver(c, a.text());
            s.run();
            checkAnswer(str(c->wire), expected(a, MemFS<0>::files), a.method == "HEAD", "large body");
            MC_REQUIRE(!c->open, "not-closed", "the connection is still open");
            mc::outcome(c->wire.size());
        });
    // 2. every pair in flight at once, every order of the transfers with up to 2 (3) deviations
    for (auto& a : all)
        for (auto& b : all) {
            mc::add("pair/" + nameOf(a) + "/" + nameOf(b), [=] { files(2000); inFlight({a, b}, false); }, t ? 3 : 2);
            mc::add("leaving/" + nameOf(a) + "/" + nameOf(b), [=] { files(2000); inFlight({a, b}, true); }, t ? 2 : 1);
        }
    // 3. three in flight
    for (auto& a : all)
        mc::add("three/" + nameOf(a), [=] {
            files(600);
            auto& b = all[static_cast<size_t>(mc::pick(static_cast<int>(all.size())))];
            auto& c = all[static_cast<size_t>(mc::pick(static_cast<int>(all.size())))];
            inFlight({a, b, c}, false);
        }, t ? 2 : 1);
    // 4. stalled clients: the answers of all others go through while one does not read; then it reads again
    for (auto& a : all)
        mc::add("stalled/" + nameOf(a), [=] {
            files(5000);
            Srv<> s;
            std::vector<ConnP> cs;
            std::vector<Ask> qs{a};
            for (int i = 0; i < 5; ++i) qs.push_back(all[static_cast<size_t>(i * 5 + mc::pick(2)) % all.size()]);
            for (size_t i = 0; i < qs.size(); ++i) {
                auto c = s.open();
                c->stalled = i == 0 || i == 3;
                deliver(c, qs[i].text());
                cs.push_back(c);
                if (mc::flip()) s.run();
            }
            s.run();
            for (size_t i = 0; i < qs.size(); ++i)
                if (cs[i]->stalled) MC_REQUIRE(cs[i]->wire.empty(), "stalled", "bytes sent to a stalled client");
                else checkAnswer(str(cs[i]->wire), expected(qs[i], MemFS<0>::files), qs[i].method == "HEAD", nameOf(qs[i]));
            MemFS<0>::files.clear(); // the answers are already made
            for (auto& c : cs) c->stalled = false;
            s.run();
            files(5000);
            for (size_t i = 0; i < qs.size(); ++i) checkAnswer(str(cs[i]->wire), expected(qs[i], MemFS<0>::files), qs[i].method == "HEAD", nameOf(qs[i]));
            mc::outcome(mc::hash(nameOf(a)));
        });
    // 5. whatever was answered before on other connections
    for (auto& a : all)
        mc::add("after/" + nameOf(a), [=] {
            files(100);
            Srv<> s;
            auto n = mc::thorough() ? 3 : 2;
            uint64_t o = mc::hash(nameOf(a));
            for (int i = 0; i < n; ++i) {
                auto k = static_cast<size_t>(mc::pick(static_cast<int>(all.size())));
                s.ask(all[k].text());
                o = mc::mix(o, k);
            }
            auto w = s.ask(a.text());
            checkAnswer(w, expected(a, MemFS<0>::files), a.method == "HEAD", nameOf(a));
            mc::outcome(o);
        });
    // 6. response objects: any list of headers and content, copied or moved before being written
    mc::add("objects", [] {
        using webfront::http::Response;
        auto make = [](int i) {
            Response r;
            static const Response::StatusCode codes[] = {Response::ok, Response::notFound, Response::switchingProtocols, Response::badRequest, Response::notImplemented, Response::variantAlsoNegotiates};
            r.statusCode = codes[i % 6];
            for (int k = 0; k < i % 4; ++k) r.headers.emplace_back("N" + std::to_string(k), std::string(static_cast<size_t>(k * 11), 'v'));
            r.content = std::string(static_cast<size_t>(i % 3 * 20), 'c');
            return r;
        };
        auto text = [](const Response& r) {
            std::string s = "HTTP/1.1 " + std::to_string(r.statusCode) + " " + std::string(reasonOf(r.statusCode)) + "\r\n";
            for (auto& x : r.headers) s += x.name + ": " + x.value + "\r\n";
            return s + "\r\n" + r.content;
        };
        auto i = mc::pick(12), j = mc::pick(12), how = mc::pick(4);
        auto a = make(i), b = make(j);
        if (how == 1) { auto c = a; std::swap(c, b); }
        if (how == 2) { b = std::move(a); a = make(i); }
        if (how == 3) b = a;
        auto ba = a.toBuffers<Net>(), bb = b.toBuffers<Net>();
        auto joined = [](auto& v) { std::string s; for (auto& x : v) s.append(static_cast<const char*>(x.data()), x.size()); return s; };
        MC_REQUIRE(joined(ba) == text(a), "buffers", "response %d is written as %s", i, show(joined(ba), 200).c_str());
        MC_REQUIRE(joined(bb) == text(b), "buffers", "response %d is written as %s", j, show(joined(bb), 200).c_str());
        mc::step(mc::hash(text(a) + text(b)));
        mc::outcome(mc::hash(text(a) + text(b)));
    });
    // 7. reason phrases
    mc::add("reasons", [] {
        using webfront::http::Response;
        static const std::vector<int> codes{101, 200, 400, 404, 501, 506};
        auto code = mc::pickOf(codes);
        auto r = Response::getStatusResponse(static_cast<Response::StatusCode>(code));
        std::string s;
        auto bs = r.toBuffers<Net>();
        for (auto& x : bs) s.append(static_cast<const char*>(x.data()), x.size());
        auto p = parseResponse(s);
        MC_REQUIRE(!p.malformed && p.status == code && p.reason == reasonOf(code), "reason", "%d is written as %s", code, show(s).c_str());
        mc::step(static_cast<uint64_t>(code));
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
