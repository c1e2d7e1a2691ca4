// W02: no byte stream after the upgrade can harm the server.
#include "alloc.hpp"
#include "wf_rig.hpp"
#include "ws_rig.hpp"
using namespace h;

namespace {
constexpr size_t allowance = 1 << 20; // fixed part of what a connection may make the server allocate

struct Budget { // memory used while a stream is processed, against what was really received
    Budget() { alloc::start(); alloc::refuseAbove = 1ull << 33; }
    ~Budget() { alloc::stop(); }
    void check(size_t received) {
        MC_REQUIRE(alloc::largest <= allowance + 16 * received, "allocation", "a single allocation of %zu bytes while only %zu bytes were received", alloc::largest, received);
        MC_REQUIRE(alloc::peak <= 4 * allowance + 32 * received, "allocation", "%zu bytes of memory in use while only %zu bytes were received", alloc::peak, received);
    }
};

// The stream goes to a lone WebSocket, in the given pieces, then the connection ends.
void lone(const std::vector<std::string>& pieces, int ending, bool touch = true) {
    alloc::stop();
    WsRig r;
    Budget budget;
    size_t received = 0;
    volatile unsigned char sink = 0;
    for (auto& p : pieces) {
        r.feed(p);
        received += p.size();
    }
    (void)touch; (void)sink;
    size_t delivered = 0;
    for (auto& m : r.got) delivered += m.payload.size();
    MC_REQUIRE(delivered <= received, "invented-bytes", "%zu bytes delivered, only %zu received", delivered, received);
    if (ending == 1) r.conn->finArrived = true;
    if (ending == 2) r.conn->reset = true;
    r.io.run();
    budget.check(received);
    if (ending) {
        MC_REQUIRE(r.closed == 1, "not-closed", "end of the connection signalled %d times", r.closed);
        MC_REQUIRE(!r.conn->open, "not-closed", "the transport is still open");
    }
    mc::outcome(mc::mix(mc::mix(received, r.got.size()), mc::hash(pieces.empty() ? "" : pieces.front())));
}
std::vector<std::string> split(const std::string& s, int how) {
    if (how == 0) return {s};
    if (how == 1) {
        std::vector<std::string> v;
        for (char c : s) v.emplace_back(1, c);
        return v;
    }
    return cutAt(s, {static_cast<size_t>(how - 1)});
}
std::string be(uint64_t v, int n) {
    std::string s;
    for (int i = n - 1; i >= 0; --i) s += static_cast<char>(v >> (8 * i));
    return s;
}
const std::vector<uint64_t> announced16{0, 1, 125, 126, 127, 200, 8192, 65535};
const std::vector<uint64_t> announced64{0, 1, 125, 126, 65535, 65536, 65537, 1 << 20, (1 << 22) + 1, 16u << 20, 100u << 20, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull,
                                        1ull << 33, 1ull << 40, 1ull << 48, 0x7ffffffffffffffeull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xfffffffffffffff1ull, 0xfffffffffffffff2ull, 0xfffffffffffffff5ull,
                                        0xfffffffffffffff6ull, 0xfffffffffffffffaull, 0xfffffffffffffffeull, 0xffffffffffffffffull};

// The hostile frames used at the level of the whole server
std::vector<std::pair<std::string, std::string>> alphabet() {
    std::vector<std::pair<std::string, std::string>> a;
    auto add = [&](std::string n, std::string b) { a.emplace_back(std::move(n), std::move(b)); };
    auto frame = [](int b0, std::string payload, bool masked = true) { auto f = encodeFrame({true, 1, std::move(payload), masked ? 1 : 0}); f[0] = static_cast<char>(b0); return f; };
    add("text", frame(0x81, "hello"));
    add("empty-text", frame(0x81, ""));
    add("empty-binary", frame(0x82, ""));
    add("unmasked-binary", frame(0x82, "\x03\x01", false));
    add("continuation", frame(0x80, "x"));
    add("first-fragment", frame(0x01, "frag"));
    add("middle-fragment", frame(0x00, "ment"));
    add("first-binary-fragment", frame(0x02, std::string("\0", 1)));
    add("reserved", frame(0x83, "abc"));
    add("reserved-f", frame(0x8f, "abc"));
    add("rsv", frame(0xf1, "abc"));
    add("ping", frame(0x89, "p"));
    add("long-ping", frame(0x89, std::string(300, 'p')));
    add("pong", frame(0x8a, ""));
    add("close", frame(0x88, ""));
    add("close-code", frame(0x88, "\x03\xe8 bye"));
    add("huge", std::string("\x82\xff", 2) + be(0x7fffffffffffffffull, 8) + "keyXdata");
    add("max", std::string("\x82\xff", 2) + be(~0ull, 8) + "keyXdata");
    add("wrap", std::string("\x82\x7f", 2) + be(0xfffffffffffffff6ull, 8) + "data");
    add("gigabyte", std::string("\x81\x7f", 2) + be(1ull << 30, 8));
    add("half-header", std::string("\x82\xfe\x00", 3));
    add("one-byte", "\x82");
    add("http", "GET / HTTP/1.1\r\n\r\n");
    add("handshake", frame(0x82, handshakeMessage()));
    add("short-handshake", frame(0x82, std::string(1, '\0')));
    add("call", frame(0x82, callMessage("f", {num(1)})));
    add("call-unknown", frame(0x82, callMessage("nothing", {})));
    add("call-short", frame(0x82, callMessage("f", {num(1)}).substr(0, 12)));
    add("call-huge", frame(0x82, std::string("\3\1\0\0\xff\xff\xff\xff", 8) + "\4\1f"));
    add("ff", std::string(40, '\xff'));
    add("zero", std::string(40, '\0'));
    return a;
}

// A hostile connection and a well-behaved one. Returns what the good client received.
void together(const std::vector<std::string>& hostile, int ending, bool interleave) {
    alloc::stop();
    WorldScope scope;
    scope.world.spontaneousOrder = interleave;
    MemFS<0>::files = {{"index.html", MemFile("page")}};
    auto received = std::accumulate(hostile.begin(), hostile.end(), size_t(0), [](size_t n, auto& s) { return n + s.size(); });
    WFOn<0> wf("80");
    std::vector<std::string> goodCalls;
    int badCalls = 0;
    int started = 0;
    wf.onUIStarted([&](auto) { ++started; });
    wf.cppFunction<void, std::string, double>("good", [&](std::string s, double d) { goodCalls.push_back(s + mc::fmt("%g", d)); });
    wf.cppFunction<void, double>("f", [&](double) { ++badCalls; });
    Client good, bad;
    auto bs = addScript();
    bs->then("hostile connects", [&] { bad.connect(); });
    for (size_t i = 0; i < hostile.size(); ++i) bs->then(mc::fmt("hostile piece %zu (%zu bytes)", i, hostile[i].size()), [&, i] { deliver(bad.conn, hostile[i]); }, [&] { return bad.upgradedSeen(); });
    if (ending) bs->then(ending == 1 ? "hostile ends" : "hostile resets", [&] { if (ending == 1) bad.conn->finArrived = true; else bad.conn->reset = true; });
    auto gs = addScript();
    gs->then("good connects", [&] { good.connect(); });
    auto ready = [&] { return good.upgradedSeen(); };
    gs->then("good handshake", [&] { good.binary(handshakeMessage()); }, ready);
    gs->then("good text", [&] { good.text("hi"); }, ready);
    gs->then("good call", [&] { good.binary(callMessage("good", {text("s"), num(2.5)})); }, ready);
    gs->then("good unknown call", [&] { good.binary(callMessage("unknown", {})); }, ready);
    {
        Budget budget;
        wf.run();
        budget.check(received + 400);
    }
    MC_REQUIRE(bs->done() && gs->done(), "stuck", "hostile client at step %zu of %zu, good client at step %zu of %zu", bs->at, bs->steps.size(), gs->at, gs->steps.size());
    auto f = good.frames();
    MC_REQUIRE(f.size() == 3, "good-client", "the well-behaved client received %zu frames instead of 3", f.size());
    MC_REQUIRE(f[0].opcode == 2 && f[0].payload == ackMessage(), "good-client", "its handshake was answered by %s", show(f[0].payload).c_str());
    MC_REQUIRE(f[1].opcode == 1 && f[1].payload == textReply, "good-client", "its text was answered by %s", show(f[1].payload).c_str());
    CallMsg c;
    auto err = decodeCall(f[2].payload, c);
    MC_REQUIRE(err.empty() && c.command == 4, "good-client", "its unknown call was answered by %s (%s)", show(f[2].payload).c_str(), err.c_str());
    MC_REQUIRE(goodCalls == std::vector<std::string>{"s2.5"}, "good-client", "its call was executed %zu times", goodCalls.size());
    MC_REQUIRE(good.conn->open && good.conn->reads.size() == 1, "good-client", "it is no longer served");
    // a third client is still accepted
    auto page = newConn();
    connectTo(page);
    deliver(page, "GET /index.html HTTP/1.1\r\n\r\n");
    scope.world.spontaneousOrder = false;
    wf.run();
    auto r = parseResponse(str(page->wire));
    MC_REQUIRE(r.complete && r.status == 200 && r.body == "page", "good-client", "a later request was not served");
    uint64_t o = 0;
    for (auto& p : hostile) o = mc::mix(o, mc::hash(p));
    mc::outcome(mc::mix(mc::mix(o, ending), mc::hash(str(bad.conn->wire))));
}
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. every pair of first header bytes, every class of announced length, truncated or followed by data, whole / byte by byte / one cut
    for (int b0 = 0; b0 < 256; ++b0)
        mc::add(mc::fmt("header/%02x", b0), [=] {
            int b1 = mc::pick(256);
            std::string s{static_cast<char>(b0), static_cast<char>(b1)};
            int len = b1 & 127;
            bool masked = b1 & 128;
            if (len == 126) s += be(mc::pickOf(announced16), 2);
            else if (len == 127) s += be(mc::pickOf(announced64), 8);
            if (masked) s += "\x11\x22\x33\x44";
            auto head = s.size();
            bool ext = len >= 126;
            switch (ext ? mc::pick(4) : mc::pick(3)) {
            case 0: break;                                                      // header only
            case 1: s += std::string(3, 'z') + encodeFrame({true, 1, "next", 1}); break; // some data
            case 2: s += std::string(static_cast<size_t>(ext ? 300 : len), 'd') + encodeFrame({true, 2, "n", 0}) + encodeFrame({false, 1, "f", 1}); break;
            case 3: s.resize(static_cast<size_t>(1 + mc::pick(static_cast<int>(head) - 1))); break; // truncated header
            }
            int ending = mc::pick(2);
            int how = mc::pick(mc::thorough() ? 5 : 2);
            lone(split(s, how), ending);
        });
    // 2. pairs (triples) of hostile frames at the level of the lone WebSocket, with every single cut
    auto a = alphabet();
    for (size_t i = 0; i < a.size(); ++i)
        mc::add("pair/" + a[i].first, [=] {
            auto& second = a[static_cast<size_t>(mc::pick(static_cast<int>(a.size())))];
            auto s = a[i].second + second.second;
            if (mc::thorough()) s += a[static_cast<size_t>(mc::pick(static_cast<int>(a.size())))].second;
            auto limit = static_cast<int>(std::min<size_t>(s.size(), mc::thorough() ? 40 : 60));
            lone(split(s, mc::pick(1 + limit)), 1 + mc::pick(2));
        });
    // 3. fragments which never end, many small frames: memory follows what was received
    for (size_t size : {0, 1, 125, 1000, 70000})
        mc::add(mc::fmt("flood/%zu", size), [=] {
            int op = mc::pick(4);
            std::string s;
            size_t n = size > 1000 ? 20 : 3000;
            for (size_t i = 0; i < n; ++i) s += encodeFrame({op < 2, op == 3 && i ? 0 : 1 + op % 2, std::string(size, 'f'), 1});
            std::vector<std::string> pieces;
            for (size_t i = 0; i < s.size(); i += 8192) pieces.push_back(s.substr(i, 8192));
            lone(pieces, 1);
        });
    // 4. the whole server: one or two hostile frames, however they end, next to a well-behaved client
    for (size_t i = 0; i < a.size(); ++i) {
        mc::add("server/" + a[i].first, [=] {
            auto k = static_cast<size_t>(mc::pick(static_cast<int>(a.size()) + 1));
            std::vector<std::string> h{a[i].second};
            if (k) {
                if (mc::flip()) h[0] += a[k - 1].second;
                else h.push_back(a[k - 1].second);
            }
            together(h, mc::pick(3), false);
        });
        // 5. every order of events with up to 1 (2) deviations from the default schedule
        mc::add("server-schedules/" + a[i].first, [=] {
            auto& s = a[i].second;
            int how = mc::pick(3);
            std::vector<std::string> h = how == 0 ? std::vector{s} : how == 1 ? cutAt(s, {s.size() / 2}) : std::vector{s, std::string("\x81\x01x", 3)};
            together(h, mc::pick(3), true);
        }, t ? 2 : 1);
    }
}
int main(int c, char** v) {
    return mc::run(c, v, declare);
}
