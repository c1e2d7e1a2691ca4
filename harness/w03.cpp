// W03: WebSocket sends appear on the wire intact and in call order.
#include "ws_rig.hpp"
using namespace h;
using Frame = webfront::websocket::Frame<Net>;

namespace {
const std::vector<size_t> sizes{0, 1, 3, 124, 125, 126, 127, 128, 255, 256, 300, 4096, 8192, 65534, 65535, 65536, 65537, 70000};

struct Sender {
    WsRig& r;
    std::string expected;
    int count = 0;
    // The data lives on the heap and is overwritten then freed as soon as the call returns
    void send(int kind, size_t size, size_t cut = 0) {
        auto data = pattern(size, static_cast<unsigned>(40 + count++));
        auto copy = std::make_unique<char[]>(size ? size : 1);
        std::memcpy(copy.get(), data.data(), size);
        auto b = std::span(reinterpret_cast<const std::byte*>(copy.get()), size);
        auto head = b.first(cut), tail = b.subspan(cut);
        mc::note("send kind %d of %zu bytes", kind, size);
        switch (kind) {
        case 0: r.ws->write(std::string_view(copy.get(), size)); break;
        case 1: r.ws->write(b); break;
        case 2: r.ws->write(head, tail); break;
        case 3: {
            Frame f(head);
            auto part = tail.size() / 2;
            f.addBuffer(tail.first(part));
            f.addBuffer(tail.subspan(part));
            r.ws->write(std::move(f));
        } break;
        case 4: {
            auto f = std::make_unique<Frame>(head);
            f->addBuffer(tail);
            Frame moved(std::move(*f));
            f.reset();
            r.ws->write(std::move(moved));
        } break;
        }
        std::memset(copy.get(), 0xEE, size);
        expected += encodeFrame({true, kind == 0 ? 1 : 2, data, 0});
        prefix("during a send");
    }
    void prefix(const char* when) {
        auto w = str(r.conn->wire);
        if (expected.compare(0, w.size(), w) != 0) {
            size_t i = 0;
            while (i < w.size() && i < expected.size() && w[i] == expected[i]) ++i;
            mc::fail("wire", mc::fmt("%s: the wire differs from the sends at byte %zu: %s instead of %s", when, i, show(std::string_view(w).substr(i), 12).c_str(), show(std::string_view(expected).substr(std::min(i, expected.size())), 12).c_str()));
        }
    }
    void finish() {
        r.io.run();
        prefix("at the end");
        MC_REQUIRE(r.conn->wire.size() == expected.size(), "wire-incomplete", "%zu bytes on the wire, %zu were sent", r.conn->wire.size(), expected.size());
        MC_REQUIRE(r.closed == 0, "closed", "the connection was closed");
        mc::outcome(mc::mix(mc::hash(expected), r.conn->wire.size()));
    }
};
size_t cutFor(int kind, size_t size) {
    if (kind < 2) return 0;
    switch (mc::pick(size > 1 ? 4 : 2)) {
    case 0: return 0;
    case 1: return size;
    case 2: return 1;
    default: return size / 2;
    }
}
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. one send of every kind and size, under every partial write with one (two) deviation
    for (int kind = 0; kind < 5; ++kind)
        for (auto size : sizes)
            mc::add(mc::fmt("one/kind%d/size%zu", kind, size), [=] {
                WsRig r;
                r.scope.world.spontaneousOrder = true;
                r.scope.world.partials = {0, 1, 2, 4};
                r.scope.world.eager = mc::flip();
                Sender s{r};
                s.send(kind, size, cutFor(kind, size));
                s.finish();
            }, t ? 3 : 2);
    // 2. sequences of sends: each is issued at any moment of the transfers of the earlier ones
    std::vector<size_t> few{0, 1, 125, 126, 200, 65535, 65536};
    std::vector<size_t> fewer{2, 130, 65536};
    for (int n = 2; n <= (t ? 4 : 3); ++n)
        for (int k0 = 0; k0 < 5; ++k0)
            for (size_t s0 : n == 2 ? few : fewer)
                mc::add(mc::fmt("sequence%d/kind%d/size%zu", n, k0, s0), [=] {
                    WsRig r;
                    r.scope.world.spontaneousOrder = true;
                    r.scope.world.partials = {0, 1};
                    r.scope.world.eager = n == 2 && mc::flip();
                    Sender s{r};
                    auto script = addScript(true); // default: all sends at once
                    for (int i = 0; i < n; ++i) {
                        auto kind = i ? mc::pick(n == 2 ? 5 : 3) : k0;
                        auto& sz = n == 2 ? few : fewer;
                        auto size = i ? sz[static_cast<size_t>(mc::pick(static_cast<int>(sz.size())))] : s0;
                        script->then("send", [&s, kind, size] { s.send(kind, size, size / 3); });
                    }
                    s.finish();
                }, n == 2 ? 2 : n == 3 && t ? 2 : 1);
    // 3. deep sequences of small sends of the default schedule and around it
    for (int n : {4, 5, 6, 8})
        mc::add(mc::fmt("deep%d", n), [=] {
            WsRig r;
            r.scope.world.spontaneousOrder = true;
            r.scope.world.partials = {1};
            r.scope.world.eager = mc::flip();
            Sender s{r};
            auto script = addScript(mc::flip());
            for (int i = 0; i < n; ++i) script->then("send", [&s, i] { s.send(i % 3, static_cast<size_t>(i * 20 + 1), static_cast<size_t>(i * 5)); });
            s.finish();
        }, t ? 3 : 2);
    // 3b. any number of sends may be pending; sends of any size
    for (size_t n : {20, 70, 300, 1100, 5000, 70000})
        mc::add(mc::fmt("pending/%zu", n), [=] {
            WsRig r;
            r.scope.world.horizon = 1000000;
            Sender s{r};
            auto add = [&](size_t from, size_t to) { for (auto i = from; i < to; ++i) s.send(static_cast<int>(i % 3), i % 7, i % 7 / 2); };
            switch (mc::pick(3)) {
            case 0: add(0, n); break; // all at once
            case 1: add(0, n / 2), r.io.run(), add(n / 2, n); break;
            case 2: { // every completion issues further sends
                auto script = addScript(true);
                for (size_t i = 0; i < 10; ++i) script->then("sends", [&add, i, n] { add(n * i / 10, n * (i + 1) / 10); });
            } break;
            }
            s.finish();
        });
    for (int bits = 17; bits <= (t ? 26 : 24); ++bits)
        for (int kind = 0; kind < 5; ++kind)
            mc::add(mc::fmt("large/2^%d/kind%d", bits, kind), [=] {
                WsRig r;
                Sender s{r};
                auto size = (size_t{1} << bits) + static_cast<size_t>(mc::pick(3)) - 1;
                s.send(1, 3);
                s.send(kind, size, kind >= 2 ? size / 3 : 0);
                s.send(0, 4);
                s.finish();
            });
    // 4. sends made by the message handlers, from the data they are given, while others are in flight
    for (int n = 1; n <= (t ? 5 : 4); ++n)
        mc::add(mc::fmt("echo%d", n), [=] {
            WsRig r;
            r.scope.world.spontaneousOrder = true;
            r.scope.world.partials = {1};
            r.scope.world.eager = mc::flip();
            std::string expected, in;
            auto sz = mc::pickOf(fewer);
            bool twice = mc::flip();
            r.ws->onMessage([&](std::string_view v) {
                r.ws->write(v);
                expected += encodeFrame({true, 1, std::string(v), 0});
                if (twice) r.ws->write(std::string_view("again")), expected += encodeFrame({true, 1, "again", 0});
            });
            r.ws->onMessage([&](std::span<const std::byte> v) {
                r.ws->write(v, v);
                expected += encodeFrame({true, 2, str(v) + str(v), 0});
            });
            auto script = addScript(true);
            bool merged = mc::flip();
            for (int i = 0; i < n; ++i) {
                auto f = encodeFrame({true, 1 + i % 2, pattern(sz + static_cast<size_t>(i), static_cast<unsigned>(i)), 1});
                if (merged) in += f;
                else script->then("message", [&r, f] { deliver(r.conn, f); });
            }
            if (merged) script->then("messages", [&r, in] { deliver(r.conn, in); });
            r.io.run();
            MC_REQUIRE(str(r.conn->wire) == expected, "wire", "%zu bytes on the wire, %zu expected, or they differ", r.conn->wire.size(), expected.size());
            mc::outcome(mc::mix(mc::hash(expected), static_cast<uint64_t>(n)));
        }, 2);
    // 5. a transfer which fails leaves a prefix, never anything else
    for (long at = 0; at <= (t ? 400 : 160); ++at)
        mc::add(mc::fmt("fail-at/%ld", at), [=] {
            WsRig r;
            r.scope.world.spontaneousOrder = true;
            r.conn->failWriteAfter = at;
            Sender s{r};
            auto script = addScript(true);
            for (int i = 0; i < 3; ++i) script->then("send", [&s, i] { s.send(i, static_cast<size_t>(60 * i + 10), 4); });
            r.io.run();
            s.prefix("after the failure");
            MC_REQUIRE(r.closed == (static_cast<size_t>(at) < s.expected.size() ? 1 : r.closed), "not-closed", "failed write not noticed");
            MC_REQUIRE(static_cast<size_t>(at) < s.expected.size() || r.conn->wire.size() == s.expected.size(), "wire-incomplete", "not everything was sent");
            mc::outcome(mc::mix(mc::hash(str(r.conn->wire)), static_cast<uint64_t>(at)));
        }, 2);
}
int main(int c, char** v) { return mc::run(c, v, declare); }
