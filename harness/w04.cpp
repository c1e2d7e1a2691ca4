// W04: closing is signalled once and nothing happens afterwards.
#include "ws_rig.hpp"
using namespace h;

namespace {
struct Rig {
    WorldScope scope;
    std::experimental::net::io_context io;
    ConnP conn = newConn();
    std::unique_ptr<WS> ws;
    int closed = 0, messages = 0, afterEnd = 0;
    size_t delivered = 0;
    bool stopped = false, ended = false; // by the application / the close notification or the stop happened
    bool destroyInClose = false, stopInMessage = false, stopInClose = false, sendInClose = false, sendInMessage = false, destroyed = false, startInMessage = false;
    uint64_t readsAtEnd = 0;
    size_t wireAtEnd = 0;
    bool expectOnce = false;
    Rig() {
        ws = std::make_unique<WS>(Net::Socket(io.impl, conn));
        ws->onMessage([this](std::string_view t) { message(t.size()); });
        ws->onMessage([this](std::span<const std::byte> t) { message(t.size()); });
        ws->onClose([this](webfront::websocket::CloseEvent) {
            mc::note("application: closed");
            ++closed;
            MC_REQUIRE(closed == 1, "closed-twice", "the close handler ran %d times", closed);
            end();
            if (sendInClose && ws) ws->write(std::string_view("too late"));
            if (stopInClose && ws) ws->stop();
            if (destroyInClose) { ws.reset(); destroyed = true; }
        });
    }
    void end() {
        if (ended) return;
        ended = true;
        readsAtEnd = conn->readsIssued;
        wireAtEnd = conn->wire.size();
    }
    void message(size_t n) {
        mc::note("application: message of %zu", n);
        if (ended) ++afterEnd;
        MC_REQUIRE(!ended, "message-after-end", "a message was delivered after the end of the connection");
        ++messages;
        delivered += n;
        if (startInMessage && ws) ws->start();
        if (sendInMessage && ws) ws->write(std::string_view("reply"));
        if (stopInMessage && ws) stop();
    }
    void stop() {
        if (!ws) return;
        mc::note("application: stop");
        stopped = true;
        end();
        ws->stop();
    }
    void idleCheck() { // nothing is in progress
        MC_REQUIRE(conn->maxReads <= 1, "several-reads", "%d receives were outstanding at once", conn->maxReads);
        if (ended) {
            MC_REQUIRE(!conn->open, "not-closed", "the connection ended but the transport is still open");
            MC_REQUIRE(conn->reads.empty(), "read-after-end", "a receive is still outstanding");
            MC_REQUIRE(conn->readsIssued == readsAtEnd, "read-after-end", "%llu receives issued after the end", (unsigned long long)(conn->readsIssued - readsAtEnd));
            MC_REQUIRE(conn->wire.size() == wireAtEnd, "write-after-end", "bytes sent after the end");
            MC_REQUIRE(conn->readsAfterClose == 0, "read-after-end", "a receive was issued on the closed transport");
        }
        else {
            MC_REQUIRE(conn->open, "closed-silently", "the transport is closed but the application was not told");
            MC_REQUIRE(conn->reads.size() == 1, "no-read", "%zu receives outstanding on an idle live connection", conn->reads.size());
        }
    }
};
enum Ev { text, binary, twoInOne, half, ping, fragment, closeFrame, closeThenText, fin, reset, failWrites, send, bigSend, stop, start, endOfEvents };
const char* names[] = {"text", "binary", "two messages", "half a message", "ping", "fragment", "close frame", "close frame then text", "end of stream", "reset", "writes fail", "send", "big send", "stop", "start"};

void apply(Rig& r, int e) {
    auto f = [](const WsFrame& w) { return encodeFrame(w); };
    switch (e) {
    case text: deliver(r.conn, f({true, 1, "abc", 1})); break;
    case binary: deliver(r.conn, f({true, 2, "abcd", 0})); break;
    case twoInOne: deliver(r.conn, f({true, 1, "x", 1}) + f({true, 2, "yz", 2})); break;
    case half: deliver(r.conn, f({true, 1, std::string(200, 'h'), 1}).substr(0, 50)); break;
    case ping: deliver(r.conn, f({true, 9, "p", 1})); break;
    case fragment: deliver(r.conn, f({false, 1, "fr", 1})); break;
    case closeFrame: deliver(r.conn, f({true, 8, "", 1})); break;
    case closeThenText: deliver(r.conn, f({true, 1, "1", 1}) + f({true, 8, std::string("\x03\xe8", 2), 1}) + f({true, 1, "2", 1})); break;
    case fin: r.conn->finArrived = true; break;
    case reset: r.conn->reset = true; break;
    case failWrites: r.conn->failWrites = true; break;
    case send: if (r.ws) r.ws->write(std::string_view("payload")); break;
    case bigSend: if (r.ws) r.ws->write(std::string_view(std::string(70000, 'b'))); break;
    case stop: r.stop(); break;
    case start: if (r.ws && !r.ended) r.ws->start(); break;
    }
}
bool ends(int e) { return e == closeFrame || e == closeThenText || e == fin || e == reset || e == stop; }

void history(int first, int second, int depth, int variants) {
    std::vector<int> ev{first, second};
    while (static_cast<int>(ev.size()) < depth) {
        auto k = mc::pick(endOfEvents + 1);
        if (k == endOfEvents) break;
        ev.push_back(k);
    }
    bool sawHalf = false, sawEnd = false, sawFail = false, sawSend = false;
    int endings = 0;
    for (auto e : ev) {
        if (e == half || e == fragment) sawHalf = true;
        if (ends(e)) sawEnd = true, ++endings;
        if (e == failWrites) sawFail = true;
        if ((e == send || e == bigSend) && sawFail) sawSend = true;
    }
    (void)endings;
    Rig r;
    if (variants == 9) r.scope.world.eager = mc::flip();
    auto v = variants ? mc::pick(variants) : 0;
    // what the application does in its handlers
    r.destroyInClose = v & 1;
    r.sendInMessage = v & 2;
    r.stopInMessage = v == 4 || v == 5;
    r.sendInClose = v == 6;
    r.stopInClose = v == 6 || v == 7;
    r.startInMessage = v == 8;
    auto s = addScript();
    for (auto e : ev) s->then(names[e], [&r, e] { apply(r, e); });
    r.io.run();
    MC_REQUIRE(s->done(), "stuck", "the events did not all happen");
    r.idleCheck();
    bool byPeer = false;
    for (auto e : ev) byPeer |= e == fin || e == reset || (!sawHalf && (e == closeFrame || e == closeThenText));
    if (r.stopped) MC_REQUIRE(r.closed <= 1, "closed-twice", "closed %d times", r.closed);
    else if (byPeer || (sawFail && sawSend && !sawEnd)) MC_REQUIRE(r.closed == 1, "close-lost", "the connection ended and the close handler ran %d times", r.closed);
    else if (!sawEnd && !sawFail) MC_REQUIRE(r.closed == 0, "spurious-close", "the close handler ran although nothing ended the connection");
    // a late event changes nothing
    auto m = r.messages;
    bool over = r.ended;
    if (over) {
        apply(r, text);
        apply(r, send);
        if (r.ws && mc::flip()) r.ws->stop();
        r.conn->finArrived = true;
        r.io.run();
        r.idleCheck();
        MC_REQUIRE(r.messages == m && r.closed <= 1, "after-end", "events after the end reached the application");
    }
    // destruction with whatever is pending
    r.ws.reset();
    r.io.run();
    MC_REQUIRE(!r.conn->open && r.conn->reads.empty() && r.conn->writes.empty(), "not-released", "operations survive the WebSocket");
    MC_REQUIRE(r.closed <= 1, "closed-twice", "closed %d times", r.closed);
    uint64_t o = static_cast<uint64_t>(r.closed * 16 + r.messages);
    for (auto e : ev) o = mc::mix(o, static_cast<uint64_t>(e));
    mc::outcome(mc::mix(o, static_cast<uint64_t>(v)));
}
} // namespace

void declare() {
    bool t = mc::thorough();
    for (int a = 0; a < endOfEvents; ++a)
        for (int b = 0; b < endOfEvents; ++b) {
            // every history of up to 4 (5) events in the default order, with every behaviour of the handlers
            mc::add(mc::fmt("history/%s/%s", names[a], names[b]), [=] { history(a, b, mc::thorough() ? 5 : 4, 9); }, 0);
            // every history of up to 3 events, every interleaving with the transport within 2 (3) deviations
            mc::add(mc::fmt("interleaved/%s/%s", names[a], names[b]), [=] { history(a, b, 3, mc::thorough() ? 9 : 4); }, t ? 3 : 2);
        }
    // the connection ends while being destroyed by its owner at any point of the schedule
    for (int a = 0; a < endOfEvents; ++a)
        mc::add(mc::fmt("destroyed/%s", names[a]), [=] {
            auto b = mc::pick(endOfEvents);
            Rig r;
            auto s = addScript();
            s->then(names[a], [&] { apply(r, a); });
            s->then(names[b], [&] { apply(r, b); });
            auto d = addScript(mc::flip());
            d->then("owner destroys the WebSocket", [&] { r.ws.reset(); });
            r.io.run();
            MC_REQUIRE(!r.conn->open && r.conn->reads.empty(), "not-released", "operations survive the WebSocket");
            MC_REQUIRE(r.closed <= 1, "closed-twice", "closed %d times", r.closed);
            mc::outcome(static_cast<uint64_t>(a * 100 + b * 4 + r.closed));
        }, 4);
    // end of stream or reset after every prefix of a conversation
    mc::add("every-prefix", [] {
        std::string s = encodeFrame({true, 1, "abc", 1}) + encodeFrame({false, 2, "d", 2}) + encodeFrame({true, 9, "", 1}) + encodeFrame({true, 0, std::string(130, 'e'), 1}) + encodeFrame({true, 2, "", 0});
        auto n = static_cast<size_t>(mc::pick(static_cast<int>(s.size()) + 1));
        int how = mc::pick(3);
        Rig r;
        r.scope.world.spontaneousOrder = false;
        auto sc = addScript();
        if (mc::flip()) sc->then("prefix", [&] { deliver(r.conn, s.substr(0, n)); });
        else for (size_t i = 0; i < n; ++i) sc->then("byte", [&, i] { deliver(r.conn, s.substr(i, 1)); });
        sc->then("end", [&] { if (how == 0) r.conn->finArrived = true; if (how == 1) r.conn->reset = true; if (how == 2) r.conn->failWrites = true, r.ws->write(std::string_view("x")); });
        r.io.run();
        r.idleCheck();
        MC_REQUIRE(r.closed == 1, "close-lost", "close handler ran %d times", r.closed);
        mc::outcome(n * 8 + static_cast<size_t>(how));
    });
    // no close handler installed: nothing breaks
    mc::add("no-handler", [] {
        WorldScope scope;
        std::experimental::net::io_context io;
        auto conn = newConn();
        WS ws{Net::Socket(io.impl, conn)};
        auto e = mc::pick(4);
        auto s = addScript();
        s->then("end", [&] {
            if (e == 0) conn->finArrived = true;
            if (e == 1) conn->reset = true;
            if (e == 2) deliver(conn, encodeFrame({true, 8, "", 1}));
            if (e == 3) conn->failWrites = true, ws.write(std::string_view("x"));
        });
        io.run();
        MC_REQUIRE(!conn->open, "not-closed", "transport left open");
        MC_REQUIRE(conn->maxReads <= 1 && conn->reads.empty(), "several-reads", "receives outstanding");
        mc::outcome(static_cast<uint64_t>(e));
    }, 3);
}
int main(int c, char** v) { return mc::run(c, v, declare); }
