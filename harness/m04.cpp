// M04: session start-up, scripts and log lines.
#include "client_js.hpp"
using namespace h;

namespace {
using WF = WFOn<4>;
struct Item {
    enum Kind { script, log, call, reply } kind;
    std::string text;
    bool operator==(const Item&) const = default;
};
std::string utf8(size_t n) { // n bytes of valid UTF-8 of all widths
    static const std::string unit = "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80'\"<\\\n";
    std::string s;
    while (s.size() + unit.size() <= n) s += unit;
    while (s.size() < n) s += static_cast<char>('a' + s.size() % 26);
    return s;
}
// bytes of the prefix the library gives to an error line
size_t prefixSize() {
    static const size_t n = [] {
        size_t size = 0;
        clearSinks();
        webfront::log::setLogLevel(webfront::log::Error);
        addSink([&](std::string_view t) { size = t.size(); });
        webfront::log::error("");
        clearSinks();
        webfront::log::setLogLevel(webfront::log::Disabled);
        return size;
    }();
    return n;
}
const std::vector<size_t>& lengths() {
    static const std::vector<size_t> v = [] {
        std::vector<size_t> r{0, 1, 2, 3, 7};
        for (size_t edge : {121, 122, 125, 126, 127, 128, 252, 255, 256, 257, 508, 512, 1024, 4096, 8188, 8192, 16384, 32767, 32768, 65279, 65280, 65281, 65531, 65532, 65535})
            for (size_t d : {-1, 0, 1}) if (edge + d <= 65535) r.push_back(edge + d);
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }();
    return v;
}
struct Session {
    WorldScope scope;
    std::unique_ptr<WF> wf;
    Client client;
    std::vector<Item> expected;                   // what the application and the library produced, in order
    std::vector<WF::UI> uis;
    struct Start { size_t before, after; };       // items produced when the handshake was sent, when its handler ran
    std::vector<Start> starts;
    size_t handshakes = 0;
    std::function<void(WF::UI)> onStarted;
    bool handler = true;
    explicit Session(webfront::log::LogType level = webfront::log::Disabled, bool withHandler = true) : handler(withHandler) {
        quiet();
        prefixSize();
        MemFS<4>::files.clear();
        scope.world.spontaneousOrder = false;
        addSink([this](std::string_view t) { expected.push_back({Item::log, std::string(t)}); });
        webfront::log::setLogLevel(level);
        wf = std::make_unique<WF>("80");
        if (handler) wf->onUIStarted([this](WF::UI ui) {
            starts.push_back({sentBefore, expected.size()});
            uis.push_back(ui);
            if (onStarted) onStarted(ui);
        });
        wf->cppFunction<void, std::string>("echo", [this](std::string s) {
            line(s.size());
            if (!uis.empty()) script(uis.back(), s);
        });
        client.connect();
        wf->run();
    }
    ~Session() { // the sinks refer to this session
        wf.reset();
        clearSinks();
        webfront::log::setLogLevel(webfront::log::Disabled);
    }
    size_t sentBefore = 0;
    void handshake(int endian) {
        ++handshakes;
        sentBefore = expected.size();
        client.binary(handshakeMessage(endian));
    }
    void script(const WF::UI& ui, const std::string& t) {
        expected.push_back({Item::script, t});
        auto copy = std::make_unique<std::string>(t);
        ui.addScript(*copy);
        copy->assign(copy->size(), '#');
    }
    // an error line of n bytes in all, if possible
    void line(size_t n) {
        auto copy = std::make_unique<std::string>(utf8(n > prefixSize() ? n - prefixSize() : n));
        webfront::log::error("{}", *copy);
        copy->assign(copy->size(), '#');
    }
    void call(const WF::UI& ui, int n) {
        auto f = ui.jsFunction("fn");
        f(n); // may log before it is sent
        expected.push_back({Item::call, std::to_string(n)});
    }
    // compares what the client received with what was produced
    void check(bool dump = true) {
        auto frames = client.frames();
        std::vector<Item> got;
        std::vector<size_t> acks; // items received before each acknowledgement
        for (auto& f : frames) {
            if (f.opcode == 1) { got.push_back({Item::reply, f.payload}); continue; }
            if (f.payload == ackMessage()) { acks.push_back(got.size()); continue; }
            MC_REQUIRE(!f.payload.empty(), "bad-message", "the client receives an empty message");
            if (f.payload[0] == 2) {
                TextMsg t;
                auto why = decodeTextCommand(f.payload, t);
                MC_REQUIRE(why.empty(), "bad-text-command", "text command of %zu bytes: %s", f.payload.size(), why.c_str());
                MC_REQUIRE(t.opcode <= 1, "bad-text-command", "text command with opcode %d", t.opcode);
                got.push_back({t.opcode ? Item::script : Item::log, t.text});
                if (dump) { if (t.opcode) dumpScript(f.payload, t.text); else if (static int logs = 0; ++logs < 400) dumpLog(f.payload, t.text); } // each log line is different: it holds the time
                continue;
            }
            CallMsg m;
            auto why = decodeCall(f.payload, m);
            MC_REQUIRE(why.empty() && m.command == 3 && m.values.size() == 2, "bad-message", "the client receives %s", show(f.payload).c_str());
            got.push_back({Item::call, std::to_string(static_cast<int>(m.values[1].d))});
        }
        MC_REQUIRE(acks.size() == handshakes, "acks", "%zu handshakes, %zu acknowledgements", handshakes, acks.size());
        if (handler) MC_REQUIRE(starts.size() == handshakes, "starts", "%zu handshakes, the application was told %zu times", handshakes, starts.size());
        if (!handshakes) {
            for (auto& i : got) MC_REQUIRE(i.kind == Item::reply, "not-linked", "the client receives a %s before any handshake", i.kind == Item::log ? "log line" : "script");
            return;
        }
        // texts replied to text messages are out of the comparison, but must not have been invented
        size_t replies = 0;
        for (auto& i : got) if (i.kind == Item::reply) ++replies;
        MC_REQUIRE(replies == texts, "replies", "%zu text messages, %zu replies", texts, replies);
        std::vector<size_t> ackAt;
        for (auto a : acks) { size_t n = 0; for (size_t i = 0; i < a; ++i) n += got[i].kind != Item::reply; ackAt.push_back(n); }
        std::erase_if(got, [](auto& i) { return i.kind == Item::reply; });
        // lines logged before the link are not mirrored: what is received is the end of what was produced
        MC_REQUIRE(got.size() <= expected.size(), "extra", "%zu texts and calls produced, %zu received", expected.size(), got.size());
        auto k = expected.size() - got.size();
        for (size_t i = 0; i < got.size(); ++i)
            if (!(got[i] == expected[k + i])) {
                auto& e = expected[k + i];
                mc::fail("wrong-text", mc::fmt("item %zu of %zu: received kind %d '%s' (%zu bytes) instead of kind %d '%s' (%zu bytes)", i, got.size(), got[i].kind, show(got[i].text, 60).c_str(), got[i].text.size(), e.kind, show(e.text, 60).c_str(), e.text.size()));
            }
        if (!handler) return;
        MC_REQUIRE(k >= starts[0].before, "early", "the client receives what was produced before its handshake");
        MC_REQUIRE(k <= starts[0].after, "missing", "%zu texts and calls produced since the session is linked are not received", k - starts[0].after);
        for (size_t i = 0; i < acks.size(); ++i) {
            MC_REQUIRE(ackAt[i] + k <= starts[i].after, "late-ack", "acknowledgement %zu comes after what the application sent when told that the UI started", i);
            if (i) MC_REQUIRE(ackAt[i] + k >= starts[i].before, "early-ack", "acknowledgement %zu comes before its handshake", i);
        }
    }
    size_t texts = 0;
};
} // namespace

void declare() {
    bool t = mc::thorough();
    using namespace webfront::log;
    addClientFileScenario();
    // 1. every length of script and of log line, outside and inside the start handler, with one more after it
    for (size_t part = 0; part < 8; ++part)
        mc::add(mc::fmt("lengths/%zu", part), [part] {
            auto i = part;
            std::vector<size_t> mine;
            for (; i < lengths().size(); i += 8) mine.push_back(lengths()[i]);
            auto n = mc::pickOf(mine);
            auto what = mc::pick(4);
            Session s(Error);
            auto doIt = [&](const WF::UI& ui) {
                if (what & 1) s.line(n); else s.script(ui, utf8(n));
                if (what & 1) s.script(ui, "after"); else s.line(30);
            };
            if (what & 2) s.onStarted = doIt;
            s.handshake(0);
            s.wf->run();
            if (!(what & 2)) doIt(s.uis.at(0));
            s.wf->run();
            s.check();
            MC_REQUIRE(s.expected.size() == 2, "harness", "unexpected count %zu", s.expected.size());
            mc::outcome(mc::mix(n, static_cast<uint64_t>(what)));
        });
    // 2. every length below 600, many on a session
    mc::add("every-length", [] {
        auto what = mc::pick(2);
        Session s(Error);
        s.handshake(0);
        s.wf->run();
        for (size_t n = 0; n < 600; ++n) {
            if (what) s.line(n); else s.script(s.uis.at(0), utf8(n));
            if (n % 5 == 0) s.wf->run();
        }
        s.wf->run();
        s.check();
        mc::outcome(static_cast<uint64_t>(what));
    });
    // every byte value: bytes are transmitted as they are
    mc::add("every-byte", [] {
        Session s(Error);
        s.handshake(0);
        s.wf->run();
        for (int b = 0; b < 256; ++b) s.script(s.uis.at(0), std::string("x") + static_cast<char>(b) + "y");
        s.script(s.uis.at(0), std::string("a\0b\0\0", 5));
        s.wf->run();
        s.check(false);
        mc::outcome(1);
    });
    // 3. all handshakes: every endianness byte, with and without a handler
    mc::add("handshakes", [] {
        Session s(Disabled, mc::flip());
        auto n = mc::pick(4);
        for (int i = 0; i < n; ++i) s.handshake(mc::pick(3));
        s.wf->run();
        s.check();
        mc::outcome(static_cast<uint64_t>(n));
    });
    // 4. all sequences of events at each level
    for (int level = 1; level <= 4; ++level)
        for (int handler = 0; handler < 3; ++handler)
            for (int firstKind = 0; firstKind < 8; ++firstKind)
                mc::add(mc::fmt("sequence/%d/%d/%d", level, handler, firstKind), [=] {
                    auto body = [&](Session& s) {
                        if (handler == 1) s.onStarted = [&](WF::UI ui) { s.script(ui, "started"); s.line(40); s.call(ui, 3); };
                        if (handler == 2) s.onStarted = [&](WF::UI ui) { s.line(300); if (s.starts.size() < 3) s.script(ui, utf8(200)); };
                        uint64_t o = static_cast<uint64_t>(level);
                        auto depth = mc::thorough() ? 5 : 4;
                        for (int i = 0; i < depth; ++i) {
                            auto kind = i ? mc::pick(8) : firstKind;
                            o = mc::mix(o, static_cast<uint64_t>(kind));
                            switch (kind) {
                            case 0: s.handshake(0); break;
                            case 1: s.handshake(1); s.wf->run(); break;
                            case 2: if (s.uis.empty()) throw mc::Prune{}; s.script(s.uis[0], "script"); break;
                            case 3: if (s.uis.empty()) throw mc::Prune{}; s.script(s.uis.back(), utf8(level < 3 ? 65535 : 500)); break;
                            case 4: s.line(25); break;
                            case 5: s.line(level < 3 ? 65535 : 400); s.wf->run(); break;
                            case 6: s.client.binary(callMessage("echo", {text("echoed")})); break;
                            case 7: if (s.uis.empty()) { ++s.texts; s.client.text("hello"); } else s.call(s.uis.back(), i); break;
                            }
                        }
                        s.wf->run();
                        s.check();
                        mc::outcome(o);
                    };
                    Session s(level == 1 ? Error : level == 2 ? Warn : level == 3 ? Info : Debug);
                    body(s);
                });
    // 5. the same with the transport taking any number of bytes at a time
    mc::add("transfers", [] {
        Session s(Error);
        s.onStarted = [&](WF::UI ui) { s.script(ui, "from the handler"); };
        auto a = mc::pick(5), b = mc::pick(5);
        s.handshake(0);
        s.wf->run();
        s.scope.world.spontaneousOrder = true;
        s.scope.world.partials = {1, 3, -1};
        for (auto k : {a, b}) switch (k) {
            case 0: s.script(s.uis[0], utf8(150)); break;
            case 1: s.line(200); break;
            case 2: s.handshake(1); break;
            case 3: s.client.binary(callMessage("echo", {text("e")})); break;
            case 4: s.script(s.uis[0], ""); break;
            }
        s.wf->run();
        s.check();
        mc::outcome(mc::mix(static_cast<uint64_t>(a), static_cast<uint64_t>(b)));
    }, t ? 3 : 2);
    // 6. many texts waiting for a stalled client
    mc::add("stalled", [] {
        Session s(Error);
        s.handshake(0);
        s.wf->run();
        s.client.conn->stalled = true;
        auto mix = mc::pick(4);
        for (size_t i = 0; i < 300; ++i) {
            if ((i + static_cast<size_t>(mix)) % 3 == 0) s.line(30 + i);
            else s.script(s.uis[0], utf8(i * (static_cast<size_t>(mix) + 1)));
            if (i % 50 == 0) s.wf->run();
        }
        s.client.conn->stalled = false;
        s.wf->run();
        s.check();
        mc::outcome(static_cast<uint64_t>(mix));
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
