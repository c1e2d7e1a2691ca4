// M01: calls from C++ reach the client with the right function and arguments.
#include "client_js.hpp"
using namespace h;

namespace {
using WF = WFOn<1>;
using Js = webfront::JsFunction<WF>;
struct Call {
    std::string label;
    std::function<void(Js&)> run;
    std::vector<Value> expected;
    bool replay = true; // valid UTF-8: the client can be asked
};
std::string utf8(size_t n) { // n bytes of text, with characters of several widths
    std::string s;
    static const std::string parts[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "z", "\xf0\x9f\x98\x80", "\"\\\n"};
    for (size_t i = 0; s.size() < n; ++i) {
        auto& p = parts[i % 6];
        s += s.size() + p.size() <= n ? p : std::string(n - s.size(), '.');
    }
    return s;
}
template<typename T> Call number(const char* label, T v) { return {label, [v](Js& f) { f(v); }, {num(static_cast<double>(v))}}; }
Call string(size_t n, int form) {
    auto s = utf8(n);
    auto label = mc::fmt("string %zu form %d", n, form);
    switch (form) {
    case 0: return {label, [s](Js& f) { auto copy = std::string(s); f(copy); copy.assign(copy.size(), '#'); }, {text(s)}};
    case 1: return {label, [s](Js& f) { f(std::string(s)); }, {text(s)}};
    case 2: return {label, [s](Js& f) { auto copy = std::make_unique<std::string>(s); f(copy->c_str()); }, {text(s)}};
    case 3: return {label, [s](Js& f) { auto copy = std::make_unique<std::string>(s + "tail"); f(std::string_view(*copy).substr(0, s.size())); }, {text(s)}};
    default: return {label, [s](Js& f) { const std::string c = s; f(c, c); }, {text(s), text(s)}};
    }
}
std::vector<Call> alphabet() {
    std::vector<Call> a{{"()", [](Js& f) { f(); }, {}}, {"(true)", [](Js& f) { f(true); }, {boolean(true)}}, {"(false)", [](Js& f) { bool b = false; f(b); b = true; }, {boolean(false)}}};
    a.push_back(number("int 0", 0)); a.push_back(number("int 1", 1)); a.push_back(number("int -1", -1)); a.push_back(number("int max", std::numeric_limits<int>::max())); a.push_back(number("int min", std::numeric_limits<int>::min()));
    a.push_back(number("short", short(-32768))); a.push_back(number("uint8", uint8_t(255))); a.push_back(number("unsigned", 4000000000u)); a.push_back(number("long long", -9007199254740991ll)); a.push_back(number("uint64", ~uint64_t(0)));
    a.push_back(number("float", 0.1f)); a.push_back(number("-0.0", -0.0)); a.push_back(number("0.1", 0.1)); a.push_back(number("max", std::numeric_limits<double>::max())); a.push_back(number("denorm", std::numeric_limits<double>::denorm_min()));
    a.push_back(number("inf", std::numeric_limits<double>::infinity())); a.push_back(number("-inf", -std::numeric_limits<double>::infinity())); a.push_back(number("nan", std::numeric_limits<double>::quiet_NaN())); a.push_back(number("1e-300", 1.23456789e-300)); a.push_back(number("char", 'x'));
    for (size_t n : {0, 1, 2, 5, 100, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 200, 254, 255, 256, 257, 258, 511, 512, 1000, 4096, 8192, 32767, 32768, 65000, 65515, 65516, 65517, 65518, 65519, 65520, 65521, 65522, 65523, 65524, 65525, 65534, 65535})
        for (int form = 0; form < (n < 300 || n == 65535 ? 5 : 2); ++form) a.push_back(string(n, form));
    a.push_back({"literal", [](Js& f) { f("literal"); }, {text("literal")}});
    a.push_back({"empty literal", [](Js& f) { f(""); }, {text("")}});
    a.push_back({"inner zero", [](Js& f) { f(std::string("a\0b\0", 4)); }, {text(std::string("a\0b\0", 4))}});
    a.push_back({"bytes", [](Js& f) { f(pattern(300)); }, {text(pattern(300))}, false});
    a.push_back({"mixed", [](Js& f) { f(true, 2.5, "s", false, std::string("tt"), -7); }, {boolean(true), num(2.5), text("s"), boolean(false), text("tt"), num(-7)}});
    a.push_back({"mixed big", [](Js& f) { f(std::string(300, 'x'), true, std::string(2, 'y'), 1e10, std::string(700, 'z')); }, {text(std::string(300, 'x')), boolean(true), text("yy"), num(1e10), text(std::string(700, 'z'))}});
    a.push_back({"same string twice", [](Js& f) { std::string s = "same"; f(s, s, std::string_view(s), s.c_str()); }, {text("same"), text("same"), text("same"), text("same")}});
    a.push_back({"twelve", [](Js& f) { f(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); }, {num(0), num(1), num(2), num(3), num(4), num(5), num(6), num(7), num(8), num(9), num(10), num(11)}});
    a.push_back({"booleans", [](Js& f) { f(true, false, true, true, false, false, true, false, true); }, {boolean(true), boolean(false), boolean(true), boolean(true), boolean(false), boolean(false), boolean(true), boolean(false), boolean(true)}});
    a.push_back({"two long", [](Js& f) { f(std::string(40000, 'p'), std::string(50000, 'q')); }, {text(std::string(40000, 'p')), text(std::string(50000, 'q'))}});
    a.push_back({"tuple", [](Js& f) { f(std::tuple(1, std::string("in"), true)); }, {tupleOf({num(1), text("in"), boolean(true)})}});
    a.push_back({"tuples", [](Js& f) { f(5, std::tuple(std::string("a"), std::tuple(2.5, false)), "last"); }, {num(5), tupleOf({text("a"), tupleOf({num(2.5), boolean(false)})}), text("last")}});
    a.push_back({"empty tuple", [](Js& f) { f(std::tuple<>(), 3); }, {tupleOf({}), num(3)}});
    return a;
}
// n small arguments of alternating kinds
template<size_t... I> Call many(std::index_sequence<I...>) {
    Call c{mc::fmt("%zu arguments", sizeof...(I)), [](Js& f) { f((I % 3 == 0 ? static_cast<double>(I) : static_cast<double>(I) / 2)...); }, {}};
    (c.expected.push_back(num(I % 3 == 0 ? static_cast<double>(I) : static_cast<double>(I) / 2)), ...);
    return c;
}
template<size_t... I> Call manyStrings(std::index_sequence<I...>) {
    Call c{mc::fmt("%zu strings", sizeof...(I)), [](Js& f) { f(std::string(I % 40, static_cast<char>('a' + I % 26))...); }, {}};
    (c.expected.push_back(text(std::string(I % 40, static_cast<char>('a' + I % 26)))), ...);
    return c;
}
std::vector<Call> longOnes() {
    return {many(std::make_index_sequence<13>()), many(std::make_index_sequence<14>()), many(std::make_index_sequence<27>()), many(std::make_index_sequence<28>()), many(std::make_index_sequence<29>()), many(std::make_index_sequence<60>()), many(std::make_index_sequence<127>()), many(std::make_index_sequence<128>()), many(std::make_index_sequence<253>()), many(std::make_index_sequence<254>()),
            manyStrings(std::make_index_sequence<10>()), manyStrings(std::make_index_sequence<50>()), manyStrings(std::make_index_sequence<254>())};
}
struct Session {
    WorldScope scope;
    std::unique_ptr<WF> wf;
    std::vector<WF::UI> uis;
    std::vector<Client> clients;
    std::vector<size_t> seen;
    explicit Session(int n = 1) {
        quiet();
        scope.world.spontaneousOrder = false;
        MemFS<1>::files.clear();
        wf = std::make_unique<WF>("80");
        wf->onUIStarted([this](WF::UI ui) { uis.push_back(ui); });
        clients.resize(static_cast<size_t>(n));
        for (auto& c : clients) {
            c.connect();
            wf->run();
            c.binary(handshakeMessage());
            wf->run();
            seen.push_back(c.frames().size());
        }
        MC_REQUIRE(uis.size() == static_cast<size_t>(n), "harness", "%zu sessions", uis.size());
    }
    // frames received since the session was linked
    std::vector<ServerFrame> received(size_t i) {
        auto f = clients[i].frames();
        f.erase(f.begin(), f.begin() + static_cast<long>(seen[i]));
        return f;
    }
};
struct Sent {
    std::string name;
    const Call* call;
};
void compare(const std::vector<ServerFrame>& got, const std::vector<Sent>& sent, const std::string& what, bool replay = true) {
    MC_REQUIRE(got.size() == sent.size(), "count", "%s: the client received %zu messages for %zu calls", what.c_str(), got.size(), sent.size());
    for (size_t i = 0; i < sent.size(); ++i) {
        auto& s = sent[i];
        MC_REQUIRE(got[i].opcode == 2, "not-binary", "%s: call %zu %s is not a binary message", what.c_str(), i, s.call->label.c_str());
        CallMsg m;
        auto why = decodeCall(got[i].payload, m);
        MC_REQUIRE(why.empty(), "malformed", "%s: call %zu %s is sent as a message that %s", what.c_str(), i, s.call->label.c_str(), why.c_str());
        MC_REQUIRE(m.command == 3, "not-a-call", "%s: call %zu %s is sent as command %d", what.c_str(), i, s.call->label.c_str(), m.command);
        MC_REQUIRE(m.values.size() >= 1 && m.values[0] == text(s.name), "wrong-name", "%s: call %zu %s names %s", what.c_str(), i, s.call->label.c_str(), m.values.empty() ? "nothing" : show(m.values[0]).c_str());
        MC_REQUIRE(m.values.size() == s.call->expected.size() + 1, "wrong-arguments", "%s: call %zu %s carries %zu arguments", what.c_str(), i, s.call->label.c_str(), m.values.size() - 1);
        for (size_t k = 0; k < s.call->expected.size(); ++k)
            MC_REQUIRE(m.values[k + 1] == s.call->expected[k], "wrong-argument", "%s: call %zu %s: argument %zu is %s instead of %s", what.c_str(), i, s.call->label.c_str(), k, show(m.values[k + 1]).c_str(), show(s.call->expected[k]).c_str());
        mc::outcome(mc::hash(got[i].payload));
        if (replay && s.call->replay) dumpCall(got[i].payload, s.name, s.call->expected);
    }
}
} // namespace

void declare() {
    bool t = mc::thorough();
    static const auto all = alphabet();
    static const auto lots = longOnes();
    addClientFileScenario();
    // 1. every argument list alone, every chunking of its transfer with up to 2 (3) partial writes
    auto single = [](const Call& c, const std::string& name) {
        Session s;
        s.scope.world.spontaneousOrder = true;
        s.scope.world.partials = {1, 0, 9};
        auto f = s.uis[0].jsFunction(name);
        c.run(f);
        s.wf->run();
        compare(s.received(0), {{name, &c}}, "alone");
    };
    for (auto& c : all) mc::add("alone/" + c.label, [&c, single] { single(c, "f"); }, t ? 3 : 2);
    for (auto& c : lots) mc::add("many/" + c.label, [&c, single] { single(c, "many"); }, t ? 2 : 1);
    // 2. names of all lengths
    mc::add("names", [single] {
        static const std::vector<size_t> lengths{0, 1, 2, 10, 100, 113, 114, 115, 116, 117, 118, 119, 123, 124, 125, 126, 127, 128, 200, 254, 255, 256, 257, 1000, 60000, 65535};
        auto n = mc::pickOf(lengths);
        std::string name = mc::flip() ? std::string(n, 'n') : utf8(n);
        if (name.find('.') != std::string::npos) for (auto& ch : name) if (ch == '.') ch = '_';
        single(all[static_cast<size_t>(mc::pick(2)) * 3], name);
        mc::outcome(n);
    }, 1);
    mc::add("dotted", [single] {
        static const std::vector<std::string> names{"console.log", "a.b.c", "document.body.append", "x.y"};
        single(all[static_cast<size_t>(mc::pick(5))], mc::pickOf(names));
    }, 0);
    // 3. histories of calls: objects (kept, shared, copied, temporary) x argument lists
    static std::vector<const Call*> small;
    if (small.empty())
        for (auto& c : all)
            for (auto l : {"()", "(true)", "int -1", "string 0 form 0", "string 117 form 1", "string 127 form 3", "string 256 form 2", "string 1000 form 1", "mixed", "mixed big", "tuples", "same string twice"})
                if (c.label == l) small.push_back(&c);
    auto history = [](Session& s, int depth, const std::vector<const Call*>& calls, bool runBetween, int firstCall = -1) {
        auto a = s.uis[0].jsFunction("first"), b = s.uis[0].jsFunction("second.one");
        std::vector<Sent> sent;
        uint64_t o = 0;
        for (int i = 0; i < depth; ++i) {
            auto k = mc::pick(4);
            auto& c = i == 0 && firstCall >= 0 ? *calls[static_cast<size_t>(firstCall)] : *mc::pickOf(calls);
            o = mc::mix(o, static_cast<uint64_t>(k) * 64 + mc::hash(c.label));
            switch (k) {
            case 0: c.run(a); sent.push_back({"first", &c}); break;
            case 1: c.run(b); sent.push_back({"second.one", &c}); break;
            case 2: { auto copy = a; c.run(copy); sent.push_back({"first", &c}); } break;
            case 3: { auto f = s.uis[0].jsFunction("third"); c.run(f); sent.push_back({"third", &c}); } break;
            }
            if (runBetween) s.wf->run();
        }
        s.wf->run();
        compare(s.received(0), sent, "history");
        mc::outcome(o);
    };
    for (int between = 0; between < 2; ++between)
        for (int first = 0; first < (t ? 12 : 8); ++first) {
            mc::add(mc::fmt("history-3/%d/%d", between, first), [=] {
                Session s;
                static const std::vector<const Call*> some{small[0], small[2], small[4], small[5], small[7], small[8], small[9], small[11]};
                history(s, 3, mc::thorough() ? small : some, between, first);
            });
        }
    static std::vector<const Call*> every;
    if (every.empty())
        for (auto& c : all)
            if (c.label.find("form") == std::string::npos || c.label.ends_with("form 1")) every.push_back(&c);
    // every ordered pair of argument lists through one object
    for (int first = 0; first < static_cast<int>(every.size()); ++first)
        mc::add(mc::fmt("pairs/%d", first), [=] {
            Session s;
            auto& one = *every[static_cast<size_t>(first)];
            auto& two = *mc::pickOf(every);
            auto f = s.uis[0].jsFunction("f");
            auto between = mc::flip();
            one.run(f);
            if (between) s.wf->run();
            two.run(f);
            s.wf->run();
            compare(s.received(0), {{"f", &one}, {"f", &two}}, "pair");
        });
    // the same with the longest argument lists before and after every other list
    mc::add("pairs-long", [=] {
        static const std::vector<Call> longs = longOnes();
        Session s;
        auto& one = mc::pickOf(longs);
        auto& two = *mc::pickOf(mc::thorough() ? every : small);
        auto f = s.uis[0].jsFunction("f"), g = s.uis[0].jsFunction("g");
        auto between = mc::flip();
        auto order = mc::pick(3);
        std::vector<Sent> sent;
        auto call = [&](const Call& c, bool other = false) { c.run(other ? g : f); sent.push_back({other ? "g" : "f", &c}); if (between) s.wf->run(); };
        if (order == 1) call(two);
        call(one);
        if (order == 2) call(mc::pickOf(longs));
        call(two);
        call(two, true);
        s.wf->run();
        compare(s.received(0), sent, "pair");
    });
    // 4. histories with every transfer schedule within 1 (2) deviations
    for (int first = 0; first < 4; ++first)
    mc::add(mc::fmt("history-transfers/%d", first), [=] {
        Session s;
        s.scope.world.spontaneousOrder = true;
        s.scope.world.partials = {1, 0};
        history(s, mc::thorough() ? 4 : 3, {small[1], small[4], small[7], small[9]}, mc::flip(), first);
    }, t ? 2 : 1);
    // 5. function objects of two sessions, kept while both live: each client gets its own calls
    for (int first = 0; first < 5; ++first)
    mc::add(mc::fmt("two-sessions/%d", first), [=] {
        Session s(2);
        Js zero = s.uis[0].jsFunction("zero"), one = s.uis[1].jsFunction("one");
        std::array<Js*, 2> f{&zero, &one};
        std::vector<Sent> sent[2];
        for (int i = 0; i < 4; ++i) {
            auto k = static_cast<size_t>(mc::pick(2));
            auto& c = *small[static_cast<size_t>(i == 0 ? first : mc::pick(5)) * 2 + 1];
            c.run(*f[k]);
            sent[k].push_back({k ? "one" : "zero", &c});
            if (mc::thorough() && mc::flip()) s.wf->run();
        }
        s.wf->run();
        compare(s.received(0), sent[0], "two sessions");
        compare(s.received(1), sent[1], "two sessions");
    });
    // 6. a long history through one object
    mc::add("long-history", [=] {
        Session s;
        auto f = s.uis[0].jsFunction("many.times");
        std::vector<Sent> sent;
        auto stride = mc::pick(3) + 1;
        for (size_t i = 0; i < 300; ++i) {
            auto& c = all[(i * static_cast<size_t>(stride) * 7 + i / 5) % all.size()];
            c.run(f);
            sent.push_back({"many.times", &c});
            if (i % 3 == 0) s.wf->run();
        }
        s.wf->run();
        compare(s.received(0), sent, "long history");
    });
    mc::add("longer-history", [=] {
        Session s;
        auto f = s.uis[0].jsFunction("f"), g = s.uis[0].jsFunction("another");
        std::vector<Sent> sent;
        auto often = mc::pick(2);
        s.scope.world.horizon = 1000000;
        mc::ex().recording = false;
        for (size_t i = 0; i < 70000; ++i) {
            auto& c = *small[(i + i / 11) % small.size()];
            c.run(i % 5 ? f : g);
            sent.push_back({i % 5 ? "f" : "another", &c});
            if (often && i % 64 == 0) s.wf->run();
        }
        s.wf->run();
        mc::ex().recording = true;
        compare(s.received(0), sent, "longer history", false);
    });
    // 6b. objects made from a name which does not outlive the call, copied, moved and assigned before and after calls
    mc::add("objects", [=] {
        Session s;
        std::vector<Sent> sent;
        std::vector<size_t> lengths{1, 15, 16, 63, 64, 65, 255, 256, 1000};
        std::string name(mc::pickOf(lengths), 'q');
        size_t n = 0;
        auto call = [&](Js& f, const std::string& name) {
            auto& c = *small[n++ % small.size()];
            c.run(f);
            sent.push_back({name, &c});
        };
        auto make = [&](const std::string& name) {
            auto copy = std::make_unique<std::string>(name);
            auto f = std::make_unique<Js>(s.uis[0].jsFunction(*copy));
            copy->assign(copy->size(), '#');
            return f;
        };
        auto f = make(name);
        if (mc::flip()) call(*f, name);
        auto how = mc::pick(3);
        if (how == 0) call(*f, name);
        if constexpr (std::is_copy_constructible_v<Js>)
            if (how == 1) {
                auto g = std::make_unique<Js>(*f);
                call(*g, name);
                if (mc::flip()) f.reset();
                else call(*f, name);
                call(*g, name);
            }
        if constexpr (std::is_move_constructible_v<Js>)
            if (how == 2) {
                auto g = std::make_unique<Js>(std::move(*f));
                f.reset();
                call(*g, name);
                call(*g, name);
            }
        s.wf->run();
        compare(s.received(0), sent, "objects");
    });
    // 7. calls made from inside the start handler, before anything else
    mc::add("from-handler", [=] {
        WorldScope scope;
        quiet();
        scope.world.partials = {1};
        MemFS<1>::files.clear();
        WF wf("80");
        auto i = static_cast<size_t>(mc::pick(static_cast<int>(small.size()))), j = static_cast<size_t>(mc::pick(static_cast<int>(small.size())));
        wf.onUIStarted([&](WF::UI ui) {
            auto f = ui.jsFunction("started");
            small[i]->run(f);
            auto g = ui.jsFunction("then");
            small[j]->run(g);
        });
        Client c;
        c.connect();
        scope.world.spontaneousOrder = false;
        wf.run();
        scope.world.spontaneousOrder = true;
        c.binary(handshakeMessage());
        wf.run();
        auto f = c.frames();
        MC_REQUIRE(!f.empty() && f[0].payload == ackMessage(), "no-ack", "the handshake is not acknowledged first");
        f.erase(f.begin());
        compare(f, {{"started", small[i]}, {"then", small[j]}}, "from handler");
    }, t ? 2 : 1);
}
int main(int c, char** v) { return mc::run(c, v, declare); }
