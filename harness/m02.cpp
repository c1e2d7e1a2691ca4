// M02: calls from Javascript run the named C++ function with the arguments sent. The messages come from the bundled client.
#include "client_js.hpp"
#include <cmath>
using namespace h;

namespace {
using WF = WFOn<2>;
struct CallSpec { std::string name; std::vector<Value> args; };
constexpr std::array<size_t, 12> longCounts{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 254};

const std::vector<Value>& values() {
    static const std::vector<Value> v = [] {
        std::vector<Value> r{boolean(true), boolean(false), num(0), num(1), num(-1), num(42), num(2147483647.0), num(-2147483648.0), num(255), num(2.5), num(-0.75), num(-0.0), num(1e300), num(std::numeric_limits<double>::infinity()), num(std::numeric_limits<double>::quiet_NaN()), num(0.1), num(4294967296.0)};
        for (size_t n : {0, 1, 2, 9, 255, 256, 300, 65535}) r.push_back(text(std::string(n, static_cast<char>('a' + n % 7))));
        r.push_back(text("\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"));
        r.push_back(text(std::string("a\0b", 3)));
        r.push_back(text("\1\2\3\4\5\6\22"));
        return r;
    }();
    return v;
}
// everything asked to the client, in the order of the messages it sends
const std::vector<CallSpec>& specs() {
    static const std::vector<CallSpec> all = [] {
        std::vector<CallSpec> r;
        auto& v = values();
        std::vector<Value> fewer{v[0], v[1], v[2], v[4], v[6], v[9], v[14], v[17], v[18], v[21], v[22]};
        r.push_back({"target", {}});
        for (auto& a : v) r.push_back({"target", {a}});
        for (auto& a : v) for (auto& b : v) if (a.s.size() + b.s.size() <= 65535) r.push_back({"target", {a, b}});
        for (auto& a : fewer) for (auto& b : fewer) for (auto& c : fewer) r.push_back({"target", {a, b, c}});
        for (auto n : {"other", "Target", "targe", "targets", "", "f", "g", "namespace.target", "\xc3\xa9t\xc3\xa9"})
            for (auto& args : std::vector<std::vector<Value>>{{}, {num(7)}, {text("seven"), num(7)}}) r.push_back({n, args});
        for (size_t n : {254, 255, 256, 257, 1000, 65535}) r.push_back({std::string(n, 'n'), {num(static_cast<double>(n))}});
        r.push_back({std::string("tar\0get", 7), {num(7)}});
        r.push_back({"target\n", {num(7)}});
        // a flat array for a tuple
        r.push_back({"target", {tupleOf({num(5), text("five")})}});
        r.push_back({"target", {num(1), tupleOf({boolean(true), num(2.5)}), text("end")}});
        r.push_back({"target", {tupleOf({num(5)})}});
        r.push_back({"target", {tupleOf({num(5), text("five"), num(6)})}});
        r.push_back({"target", {tupleOf({text("five"), num(5)})}});
        r.push_back({"target", {tupleOf({})}});
        // many arguments
        std::vector<Value> many;
        for (int i = 0; i < 12; ++i) many.push_back(i % 3 == 0 ? num(i) : i % 3 == 1 ? text(std::to_string(i)) : boolean(i % 2));
        r.push_back({"target", many});
        for (auto n : longCounts) {
            std::vector<Value> numbers;
            for (size_t i = 0; i < n; ++i) numbers.push_back(num(static_cast<double>(i * 3)));
            r.push_back({"long", numbers});
        }
        return r;
    }();
    return all;
}
const std::string& message(size_t i) {
    static const std::vector<std::string> msgs = [] {
        std::ifstream f(mc::ex().data + "/calls.bin", std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        auto d = ss.str();
        std::vector<std::string> r;
        size_t at = 0;
        while (at + 4 <= d.size()) {
            uint32_t n;
            std::memcpy(&n, d.data() + at, 4);
            r.push_back(d.substr(at + 4, n));
            at += 4 + n;
        }
        return r;
    }();
    if (msgs.size() != specs().size()) { fprintf(stderr, "harness error: %zu messages of the client for %zu calls\n", msgs.size(), specs().size()); _exit(97); }
    return msgs.at(i);
}
size_t specOf(const std::string& name, const std::vector<Value>& args) {
    auto& s = specs();
    for (size_t i = 0; i < s.size(); ++i) if (s[i].name == name && s[i].args == args) return i;
    fprintf(stderr, "harness error: no such call\n");
    _exit(97);
}
struct Ran {
    std::string function;
    std::vector<Value> args;
    bool operator==(const Ran&) const = default;
};
std::vector<Ran> ran;
Value valueOf(bool b) { return boolean(b); }
Value valueOf(const std::string& s) { return text(s); }
template<typename T> requires std::is_arithmetic_v<T> Value valueOf(T t) { return num(static_cast<double>(t)); }
template<typename... T> Value valueOf(const std::tuple<T...>& t) { return std::apply([](auto&... e) { return tupleOf({valueOf(e)...}); }, t); }

enum Param { pBool, pInt, pDouble, pString, pFloat, pLong, pByte, pShort, pUnsigned };
template<Param P> struct TypeOf;
template<> struct TypeOf<pBool> { using T = bool; };
template<> struct TypeOf<pInt> { using T = int; };
template<> struct TypeOf<pDouble> { using T = double; };
template<> struct TypeOf<pString> { using T = std::string; };
template<> struct TypeOf<pFloat> { using T = float; };
template<> struct TypeOf<pLong> { using T = int64_t; };
template<> struct TypeOf<pByte> { using T = uint8_t; };
template<> struct TypeOf<pShort> { using T = int16_t; };
template<> struct TypeOf<pUnsigned> { using T = uint32_t; };

struct Signature { std::vector<Param> params; std::function<void(WF&, const std::string&)> add; };
template<Param... P> Signature signature() {
    return {{P...}, [](WF& wf, const std::string& name) {
        wf.cppFunction<void, typename TypeOf<P>::T...>(name, [name](typename TypeOf<P>::T... a) { ran.push_back({name, {valueOf(a)...}}); });
    }};
}
template<int N, Param... P> void signaturesOf(std::vector<Signature>& out) {
    out.push_back(signature<P...>());
    if constexpr (N > 0) {
        signaturesOf<N - 1, P..., pBool>(out);
        signaturesOf<N - 1, P..., pInt>(out);
        signaturesOf<N - 1, P..., pDouble>(out);
        signaturesOf<N - 1, P..., pString>(out);
    }
}
template<size_t N> void addLong(WF& wf) {
    [&]<size_t... I>(std::index_sequence<I...>) {
        wf.cppFunction<void, std::enable_if_t<(I >= 0), double>...>("long", [](auto... a) { ran.push_back({"long", {num(a)...}}); });
    }(std::make_index_sequence<N>{});
}
// what has to happen: 1 the function runs with these arguments, 0 nothing runs, -1 unspecified
int expectation(const std::vector<Param>& params, const std::vector<Value>& args, std::vector<Value>& out) {
    out.clear();
    bool unspecified = false;
    for (size_t i = 0; i < params.size(); ++i) {
        if (i >= args.size()) return 0;
        auto& a = args[i];
        auto p = params[i];
        if (p == pString) {
            if (a.kind != Value::string) return 0;
            out.push_back(a);
        }
        else {
            if (a.kind == Value::string || a.kind == Value::tuple) return 0;
            if (p == pBool) {
                if (a.kind != Value::boolean) unspecified = true;
                out.push_back(a);
                continue;
            }
            if (a.kind != Value::number) { unspecified = true; out.push_back(a); continue; }
            auto fits = [&](double lo, double hi) { auto t = std::trunc(a.d); return t >= lo && t <= hi; };
            switch (p) {
            case pInt: if (!fits(-2147483648.0, 2147483647.0)) unspecified = true; else out.push_back(num(static_cast<int>(a.d))); break;
            case pLong: if (!fits(-9e18, 9e18)) unspecified = true; else out.push_back(num(static_cast<double>(static_cast<int64_t>(a.d)))); break;
            case pByte: if (!fits(0, 255)) unspecified = true; else out.push_back(num(static_cast<uint8_t>(a.d))); break;
            case pShort: if (!fits(-32768, 32767)) unspecified = true; else out.push_back(num(static_cast<int16_t>(a.d))); break;
            case pUnsigned: if (!fits(0, 4294967295.0)) unspecified = true; else out.push_back(num(static_cast<uint32_t>(a.d))); break;
            case pFloat: if (std::isfinite(a.d) && std::abs(a.d) > 3e38) unspecified = true; else out.push_back(num(static_cast<float>(a.d))); break;
            default: out.push_back(a);
            }
        }
    }
    if (unspecified || args.size() > params.size()) return -1;
    return 1;
}
struct Session {
    WorldScope scope;
    std::unique_ptr<WF> wf;
    std::vector<Client> clients;
    std::vector<size_t> seen;
    explicit Session(int n = 1) {
        quiet();
        scope.world.spontaneousOrder = false;
        MemFS<2>::files.clear();
        ran.clear();
        wf = std::make_unique<WF>("80");
        clients.resize(static_cast<size_t>(n));
        for (auto& c : clients) {
            c.connect();
            wf->run();
            c.binary(handshakeMessage());
            wf->run();
            seen.push_back(c.frames().size());
        }
    }
    std::vector<ServerFrame> received(size_t i) {
        auto f = clients[i].frames();
        f.erase(f.begin(), f.begin() + static_cast<long>(seen[i]));
        return f;
    }
    void call(size_t client, size_t spec) { clients[client].binary(message(spec)); }
};
std::string describe(const CallSpec& c) {
    auto s = show(std::string_view(c.name), 30) + "(";
    for (auto& a : c.args) s += show(a) + " ";
    return s + ")";
}
std::string describe(const std::vector<Ran>& r) {
    std::string s;
    for (auto& x : r) s += describe(CallSpec{x.function, x.args}) + "; ";
    return s.empty() ? "nothing" : s;
}
void isException(const ServerFrame& f, const std::string& what) {
    CallMsg m;
    auto why = decodeCall(f.payload, m);
    MC_REQUIRE(f.opcode == 2 && why.empty(), "malformed-return", "%s: the answer %s", what.c_str(), why.c_str());
    MC_REQUIRE(m.command == 4, "not-a-return", "%s: the answer is command %d", what.c_str(), m.command);
    MC_REQUIRE(m.values.size() == 1 && m.values[0].kind == Value::exception, "not-an-exception", "%s: the answer carries no exception", what.c_str());
}
// one call on a session, with the function "target" of a signature registered
void one(Session& s, size_t client, size_t i, const std::vector<Param>& params) {
    auto& c = specs()[i];
    std::vector<Value> want;
    auto e = c.name == "target" ? expectation(params, c.args, want) : 0;
    if (e < 0) return;
    ran.clear();
    s.call(client, i);
    s.wf->run();
    mc::count("calls_of_the_client");
    auto d = describe(c);
    if (e == 0) MC_REQUIRE(ran.empty(), "ran", "%s on %zu parameters ran %s", d.c_str(), params.size(), describe(ran).c_str());
    else {
        MC_REQUIRE(ran.size() == 1, "runs", "%s ran %zu functions", d.c_str(), ran.size());
        MC_REQUIRE(ran[0] == (Ran{"target", want}), "wrong-arguments", "%s ran %s", d.c_str(), describe(ran).c_str());
    }
    mc::outcome(mc::mix(i, static_cast<uint64_t>(e)));
}
} // namespace

void declare() {
    bool t = mc::thorough();
    mc::add("client-file", [] {
        std::ofstream f(mc::ex().data + mc::fmt("/spec.%d", static_cast<int>(getpid())));
        for (auto& c : specs()) f << "{\"name\":\"" << hexOf(c.name) << "\",\"args\":" << jsonOf(c.args) << "}\n";
        f.close();
        std::filesystem::rename(mc::ex().data + mc::fmt("/spec.%d", static_cast<int>(getpid())), mc::ex().data + "/spec.jsonl");
    });
    addClientFileScenario();
    mc::ex().scenarios.back().name = "client-file-data";
    // 1. every signature x every argument list of the client, in batches on one session
    static const std::vector<Signature> signatures = [] {
        std::vector<Signature> s;
        signaturesOf<3>(s);
        s.push_back(signature<pFloat>()); s.push_back(signature<pLong>()); s.push_back(signature<pByte>()); s.push_back(signature<pShort>()); s.push_back(signature<pUnsigned>());
        s.push_back(signature<pString, pFloat>()); s.push_back(signature<pLong, pByte>());
        return s;
    }();
    for (size_t k = 0; k < signatures.size(); ++k)
        mc::add(mc::fmt("signature/%zu", k), [k] {
            auto& sig = signatures[k];
            auto n = specs().size();
            size_t batch = 250;
            auto b = static_cast<size_t>(mc::pick(static_cast<int>((n + batch - 1) / batch)));
            Session s;
            sig.add(*s.wf, "target");
            for (size_t i = b * batch; i < std::min(n, (b + 1) * batch); ++i) one(s, 0, i, sig.params);
        });
    // 2. unregistered names are answered by an exception and run nothing; registered ones of all kinds run
    mc::add("names", [] {
        Session s;
        std::vector<std::string> registered;
        auto some = mc::pick(4);
        if (some & 1) registered = {"target", "other", std::string(255, 'n'), std::string(1000, 'n'), "namespace.target"};
        if (some & 2) registered.insert(registered.end(), {"f", "", std::string(256, 'n'), std::string("tar\0get", 7), "\xc3\xa9t\xc3\xa9"});
        for (auto& n : registered) s.wf->cppFunction<void>(n, [n] { ran.push_back({n, {}}); });
        for (size_t i = 0; i < specs().size(); ++i) {
            auto& c = specs()[i];
            if (c.name == "target" && c.args.size() > 1) continue;
            ran.clear();
            auto before = s.received(0).size();
            s.call(0, i);
            s.wf->run();
            auto f = s.received(0);
            mc::count("calls_of_the_client");
            auto d = describe(c);
            if (std::find(registered.begin(), registered.end(), c.name) == registered.end()) {
                MC_REQUIRE(ran.empty(), "ran", "unregistered %s ran %s", d.c_str(), describe(ran).c_str());
                MC_REQUIRE(f.size() == before + 1, "not-answered", "unregistered %s got %zu answers", d.c_str(), f.size() - before);
                isException(f.back(), d);
            }
            else if (c.args.empty()) MC_REQUIRE(ran == (std::vector<Ran>{{c.name, {}}}), "runs", "%s ran %s", d.c_str(), describe(ran).c_str());
        }
        mc::outcome(static_cast<uint64_t>(some));
    });
    // 3. tuples and many arguments
    mc::add("tuples", [] {
        Session s;
        using T1 = std::tuple<int, std::string>;
        using T2 = std::tuple<bool, double>;
        auto which = mc::pick(3);
        if (which == 0) s.wf->cppFunction<void, T1>("target", [](T1 a) { ran.push_back({"target", {valueOf(a)}}); });
        if (which == 1) s.wf->cppFunction<void, int, T2, std::string>("target", [](int i, T2 a, std::string z) { ran.push_back({"target", {num(i), valueOf(a), text(z)}}); });
        if (which == 2) s.wf->cppFunction<void, double, std::string, bool, int, std::string, bool, int, std::string, bool, int, std::string, bool>("target", [](double a, std::string b, bool c, int d, std::string e, bool f, int g, std::string h, bool i, int j, std::string k, bool l) {
            ran.push_back({"target", {num(a), text(b), boolean(c), num(d), text(e), boolean(f), num(g), text(h), boolean(i), num(j), text(k), boolean(l)}}); });
        for (size_t i = 0; i < specs().size(); ++i) {
            auto& c = specs()[i];
            if (c.name != "target") continue;
            auto d = describe(c);
            bool good = which == 0 ? c.args.size() == 1 && c.args[0] == tupleOf({num(5), text("five")}) : which == 1 ? c.args.size() == 3 && c.args[1].kind == Value::tuple : c.args.size() == 12;
            if (!good && (c.args.size() > (which == 0 ? 1 : which == 1 ? 3 : 12))) continue;
            ran.clear();
            s.call(0, i);
            s.wf->run();
            if (good) MC_REQUIRE(ran == (std::vector<Ran>{{"target", c.args}}), "runs", "%s ran %s", d.c_str(), describe(ran).c_str());
            else MC_REQUIRE(ran.empty(), "ran", "%s ran %s", d.c_str(), describe(ran).c_str());
        }
        mc::outcome(static_cast<uint64_t>(which));
    });
    // 3b. up to 254 parameters; called with as many, more or fewer arguments
    mc::add("many-parameters", [] {
        Session s;
        auto which = static_cast<size_t>(mc::pick(static_cast<int>(longCounts.size())));
        auto n = longCounts[which];
        [&]<size_t... W>(std::index_sequence<W...>) {
            ([&] { if (W == which) addLong<longCounts[W]>(*s.wf); }(), ...);
        }(std::make_index_sequence<longCounts.size()>{});
        for (size_t i = 0; i < specs().size(); ++i) {
            auto& c = specs()[i];
            if (c.name != "long" || c.args.size() > n) continue;
            ran.clear();
            s.call(0, i);
            s.wf->run();
            if (c.args.size() == n) MC_REQUIRE(ran == (std::vector<Ran>{{"long", c.args}}), "runs", "a call with %zu arguments ran %s", n, show(describe(ran), 300).c_str());
            else MC_REQUIRE(ran.empty(), "ran", "%zu arguments for %zu parameters ran the function", c.args.size(), n);
        }
        mc::outcome(n);
    });
    // 3c. long histories of calls on one session and from many sessions one after the other
    for (size_t n : {300, 5000, 70000})
        mc::add(mc::fmt("history/%zu", n), [n] {
            Session s;
            auto kind = mc::pick(3);
            std::vector<Param> params{pString, pInt};
            s.wf->cppFunction<void, std::string, int>("target", [](std::string a, int b) { ran.push_back({"target", {text(a), num(b)}}); });
            std::vector<size_t> good, bad;
            std::vector<Value> want;
            for (size_t i = 0; i < specs().size(); ++i)
                if (specs()[i].name == "target") {
                    auto e = expectation(params, specs()[i].args, want);
                    if (e == 1 && specs()[i].args[0].s.size() < 500) good.push_back(i);
                    if (e == 0 && (specs()[i].args.empty() || specs()[i].args[0].s.size() < 500)) bad.push_back(i);
                }
            mc::ex().recording = false;
            for (size_t k = 0; k < n; ++k) one(s, 0, kind == 0 || (kind == 1 && k % 2) ? good[k % good.size()] : kind == 1 || k + 20 < n ? bad[k % bad.size()] : good[k % good.size()], params);
            mc::ex().recording = true;
            mc::outcome(mc::mix(n, static_cast<uint64_t>(kind)));
        });
    // 4. sequences of calls, good and bad, on two connections, every schedule within 1 (2) deviations
    auto sequences = [t](Session& s, int depth, int firstKind) {
        std::vector<size_t>
            kinds = {specOf("f", {num(7)}), specOf("g", {text("seven"), num(7)}), specOf("f", {}), specOf("g", {num(7)}), specOf("other", {num(7)}), specOf("target", {}), specOf("target", {values()[22]}), specOf("target", {values()[s.clients.size() > 1 ? 23 : 24]})};
        struct G { int calls = 0; void operator()(std::string a, double b) { ran.push_back({"g", {text(a), num(b), num(++calls)}}); } };
        G g;
        s.wf->cppFunction<void, int>("f", +[](int i) { ran.push_back({"f", {num(i)}}); });
        s.wf->cppFunction<void, std::string, double>("g", g);
        std::function<int(std::string)> target = [](std::string x) { ran.push_back({"target", {text(x)}}); return 5; };
        s.wf->cppFunction<int, std::string>("target", std::move(target));
        target = {};
        std::vector<std::vector<size_t>> sent(2);
        uint64_t o = 0;
        for (int i = 0; i < depth; ++i) {
            auto k = i == 0 && firstKind >= 0 ? static_cast<size_t>(firstKind) : static_cast<size_t>(mc::pick(static_cast<int>(kinds.size()) + 2));
            auto c = static_cast<size_t>(s.clients.size() > 1 ? mc::pick(2) : 0);
            o = mc::mix(o, k * 2 + c);
            if (k < kinds.size()) { s.call(c, kinds[k]); sent[c].push_back(kinds[k]); }
            else if (k == kinds.size()) { s.clients[c].binary(handshakeMessage()); sent[c].push_back(9999); }
            else { s.clients[c].text("text"); sent[c].push_back(9998); }
        }
        s.wf->run();
        // per connection: what runs, in order, and the answers
        std::vector<Ran> got = ran;
        int gCalls = 0;
        for (auto& r : got) // the state of a function persists over the calls
            if (r.function == "g") { MC_REQUIRE(r.args.size() == 3 && r.args[2] == num(++gCalls), "state", "call %d of g is its call %s", gCalls, show(r.args[2]).c_str()); r.args.pop_back(); }
        std::vector<Ran> all;
        for (size_t c = 0; c < s.clients.size(); ++c) {
            size_t at = 0;
            auto f = s.received(c);
            for (auto k : sent[c]) {
                auto next = [&]() -> const ServerFrame& { MC_REQUIRE(at < f.size(), "not-answered", "client %zu misses an answer", c); return f[at++]; };
                if (k == 9999) { MC_REQUIRE(next().payload == ackMessage(), "no-ack", "the handshake is not acknowledged in its turn"); continue; }
                if (k == 9998) { auto& a = next(); MC_REQUIRE(a.opcode == 1 && a.payload == textReply, "no-reply", "the text is not answered in its turn"); continue; }
                auto& sp = specs()[k];
                if (sp.name == "other") isException(next(), "in sequence");
                std::vector<Value> want;
                std::vector<Param> params = sp.name == "f" ? std::vector<Param>{pInt} : sp.name == "g" ? std::vector<Param>{pString, pDouble} : std::vector<Param>{pString};
                if (sp.name != "other" && expectation(params, sp.args, want) == 1) all.push_back({sp.name, want});
            }
            MC_REQUIRE(at == f.size(), "extra-answer", "client %zu receives %zu messages instead of %zu", c, f.size(), at);
        }
        auto key = [](const Ran& r) { return describe({r}); };
        std::multiset<std::string> a, b;
        for (auto& r : got) a.insert(key(r));
        for (auto& r : all) b.insert(key(r));
        MC_REQUIRE(a == b, "runs", "ran %s instead of %s", describe(got).c_str(), describe(all).c_str());
        if (s.clients.size() == 1) MC_REQUIRE(got == all, "order", "ran %s instead of %s", describe(got).c_str(), describe(all).c_str());
        mc::outcome(o);
    };
    for (int first = 0; first < 8; ++first) {
        mc::add(mc::fmt("sequence/%d", first), [=] { Session s; sequences(s, mc::thorough() ? 5 : 4, first); });
        mc::add(mc::fmt("two-connections/%d", first), [=] {
            Session s(2);
            s.scope.world.spontaneousOrder = true;
            s.scope.world.partials = {1};
            sequences(s, 3, first);
        }, t ? 2 : 1);
    }
}
int main(int c, char** v) { return mc::run(c, v, declare); }
