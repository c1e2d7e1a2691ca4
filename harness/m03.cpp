// M03: malformed protocol messages are contained.
#include "wf_rig.hpp"
#include <cmath>
#include <filesystem>
#include <ios>
#include <optional>
#include <system_error>
#include <variant>
using namespace h;

namespace {
using WF = WFOn<3>;
struct Ran {
    std::string function;
    std::vector<Value> args;
    bool operator==(const Ran&) const = default;
};
std::vector<Ran> ran;

// Functions which fail, each in its own way
struct Own : std::exception {
    const char* what() const noexcept override { return ""; }
};
const std::vector<std::pair<std::string, std::function<void()>>>& raisers() {
    static const std::vector<std::pair<std::string, std::function<void()>>> r{
        {"throws exception", [] { throw std::exception(); }}, {"throws own", [] { throw Own(); }},
        {"throws logic_error", [] { throw std::logic_error("l"); }}, {"throws invalid_argument", [] { throw std::invalid_argument(""); }}, {"throws domain_error", [] { throw std::domain_error(std::string(70000, 'd')); }}, {"throws length_error", [] { throw std::length_error("l"); }},
        {"throws out_of_range", [] { throw std::out_of_range("o"); }}, {"throws map::at", [] { std::map<int, int>().at(5); }}, {"throws long out_of_range", [] { throw std::out_of_range(std::string(65535, 'o')); }},
        {"throws overflow_error", [] { throw std::overflow_error("o"); }}, {"throws range_error", [] { throw std::range_error(std::string(300, 'r')); }}, {"throws system_error", [] { throw std::system_error(std::make_error_code(std::errc::io_error)); }}, {"throws filesystem_error", [] { throw std::filesystem::filesystem_error("f", std::error_code()); }},
        {"throws bad_alloc", [] { throw std::bad_alloc(); }}, {"throws bad_cast", [] { throw std::bad_cast(); }}, {"throws bad_function_call", [] { std::function<void()>()(); }}, {"throws bad_optional_access", [] { (void)std::optional<int>().value(); }}, {"throws bad_variant_access", [] { throw std::bad_variant_access(); }},
        {"throws ios failure", [] { throw std::ios_base::failure("i"); }}, {"throws nested", [] { try { throw std::logic_error("inner"); } catch (...) { std::throw_with_nested(std::runtime_error("outer")); } }}};
    return r;
}
struct Session {
    WorldScope scope;
    std::unique_ptr<WF> wf;
    std::vector<Client> clients{2};
    explicit Session(bool handshake = true) {
        quiet();
        scope.world.spontaneousOrder = false;
        MemFS<3>::files.clear();
        ran.clear();
        wf = std::make_unique<WF>("80");
        wf->cppFunction<void>("v", [] { ran.push_back({"v", {}}); });
        wf->cppFunction<void, int>("i", [](int a) { ran.push_back({"i", {num(a)}}); });
        wf->cppFunction<void, bool, double>("bd", [](bool a, double b) { ran.push_back({"bd", {boolean(a), num(b)}}); });
        wf->cppFunction<void, std::string, double>("sd", [](std::string a, double b) { ran.push_back({"sd", {text(a), num(b)}}); });
        wf->cppFunction<void, std::string, std::string, std::string>("sss", [](std::string a, std::string b, std::string c) { ran.push_back({"sss", {text(a), text(b), text(c)}}); });
        wf->cppFunction<void, std::tuple<int, std::string>, bool>("tb", [](std::tuple<int, std::string> t, bool b) { ran.push_back({"tb", {tupleOf({num(std::get<0>(t)), text(std::get<1>(t))}), boolean(b)}}); });
        for (auto& [name, raise] : raisers()) wf->cppFunction<void>(name, [name, raise] { ran.push_back({name, {}}); raise(); });
        wf->cppFunction<void>("boom", [] { ran.push_back({"boom", {}}); throw std::runtime_error("boom"); });
        for (auto& c : clients) {
            c.connect();
            wf->run();
            if (handshake) c.binary(handshakeMessage());
            wf->run();
        }
    }
};
enum Kind { kInt, kBool, kDouble, kString, kTuple };
const std::map<std::string, std::vector<Kind>> functions{{"v", {}}, {"i", {kInt}}, {"bd", {kBool, kDouble}}, {"sd", {kString, kDouble}}, {"sss", {kString, kString, kString}}, {"tb", {kTuple, kBool}}, {"boom", {}}};
bool raises(const std::string& f) { return f.starts_with("throws "); }

// Is got what the bytes of d, read leniently, hold for a parameter of kind k? Advances d.
bool matches(std::string_view& d, Kind k, const Value& got) {
    Value v;
    if (!d.empty() && d[0] == 0) { // undefined: a default value
        d.remove_prefix(1);
        return k == kString ? got.s.empty() : k == kBool ? !got.b : k == kTuple ? true : got.d == 0;
    }
    if (k == kTuple) {
        if (d.size() < 2 || d[0] != 18 || d[1] != 2 || got.t.size() != 2) return false;
        d.remove_prefix(2);
        return matches(d, kInt, got.t[0]) && matches(d, kString, got.t[1]);
    }
    if (!decodeValue(d, v)) return false;
    switch (k) {
    case kString: return (v.kind == Value::string || v.kind == Value::exception) && v.s == got.s;
    case kBool: return v.kind == Value::boolean ? v.b == got.b : v.kind == Value::number;
    case kInt:
        if (v.kind == Value::boolean) return got.d == (v.b ? 1 : 0);
        return v.kind == Value::number && (!(std::abs(std::trunc(v.d)) < 2147483648.0) || got.d == std::trunc(v.d));
    case kDouble: return v.kind == Value::boolean ? got.d == (v.b ? 1 : 0) : v == got;
    default: return false;
    }
}
// May this message make this function run?
bool justified(const std::string& msg, const Ran& r) {
    if (msg.size() < 8 || msg[0] != 3) return false;
    std::string_view d = std::string_view(msg).substr(8);
    Value name;
    if (!decodeValue(d, name) || (name.kind != Value::string && name.kind != Value::exception) || name.s != r.function) return false;
    auto it = functions.find(name.s);
    if (it == functions.end() && raises(name.s)) return r.args.empty();
    if (it == functions.end() || it->second.size() != r.args.size()) return false;
    for (size_t i = 0; i < r.args.size(); ++i)
        if (!matches(d, it->second[i], r.args[i])) return false;
    return true;
}
const std::string& canary() {
    static const std::string m = callMessage("sd", {text("CANARY"), num(12345.678)});
    return m;
}
const Ran canaryRan{"sd", {text("CANARY"), num(12345.678)}};
enum How { separately, sameSegment, fragmented, asText, hows };

// Sends a message then a valid call on the same connection, and checks what happened
void hostile(Session& s, const std::string& msg, int how, bool other) {
    ran.clear();
    auto& c = s.clients[0];
    auto framesBefore = c.conn->wire.size();
    auto after = encodeFrame({true, 2, canary(), 1});
    auto frame = how == fragmented ? encodeFrame({false, 2, msg.substr(0, msg.size() / 2), 2}) + encodeFrame({true, 0, msg.substr(msg.size() / 2), 1})
                                   : encodeFrame({true, how == asText ? 1 : 2, msg, 2});
    size_t upTo = 0;
    try {
        if (how == separately) {
            deliver(c.conn, frame);
            s.wf->run();
            upTo = ran.size();
            deliver(c.conn, after);
        }
        else deliver(c.conn, frame + after);
        s.wf->run();
        if (other) {
            s.clients[1].binary(canary());
            s.wf->run();
        }
    }
    catch (const mc::Violation&) { throw; }
    catch (const mc::Prune&) { throw; }
    catch (const std::exception& e) { mc::fail("escaped-exception", "message " + show(msg) + ": " + e.what() + " leaves the event loop"); }
    mc::count("hostile_messages");
    auto hex = show(msg);
    size_t canaries = other ? 2 : 1;
    MC_REQUIRE(c.conn->open, "disconnected", "message %s: the server closed the connection", hex.c_str());
    MC_REQUIRE(ran.size() >= canaries && ran.back() == canaryRan && ran[ran.size() - canaries] == canaryRan, "not-served", "message %s: the following valid call did not run properly (%zu calls ran)", hex.c_str(), ran.size());
    if (how == separately && upTo + canaries != ran.size()) mc::fail("extra-call", "message " + hex + ": the valid calls ran " + std::to_string(ran.size() - upTo) + " functions");
    MC_REQUIRE(ran.size() <= canaries + 1, "extra-call", "message %s ran %zu functions", hex.c_str(), ran.size() - canaries);
    if (ran.size() > canaries) {
        MC_REQUIRE(how != asText, "text-call", "text %s ran %s", hex.c_str(), ran[0].function.c_str());
        if (!justified(msg, ran[0])) {
            std::string a;
            for (auto& v : ran[0].args) a += show(v) + " ";
            mc::fail("arguments-not-in-message", "message " + hex + " ran " + ran[0].function + "(" + a + ")");
        }
        mc::count("hostile_messages_which_ran_a_function");
    }
    // what the client received stays well-formed
    std::vector<ServerFrame> f;
    auto wire = str(c.conn->wire).substr(framesBefore);
    MC_REQUIRE(decodeFrames(wire, f), "partial-frame", "message %s: the client received broken frames", hex.c_str());
    for (auto& x : f)
        if (x.opcode == 2 && x.payload != ackMessage()) {
            CallMsg m;
            auto why = decodeCall(x.payload, m);
            MC_REQUIRE(why.empty() && m.command == 4, "malformed-answer", "message %s: answered by %s (%s)", hex.c_str(), show(x.payload).c_str(), why.c_str());
        }
        else MC_REQUIRE(x.opcode == 2 || x.payload == textReply, "malformed-answer", "message %s: answered by text %s", hex.c_str(), show(x.payload).c_str());
    mc::outcome(mc::hash(msg));
    // the wires would otherwise grow without end over a batch
    for (auto& k : s.clients) if (k.upgradedSeen() && k.conn->wire.size() > 60000) { k.conn->wire.resize(k.responseSize); k.conn->wireHashed = 0; k.conn->wireHash = 5; }
}
struct Valid { std::string label, msg; std::vector<size_t> structure; };
// valid messages and the places of their structural bytes
const std::vector<Valid>& valid() {
    static const std::vector<Valid> v = [] {
        std::vector<Valid> r;
        auto call = [&](std::string label, const std::string& name, std::vector<Value> args) {
            Valid x{std::move(label), callMessage(name, args), {0, 1, 2, 3, 4, 5, 6, 7}};
            size_t at = 8;
            std::function<void(const Value&)> walk = [&](const Value& a) {
                x.structure.push_back(at++);
                switch (a.kind) {
                case Value::number: x.structure.push_back(at); at += 8; break;
                case Value::string: x.structure.push_back(at++); if (a.s.size() > 255) x.structure.push_back(at++); if (!a.s.empty()) x.structure.push_back(at); at += a.s.size(); break;
                case Value::tuple: x.structure.push_back(at++); for (auto& e : a.t) walk(e); break;
                default: break;
                }
            };
            walk(text(name));
            for (auto& a : args) walk(a);
            r.push_back(std::move(x));
        };
        r.push_back({"handshake", handshakeMessage(0), {0, 1}});
        r.push_back({"handshake-big", handshakeMessage(1), {0, 1}});
        r.push_back({"ack", ackMessage(), {0, 1}});
        r.push_back({"text-command", std::string("\2\1\0\5hello", 9), {0, 1, 2, 3}});
        r.push_back({"return", [] { auto m = callMessage("x", {num(1)}); m[0] = 4; return m; }(), {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}});
        call("v", "v", {});
        call("i", "i", {num(7)});
        call("bd", "bd", {boolean(true), num(-2.5)});
        call("sd", "sd", {text("hello"), num(3)});
        call("sss", "sss", {text(""), text("ab"), text(std::string(40, 'z'))});
        call("tb", "tb", {tupleOf({num(5), text("five")}), boolean(false)});
        call("boom", "boom", {});
        call("unknown", "unknown", {num(1), text("x")});
        call("no-name", "", {});
        call("too-many", "i", {num(7), text("more"), num(8)});
        call("wrong", "sd", {num(1), text("x")});
        return r;
    }();
    return v;
}
const std::vector<int>& boundary() {
    static const std::vector<int> b{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 18, 19, 0x20, 0x7f, 0x80, 0xfe, 0xff};
    return b;
}
std::string putAt(std::string m, size_t i, int v) { m[i] = static_cast<char>(v); return m; }
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. every short message
    mc::add("short/1", [] {
        auto how = mc::pick(hows);
        Session s;
        if (how != asText) hostile(s, "", how, true);
        for (int a = 0; a < (how == asText ? 128 : 256); ++a) hostile(s, std::string(1, static_cast<char>(a)), how, true);
    });
    for (int part = 0; part < 16; ++part)
        mc::add(mc::fmt("short/2/%d", part), [part] {
            auto how = mc::pick(hows);
            Session s;
            for (int a = part; a < (how == asText ? 128 : 256); a += 16)
                for (int b = 0; b < (how == asText ? 128 : 256); ++b) hostile(s, {static_cast<char>(a), static_cast<char>(b)}, how, b == 255);
        });
    for (int part = 0; part < 16; ++part)
        mc::add(mc::fmt("short/3/%d", part), [part, t] {
            std::vector<int> third{0, 1, 3, 0xff};
            if (mc::thorough()) third.insert(third.end(), {2, 4, 5, 18, 0x7e, 0x7f, 0x80});
            auto how = t ? mc::pick(2) : static_cast<int>(sameSegment);
            Session s;
            for (int a = part; a < 256; a += 16)
                for (int b = 0; b < 256; ++b)
                    for (auto c : third) hostile(s, {static_cast<char>(a), static_cast<char>(b), static_cast<char>(c)}, how, false);
        });
    for (size_t k = 0; k < valid().size(); ++k) {
        auto& v = valid()[k];
        // 2. every truncation, and every change of one byte into any other
        mc::add("cut/" + v.label, [&v] {
            auto how = mc::pick(asText);
            Session s(mc::flip());
            for (size_t n = 0; n <= v.msg.size(); ++n) hostile(s, v.msg.substr(0, n), how, true);
            for (size_t n = 0; n < v.msg.size(); ++n) hostile(s, v.msg.substr(n), how, false);
        });
        mc::add("byte/" + v.label, [&v] {
            auto how = mc::pick(asText);
            Session s;
            for (size_t i = 0; i < v.msg.size(); ++i)
                for (int b = 0; b < 256; ++b) hostile(s, putAt(v.msg, i, b), how, b == 0);
        });
        // 3. one byte inserted, removed, repeated; bytes after the message
        mc::add("edit/" + v.label, [&v] {
            auto how = mc::pick(asText);
            Session s;
            for (size_t i = 0; i <= v.msg.size(); ++i) {
                for (auto b : boundary()) hostile(s, v.msg.substr(0, i) + static_cast<char>(b) + v.msg.substr(i), how, false);
                if (i < v.msg.size()) hostile(s, v.msg.substr(0, i) + v.msg.substr(i + 1), how, false);
                hostile(s, v.msg.substr(0, i) + v.msg.substr(i) + v.msg.substr(0, i), how, false);
            }
        });
        // 4. a changed byte and a truncation; two structural bytes changed
        mc::add("byte-cut/" + v.label, [&v, t] {
            auto how = t ? mc::pick(asText) : static_cast<int>(sameSegment);
            Session s;
            for (auto i : v.structure)
                for (auto b : boundary())
                    for (size_t n = i + 1; n < v.msg.size(); ++n) hostile(s, putAt(v.msg, i, b).substr(0, n), how, false);
        });
        mc::add("two-bytes/" + v.label, [&v, t] {
            auto how = t ? mc::pick(asText) : static_cast<int>(sameSegment);
            Session s;
            for (auto i : v.structure)
                for (auto j : v.structure)
                    if (i < j)
                        for (auto a : boundary())
                            for (auto b : boundary()) hostile(s, putAt(putAt(v.msg, i, a), j, b), how, false);
        });
        // 5. as the first message of a connection, before any handshake
        mc::add("first/" + v.label, [&v] {
            auto i = static_cast<size_t>(mc::pick(static_cast<int>(v.structure.size()) + 1));
            auto b = i ? boundary()[static_cast<size_t>(mc::pick(static_cast<int>(boundary().size())))] : 0;
            Session s(false);
            hostile(s, i ? putAt(v.msg, v.structure[i - 1], b) : v.msg, mc::pick(2), true);
        });
    }
    // 6. sizes announced far beyond, for the payload and for strings, with more or less data present
    mc::add("announced", [] {
        Session s;
        auto how = mc::pick(asText);
        for (uint32_t announced : {0u, 1u, 8u, 9u, 10u, 11u, 255u, 256u, 4096u, 8192u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xfffffff7u, 0xfffffff8u, 0xfffffff9u, 0xffffffffu})
            for (size_t stringSize : {0, 1, 5, 255, 256, 300, 4096, 65535})
                for (size_t present : {0, 1, 5, 255, 256, 300, 5000}) {
                    auto p = encodeValue(text("sd"));
                    p += '\5';
                    p += static_cast<char>(stringSize);
                    p += static_cast<char>(stringSize >> 8);
                    p += std::string(present, 'p');
                    hostile(s, std::string("\3\2\0\0", 4) + le32(announced) + p, how, false);
                    auto q = std::string("\5", 1) + static_cast<char>(stringSize) + static_cast<char>(stringSize >> 8) + std::string(present, 'n');
                    hostile(s, std::string("\3\1\0\0", 4) + le32(announced) + q, how, false);
                    hostile(s, std::string("\3\1\0\0", 4) + le32(static_cast<uint32_t>(q.size())) + q, how, false);
                }
    });
    // 6b. functions of the application which fail, in any way
    for (size_t i = 0; i < raisers().size(); ++i)
        mc::add("raise/" + raisers()[i].first, [i] {
            Session s;
            auto& name = raisers()[i].first;
            auto& other = raisers()[static_cast<size_t>(mc::pick(static_cast<int>(raisers().size())))].first;
            auto how = mc::pick(asText);
            for (int n = 0; n < 3; ++n) {
                hostile(s, callMessage(name, {}), how, true);
                hostile(s, callMessage(other, {text("more")}), (how + n) % asText, true);
            }
            // each of them ran, and each side of the connection still works
            ran.clear();
            s.clients[1].binary(callMessage(name, {}));
            s.clients[0].binary(callMessage(other, {}));
            s.clients[1].binary(canary());
            s.wf->run();
            MC_REQUIRE(ran.size() == 3, "not-served", "%zu functions ran instead of three around '%s'", ran.size(), name.c_str());
            mc::outcome(i);
        });
    // 6c. a start handler which fails, in any way: the session and the others are served all the same
    mc::add("raise-at-start", [] {
        Session s(false);
        auto& r = mc::pickOf(raisers());
        auto who = mc::pick(3);
        auto size = mc::pick(2);
        int started = 0;
        s.wf->onUIStarted([&](WF::UI) { if (who == 2 || started++ == who) r.second(); });
        try {
            for (auto& c : s.clients) {
                c.binary(handshakeMessage(size));
                s.wf->run();
            }
            for (int n = 0; n < 2; ++n) hostile(s, callMessage("boom", {}), mc::pick(2), true);
            s.clients[0].binary(handshakeMessage(size));
            s.wf->run();
            hostile(s, callMessage("boom", {}), separately, true);
        }
        catch (const mc::Violation&) { throw; }
        catch (const mc::Prune&) { throw; }
        catch (const std::exception& e) { mc::fail("escaped-exception", "'" + r.first + "' in the start handler leaves the event loop"); }
        mc::outcome(static_cast<uint64_t>(who));
    });
    // 7. every sequence of hostile messages, in one segment
    mc::add("sequences", [t] {
        static const std::vector<std::string> few{std::string(), std::string(1, '\3'), callMessage("boom", {}), callMessage("i", {}), callMessage("sd", {text("abc")}), callMessage("unknown", {}), canary().substr(0, 20),
                                                  std::string("\3\2\0\0\xff\xff\xff\xff\4\2sd\4\3abc", 17), std::string("\0", 1), handshakeMessage(1), std::string("\2\0\xff\xff", 4), std::string(200, '\3')};
        Session s;
        std::string all;
        auto depth = t ? 4 : 3;
        for (int i = 0; i < depth; ++i) all += encodeFrame({true, 2, mc::pickOf(few), 1});
        all += encodeFrame({true, 2, canary(), 2});
        auto half = mc::pick(3);
        for (auto& part : cutAt(all, half == 0 ? std::vector<size_t>{} : half == 1 ? std::vector<size_t>{all.size() / 2} : std::vector<size_t>{all.size() / 3, all.size() - 5})) deliver(s.clients[0].conn, part);
        s.clients[1].binary(canary());
        s.wf->run();
        size_t canaries = 0;
        for (auto& r : ran) {
            if (r == canaryRan) ++canaries;
            else MC_REQUIRE(r.function == "boom", "arguments-not-in-message", "a sequence of malformed messages ran %s", r.function.c_str());
        }
        MC_REQUIRE(canaries == 2, "not-served", "%zu of the valid calls following malformed messages ran", canaries);
        for (auto& c : s.clients) {
            MC_REQUIRE(c.conn->open, "disconnected", "a connection was closed");
            c.frames();
        }
        mc::outcome(mc::hash(all));
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
