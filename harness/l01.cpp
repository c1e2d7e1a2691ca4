// L01: log messages reach exactly the active sinks at enabled levels, in order.
#include "exact.hpp"
#include "sim.hpp"
#include <tooling/Logger.hpp>
#include <set>
using namespace h;
namespace lg = webfront::log;

namespace {
// the sinks kept by the logger, emptied between sequences when they are what they seem to be (else they only pile up, unused)
template<typename L = lg::VerifSinks>
void forget() {
    if constexpr (requires { L::sinks; })
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(L::sinks)>, std::vector<std::function<void(std::string_view)>>>) {
            for (auto& s : L::sinks) MC_REQUIRE(!s, "still-registered", "a sink stays registered though all were removed");
            L::sinks.clear();
        }
}
struct Received {
    int sink;
    std::string text;
};
std::vector<Received> received;
struct Ref {
    struct Sink { size_t id; int tag; bool known; }; // known: its identifier was given to us
    std::vector<Sink> active;
    std::vector<size_t> handed; // every identifier given
    std::set<size_t> given;
    bool level[5]{};
    int tags = 0;
};
auto sinkOf(int tag) { return [tag](std::string_view t) { received.push_back({tag, std::string(t)}); }; }
void handed(Ref& r, size_t id, int tag, bool known) {
    MC_REQUIRE(!known || r.given.insert(id).second, "same-id", "identifier %zu is given twice", id);
    r.active.push_back({id, tag, known});
    if (known) r.handed.push_back(id);
}
void add1(Ref& r) {
    int t = r.tags++;
    handed(r, lg::addSinks(sinkOf(t)), t, true);
}
void add2(Ref& r) {
    int a = r.tags++, b = r.tags++;
    auto id = lg::addSinks(sinkOf(a), sinkOf(b));
    handed(r, id - 1, a, true); // as if added one after the other: the identifiers follow each other
    handed(r, id, b, true);
}
void add3(Ref& r) {
    int a = r.tags++, b = r.tags++, c = r.tags++;
    std::function<void(std::string_view)> lvalue = sinkOf(b); // kept by the caller
    auto id = lg::addSinks(sinkOf(a), lvalue, sinkOf(c));
    MC_REQUIRE(static_cast<bool>(lvalue), "stolen", "a sink given as an lvalue is moved from");
    handed(r, id - 2, a, true);
    handed(r, id - 1, b, true);
    handed(r, id, c, true);
}
void gone(Ref& r, size_t id) { std::erase_if(r.active, [&](auto& s) { return s.id == id; }); }
void level(Ref& r, int l) {
    lg::setLogLevel(static_cast<uint8_t>(l));
    for (int i = 1; i <= 4; ++i) r.level[i] = i <= l;
}
void set(Ref& r, int l, bool on) {
    lg::set(static_cast<uint8_t>(l), on);
    r.level[l] = on;
}
bool timeLike(std::string_view t) {
    if (t.size() < 8) return false;
    for (size_t i = 0; i < t.size(); ++i) {
        bool digit = t[i] >= '0' && t[i] <= '9';
        if (i == 2 || i == 5) { if (t[i] != ':') return false; }
        else if (i == 8) { if (t[i] != '.') return false; }
        else if (!digit) return false;
    }
    return true;
}
std::string trim(std::string_view s) {
    while (!s.empty() && s.front() == ' ') s.remove_prefix(1);
    while (!s.empty() && s.back() == ' ') s.remove_suffix(1);
    return std::string(s);
}
void line(std::string_view got, char letter, const std::string& text, int sourceLine) {
    auto bad = [&](const char* what) { MC_REQUIRE(false, what, "the log line of level %c and text '%s' is '%s'", letter, show(text).c_str(), show(got).c_str()); };
    if (!got.starts_with(mc::fmt("[%c] ", letter))) bad("letter");
    auto rest = got.substr(4);
    auto bar = rest.find(" | ");
    if (bar == std::string_view::npos || !timeLike(rest.substr(0, bar))) bad("time");
    rest = rest.substr(bar + 3);
    if (sourceLine) {
        bar = rest.find(" | ");
        if (bar == std::string_view::npos) bad("location");
        auto where = rest.substr(0, bar);
        auto colon = where.rfind(':');
        if (colon == std::string_view::npos || trim(where.substr(0, colon)) != "l01.cpp" || trim(where.substr(colon + 1)) != std::to_string(sourceLine)) bad("location");
        rest = rest.substr(bar + 3);
    }
    if (rest != text) bad("text");
}
// everything received is this text, once by each active sink, in the order of registration
void expect(Ref& r, int lvl, const std::string& text, int sourceLine) {
    std::string what;
    for (auto& x : received) what += mc::fmt("%d ", x.sink);
    if (!r.level[lvl]) {
        MC_REQUIRE(received.empty(), "disabled", "a message of disabled level %d is delivered to %s", lvl, what.c_str());
        return;
    }
    std::string want;
    for (auto& s : r.active) want += mc::fmt("%d ", s.tag);
    MC_REQUIRE(what == want, "sinks", "a message of level %d is delivered to %s instead of %s", lvl, what.c_str(), want.c_str());
    for (auto& x : received) line(x.text, "?EWID"[lvl], text, sourceLine);
}
void logAll(Ref& r, int n) {
    received.clear();
    lg::error("error {}", n);
    expect(r, 1, mc::fmt("error %d", n), 0);
    received.clear();
    lg::warn("warn {} {}", n, "w");
    expect(r, 2, mc::fmt("warn %d w", n), 0);
    received.clear();
    lg::info("info");
    expect(r, 3, "info", 0);
    received.clear();
    lg::debug("debug {}", n); int at = __LINE__;
    expect(r, 4, mc::fmt("debug %d", n), at);
    for (int l = 1; l <= 4; ++l) MC_REQUIRE(lg::is(static_cast<uint8_t>(l)) == r.level[l], "is", "is(%d) is wrong", l);
    mc::count("evaluations", 4);
}
// operations, by number; the last ones remove the n-th identifier ever given
constexpr int levelOps = 5 + 8;
int ops(const Ref& r) { return levelOps + 3 + static_cast<int>(r.handed.size()) + (r.handed.size() > 1 ? static_cast<int>(r.handed.size()) : 0) + (r.handed.size() > 2 ? 1 : 0); }
void apply(Ref& r, int op) {
    if (op < 5) return level(r, op);
    if ((op -= 5) < 8) return set(r, 1 + op / 2, op % 2);
    if ((op -= 8) < 3) return op == 0 ? add1(r) : op == 1 ? add2(r) : add3(r);
    op -= 3;
    int n = static_cast<int>(r.handed.size());
    if (op < n) { // removed already or not
        lg::removeSinks(r.handed[static_cast<size_t>(op)]);
        return gone(r, r.handed[static_cast<size_t>(op)]);
    }
    op -= n;
    if (op < n) { // two at once: this one and the next one, in decreasing order every other time
        auto a = r.handed[static_cast<size_t>(op)], b = r.handed[static_cast<size_t>((op + 1) % n)];
        if (op % 2) std::swap(a, b);
        lg::removeSinks(a, b);
        gone(r, a);
        return gone(r, b);
    }
    lg::removeSinks(r.handed[0], r.handed[static_cast<size_t>(n / 2)], r.handed[static_cast<size_t>(n - 1)]);
    gone(r, r.handed[0]);
    gone(r, r.handed[static_cast<size_t>(n / 2)]);
    gone(r, r.handed[static_cast<size_t>(n - 1)]);
}
void runSequence(const std::vector<int>& s) {
    Ref r;
    level(r, 4);
    for (auto op : s) apply(r, op);
    logAll(r, static_cast<int>(s.size()));
    mc::outcome(mc::hashBytes(s.data(), s.size() * sizeof(int)));
    for (auto id : r.handed) lg::removeSinks(id);
    r.active.clear();
    received.clear();
    lg::setLogLevel(lg::Debug);
    lg::error("nobody");
    MC_REQUIRE(received.empty(), "sinks", "a message is delivered though all sinks were removed");
    forget();
}
void explore(std::vector<int>& s, size_t depth, int from) { // from: 0 all operations, levelOps sinks only
    runSequence(s);
    if (s.size() == depth) return;
    // the number of operations available after s
    size_t handedOut = 0;
    for (auto op : s) { int a = op - levelOps; if (a >= 0 && a < 3) handedOut += static_cast<size_t>(a) + 1; }
    Ref shape;
    shape.handed.resize(handedOut);
    int n = ops(shape);
    for (int op = from; op < n; ++op) {
        s.push_back(op);
        explore(s, depth, from);
        s.pop_back();
    }
}
} // namespace

void farAway();
void declare() {
    bool t = mc::thorough();
    // 1. all sequences of 5 (6) operations, of 6 (7) on the sinks alone
    for (int a = 0; a < levelOps + 3; ++a)
        for (int b = 0; b < levelOps + 3 + 7; ++b)
            mc::add(mc::fmt("all/%d,%d", a, b), [=] {
                Ref r;
                r.handed.resize(a >= levelOps ? static_cast<size_t>(a - levelOps) + 1 : 0);
                if (b >= ops(r)) return;
                std::vector<int> s{a};
                if (b == 0) runSequence(s);
                s.push_back(b);
                explore(s, t ? 6 : 5, 0);
                if (a >= levelOps && b >= levelOps) explore(s, t ? 7 : 6, levelOps);
                mc::step(static_cast<uint64_t>(a * 64 + b));
            });
    // 2. texts: arguments of every kind, long texts, braces, control characters
    mc::add("texts", [] {
        Ref r;
        level(r, 4);
        add2(r);
        auto same = [&](int l, const std::string& want, int at) { expect(r, l, want, at); received.clear(); mc::count("evaluations"); };
        received.clear();
        std::vector<size_t> lengths{511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65534, 65535, 65536, 65537, 1000000};
        for (size_t n = 300; n--;) lengths.push_back(n);
        for (auto n : lengths) {
            std::string s(n, 'x');
            if (n > 2) s.back() = 'z';
            lg::info("{}", s); same(3, s, 0);
            lg::error("<{}>", std::string_view(s)); same(1, "<" + s + ">", 0);
            lg::warn(s); same(2, s, 0);
            lg::debug("{}", s); same(4, s, __LINE__);
        }
        lg::info("{} {} {} {}", 1, -2.5, true, 'c'); same(3, "1 -2.5 true c", 0);
        lg::debug("{} {} {}", 1u, "two", std::string("three")); same(4, "1 two three", __LINE__);
        lg::error("{{}} {:#x} {:>5}", 255, 7); same(1, "{} 0xff     7", 0);
        lg::warn("{1}{0}", "a", "b"); same(2, "ba", 0);
        for (int c = 0; c < 256; ++c) {
            std::string s{'<', static_cast<char>(c), '>'};
            lg::info("{}", s); same(3, s, 0);
        }
        lg::info("{}", "{not a format}"); same(3, "{not a format}", 0);
        lg::debug("{}", " | "); same(4, " | ", __LINE__);
        for (auto id : r.handed) lg::removeSinks(id);
        mc::step(1);
    });
    // 3. infoHex: a title and the dump, at the info level only
    mc::add("hex", [] {
        Ref r;
        add2(r);
        for (int l = 0; l <= 4; ++l) {
            level(r, l);
            received.clear();
            lg::infoHex("title", std::string("\x01" "A"));
            MC_REQUIRE(received.size() == (l >= 3 ? 4u : 0u), "hex", "infoHex delivers %zu texts at level %d", received.size(), l);
            if (l >= 3) {
                MC_REQUIRE(received[0].sink == 0 && received[1].sink == 1 && received[2].sink == 0 && received[3].sink == 1, "hex", "infoHex does not follow the order of the sinks");
                line(received[0].text, 'I', "title", 0);
                MC_REQUIRE(received[2].text.find("01 41") != std::string::npos && received[3].text == received[2].text, "hex", "infoHex delivers '%s'", show(received[2].text).c_str());
            }
            mc::count("evaluations");
        }
        for (auto id : r.handed) lg::removeSinks(id);
        mc::step(2);
    });
    // 4. many sinks
    mc::add("many", [] {
        Ref r;
        level(r, 4);
        for (int n = 0; n < 70; ++n) {
            add1(r);
            if (n % 3 == 2) { auto id = r.handed[static_cast<size_t>(n) / 2]; lg::removeSinks(id); gone(r, id); }
            logAll(r, n);
        }
        for (auto id : r.handed) { lg::removeSinks(id); gone(r, id); logAll(r, 1); }
        mc::step(3);
    });
    // 5. sinks which remove others or themselves, or log in turn, while a message is delivered
    mc::add("from-a-sink", [] {
        for (size_t n = 1; n <= 4; ++n)
            for (size_t who = 0; who < n; ++who)
                for (size_t victims = 0; victims < (1u << n); ++victims)
                    for (int nested = 0; nested < 3; ++nested) { // nothing, at an enabled level, at a disabled level
                        lg::setLogLevel(lg::Info);
                        std::vector<std::string> got(n);
                        std::vector<size_t> ids(n);
                        bool armed = false;
                        for (size_t k = 0; k < n; ++k)
                            ids[k] = lg::addSinks([&, k, n, who, victims, nested](std::string_view t) {
                                got[k] += t.substr(t.rfind('|') + 1);
                                if (k == who && std::exchange(armed, false)) {
                                    if (nested == 1) lg::info("in");
                                    if (nested == 2) lg::debug("never");
                                    for (size_t j = 0; j < n; ++j) if (victims >> j & 1 && j != who) lg::removeSinks(ids[j]);
                                    if (victims >> who & 1) lg::removeSinks(ids[who]); // nothing captured is used from here
                                }
                            });
                        armed = true;
                        lg::info("out");
                        lg::info("last");
                        for (size_t k = 0; k < n; ++k) {
                            bool removed = victims >> k & 1;
                            std::string in = nested == 1 ? " in" : "", want;
                            if (k <= who) want = " out" + in;
                            else want = in + (removed ? "" : " out");
                            if (!removed) want += " last";
                            MC_REQUIRE(got[k] == want, "sinks", "of %zu sinks, the number %zu removes those of mask %zu while called: sink %zu receives '%s' instead of '%s'", n, who, victims, k, got[k].c_str(), want.c_str());
                        }
                        for (auto id : ids) lg::removeSinks(id);
                        forget();
                        mc::count("evaluations");
                    }
        mc::step(5);
    });
    mc::add("far", [] { farAway(); });
    mc::add("crowd", [] {
        Ref r;
        level(r, 4);
        for (int n = 0; n < 1500; ++n) {
            add1(r);
            if (n % 100 == 99 || n == 255 || n == 256 || n == 257) logAll(r, n);
        }
        for (size_t k = 0; k < r.handed.size(); k += 2) {
            lg::removeSinks(r.handed[k]);
            gone(r, r.handed[k]);
            if (k % 100 == 0 || k == 254 || k == 256) logAll(r, 1);
        }
        logAll(r, 1);
        for (int n = 0; n < 300; ++n) add1(r);
        logAll(r, 2);
        for (auto id : r.handed) lg::removeSinks(id);
        forget();
        mc::step(4);
    });
}
// far down a long source file
#line 99998
void farAway() {
    Ref r;
    level(r, 4);
    add2(r);
    auto at = [&](int l) { expect(r, 4, "far", l); received.clear(); mc::count("evaluations"); };
    received.clear();
    lg::debug("far"); at(__LINE__);
    lg::debug("far"); at(__LINE__);
    lg::debug("far"); at(__LINE__);
    for (auto id : r.handed) lg::removeSinks(id);
#line 2000000000
    r.active.clear();
    r.handed.clear();
    add2(r);
    lg::debug("far"); at(__LINE__);
    for (auto id : r.handed) lg::removeSinks(id);
    forget();
    mc::step(6);
}
int main(int c, char** v) { return mc::run(c, v, declare); }
