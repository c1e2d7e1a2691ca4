// W01: WebSocket messages are delivered exactly, however their bytes arrive.
#include "ws_rig.hpp"
using namespace h;

namespace {
void check(const WsRig& r, const Stream& s, size_t received, const std::string& how, size_t& seen) {
    auto due = seen;
    while (due < s.completeAt.size() && s.completeAt[due] <= received) ++due;
    if (r.got.size() > due) mc::fail("early-or-extra", mc::fmt("after %zu of %zu bytes (%s) %zu messages delivered, only %zu are complete; got %s", received, s.bytes.size(), how.c_str(), r.got.size(), due, show(r.got).c_str()));
    if (r.got.size() < due) mc::fail("missing", mc::fmt("after %zu of %zu bytes (%s) %zu messages delivered but %zu are complete", received, s.bytes.size(), how.c_str(), r.got.size(), due));
    for (size_t i = seen; i < due; ++i) // what was delivered before is a copy of ours, which nothing changes
        if (!(r.got[i] == s.messages[i]))
            mc::fail("wrong-content", mc::fmt("message %zu (%s): sent type %d size %zu, delivered type %d size %zu%s", i, how.c_str(), s.messages[i].type, s.messages[i].payload.size(), r.got[i].type,
                                              r.got[i].payload.size(), r.got[i].payload == s.messages[i].payload ? "" : " with different bytes"));
    MC_REQUIRE(r.closed == 0, "closed", "the connection was closed (%s)", how.c_str());
    seen = due;
}
void runStream(const Stream& s, const std::vector<std::string>& segments) {
    WsRig r;
    size_t received = 0, seen = 0;
    std::string how = "segments";
    for (auto& g : segments) how += how.size() < 60 ? " " + std::to_string(g.size()) : "";
    for (auto& g : segments) {
        r.feed(g);
        received += g.size();
        check(r, s, received, how, seen);
    }
    MC_REQUIRE(r.got.size() == s.messages.size(), "missing", "%zu of %zu messages", r.got.size(), s.messages.size());
    uint64_t o = mc::hash(s.bytes);
    if (segments.size() < 100000) for (auto& g : segments) o = mc::mix(o, g.size());
    mc::outcome(o);
    mc::note("%zu bytes, %zu messages, %s -> %s", s.bytes.size(), s.messages.size(), how.c_str(), show(r.got).c_str());
}
std::vector<size_t> interesting(const Stream& s) {
    std::set<size_t> c;
    size_t start = 0;
    for (size_t i = 0; i < s.frameEnds.size(); ++i) {
        for (size_t k = start; k <= s.headerEnds[i] + 2; ++k) c.insert(k);
        for (size_t k = s.frameEnds[i] >= 2 ? s.frameEnds[i] - 2 : 0; k <= s.frameEnds[i]; ++k) c.insert(k);
        start = s.frameEnds[i];
    }
    for (size_t m = 8192; m < s.bytes.size() + 2; m += 8192)
        for (size_t k = m - 1; k <= m + 1; ++k) c.insert(k);
    c.erase(0);
    std::erase_if(c, [&](size_t k) { return k >= s.bytes.size(); });
    return {c.begin(), c.end()};
}
std::vector<std::string> chunks(const std::string& s, size_t n) {
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size(); i += n) r.push_back(s.substr(i, n));
    return r;
}

// every way of cutting a short stream
void allCuts(const Stream& s) {
    auto n = s.bytes.size();
    uint64_t cuts = 0;
    for (size_t i = 0; i + 1 < n; ++i)
        if (mc::flip()) cuts |= 1ull << i;
    runStream(s, composition(s.bytes, cuts));
}
// 0, 1, 2 (or 3) cuts at interesting positions
void someCuts(const Stream& s, int n) {
    auto at = interesting(s);
    std::vector<size_t> cuts;
    size_t from = 0;
    for (int i = 0; i < n && from < at.size(); ++i) {
        auto k = static_cast<size_t>(mc::pick(static_cast<int>(at.size() - from) + 1));
        if (k == 0) break;
        cuts.push_back(at[from + k - 1]);
        from += k;
    }
    runStream(s, cutAt(s.bytes, cuts));
}
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. single short messages: every payload length 0..6, every key, both types, every composition of the bytes
    for (int type : {1, 2})
        for (size_t len = 0; len <= (t ? 9u : 6u); ++len)
            for (int mask = 0; mask < 3; ++mask)
                mc::add(mc::fmt("one/type%d/len%zu/mask%d", type, len, mask), [=] {
                    Stream s;
                    s.frame({true, type, pattern(len, static_cast<unsigned>(type)), mask});
                    allCuts(s);
                });
    // 2. pairs of messages, every composition
    for (size_t a = 0; a <= 2; ++a)
        for (size_t b = 0; b <= 2; ++b)
            for (int m1 = 0; m1 < 2; ++m1)
                for (int m2 = 0; m2 < 2; ++m2) {
                    if (6 * (m1 + m2) + 2 * (2 - m1 - m2) + a + b > (t ? 17 : 14)) continue;
                    mc::add(mc::fmt("two/len%zu+%zu/mask%d%d", a, b, m1, m2), [=] {
                        Stream s;
                        s.frame({true, 1, pattern(a, 3), m1 ? 2 : 0}).frame({true, 2, pattern(b, 4), m2 ? 1 : 0});
                        allCuts(s);
                    });
                }
    // 3. three unmasked messages and fragmented ones, every composition
    for (int which = 0; which < 6; ++which)
        mc::add(mc::fmt("three/%d", which), [=] {
            Stream s;
            int type = 1 + mc::pick(2);
            switch (which) {
            case 0: s.frame({true, type, "a", 0}).frame({true, 3 - type, "", 0}).frame({true, type, "bc", 0}); break;
            case 1: s.frame({false, type, "a", 0}).frame({true, 0, "b", 0}).frame({true, 3 - type, "c", 0}); break;
            case 2: s.frame({false, type, "", 0}).frame({false, 0, "xy", 0}).frame({true, 0, "", 0}); break;
            case 3: s.frame({false, type, "a", 0}).frame({true, 9, "p", 0}).frame({true, 0, "b", 0}); break;
            case 4: s.frame({true, 9, "", 0}).frame({true, type, "q", 0}).frame({true, 10, "zz", 0}); break;
            case 5: s.frame({false, type, "abc", 0}).frame({true, 10, "", 0}).frame({true, 0, "", 0}).frame({true, type, "", 0}); break;
            }
            allCuts(s);
        });
    // 4. payload lengths around every encoding and buffer boundary; up to 2 (3) cuts, then regular chunks
    std::vector<size_t> lens{7, 124, 125, 126, 127, 128, 255, 256, 257, 1000, 8177, 8178, 8184, 8185, 8190, 8191, 8192, 8193, 8200, 16370, 16384, 65534, 65535, 65536, 65537, 70000};
    if (t) lens.insert(lens.end(), {129, 254, 512, 4096, 8176, 8179, 8180, 8181, 8182, 8183, 8186, 8187, 8188, 8189, 16383, 16385, 24576, 32767, 32768, 65538, 131071, 131072, 200000});
    for (auto len : lens)
        for (int mask : {0, 1, 2})
            for (int type : {1, 2}) {
                if (len > 60000 && !t && (mask == 1) == (type == 1)) continue;
                mc::add(mc::fmt("boundary/len%zu/mask%d/type%d", len, mask, type), [=] {
                    Stream s;
                    s.frame({true, type, pattern(len, 5), mask}).frame({true, 3 - type, "tail", mask});
                    someCuts(s, len <= 300 ? 3 : len < 9000 || mc::thorough() ? 2 : 1);
                });
                mc::add(mc::fmt("chunks/len%zu/mask%d/type%d", len, mask, type), [=] {
                    Stream s;
                    s.frame({true, type, pattern(len, 6), mask}).frame({true, type, pattern(3, 7), mask}).frame({true, 3 - type, pattern(len % 300, 8), mask});
                    std::vector<size_t> sizes;
                    if (len <= 1000) for (size_t k = 1; k <= 24; ++k) sizes.push_back(k);
                    for (size_t k : {125, 126, 127, 1000, 4096, 8191, 8192, 8193, 20000, 1000000}) sizes.push_back(k);
                    runStream(s, chunks(s.bytes, mc::pickOf(sizes)));
                });
            }
    // 5. length encodings that are longer than necessary
    for (int form : {1, 2})
        mc::add(mc::fmt("long-form/%d", form), [=] {
            Stream s;
            std::vector<size_t> ls{0, 1, 2, 125, 126, 300};
            auto len = mc::pickOf(ls);
            int mask = mc::pick(3);
            s.frame({true, 1 + mc::pick(2), pattern(len, 9), mask, form}).frame({true, 2, "next", mask});
            someCuts(s, 2);
        });
    // 6. every legal sequence of up to 4 (5) frames over an alphabet of fragments, whole messages and control frames
    for (int first = 0; first < 6; ++first)
        for (int second = 0; second < 8; ++second)
            mc::add(mc::fmt("sequence/%d-%d", first, second), [=] {
                Stream s;
                bool open = false;
                int depth = mc::thorough() ? 5 : 4;
                static const std::array<size_t, 3> small{1, 0, 130};
                auto frame = [&](int k, int i) {
                    // 0 text 1 binary 2 first text fragment 3 first binary fragment 4 ping 5 pong 6 middle fragment 7 last fragment
                    bool needsOpen = k >= 6, needsClosed = k <= 3;
                    if ((needsOpen && !open) || (needsClosed && open)) return false;
                    auto len = i < 2 ? small[static_cast<size_t>(mc::pick(3))] : small[static_cast<size_t>((i + k) % 3)];
                    int mask = (i + k) % 3;
                    auto p = pattern(len, static_cast<unsigned>(10 + i));
                    switch (k) {
                    case 0: case 1: s.frame({true, 1 + k, p, mask}); break;
                    case 2: case 3: s.frame({false, k - 1, p, mask}); open = true; break;
                    case 4: case 5: s.frame({true, k + 5, p.substr(0, 125), mask}); break;
                    case 6: s.frame({false, 0, p, mask}); break;
                    case 7: s.frame({true, 0, p, mask}); open = false; break;
                    }
                    return true;
                };
                if (!frame(first, 0) || !frame(second, 1)) return;
                for (int i = 2; i < depth; ++i) {
                    auto k = mc::pick(9);
                    if (k == 8) break;
                    if (!frame(k, i)) throw mc::Prune{};
                }
                auto n = s.bytes.size();
                // whole, frame by frame, byte by byte, or one cut at an interesting place
                auto at = interesting(s);
                auto how = mc::pick(3 + static_cast<int>(at.size()));
                if (how == 0) runStream(s, {s.bytes});
                else if (how == 1) runStream(s, cutAt(s.bytes, std::vector<size_t>(s.frameEnds.begin(), s.frameEnds.end() - 1)));
                else if (how == 2) runStream(s, chunks(s.bytes, 1));
                else runStream(s, cutAt(s.bytes, {at[static_cast<size_t>(how - 3)]}));
                (void)n;
            });
    // 7. an application which handles only one type still gets all messages of that type
    for (int only = 1; only <= 2; ++only)
        mc::add(mc::fmt("one-handler/%d", only), [=] {
            Stream s;
            std::vector<Msg> expect;
            for (int i = 0; i < 5; ++i) {
                int type = 1 + mc::pick(2);
                s.frame({true, type, pattern(static_cast<size_t>(i * 50), static_cast<unsigned>(i)), 1});
                if (type == only) expect.push_back(s.messages.back());
            }
            WsRig r(only == 1, only == 2);
            std::vector<size_t> sizes{1000000, 1, 7, 60};
            for (auto& g : chunks(s.bytes, mc::pickOf(sizes))) r.feed(g);
            MC_REQUIRE(r.got == expect, "one-handler", "expected %zu messages, got %s", expect.size(), show(r.got).c_str());
            mc::outcome(mc::hash(s.bytes));
        });
    // 8. reads of a segment larger than the reception buffer, many messages in one segment
    for (size_t size : {1, 3, 100, 125, 126, 200, 4095, 8186})
        mc::add(mc::fmt("burst/size%zu", size), [=] {
            Stream s;
            int mask = mc::pick(3);
            size_t total = 0, i = 0;
            while (total < 30000) {
                s.frame({true, 1 + static_cast<int>(i % 2), pattern(size + i % 3, static_cast<unsigned>(i)), mask});
                total = s.bytes.size();
                ++i;
            }
            std::vector<size_t> sizes{1000000, 8192, 8191, 8193, 5000, 513, 64, 13};
            runStream(s, chunks(s.bytes, mc::pickOf(sizes)));
        });
    // 9. payloads around every power of two up to 2^24 (2^26), fed whole, in large and in small reads
    for (int bits = 17; bits <= (t ? 26 : 24); ++bits)
        for (int fragments : {1, 3})
            mc::add(mc::fmt("large/2^%d/fragments%d", bits, fragments), [=] {
                auto len = (size_t{1} << bits) + static_cast<size_t>(mc::pick(3)) - 1;
                int mask = bits % 3, type = 1 + mc::pick(bits > 20 ? 1 : 2);
                Stream s;
                auto p = pattern(len, static_cast<unsigned>(bits));
                if (fragments == 1) s.frame({true, type, p, mask});
                else s.frame({false, type, p.substr(0, len / 2), mask}).frame({false, 0, p.substr(len / 2, 70000), mask}).frame({true, 0, p.substr(len / 2 + std::min<size_t>(70000, len - len / 2)), mask});
                s.frame({true, 3 - type, "tail", mask});
                std::vector<size_t> sizes{1000000000, 65536};
                runStream(s, chunks(s.bytes, sizes[static_cast<size_t>(mc::pick(bits > 20 ? 1 : 2))]));
            });
    // 10. long histories: many messages on one connection, many fragments in one message
    for (size_t count : {300, 1100, 5000, 70000})
        for (int kind = 0; kind < 3; ++kind)
            mc::add(mc::fmt("history/%zu/kind%d", count, kind), [=] {
                Stream s;
                int mask = mc::pick(3), type = 1 + mc::pick(2);
                if (kind == 0) for (size_t i = 0; i < count; ++i) s.frame({true, 1 + static_cast<int>(i % 2), pattern(i % 5, static_cast<unsigned>(i)), mask});
                else if (kind == 1) {
                    s.frame({false, type, "start", mask});
                    for (size_t i = 0; i < count; ++i) s.frame({false, 0, pattern(i % 3, static_cast<unsigned>(i)), mask});
                    s.frame({true, 0, "end", mask});
                }
                else {
                    s.frame({false, type, "start", mask});
                    for (size_t i = 0; i < count; ++i) s.frame({true, i % 2 ? 9 : 10, pattern(i % 126, static_cast<unsigned>(i)), mask});
                    s.frame({true, 0, "end", mask});
                }
                s.frame({true, 3 - type, "tail", mask});
                std::vector<size_t> sizes{1000000000, 8191};
                runStream(s, chunks(s.bytes, mc::pickOf(sizes)));
            });
    // 11. all four key bytes matter, at every payload offset modulo 4, across reads
    mc::add("keys", [=] {
        Stream s;
        auto len = static_cast<size_t>(mc::pick(10));
        s.frame({true, 2, pattern(len, 20), 1 + mc::pick(2)}).frame({true, 1, pattern(static_cast<size_t>(mc::pick(6)), 21), 2});
        someCuts(s, 2);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
