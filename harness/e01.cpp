// E01: percent coding is exact and lossless.
#include "exact.hpp"
#include "oracle.hpp"
#include "sim.hpp"
#include <http/Encodings.hpp>
using namespace h;

namespace {
void check(const std::string& s) {
    Exact x(s);
    auto e = webfront::uri::encode(x);
    auto want = oracle::percentEncode(s);
    MC_REQUIRE(e == want, "encode", "'%s' is encoded as '%s' instead of '%s'", show(s).c_str(), show(e).c_str(), show(want).c_str());
    for (unsigned char c : e)
        MC_REQUIRE((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '-' || c == '_' || c == '.' || c == '~' || c == '%', "reserved", "'%s' is encoded as '%s'", show(s).c_str(), show(e).c_str());
    Exact y(e);
    auto back = webfront::uri::decode(y);
    MC_REQUIRE(back == s, "lossy", "'%s' comes back as '%s'", show(s).c_str(), show(back).c_str());
    auto d = webfront::uri::decode(x);
    want = oracle::percentDecode(s);
    MC_REQUIRE(d == want, "decode", "'%s' is decoded as '%s' instead of '%s'", show(s).c_str(), show(d).c_str(), show(want).c_str());
    mc::count("evaluations");
    mc::outcome(mc::hash(s));
}
} // namespace

void declare() {
    // 1. every string of bytes of length 0 to 2 (3), and every pair of bytes after '%', with what may follow
    for (int a = 0; a < 256; ++a)
        mc::add(mc::fmt("bytes/%02x", a), [=] {
            std::string one(1, static_cast<char>(a));
            check(one);
            for (int b = 0; b < 256; ++b) {
                auto two = one + static_cast<char>(b);
                check(two);
                for (std::string head : {"", "%", "a", "%2"})
                    for (std::string tail : {"", "0", "%", "%2", "%41", "+"}) check(head + "%" + two + tail);
                if (mc::thorough()) for (int c = 0; c < 256; ++c) check(two + static_cast<char>(c));
            }
            mc::step(mc::hash(one));
        });
    // 2. every string of up to 6 (7) symbols
    static const std::vector<std::string> symbols{"%", "0", "a", "F", "g", "+", "2", "/", "\x80"};
    for (auto& f : symbols)
        for (auto& g : symbols)
            mc::add("symbols/" + show(f + g), [=] {
                check(f);
                strings(symbols, mc::thorough() ? 5 : 4, check, f + g);
                mc::step(mc::hash(f + g));
            });
    // 3. long strings: every length, a special byte at every position
    for (size_t n = 0; n <= (mc::thorough() ? 1200u : 300u); n += 20)
        mc::add(mc::fmt("long/%zu", n), [=] {
            for (size_t len = n; len < n + 20; ++len)
                for (std::string fill : {"a", "%", "\xff", "%41", "%4"}) {
                    std::string s;
                    while (s.size() < len) s += fill;
                    check(s);
                    s.resize(len);
                    check(s);
                    for (size_t i = 0; i < s.size(); i += 1 + len / 40)
                        for (char c : std::string("%+\0 \x80z", 6)) {
                            auto old = std::exchange(s[i], c);
                            check(s);
                            s[i] = old;
                        }
                }
            mc::step(n);
        });
    // 4. very long ones
    for (size_t n : {1000u, 1023u, 1024u, 1025u, 2048u, 4095u, 4096u, 4097u, 8192u, 8193u, 16384u, 32768u, 65535u, 65536u, 65537u, 131072u, 1048577u})
        mc::add(mc::fmt("large/%zu", n), [=] {
            for (std::string fill : {"a", "%", "\xff", "%41", "%4", "/", "+", "a/b c%2Fd?\x80"}) {
                std::string s;
                s.reserve(n + fill.size());
                while (s.size() < n) s += fill;
                check(s);
                s.resize(n);
                check(s);
                s[n - 1] = '%';
                check(s);
                s[n / 2] = ' ';
                check(s);
            }
            mc::step(n);
        });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
