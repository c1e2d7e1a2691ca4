// E04: SHA-1 digests are correct for every message length.
#include "exact.hpp"
#include "oracle.hpp"
#include "sim.hpp"
#include <http/Encodings.hpp>
#include <http/WebSocket.hpp>
using namespace h;

namespace {
namespace crypto = webfront::crypto;
std::string hexOf(const std::array<uint32_t, 5>& d) {
    std::string s;
    for (auto v : d) s += mc::fmt("%08x", v);
    return s;
}
void check(const std::string& m) {
    Exact x(m);
    auto d = crypto::sha1(x);
    auto want = oracle::sha1(m);
    MC_REQUIRE(d == want, "digest", "the digest of %zu bytes '%s' is %s instead of %s", m.size(), show(m, 40).c_str(), hexOf(d).c_str(), hexOf(want).c_str());
    auto t = crypto::sha1String(x);
    MC_REQUIRE(t == hexOf(want), "text", "the text of the digest of %zu bytes is '%s' instead of '%s'", m.size(), show(t).c_str(), hexOf(want).c_str());
    mc::count("evaluations");
    mc::outcome(mc::hash(m));
}
std::string background(size_t n, int kind) {
    std::string s(n, '\0');
    for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(kind == 0 ? 0 : kind == 1 ? 255 : kind == 2 ? i * 7 + 1 : kind == 3 ? 'a' : 0x80);
    return s;
}
// compile-time evaluation, observed without making this harness fail to compile
struct Text {
    char c[300]{};
    size_t n = 0;
    constexpr explicit Text(size_t len) : n(len) { for (size_t i = 0; i < len; ++i) c[i] = static_cast<char>(i * 37 + len); }
    constexpr std::string_view view() const { return {c, n}; }
};
template<size_t N>
constexpr bool constant = requires { typename std::bool_constant<(crypto::sha1(Text(N).view())[0] | 1u) != 0>; };
template<size_t N>
void compileTime() {
    if constexpr (constant<N>) {
        constexpr auto d = [] { Text t(N); return crypto::sha1(t.view()); }();
        Text t(N);
        auto want = oracle::sha1(t.view());
        MC_REQUIRE(d == want, "compile-time", "the compile-time digest of %zu bytes is %s instead of %s", N, hexOf(d).c_str(), hexOf(want).c_str());
        mc::count("evaluations");
    }
    else MC_REQUIRE(false, "compile-time", "the digest of %zu bytes is no constant expression", N);
}
const char* const vectors[][2] = {{"", "da39a3ee5e6b4b0d3255bfef95601890afd80709"}, {"abc", "a9993e364706816aba3e25717850c26c9cd0d89d"}, {"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "84983e441c3bd26ebaae4aa1f95129e5e54670f1"}, {"The quick brown fox jumps over the lazy dog", "2fd4e1c67a2d28fced849ee1bb76e7391b93eb12"}};
} // namespace

void declare() {
    mc::add("vectors", [] {
        for (auto& [m, d] : vectors) {
            MC_REQUIRE(hexOf(oracle::sha1(m)) == d, "oracle", "the oracle is wrong on '%s'", m);
            check(m);
        }
        std::string million(1000000, 'a');
        MC_REQUIRE(hexOf(oracle::sha1(million)) == "34aa973cd4c4daa4f61eeb2bdbad27316534016f", "oracle", "the oracle is wrong on a million a");
        check(million);
        mc::step(1);
    });
    // 1. every length
    size_t top = mc::thorough() ? 4200 : 1100;
    for (size_t n = 0; n < top; n += 25)
        mc::add(mc::fmt("lengths/%zu", n), [=] {
            for (size_t len = n; len < n + 25; ++len) for (int k = 0; k < 5; ++k) check(background(len, k));
            mc::step(n);
        });
    // 2. every byte value in every position of one block and around the padding boundaries
    for (size_t len : {1u, 55u, 56u, 57u, 63u, 64u, 65u, 119u, 120u, 128u})
        for (int k = 0; k < 3; ++k)
            mc::add(mc::fmt("positions/%zu,%d", len, k), [=] {
                for (size_t i = 0; i < len; ++i)
                    for (int b = 0; b < 256; b += mc::thorough() || len <= 64 ? 1 : 3) {
                        auto s = background(len, k);
                        s[i] = static_cast<char>(b);
                        check(s);
                    }
                mc::step(len);
            });
    // 3. sequences: no state is kept between messages
    mc::add("history", [] {
        std::vector<std::string> ms;
        for (size_t n : {0u, 1u, 3u, 55u, 56u, 63u, 64u, 65u, 200u}) ms.push_back(background(n, 2));
        for (auto& a : ms) for (auto& b : ms) for (auto& c : ms) { check(a); check(b); check(c); }
        mc::step(2);
    });
    // 4. the accept key of every key length
    mc::add("accept-key", [] {
        for (size_t n = 0; n <= 300; ++n)
            for (int k = 1; k < 4; ++k) {
                auto key = background(n, k);
                auto got = webfront::websocket::getHashedSecKey(key);
                MC_REQUIRE(got == oracle::acceptKey(key), "accept-key", "the accept key of '%s' is '%s'", show(key).c_str(), show(got).c_str());
                mc::count("evaluations");
            }
        MC_REQUIRE(oracle::acceptKey("dGhlIHNhbXBsZSBub25jZQ==") == "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "oracle", "the oracle is wrong on the key of RFC 6455");
        mc::step(3);
    });
    // 5. at compile time
    mc::add("compile-time", [] {
        compileTime<0>(); compileTime<1>(); compileTime<3>(); compileTime<54>(); compileTime<55>(); compileTime<56>(); compileTime<57>(); compileTime<62>(); compileTime<63>(); compileTime<64>(); compileTime<65>(); compileTime<119>(); compileTime<120>(); compileTime<127>(); compileTime<128>(); compileTime<129>(); compileTime<250>();
        mc::step(4);
    });
    // 6. bit counts beyond 16, 24 and 32 bits; digests of zeros by sha1sum
    struct Big { uint64_t n; const char* digest; };
    static const Big bigs[] = {{8191ull, "3e5175386be683d2f231f3fa3eab892a799082f7"}, {8192ull, "0631457264ff7f8d5fb1edc2c0211992a67c73e6"}, {65536ull, "1adc95bebe9eea8c112d40cd04ab7a8d75c4f961"}, {2097151ull, "f17019cb3e912ef093a92c496a5233043e52ffce"}, {2097152ull, "7d76d48d64d7ac5411d714a4bb83f37e3e5b8df6"}, {33554432ull, "57b587e1bf2d09335bdac6db18902d43dfe76449"}, {536870911ull, "7d32aa572655d797397393e83c8204082f7e71e5"}, {536870912ull, "5b088492c9f4778f409b7ae61477dec124c99033"}, {4294967296ull, "1bf99ee9f374e58e201e4dda4f474e570eb77229"}};
    for (auto& b : bigs) {
        if (b.n > 600000000 && !mc::thorough()) continue;
        mc::add(mc::fmt("big/%llu", static_cast<unsigned long long>(b.n)), [&b] {
            mc::armWatchdog(600);
            void* p = mmap(nullptr, b.n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            MC_REQUIRE(p != MAP_FAILED, "harness", "no memory");
            auto d = hexOf(crypto::sha1(std::string_view(static_cast<const char*>(p), b.n)));
            munmap(p, b.n);
            MC_REQUIRE(d == b.digest, "digest", "the digest of %llu zero bytes is %s instead of %s", static_cast<unsigned long long>(b.n), d.c_str(), b.digest);
            mc::count("evaluations");
            mc::outcome(b.n);
            mc::step(b.n);
        });
    }
}
int main(int c, char** v) { return mc::run(c, v, declare); }
