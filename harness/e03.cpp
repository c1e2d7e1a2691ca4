// E03: base64 output is the RFC 4648 encoding for every input.
#include "exact.hpp"
#include "oracle.hpp"
#include "sim.hpp"
#include <deque>
#include <http/Encodings.hpp>
using namespace h;

namespace {
namespace b64 = webfront::base64;
std::string decodeB64(const std::string& s) { // independent of the encoder of the oracle
    static const std::string code = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    uint32_t bits = 0;
    int n = 0;
    for (char c : s) {
        if (c == '=') break;
        auto v = code.find(c);
        MC_REQUIRE(v != std::string::npos, "alphabet", "'%s' is not base64", show(s).c_str());
        bits = bits << 6 | static_cast<uint32_t>(v);
        if ((n += 6) >= 8) o += static_cast<char>(bits >> (n -= 8) & 255);
    }
    return o;
}
void is(const std::string& bytes, const std::string& got, const char* what) {
    auto want = oracle::base64(bytes);
    MC_REQUIRE(got == want, "wrong-encoding", "%s of '%s' is '%s' instead of '%s'", what, show(bytes).c_str(), show(got).c_str(), show(want).c_str());
    MC_REQUIRE(got.size() == (bytes.size() + 2) / 3 * 4 && decodeB64(got) == bytes, "lossy", "%s of '%s' is '%s'", what, show(bytes).c_str(), show(got).c_str());
    mc::count("evaluations");
    mc::outcome(mc::hash(bytes));
}
void check(const std::string& s) {
    Exact x(s);
    is(s, b64::encode(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(x.p.get()), x.n)), "the encoding");
}
template<typename T>
void wide(const std::string& s) { // s: a whole number of elements
    size_t n = s.size() / sizeof(T);
    std::vector<T> v(n);
    if (n) std::memcpy(v.data(), s.data(), s.size());
    auto name = mc::fmt("the encoding of %zu elements of %zu bytes", n, sizeof(T));
    is(s, b64::encode(v), name.c_str());
    is(s, b64::encode(std::span<const T>(v)), name.c_str());
    std::string swapped = s;
    for (size_t i = 0; i < n; ++i) std::reverse(swapped.begin() + static_cast<ptrdiff_t>(i * sizeof(T)), swapped.begin() + static_cast<ptrdiff_t>((i + 1) * sizeof(T)));
    is(swapped, b64::encodeInNetworkOrder(v), "the network order encoding");
    MC_REQUIRE(n == 0 || std::memcmp(v.data(), s.data(), s.size()) == 0, "input-changed", "the vector given to encodeInNetworkOrder is changed");
}
template<typename T, size_t N>
void fixed(const std::string& s) {
    if (s.size() != N * sizeof(T)) return;
    std::array<T, N> a{};
    std::memcpy(a.data(), s.data(), s.size());
    is(s, b64::encode(a), "the encoding of an array");
    std::string swapped = s;
    for (size_t i = 0; i < N; ++i) std::reverse(swapped.begin() + static_cast<ptrdiff_t>(i * sizeof(T)), swapped.begin() + static_cast<ptrdiff_t>((i + 1) * sizeof(T)));
    is(swapped, b64::encodeInNetworkOrder(a), "the network order encoding of an array");
}
void containers(const std::string& s) {
    check(s);
    is(s, b64::encode(s), "the encoding of a string");
    is(s, b64::encode(std::string_view(s)), "the encoding of a string view");
    wide<uint8_t>(s);
    if (s.size() % 2 == 0) { wide<uint16_t>(s); wide<int16_t>(s); wide<char16_t>(s); }
    if (s.size() % 4 == 0) { wide<uint32_t>(s); wide<int32_t>(s); }
    if (s.size() % 8 == 0) { wide<uint64_t>(s); wide<int64_t>(s); }
    fixed<uint8_t, 1>(s); fixed<uint8_t, 2>(s); fixed<uint8_t, 3>(s); fixed<uint8_t, 20>(s); fixed<uint16_t, 1>(s); fixed<uint16_t, 5>(s); fixed<uint32_t, 1>(s); fixed<uint32_t, 5>(s); fixed<uint64_t, 1>(s); fixed<uint64_t, 3>(s);
}
std::string background(size_t n, int kind) {
    std::string s(n, '\0');
    for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(kind == 0 ? 0 : kind == 1 ? 255 : kind == 2 ? i * 7 + 1 : i % 2 ? 0x55 : 0xaa);
    return s;
}
} // namespace

void declare() {
    mc::add("empty", [] { containers(""); mc::step(0); });
    // 1. every string of 1 and 2 bytes, of 3 bytes with the third from a set (all of them)
    for (int a = 0; a < 256; ++a)
        mc::add(mc::fmt("bytes/%02x", a), [=] {
            check(std::string(1, static_cast<char>(a)));
            for (int b = 0; b < 256; ++b) {
                std::string s{static_cast<char>(a), static_cast<char>(b)};
                check(s);
                for (int c = 0; c < 256; c += mc::thorough() ? 1 : 5) check(s + static_cast<char>(c));
            }
            mc::step(static_cast<uint64_t>(a));
        });
    // 2. every byte at every position of 3 to 12 bytes over several backgrounds, for every kind of container
    for (size_t n = 3; n <= 12; ++n)
        mc::add(mc::fmt("positions/%zu", n), [=] {
            for (int k = 0; k < 4; ++k)
                for (size_t i = 0; i < n; ++i)
                    for (int b = 0; b < 256; ++b) {
                        auto s = background(n, k);
                        s[i] = static_cast<char>(b);
                        containers(s);
                    }
            mc::step(n);
        });
    // 3. every length, wide elements with every byte at every place
    for (size_t n = 0; n <= (mc::thorough() ? 1040u : 320u); n += 16)
        mc::add(mc::fmt("lengths/%zu", n), [=] {
            for (size_t len = n; len < n + 16; ++len) for (int k = 0; k < 4; ++k) containers(background(len, k));
            mc::step(n);
        });
    for (size_t n : {16u, 20u, 24u, 40u})
        mc::add(mc::fmt("wide/%zu", n), [=] {
            for (int k = 0; k < 4; ++k)
                for (size_t i = 0; i < n; ++i)
                    for (int b = 0; b < 256; ++b) {
                        auto s = background(n, k);
                        s[i] = static_cast<char>(b);
                        if (n % 8 == 0) wide<uint64_t>(s);
                        wide<uint32_t>(s);
                        wide<uint16_t>(s);
                        fixed<uint32_t, 5>(s);
                        fixed<uint64_t, 3>(s);
                    }
            mc::step(n);
        });
    for (size_t n : {4095u, 4096u, 65535u, 65536u, 65537u, 1000000u})
        mc::add(mc::fmt("large/%zu", n), [=] { check(background(n, 2)); mc::step(n); });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
