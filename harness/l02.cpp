// L02: hexadecimal dumps show every byte at its address.
#include "exact.hpp"
#include "sim.hpp"
#include <tooling/HexDump.hpp>
#include <iomanip>
using namespace h;
namespace ut = webfront::utils;

namespace {
// the dump written by hand; byte 127 may be shown either way
std::string reference(std::string_view s, size_t start) {
    std::string o;
    for (size_t a = 0; a < s.size(); a += 16) {
        o += mc::fmt("%08zx", a + start);
        for (size_t i = a; i < a + 16; ++i) {
            if (i % 8 == 0) o += ' ';
            o += i < s.size() ? mc::fmt(" %02x", static_cast<unsigned char>(s[i])) : "   ";
        }
        o += ' ';
        for (size_t i = a; i < std::min(a + 16, s.size()); ++i) {
            auto c = static_cast<unsigned char>(s[i]);
            o += c < 32 || c > 127 ? '.' : static_cast<char>(c);
        }
        if (a + 16 < s.size()) o += '\n';
    }
    return o;
}
void same(std::string got, std::string_view s, size_t start, const char* what) {
    auto want = reference(s, start);
    if (s.find('\x7f') != std::string_view::npos && got.size() == want.size())
        for (size_t i = 0; i < got.size(); ++i) if (want[i] == '\x7f' && got[i] == '.') got[i] = '\x7f';
    MC_REQUIRE(got == want, "dump", "%s of %zu bytes at %zx is '%s' instead of '%s'", what, s.size(), start, show(got, 400).c_str(), show(want, 400).c_str());
    mc::count("evaluations");
    mc::outcome(mc::mix(mc::hash(s), start));
}
void check(const std::string& s, size_t start) {
    Exact x(s);
    std::span<const char> view(x.p.get(), x.n);
    same(ut::hexDump(view, start), s, start, "the dump");
    std::stringstream o;
    ut::HexDump<std::span<const char>> d(view, start);
    o << d;
    same(o.str(), s, start, "the streamed dump");
    if (start == 0) same(ut::hexDump(view), s, 0, "the dump");
}
template<typename T>
void wide(const std::string& s, size_t start) {
    if (s.size() % sizeof(T)) return;
    std::vector<T> v(s.size() / sizeof(T));
    if (!v.empty()) std::memcpy(v.data(), s.data(), s.size());
    same(ut::hexDump(v, start), s, start, "the dump of wide elements");
    same(ut::hexDump(std::span<T>(v), start), s, start, "the dump of a span of wide elements");
}
template<typename A, typename B>
void two(const std::string& s, size_t at) {
    if (at % sizeof(A) || (s.size() - at) % sizeof(B)) return;
    std::vector<A> a(at / sizeof(A));
    std::vector<B> b((s.size() - at) / sizeof(B));
    if (at) std::memcpy(a.data(), s.data(), at);
    if (at < s.size()) std::memcpy(b.data(), s.data() + at, s.size() - at);
    same(ut::hexDump(a, b), s, 0, "the dump of two buffers");
}
std::string background(size_t n, int kind) {
    std::string s(n, '\0');
    for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(kind == 0 ? i * 37 + 20 : kind == 1 ? 255 : 'A' + i % 26);
    return s;
}
const std::vector<size_t> starts{0, 1, 15, 16, 0x1000, 0xfffffff8u, 0x100000000u};
} // namespace

void declare() {
    size_t top = mc::thorough() ? 520 : 134;
    for (size_t n = 0; n < top; ++n)
        mc::add(mc::fmt("lengths/%zu", n), [=] {
            for (auto start : starts)
                for (int k = 0; k < 3; ++k) {
                    auto s = background(n, k);
                    check(s, start);
                    wide<uint8_t>(s, start);
                    wide<int8_t>(s, start);
                    wide<std::byte>(s, start);
                    wide<uint16_t>(s, start);
                    wide<uint32_t>(s, start);
                    wide<float>(s, start);
                    wide<uint64_t>(s, start);
                    same(ut::hexDump(s, start), s, start, "the dump of a string");
                    same(ut::hexDump(std::string_view(s), start), s, start, "the dump of a string view");
                }
            mc::step(n);
        });
    for (size_t n : {255u, 256u, 257u, 1000u, 4095u, 4096u, 4097u, 8192u, 32767u, 65535u, 65536u, 65537u, 65553u, 131072u, 1048577u})
        mc::add(mc::fmt("large/%zu", n), [=] {
            auto s = background(n, 0);
            for (auto start : {size_t(0), size_t(1), size_t(0xfff0), size_t(0xfffffff8u), size_t(0x100000000u)}) check(s, start);
            wide<uint8_t>(s, 0);
            wide<uint64_t>(s, 0);
            for (size_t at : {size_t(1), n / 2, n - 1}) two<char, uint8_t>(s, at);
            mc::step(n);
        });
    // every byte in every column of a line, of the first two and of a partial one
    for (size_t n : {1u, 8u, 9u, 16u, 32u, 37u})
        for (size_t i = 0; i < n; ++i)
            mc::add(mc::fmt("bytes/%zu,%zu", n, i), [=] {
                for (int k = 0; k < 2; ++k)
                    for (int b = 0; b < 256; ++b) {
                        auto s = background(n, k);
                        s[i] = static_cast<char>(b);
                        check(s, 0);
                        wide<uint8_t>(s, 0);
                        wide<std::byte>(s, 0);
                        wide<uint32_t>(s, 0);
                        two<char, char>(s, i);
                        two<uint8_t, std::byte>(s, i);
                    }
                mc::step(n * 64 + i);
            });
    // every split of every length into two buffers, of equal and different element sizes
    for (size_t n = 0; n <= (mc::thorough() ? 100u : 66u); ++n)
        mc::add(mc::fmt("two/%zu", n), [=] {
            for (size_t at = 0; at <= n; ++at)
                for (int k = 0; k < 2; ++k) {
                    auto s = background(n, k);
                    two<uint8_t, uint8_t>(s, at);
                    two<char, uint16_t>(s, at);
                    two<uint32_t, char>(s, at);
                    two<uint16_t, uint64_t>(s, at);
                    two<uint64_t, uint32_t>(s, at);
                    two<std::byte, std::byte>(s, at);
                    same(ut::hexDump(s.substr(0, at), std::string_view(s).substr(at)), s, 0, "the dump of two strings");
                }
            mc::step(n);
        });
    // streams in any state: unchanged afterwards, the dump as ever
    mc::add("stream-state", [] {
        using F = std::ios_base::fmtflags;
        const F bases[] = {F{}, std::ios::dec, std::ios::hex, std::ios::oct}, adjusts[] = {F{}, std::ios::left, std::ios::right, std::ios::internal}, floats[] = {F{}, std::ios::fixed};
        for (auto base : bases) for (auto adjust : adjusts) for (auto fl : floats)
            for (unsigned bits = 0; bits < 32; ++bits)
                for (char fill : {' ', '0', '*'})
                    for (int precision : {0, 6, 12})
                        for (size_t n : {0u, 1u, 16u, 17u}) {
                            auto s = background(n, 0);
                            std::ostringstream o;
                            F f = base | adjust | fl;
                            if (bits & 1) f |= std::ios::showbase;
                            if (bits & 2) f |= std::ios::uppercase;
                            if (bits & 4) f |= std::ios::showpos;
                            if (bits & 8) f |= std::ios::boolalpha;
                            if (bits & 16) f |= std::ios::skipws;
                            o.flags(f);
                            o.fill(fill);
                            o.precision(precision);
                            o << ut::HexDump<std::string>(s, 0x1a);
                            MC_REQUIRE(o.flags() == f && o.fill() == fill && o.precision() == precision && o.width() == 0, "state", "the formatting state of the stream is changed by a dump of %zu bytes", n);
                            std::string got = o.str(), want = reference(s, 0x1a);
                            if (bits & 2) // digits of either case
                                for (size_t i = 0; i < got.size() && i < want.size(); ++i) if (got[i] != want[i] && std::tolower(static_cast<unsigned char>(got[i])) == want[i]) got[i] = want[i];
                            MC_REQUIRE(got == want, "dump", "the dump on a stream with flags %x is '%s' instead of '%s'", static_cast<unsigned>(f), show(got, 200).c_str(), show(want, 200).c_str());
                            mc::count("evaluations");
                        }
        mc::step(1);
    });
    // numbers around a dump
    mc::add("around", [] {
        for (size_t n = 0; n < 40; ++n) {
            auto s = background(n, 0);
            std::ostringstream o;
            o << 255 << ' ' << ut::HexDump<std::string>(s) << ' ' << 255 << std::setw(4) << 7 << true << 1.5;
            MC_REQUIRE(o.str() == "255 " + reference(s, 0) + " 255   711.5", "state", "numbers after a dump are printed as '%s'", show(o.str(), 300).c_str());
            mc::count("evaluations");
        }
        mc::step(2);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
