// F01: files are read back exactly with any sequence of read sizes.
#include "exact.hpp"
#include "sim.hpp"
#include <system/FileSystem.hpp>
#include <system/NativeFS.hpp>
#include <fstream>
using namespace h;
namespace fs = std::filesystem;
using webfront::fs::File;

namespace {
const std::vector<size_t> sizes{0, 1, 2, 3, 5, 7, 8, 9, 16, 512};
std::string content(size_t n, int kind) {
    std::string s(n, '\0');
    for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(kind == 0 ? i * 31 + 7 + (i >> 8) : kind == 1 ? "\r\n\x1a\0\xff\n"[i % 6] : kind == 2 ? 0xff - i % 3 : 0);
    return s;
}
// words on the heap: nothing follows them
struct Embedded {
    std::string content;
    std::unique_ptr<uint64_t[]> words;
    size_t count;
    Embedded(std::string c, size_t spare = 0) : content(std::move(c)), count((content.size() + 7) / 8 + spare) {
        words.reset(new uint64_t[count]);
        for (size_t i = 0; i < count; ++i) {
            uint64_t w = 0;
            for (size_t j = 0; j < 8; ++j) w = w << 8 | (i * 8 + j < content.size() ? static_cast<unsigned char>(content[i * 8 + j]) : 0xA5u);
            words[i] = w;
        }
    }
    File open() const { return File(std::span<const uint64_t>(words.get(), count), content.size()); }
};
// one read through a buffer of exactly n bytes, the file being at 'at'; whether the file says it has ended
void readOnce(File& f, const std::string& content, size_t& at, size_t n, bool& ended) {
    static thread_local char canary = 0x3c;
    auto buffer = std::make_unique<char[]>(n + 16);
    std::memset(buffer.get(), canary, n + 16);
    MC_REQUIRE(!f.eof() || at == content.size(), "early-eof", "the end of a file of %zu bytes is reported after %zu", content.size(), at);
    bool wasEof = f.eof();
    auto got = f.read(std::span<char>(buffer.get() + 8, n));
    auto want = std::min(n, content.size() - at);
    MC_REQUIRE(got == want, "count", "reading %zu bytes at %zu of %zu returns %zu", n, at, content.size(), got);
    MC_REQUIRE(std::memcmp(buffer.get() + 8, content.data() + at, want) == 0, "bytes", "reading %zu bytes at %zu of %zu returns '%s' instead of '%s'", n, at, content.size(), show({buffer.get() + 8, want}).c_str(), show({content.data() + at, want}).c_str());
    for (size_t i = 0; i < n + 16; ++i)
        MC_REQUIRE((i >= 8 && i < 8 + want) || buffer[i] == canary, "overrun", "reading %zu bytes at %zu of %zu touches byte %td of the buffer", n, at, content.size(), static_cast<ptrdiff_t>(i) - 8);
    at += want;
    if (want < n) { // asked for more than there was
        MC_REQUIRE(f.eof(), "no-eof", "the end of a file of %zu bytes is not reported", content.size());
        ended = true;
    }
    MC_REQUIRE(!f.eof() || at == content.size(), "early-eof", "the end of a file of %zu bytes is reported after %zu", content.size(), at);
    MC_REQUIRE(f.eof() || (!ended && !wasEof), "eof-lost", "the end of a file of %zu bytes is no longer reported", content.size());
    mc::count("evaluations");
}
void drain(File& f, const std::string& content, size_t& at, size_t by, bool& ended) {
    for (int extra = 0; extra < 3;) {
        if (at == content.size()) ++extra;
        readOnce(f, content, at, by, ended);
    }
    MC_REQUIRE(f.eof(), "no-eof", "the end of a file of %zu bytes is not reported", content.size());
}
void sequence(File f, const std::string& content, const std::vector<size_t>& reads, size_t last) {
    size_t at = 0;
    bool ended = false;
    for (auto n : reads) readOnce(f, content, at, n, ended);
    drain(f, content, at, last, ended);
    mc::outcome(mc::mix(mc::hashBytes(reads.data(), reads.size() * sizeof(size_t)), content.size()));
}
template<typename F>
void sequences(size_t depth, std::vector<size_t>& s, const F& f) {
    if (!depth) { f(s); return; }
    for (auto n : sizes) {
        s.push_back(n);
        sequences(depth - 1, s, f);
        s.pop_back();
    }
}
struct Native {
    fs::path dir;
    Native() : dir(fs::absolute(fs::path(mc::ex().data) / mc::fmt("files-%d", static_cast<int>(getpid())))) { fs::create_directories(dir); }
    std::string put(const std::string& content) {
        std::ofstream(dir / "f", std::ios::binary | std::ios::trunc) << content;
        return "f";
    }
    File open() {
        webfront::fs::NativeDebugFS n(dir);
        auto f = n.open("f");
        MC_REQUIRE(f.has_value(), "not-opened", "a native file is not opened");
        return std::move(*f);
    }
};
Native& native() {
    static Native n;
    return n;
}
// constants, as the bundled assets
struct Raw {
    static constexpr size_t dataSize{11};
    static constexpr std::array<uint64_t, 2> data{0x48656c6c6f20576f, 0x726c640000000000};
};
struct Encoded : Raw {
    static constexpr std::string_view encoding{"br"};
};
struct Empty {
    static constexpr size_t dataSize{0};
    static constexpr std::array<uint64_t, 1> data{0x4141414141414141};
};
struct Full {
    static constexpr size_t dataSize{16};
    static constexpr std::array<uint64_t, 2> data{0x3031323334353637, 0x38396162636465ff};
};
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. every size 0..40 (60) with every sequence of 5 (6) reads, then to the end
    for (size_t n = 0; n <= (t ? 60u : 40u); ++n)
        mc::add(mc::fmt("embedded/%zu", n), [=] {
            Embedded e(content(n, 0));
            std::vector<size_t> s;
            sequences(t ? 6 : 5, s, [&](auto& reads) { sequence(e.open(), e.content, reads, reads.front() ? reads.front() : 3); });
            mc::step(n);
        });
    for (size_t n = 0; n <= 40; n += t ? 1 : 2)
        mc::add(mc::fmt("native/%zu", n), [=] {
            auto c = content(n, n % 4 == 0 ? 1 : 0);
            native().put(c);
            std::vector<size_t> s;
            sequences(t ? 5 : 4, s, [&](auto& reads) { sequence(native().open(), c, reads, reads.front() ? reads.front() : 3); });
            mc::step(n);
        });
    // 2. every size with one read size from beginning to end
    for (size_t from = 0; from < (t ? 4200u : 1100u); from += 50)
        mc::add(mc::fmt("sizes/%zu", from), [=] {
            for (size_t n = from; n < from + 50; ++n)
                for (int k = 0; k < 4; ++k) {
                    Embedded e(content(n, k), n % 3);
                    for (size_t by : {1u, 3u, 7u, 8u, 9u, 64u, 511u, 512u, 513u, 1024u, 5000u})
                        if (n / by < 200) sequence(e.open(), e.content, {}, by);
                }
            mc::step(from);
        });
    // 3. larger files around the buffer sizes in use (512 of the server, 8191 of the stream)
    for (size_t n : {511u, 512u, 513u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 8190u, 8191u, 8192u, 8193u, 16382u, 16384u, 65535u, 65536u, 65537u})
        mc::add(mc::fmt("large/%zu", n), [=] {
            for (int k = 0; k < 3; ++k) {
                auto c = content(n, k);
                Embedded e(c);
                native().put(c);
                for (size_t by : {13u, 512u, 1000u, 4096u, 8191u, 8192u, 70000u})
                    for (auto first : sizes) {
                        sequence(e.open(), c, {first}, by);
                        sequence(native().open(), c, {first}, by);
                        if (n > 9000) break;
                    }
            }
            mc::step(n);
        });
    // 3b. files of many megabytes
    for (size_t n : {16777215u, 16777217u, 20000003u})
        mc::add(mc::fmt("huge/%zu", n), [=] {
            auto c = content(n, 1);
            Embedded e(c);
            native().put(c);
            for (size_t by : {512u, 65536u, 1000001u}) {
                sequence(e.open(), c, {3}, by);
                sequence(native().open(), c, {3}, by);
            }
            mc::step(n);
        });
    // 4. constants with and without an encoding; moved while being read; several at once
    mc::add("constants", [] {
        for (size_t by = 1; by < 20; ++by) {
            sequence(File(Raw{}), "Hello World", {}, by);
            sequence(File(Encoded{}), "Hello World", {}, by);
            sequence(File(Empty{}), "", {}, by);
            sequence(File(Full{}), "0123456789abcde\xff", {}, by);
        }
        MC_REQUIRE(File(Encoded{}).isEncoded() && File(Encoded{}).getEncoding() == "br" && !File(Raw{}).isEncoded() && File(Raw{}).getEncoding().empty(), "encoding", "the encoding of a constant is lost");
        mc::step(1);
    });
    mc::add("moved", [] {
        auto c = content(40, 0);
        Embedded e(c);
        native().put(c);
        for (int kind = 0; kind < 2; ++kind)
            for (auto a : sizes)
                for (auto b : sizes) {
                    size_t at = 0;
                    bool ended = false;
                    std::optional<File> f(kind ? native().open() : e.open());
                    readOnce(*f, c, at, a, ended);
                    File g(std::move(*f));
                    f.reset();
                    readOnce(g, c, at, b, ended);
                    drain(g, c, at, 7, ended);
                }
        mc::step(2);
    });
    mc::add("several", [] {
        auto c = content(33, 0), d = content(29, 2);
        Embedded e(c), x(d);
        for (auto a : sizes)
            for (auto b : sizes)
                for (auto g : sizes) {
                    auto f1 = e.open(), f2 = e.open(), f3 = x.open();
                    size_t p1 = 0, p2 = 0, p3 = 0;
                    bool e1 = false, e2 = false, e3 = false;
                    for (int i = 0; i < 3; ++i) {
                        readOnce(f1, c, p1, a, e1);
                        readOnce(f3, d, p3, g, e3);
                        readOnce(f2, c, p2, b, e2);
                    }
                    drain(f2, c, p2, 5, e2);
                    drain(f1, c, p1, 8, e1);
                    drain(f3, d, p3, 9, e3);
                }
        mc::step(3);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
