// N01: buffer views cover exactly the memory they are made from.
#include "exact.hpp"
#include "sim.hpp"
#include <networking/BasicNetworking.hpp>
using namespace h;

namespace {
using N = webfront::networking::BasicNetworking<>;
using C = N::ConstBuffer;
using M = N::MutableBuffer;
template<typename B>
void is(const B& b, const void* p, size_t n, const char* what) {
    MC_REQUIRE(b.size() == n, "size", "%s spans %zu bytes instead of %zu", what, b.size(), n);
    MC_REQUIRE(n == 0 || b.data() == p, "start", "%s starts %td bytes away", what, static_cast<const char*>(b.data()) - static_cast<const char*>(p));
    mc::count("evaluations");
}
const size_t huge[] = {100, 1u << 31, SIZE_MAX / 16};
template<typename B>
void advances(const B& b, const void* p, size_t n) {
    std::vector<size_t> by{0, 1, 2, 3, 4, 5, 6, SIZE_MAX / 2, SIZE_MAX};
    for (auto i : by)
        for (auto j : by)
            for (auto k : by) {
                B v = b;
                size_t at = 0;
                for (auto d : {i, j, k}) {
                    B& r = v += d;
                    MC_REQUIRE(&r == &v, "advance", "advancing does not return the view");
                    at += std::min(d, n - at);
                    is(v, static_cast<const char*>(p) + at, n - at, "an advanced view");
                    if (v.size() == 0 && n) MC_REQUIRE(v.data() == static_cast<const char*>(p) + n, "start", "an exhausted view does not end at the end");
                }
                is(b, p, n, "the view a copy was made of");
                mc::outcome(mc::mix(mc::mix(n, i * 100 + j), k));
            }
}
// a view, and views of it
template<typename B>
void whole(const B& b, const void* p, size_t n, const char* what) {
    is(b, p, n, what);
    advances(b, p, n);
    is(N::Buffer(b), p, n, "a view of a view");
    for (size_t s = 0; s <= n + 3; ++s) is(N::Buffer(b, s), p, std::min(n, s), "a part of a view");
    for (auto s : huge) is(N::Buffer(b, s), p, std::min(n, s), "a part of a view");
    is(N::Buffer(b, SIZE_MAX), p, n, "a part of a view");
    is(C(b), p, n, "a constant view of a view");
}
template<typename X>
void sized(X& x, const void* p, size_t count, size_t width, const char* what) {
    for (size_t s = 0; s <= count + 3; ++s) is(N::Buffer(x, s), p, std::min(count, s) * width, what);
    for (auto s : huge) is(N::Buffer(x, s), p, std::min(count, s) * width, what);
}
template<typename X>
void both(X& x, const void* p, size_t count, size_t width, const char* what) { // mutable and constant
    static_assert(std::is_same_v<decltype(N::Buffer(x)), M> && std::is_same_v<decltype(N::Buffer(std::as_const(x))), C>);
    whole(N::Buffer(x), p, count * width, what);
    whole(N::Buffer(std::as_const(x)), p, count * width, what);
    sized(x, p, count, width, what);
    sized(std::as_const(x), p, count, width, what);
}
template<typename T, size_t S>
void arrays() {
    auto a = std::make_unique<std::array<T, S>>();
    both(*a, a->data(), S, sizeof(T), "the view of a std::array");
    if constexpr (S > 0 && S < 100) {
        std::array<const T, S> ca = {{T{}}};
        whole(N::Buffer(ca), ca.data(), S * sizeof(T), "the view of a std::array of constants");
        sized(ca, ca.data(), S, sizeof(T), "the view of a std::array of constants");
        T r[S]{};
        both(r, r, S, sizeof(T), "the view of an array");
    }
}
template<typename T>
void width() {
    arrays<T, 0>(); arrays<T, 1>(); arrays<T, 2>(); arrays<T, 3>(); arrays<T, 4>(); arrays<T, 5>(); arrays<T, 17>();
    for (size_t n = 0; n <= 5; ++n) {
        std::vector<T> v(n);
        both(v, v.data(), n, sizeof(T), "the view of a vector");
        v.reserve(100);
        both(v, v.data(), n, sizeof(T), "the view of a vector with capacity");
        auto p = std::make_unique<T[]>(n);
        whole(N::Buffer(static_cast<void*>(p.get()), n * sizeof(T)), p.get(), n * sizeof(T), "the view of a pointer");
        whole(N::Buffer(static_cast<const void*>(p.get()), n * sizeof(T)), p.get(), n * sizeof(T), "the view of a constant pointer");
        whole(M(p.get(), n * sizeof(T)), p.get(), n * sizeof(T), "a mutable view");
        whole(C(p.get(), n * sizeof(T)), p.get(), n * sizeof(T), "a constant view");
    }
}
template<typename Ch>
void text() {
    for (size_t n : {0u, 1u, 2u, 3u, 4u, 5u, 15u, 16u, 40u}) {
        std::basic_string<Ch> s(n, Ch('x'));
        both(s, s.data(), n, sizeof(Ch), "the view of a string");
        std::basic_string_view<Ch> v(s);
        whole(N::Buffer(v), v.data(), n * sizeof(Ch), "the view of a string view");
        for (size_t k = 0; k <= n + 2; ++k) is(N::Buffer(v, k), v.data(), std::min(n, k) * sizeof(Ch), "the view of a string view");
        for (size_t i = 0; i <= n; ++i) {
            auto part = v.substr(i, 3);
            is(N::Buffer(part), part.data(), part.size() * sizeof(Ch), "the view of a part of a string");
        }
    }
    is(N::Buffer(std::basic_string_view<Ch>{}), nullptr, 0, "the view of an empty string view");
}
template<typename T>
void contents() { // what the views show is what is stored
    for (size_t n = 1; n <= 5; ++n) {
        std::vector<T> v(n), w(n);
        auto b = N::Buffer(v);
        std::memset(b.data(), 0x5a, b.size());
        T all;
        std::memset(&all, 0x5a, sizeof(T));
        for (auto& e : v) MC_REQUIRE(std::memcmp(&e, &all, sizeof(T)) == 0, "content", "writing through a view misses an element");
        for (size_t i = 0; i < n * sizeof(T); ++i) {
            auto c = N::Buffer(std::as_const(v));
            c += i;
            MC_REQUIRE(*static_cast<const char*>(c.data()) == 0x5a, "content", "reading through a view misses an element");
        }
        mc::count("evaluations");
    }
}
} // namespace

void declare() {
    mc::add("width/1", [] { width<uint8_t>(); width<std::byte>(); contents<uint8_t>(); mc::step(1); });
    mc::add("width/2", [] { width<uint16_t>(); contents<uint16_t>(); mc::step(2); });
    mc::add("width/4", [] { width<uint32_t>(); width<float>(); contents<uint32_t>(); mc::step(4); });
    mc::add("width/8", [] { width<uint64_t>(); width<double>(); contents<uint64_t>(); mc::step(8); });
    mc::add("width/3", [] { width<std::array<char, 3>>(); contents<std::array<char, 3>>(); mc::step(3); });
    mc::add("text", [] { text<char>(); text<char16_t>(); text<char32_t>(); text<wchar_t>(); text<char8_t>(); mc::step(5); });
    // large views, up to the size of the address space (nothing is read through them)
    mc::add("large", [] {
        const std::vector<size_t> sizes{127, 128, 255, 256, 257, 65535, 65536, 65537, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, 1ull << 47};
        auto base = reinterpret_cast<char*>(0x10000);
        auto views = [&]<typename B>(B*, auto p) {
            for (auto n : sizes) {
                B b(p, n);
                is(b, p, n, "a large view");
                is(N::Buffer(p, n), p, n, "the view of a pointer");
                is(N::Buffer(b), p, n, "a view of a view");
                for (auto i : sizes) {
                    is(N::Buffer(b, i), p, std::min(i, n), "a part of a view");
                    for (auto j : sizes) {
                        B v = b;
                        v += i;
                        auto at = std::min(i, n);
                        is(v, base + at, n - at, "an advanced view");
                        v += j;
                        at += std::min(j, n - at);
                        is(v, base + at, n - at, "an advanced view");
                        mc::outcome(mc::mix(mc::mix(n, i), j));
                    }
                }
            }
        };
        views(static_cast<M*>(nullptr), static_cast<void*>(base));
        views(static_cast<C*>(nullptr), static_cast<const void*>(base));
        for (size_t n : {255u, 256u, 300u, 65535u, 65536u, 70000u}) {
            std::vector<uint32_t> v(n);
            std::string s(n, 'x');
            is(N::Buffer(v), v.data(), n * 4, "the view of a vector");
            is(N::Buffer(s), s.data(), n, "the view of a string");
            is(N::Buffer(std::string_view(s)), s.data(), n, "the view of a string view");
            for (size_t k : {254u, 255u, 256u, 257u, 299u, 301u, 65535u, 65536u, 65537u}) {
                is(N::Buffer(v, k), v.data(), std::min(n, k) * 4, "the view of a vector");
                is(N::Buffer(std::as_const(v), k), v.data(), std::min(n, k) * 4, "the view of a vector");
                is(N::Buffer(s, k), s.data(), std::min(n, k), "the view of a string");
                is(N::Buffer(std::as_const(s), k), s.data(), std::min(n, k), "the view of a string");
                is(N::Buffer(std::string_view(s), k), s.data(), std::min(n, k), "the view of a string view");
            }
        }
        arrays<uint8_t, 300>();
        mc::step(7);
    });
    mc::add("empty", [] {
        is(C(), nullptr, 0, "a default view");
        is(M(), nullptr, 0, "a default view");
        whole(N::Buffer(static_cast<void*>(nullptr), 0), nullptr, 0, "the view of nothing");
        C c;
        c += 5;
        is(c, nullptr, 0, "an advanced empty view");
        M m;
        m += 5;
        is(m, nullptr, 0, "an advanced empty view");
        mc::step(6);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
