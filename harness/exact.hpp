// Heap memory of exactly the given bytes: AddressSanitizer reports any access before or after them.
#pragma once
#include <cstring>
#include <memory>
#include <string_view>

namespace h {
struct Exact {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); }
    operator std::string_view() const { return {p.get(), n}; }
    std::string_view view() const { return {p.get(), n}; }
};
// every string of 0..max symbols, in order
template<typename Symbols, typename F>
void strings(const Symbols& symbols, size_t max, const F& f, const std::string& lead = {}) {
    f(lead);
    if (max == 0) return;
    for (const auto& s : symbols) strings(symbols, max - 1, f, lead + s);
}
} // namespace h
