// Independent reference implementations.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace oracle {
// FIPS 180-1, on the whole padded message
inline std::array<uint32_t, 5> sha1(std::string_view m) {
    std::string p(m);
    p += '\x80';
    while (p.size() % 64 != 56) p += '\0';
    uint64_t bits = static_cast<uint64_t>(m.size()) * 8;
    for (int i = 7; i >= 0; --i) p += static_cast<char>(bits >> (8 * i));
    std::array<uint32_t, 5> h{0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for (size_t off = 0; off < p.size(); off += 64) {
        uint32_t w[80];
        for (int t = 0; t < 16; ++t) {
            w[t] = 0;
            for (int b = 0; b < 4; ++b) w[t] = w[t] << 8 | static_cast<uint8_t>(p[off + static_cast<size_t>(4 * t + b)]);
        }
        for (int t = 16; t < 80; ++t) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        auto [a, b, c, d, e] = h;
        for (int t = 0; t < 80; ++t) {
            uint32_t f = t < 20 ? (b & c) | (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
            uint32_t k = t < 20 ? 0x5A827999u : t < 40 ? 0x6ED9EBA1u : t < 60 ? 0x8F1BBCDCu : 0xCA62C1D6u;
            uint32_t x = rol(a, 5) + f + e + w[t] + k;
            e = d; d = c; c = rol(b, 30); b = a; a = x;
        }
        h = {h[0] + a, h[1] + b, h[2] + c, h[3] + d, h[4] + e};
    }
    return h;
}
inline std::string sha1Bytes(std::string_view m) {
    std::string s;
    for (auto w : sha1(m))
        for (int i = 3; i >= 0; --i) s += static_cast<char>(w >> (8 * i));
    return s;
}
inline std::string hex(std::string_view b) {
    std::string s;
    for (unsigned char c : b) { s += "0123456789abcdef"[c >> 4]; s += "0123456789abcdef"[c & 15]; }
    return s;
}
// RFC 4648, six bits at a time
inline std::string base64(std::string_view b) {
    static const std::string alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string out;
    uint32_t acc = 0;
    int bits = 0;
    for (unsigned char c : b) {
        acc = acc << 8 | c;
        bits += 8;
        while (bits >= 6) { bits -= 6; out += alpha[acc >> bits & 63]; }
        acc &= (1u << bits) - 1;
    }
    if (bits) out += alpha[acc << (6 - bits) & 63];
    while (out.size() % 4) out += '=';
    return out;
}
inline std::string acceptKey(std::string_view key) { return base64(sha1Bytes(std::string(key) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

inline int hexDigit(unsigned char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
inline std::string percentDecode(std::string_view s) {
    std::string o;
    while (!s.empty()) {
        if (s[0] == '+') { o += ' '; s.remove_prefix(1); }
        else if (s[0] == '%' && s.size() >= 3 && hexDigit(static_cast<unsigned char>(s[1])) >= 0 && hexDigit(static_cast<unsigned char>(s[2])) >= 0) {
            o += static_cast<char>(hexDigit(static_cast<unsigned char>(s[1])) * 16 + hexDigit(static_cast<unsigned char>(s[2])));
            s.remove_prefix(3);
        }
        else { o += s[0]; s.remove_prefix(1); }
    }
    return o;
}
inline std::string percentEncode(std::string_view s) {
    std::string o;
    for (unsigned char c : s) {
        bool keep = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~';
        if (keep) o += static_cast<char>(c);
        else { o += '%'; o += "0123456789ABCDEF"[c >> 4]; o += "0123456789ABCDEF"[c & 15]; }
    }
    return o;
}
inline const std::map<std::string, std::string>& mimeTypes() {
    static const std::map<std::string, std::string> m{{"js", "application/javascript"}, {"mjs", "application/javascript"}, {"htm", "text/html"}, {"html", "text/html"},
        {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"css", "text/css"}, {"png", "image/png"}, {"gif", "image/gif"}, {"json", "application/json"}, {"pdf", "application/pdf"},
        {"ttf", "font/ttf"}, {"ico", "image/x-icon"}, {"svg", "image/svg+xml"}, {"webp", "image/webp"}, {"csv", "text/csv"}};
    return m;
}
inline std::string mimeOf(std::string_view ext) {
    if (!ext.empty() && ext[0] == '.') ext.remove_prefix(1);
    auto it = mimeTypes().find(std::string(ext));
    return it == mimeTypes().end() ? "text/plain" : it->second;
}
inline std::string mimeOfFile(std::string_view path) {
    auto name = path.substr(path.rfind('/') + 1);
    auto dot = name.rfind('.');
    if (dot == std::string_view::npos || dot == 0) return "text/plain";
    return mimeOf(name.substr(dot));
}
} // namespace oracle
