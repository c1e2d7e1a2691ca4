// Shared pieces of the harnesses that run the real server over the simulated network.
#pragma once
#include "mc.hpp"
#include <experimental/net>

#include <array>
#include <bit>
#include <cstring>
#include <filesystem>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

// Headers which the library uses without including them (it relies on its includer)
#include <list>
#include <future>
#include <iostream>
#include <fstream>

#include <http/HTTPServer.hpp>
#include <networking/TCPNetworkingTS.hpp>

namespace webfront {
struct NoSinks {};
inline NoSinks out; // found below only when the logger has no such object
namespace log { using VerifSinks = std::remove_cvref_t<decltype(out)>; }
} // namespace webfront
namespace h {
using Net = webfront::networking::TCPNetworkingTS;
using sim::Bytes;
using sim::ConnP;

inline Bytes bytes(std::string_view s) {
    Bytes b(s.size());
    if (!s.empty()) std::memcpy(b.data(), s.data(), s.size());
    return b;
}
inline std::string str(std::span<const std::byte> b) { return std::string(reinterpret_cast<const char*>(b.data()), b.size()); }
inline std::string show(std::string_view s, size_t max = 80) {
    std::string o;
    for (unsigned char c : s.substr(0, max)) {
        if (c == '\r') o += "\\r";
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += mc::fmt("\\x%02x", c);
        else o += static_cast<char>(c);
    }
    if (s.size() > max) o += mc::fmt("...(%zu)", s.size());
    return o;
}

// ------------------------------------------------------------------------------- file system provider under harness control
struct MemFile {
    std::string content, encoding;
    std::vector<uint64_t> words;
    MemFile() = default;
    MemFile(std::string c, std::string e = {}) : content(std::move(c)), encoding(std::move(e)) {
        for (size_t i = 0; i < content.size(); i += 8) {
            uint64_t w = 0;
            for (size_t j = 0; j < 8; ++j) w = w << 8 | (i + j < content.size() ? static_cast<unsigned char>(content[i + j]) : 0xA5);
            words.push_back(w);
        }
        if (words.empty()) words.push_back(0);
    }
};
template<int Id>
struct MemFS {
    explicit MemFS(std::filesystem::path root) { roots.push_back(root.string()); }
    std::optional<webfront::fs::File> open(std::filesystem::path p) {
        opened.push_back(p.string());
        auto it = files.find(p.string());
        if (it == files.end()) return {};
        return webfront::fs::File(std::span<const uint64_t>(it->second.words), it->second.content.size(), it->second.encoding);
    }
    inline static std::map<std::string, MemFile> files;
    inline static std::vector<std::string> opened, roots;
};

// ------------------------------------------------------------------------------- clients
struct Script {
    struct Step {
        std::string name;
        std::function<bool()> guard;
        std::function<void()> run;
    };
    std::vector<Step> steps;
    size_t at = 0;
    bool done() const { return at >= steps.size(); }
    Script& then(std::string name, std::function<void()> run, std::function<bool()> guard = {}) {
        steps.push_back({std::move(name), std::move(guard), std::move(run)});
        return *this;
    }
};
using ScriptP = std::shared_ptr<Script>;
inline ScriptP addScript(bool urgent = false) {
    auto s = std::make_shared<Script>();
    sim::Actor a;
    a.urgent = urgent;
    a.enabled = [s] { return !s->done() && (!s->steps[s->at].guard || s->steps[s->at].guard()); };
    a.step = [s] {
        auto& st = s->steps[s->at++];
        mc::note("%s", st.name.c_str());
        st.run();
    };
    sim::world().actors.push_back(std::move(a));
    return s;
}

inline ConnP newConn() {
    auto c = std::make_shared<sim::Conn>();
    c->id = sim::world().nextConn++;
    sim::world().conns.push_back(c);
    return c;
}
inline void connectTo(const ConnP& c) { sim::world().backlog.push_back({c, {}}); }
inline void deliver(const ConnP& c, Bytes b) {
    if (!b.empty() && !c->finArrived && !c->reset) c->arrived.push_back(std::move(b));
}
inline void deliver(const ConnP& c, std::string_view s) { deliver(c, bytes(s)); }

// ------------------------------------------------------------------------------- HTTP responses, strictly parsed
struct HttpResponse {
    bool complete = false;   // a whole response is present
    bool malformed = false;
    std::string why;
    int status = 0;
    std::string reason;
    std::vector<std::pair<std::string, std::string>> headers;
    std::string body;
    size_t size = 0;         // bytes of the whole response
    std::optional<std::string> header(std::string_view n) const {
        for (auto& [k, v] : headers)
            if (k.size() == n.size() && std::equal(k.begin(), k.end(), n.begin(), [](char a, char b) { return std::tolower(a) == std::tolower(b); })) return v;
        return {};
    }
    size_t count(std::string_view n) const {
        size_t c = 0;
        for (auto& [k, v] : headers)
            if (k.size() == n.size() && std::equal(k.begin(), k.end(), n.begin(), [](char a, char b) { return std::tolower(a) == std::tolower(b); })) ++c;
        return c;
    }
};
// headRequest: the response answers a HEAD (no body expected)
inline HttpResponse parseResponse(std::string_view w, bool headRequest = false) {
    HttpResponse r;
    auto bad = [&](std::string why) { r.malformed = true; r.why = std::move(why); return r; };
    auto end = w.find("\r\n\r\n");
    if (end == std::string_view::npos) return r;
    auto head = w.substr(0, end);
    auto eol = head.find("\r\n");
    auto line = head.substr(0, eol);
    if (line.substr(0, 9) != "HTTP/1.1 ") return bad("status line does not start with HTTP/1.1");
    if (line.size() < 13 || !isdigit(line[9]) || !isdigit(line[10]) || !isdigit(line[11]) || line[12] != ' ') return bad("bad status code");
    r.status = (line[9] - '0') * 100 + (line[10] - '0') * 10 + line[11] - '0';
    r.reason = line.substr(13);
    if (r.reason.empty()) return bad("no reason phrase");
    while (eol != std::string_view::npos) {
        auto start = eol + 2;
        eol = head.find("\r\n", start);
        auto h = head.substr(start, eol == std::string_view::npos ? std::string_view::npos : eol - start);
        auto colon = h.find(": ");
        if (colon == std::string_view::npos || colon == 0) return bad("bad header line " + std::string(h));
        for (unsigned char c : h) if (c < 32 || c == 127) return bad("control character in header");
        r.headers.emplace_back(h.substr(0, colon), h.substr(colon + 2));
    }
    size_t length = 0;
    auto cl = r.header("Content-Length");
    if (r.count("Content-Length") > 1) return bad("several Content-Length");
    if (cl) {
        if (cl->empty() || cl->size() > 9) return bad("bad Content-Length");
        for (char c : *cl) { if (!isdigit(c)) return bad("bad Content-Length"); length = length * 10 + static_cast<size_t>(c - '0'); }
    }
    else if (r.status != 101) return bad("no Content-Length");
    if (headRequest || r.status == 101) length = 0;
    if (w.size() < end + 4 + length) return r;
    r.body = w.substr(end + 4, length);
    r.size = end + 4 + length;
    r.complete = true;
    return r;
}
inline std::string_view reasonOf(int code) {
    switch (code) {
    case 101: return "Switching Protocols";
    case 200: return "OK";
    case 400: return "Bad Request";
    case 404: return "Not Found";
    case 501: return "Not Implemented";
    case 506: return "Variant Also Negotiates";
    }
    return {};
}
inline std::string upgradeRequest(std::string_view key = "dGhlIHNhbXBsZSBub25jZQ==") {
    return "GET / HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: " + std::string(key) + "\r\n\r\n";
}

// ------------------------------------------------------------------------------- WebSocket frames, written from RFC 6455
struct WsFrame {
    bool fin = true;
    int opcode = 1;
    std::string payload;
    int mask = 1;            // 0 unmasked, otherwise an index in maskKeys
    int lenForm = -1;        // -1 shortest, 1: 16-bit, 2: 64-bit (non minimal forms)
    int rsv = 0;
};
inline const std::array<std::array<uint8_t, 4>, 4> maskKeys{{{0, 0, 0, 0}, {0x10, 0x21, 0x32, 0x43}, {0xff, 0x00, 0x80, 0x01}, {0, 0, 0, 0}}};
inline std::string encodeFrame(const WsFrame& f) {
    std::string o;
    o += static_cast<char>((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.opcode);
    size_t n = f.payload.size();
    int form = f.lenForm >= 0 ? f.lenForm : n < 126 ? 0 : n < 65536 ? 1 : 2;
    int m = f.mask ? 0x80 : 0;
    if (form == 0) o += static_cast<char>(m | static_cast<int>(n));
    else if (form == 1) {
        o += static_cast<char>(m | 126);
        o += static_cast<char>(n >> 8);
        o += static_cast<char>(n);
    }
    else {
        o += static_cast<char>(m | 127);
        for (int s = 56; s >= 0; s -= 8) o += static_cast<char>(static_cast<uint64_t>(n) >> s);
    }
    if (f.mask) {
        auto& k = maskKeys[static_cast<size_t>(f.mask)];
        for (auto b : k) o += static_cast<char>(b);
        for (size_t i = 0; i < n; ++i) o += static_cast<char>(static_cast<uint8_t>(f.payload[i]) ^ k[i % 4]);
    }
    else o += f.payload;
    return o;
}
struct ServerFrame {
    bool fin = false;
    int rsv = 0, opcode = 0;
    bool masked = false, minimal = true;
    std::string payload;
};
// Strict decoding of what the server put on the wire; false if the bytes are not a whole number of frames
inline bool decodeFrames(std::string_view w, std::vector<ServerFrame>& out, size_t* consumed = nullptr) {
    size_t at = 0;
    if (consumed) *consumed = 0;
    while (at < w.size()) {
        auto u = [&](size_t i) { return static_cast<uint8_t>(w[i]); };
        if (w.size() - at < 2) return false;
        ServerFrame f;
        f.fin = u(at) & 0x80;
        f.rsv = (u(at) >> 4) & 7;
        f.opcode = u(at) & 15;
        f.masked = u(at + 1) & 0x80;
        uint64_t len = u(at + 1) & 127;
        size_t p = at + 2;
        if (len == 126) {
            if (w.size() < p + 2) return false;
            len = static_cast<uint64_t>(u(p) << 8 | u(p + 1));
            p += 2;
            f.minimal = len >= 126;
        }
        else if (len == 127) {
            if (w.size() < p + 8) return false;
            len = 0;
            for (size_t i = 0; i < 8; ++i) len = len << 8 | u(p + i);
            p += 8;
            f.minimal = len >= 65536;
        }
        if (f.masked) p += 4;
        if (p > w.size() || w.size() - p < len) return false;
        f.payload = w.substr(p, static_cast<size_t>(len));
        at = p + static_cast<size_t>(len);
        if (consumed) *consumed = at;
        out.push_back(std::move(f));
    }
    return true;
}
inline std::string pattern(size_t n, unsigned seed = 0) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>((i * 131 + (i >> 8) * 17 + seed * 29 + 1) & 0xff);
    return s;
}
// All compositions of n as a sum of positive segments: index 0 .. 2^(n-1)-1
inline std::vector<std::string> composition(std::string_view s, uint64_t cuts) {
    std::vector<std::string> r(1);
    for (size_t i = 0; i < s.size(); ++i) {
        r.back() += s[i];
        if (i + 1 < s.size() && (cuts >> i & 1)) r.emplace_back();
    }
    return r;
}
inline std::vector<std::string> cutAt(std::string_view s, std::vector<size_t> cuts) {
    std::vector<std::string> r;
    size_t prev = 0;
    std::sort(cuts.begin(), cuts.end());
    for (auto c : cuts)
        if (c > prev && c < s.size()) r.emplace_back(s.substr(prev, c - prev)), prev = c;
    r.emplace_back(s.substr(prev));
    return r;
}

// Sinks registered by a harness are removed through the interface; the logger's storage is also emptied when it is what it
// seems to be (else removed entries only pile up, unused).
inline std::vector<size_t> ownSinks;
void addSink(auto&& f) { ownSinks.push_back(webfront::log::addSinks(std::forward<decltype(f)>(f))); }
template<typename L = webfront::log::VerifSinks> void clearSinks() {
    for (auto id : ownSinks) webfront::log::removeSinks(id);
    ownSinks.clear();
    if constexpr (requires { L::sinks; })
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(L::sinks)>, std::vector<std::function<void(std::string_view)>>>) L::sinks.clear();
}

// A world for the duration of one execution
struct WorldScope {
    sim::World world;
    WorldScope() {
        sim::current() = &world;
        clearSinks();
        webfront::log::setLogLevel(webfront::log::Disabled);
    }
    ~WorldScope() { sim::current() = nullptr; }
};
} // namespace h
