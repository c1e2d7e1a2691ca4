// The whole server (BasicWF) over the simulated network, with clients written from the specifications.
#pragma once
#include "sim.hpp"
#include <WebFront.hpp>

namespace h {
inline void quiet() { std::cout.setstate(std::ios::badbit); } // the library prints traces on cout

template<int Id = 0>
using WFOn = webfront::BasicWF<Net, MemFS<Id>>;

// One WebSocket client of the server
struct Client {
    ConnP conn = newConn();
    size_t responseSize = 0; // bytes of the 101 answer
    bool upgradedSeen() {
        if (responseSize) return true;
        auto r = parseResponse(str(conn->wire));
        if (!r.complete || r.status != 101) return false;
        responseSize = r.size;
        return true;
    }
    void connect() {
        connectTo(conn);
        deliver(conn, upgradeRequest());
    }
    void send(const WsFrame& f) { deliver(conn, encodeFrame(f)); }
    void text(std::string_view t) { send({true, 1, std::string(t), 2}); }
    void binary(std::string_view b) { send({true, 2, std::string(b), 1}); }
    std::string afterUpgrade() { return upgradedSeen() ? str(conn->wire).substr(responseSize) : std::string(); }
    // every byte after the 101 answer has to belong to a whole frame
    std::vector<ServerFrame> frames() {
        std::vector<ServerFrame> f;
        auto w = afterUpgrade();
        size_t used = 0;
        if (!decodeFrames(w, f, &used)) mc::fail("partial-frame", mc::fmt("client %d: %zu stray bytes after %zu whole frames", conn->id, w.size() - used, f.size()));
        for (auto& x : f) {
            MC_REQUIRE(x.fin && !x.rsv && !x.masked && x.minimal, "bad-frame", "client %d received a frame fin=%d rsv=%d masked=%d minimal=%d", conn->id, x.fin, x.rsv, x.masked, x.minimal);
            MC_REQUIRE(x.opcode == 1 || x.opcode == 2, "bad-frame", "client %d received opcode %d", conn->id, x.opcode);
        }
        return f;
    }
};

// ------------------------------------------------------------------------------- client side of the WebFront protocol
struct Value {
    enum Kind { undefined, boolean, number, string, exception, tuple } kind = undefined;
    bool b = false;
    double d = 0;
    std::string s;
    std::vector<Value> t;
    bool operator==(const Value& o) const {
        if (kind != o.kind) return false;
        switch (kind) {
        case boolean: return b == o.b;
        case number: return std::bit_cast<uint64_t>(d) == std::bit_cast<uint64_t>(o.d);
        case string: case exception: return s == o.s;
        case tuple: return t == o.t;
        default: return true;
        }
    }
};
inline Value num(double d) { Value v; v.kind = Value::number; v.d = d; return v; }
inline Value boolean(bool b) { Value v; v.kind = Value::boolean; v.b = b; return v; }
inline Value text(std::string s) { Value v; v.kind = Value::string; v.s = std::move(s); return v; }
inline Value tupleOf(std::vector<Value> t) { Value v; v.kind = Value::tuple; v.t = std::move(t); return v; }
inline std::string show(const Value& v) {
    switch (v.kind) {
    case Value::boolean: return v.b ? "true" : "false";
    case Value::number: return mc::fmt("%.17g", v.d);
    case Value::string: return "'" + show(std::string_view(v.s), 20) + "'";
    case Value::exception: return "exception'" + show(std::string_view(v.s), 40) + "'";
    case Value::tuple: { std::string s = "("; for (auto& e : v.t) s += show(e) + " "; return s + ")"; }
    default: return "undefined";
    }
}
// Coding as the Javascript client does it: opcodes 0 undefined 1 true 2 false 3 number 4 small string 5 string 6 exception 18 tuple
inline std::string encodeValue(const Value& v) {
    std::string o;
    switch (v.kind) {
    case Value::undefined: o += '\0'; break;
    case Value::boolean: o += v.b ? '\1' : '\2'; break;
    case Value::number: { o += '\3'; char b[8]; std::memcpy(b, &v.d, 8); o.append(b, 8); } break;
    case Value::string:
        if (v.s.size() < 256) { o += '\4'; o += static_cast<char>(v.s.size()); }
        else { o += '\5'; o += static_cast<char>(v.s.size()); o += static_cast<char>(v.s.size() >> 8); }
        o += v.s;
        break;
    case Value::exception: o += '\6'; o += static_cast<char>(v.s.size()); o += static_cast<char>(v.s.size() >> 8); o += v.s; break;
    case Value::tuple: o += '\22'; o += static_cast<char>(v.t.size()); for (auto& e : v.t) o += encodeValue(e); break;
    }
    return o;
}
inline std::string le32(uint32_t n) {
    std::string s(4, 0);
    for (int i = 0; i < 4; ++i) s[static_cast<size_t>(i)] = static_cast<char>(n >> (8 * i));
    return s;
}
inline std::string callMessage(const std::string& name, const std::vector<Value>& args) {
    std::string p = encodeValue(text(name));
    for (auto& a : args) p += encodeValue(a);
    return std::string("\3") + static_cast<char>(1 + args.size()) + std::string(2, '\0') + le32(static_cast<uint32_t>(p.size())) + p;
}
inline std::string handshakeMessage(int endian = 0) { return std::string(1, '\0') + static_cast<char>(endian); }
// Strict decoding
inline bool decodeValue(std::string_view& d, Value& v) {
    if (d.empty()) return false;
    auto u = [&](size_t i) { return static_cast<size_t>(static_cast<uint8_t>(d[i])); };
    auto op = u(0);
    v = {};
    auto str = [&](size_t head, size_t n) {
        if (d.size() < head + n) return false;
        v.s = d.substr(head, n);
        d.remove_prefix(head + n);
        return true;
    };
    switch (op) {
    case 0: d.remove_prefix(1); return true;
    case 1: case 2: v = boolean(op == 1); d.remove_prefix(1); return true;
    case 3:
        if (d.size() < 9) return false;
        v.kind = Value::number;
        std::memcpy(&v.d, d.data() + 1, 8);
        d.remove_prefix(9);
        return true;
    case 4: v.kind = Value::string; return d.size() >= 2 && str(2, u(1));
    case 5: v.kind = Value::string; return d.size() >= 3 && str(3, u(1) | u(2) << 8);
    case 6: v.kind = Value::exception; return d.size() >= 3 && str(3, u(1) | u(2) << 8);
    case 18: {
        if (d.size() < 2) return false;
        auto n = u(1);
        d.remove_prefix(2);
        v.kind = Value::tuple;
        v.t.resize(n);
        for (auto& e : v.t)
            if (!decodeValue(d, e)) return false;
        return true;
    }
    }
    return false;
}
struct CallMsg {
    int command = -1;
    size_t count = 0, size = 0;
    std::vector<Value> values;
};
// @return an empty string if msg is a well-formed call or return message
inline std::string decodeCall(std::string_view msg, CallMsg& c) {
    if (msg.size() < 8) return "shorter than its header";
    auto u = [&](size_t i) { return static_cast<size_t>(static_cast<uint8_t>(msg[i])); };
    c.command = static_cast<int>(u(0));
    c.count = u(1);
    c.size = u(4) | u(5) << 8 | u(6) << 16 | u(7) << 24;
    auto p = msg.substr(8);
    if (p.size() != c.size) return mc::fmt("declares %zu payload bytes but carries %zu", c.size, p.size());
    while (!p.empty()) {
        c.values.emplace_back();
        if (!decodeValue(p, c.values.back())) return "undecodable parameter";
    }
    if (c.values.size() != c.count) return mc::fmt("declares %zu parameters but carries %zu", c.count, c.values.size());
    return {};
}
struct TextMsg {
    int opcode = -1;
    std::string text;
};
inline std::string decodeTextCommand(std::string_view m, TextMsg& t) {
    if (m.size() < 4) return "shorter than its header";
    auto u = [&](size_t i) { return static_cast<size_t>(static_cast<uint8_t>(m[i])); };
    if (u(0) != 2) return "not a text command";
    t.opcode = static_cast<int>(u(1));
    auto n = u(2) << 8 | u(3);
    if (m.size() - 4 != n) return mc::fmt("declares %zu bytes but carries %zu", n, m.size() - 4);
    t.text = m.substr(4);
    return {};
}
constexpr const char* textReply = "This is my response";
inline std::string ackMessage() { return std::string("\1") + (std::endian::native == std::endian::little ? '\0' : '\1'); }
} // namespace h
