// Exchanges with the bundled Javascript client (run by tools/js_client.js under node).
#pragma once
#include "wf_rig.hpp"
#include <fstream>
#include <unordered_set>

namespace h {
// Writes the embedded client as the sources under test provide it
inline void addClientFileScenario() {
    mc::add("client-file", [] {
        webfront::fs::IndexFS fs(".");
        auto f = fs.open("WebFront.js");
        MC_REQUIRE(f.has_value(), "no-client", "IndexFS has no WebFront.js");
        std::string s;
        std::array<char, 512> b;
        while (auto n = f->read(b)) s.append(b.data(), n);
        auto tmp = mc::ex().data + mc::fmt("/client.%d", static_cast<int>(getpid()));
        std::ofstream(tmp, std::ios::binary) << s;
        std::filesystem::rename(tmp, mc::ex().data + "/client.gz");
        mc::step(mc::hash(s));
    });
}
inline std::string hexOf(std::string_view b) {
    std::string s;
    s.reserve(b.size() * 2);
    for (unsigned char c : b) { s += "0123456789abcdef"[c >> 4]; s += "0123456789abcdef"[c & 15]; }
    return s;
}
inline std::string jsonOf(const Value& v) {
    switch (v.kind) {
    case Value::boolean: return v.b ? "{\"b\":true}" : "{\"b\":false}";
    case Value::number: { char b[8]; std::memcpy(b, &v.d, 8); return "{\"d\":\"" + hexOf(std::string_view(b, 8)) + "\"}"; }
    case Value::string: case Value::exception: return "{\"s\":\"" + hexOf(v.s) + "\"}";
    case Value::tuple: { std::string s = "{\"t\":["; for (auto& e : v.t) s += (&e == &v.t[0] ? "" : ",") + jsonOf(e); return s + "]}"; }
    default: return "{\"u\":true}";
    }
}
inline std::string jsonOf(const std::vector<Value>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + jsonOf(v[i]);
    return s + "]";
}
// Messages to replay in the client: one line each, no duplicates within the process
inline void dumpLine(const std::string& line) {
    static std::unordered_set<uint64_t> seen;
    static std::ofstream out(mc::ex().data + mc::fmt("/replay.%d.jsonl", static_cast<int>(getpid())));
    if (!seen.insert(mc::hash(line)).second) return;
    out << line << "\n";
    out.flush();
}
inline void dumpCall(std::string_view msg, const std::string& name, const std::vector<Value>& args) {
    dumpLine("{\"hex\":\"" + hexOf(msg) + "\",\"call\":{\"name\":\"" + hexOf(name) + "\",\"args\":" + jsonOf(args) + "}}");
}
inline void dumpScript(std::string_view msg, const std::string& text) { dumpLine("{\"hex\":\"" + hexOf(msg) + "\",\"script\":\"" + hexOf(text) + "\"}"); }
inline void dumpLog(std::string_view msg, const std::string& text) { dumpLine("{\"hex\":\"" + hexOf(msg) + "\",\"log\":\"" + hexOf(text) + "\"}"); }
} // namespace h
