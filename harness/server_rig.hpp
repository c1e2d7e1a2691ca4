// The HTTP server alone over the simulated network.
#pragma once
#include "oracle.hpp"
#include "sim.hpp"

namespace h {
template<typename FS = MemFS<0>>
struct Srv {
    WorldScope scope;
    std::unique_ptr<webfront::http::Server<Net, FS>> server;
    std::vector<std::unique_ptr<Net::Socket>> upgraded;
    std::function<void(Net::Socket&&)> onUpgraded;
    explicit Srv(std::string root = ".", bool handleUpgrades = true) {
        scope.world.spontaneousOrder = false;
        server = std::make_unique<webfront::http::Server<Net, FS>>("0.0.0.0", "80", root);
        if (handleUpgrades)
            server->onUpgrade([this](Net::Socket&& s, webfront::http::Protocol) {
                mc::note("upgraded");
                if (onUpgraded) onUpgraded(std::move(s));
                else upgraded.push_back(std::make_unique<Net::Socket>(std::move(s)));
            });
    }
    sim::World& world() { return scope.world; }
    void run() { server->run(); }
    ConnP open() {
        auto c = newConn();
        connectTo(c);
        return c;
    }
    // a request sent whole on its own connection, the answer
    std::string ask(std::string_view request) {
        auto c = open();
        deliver(c, request);
        run();
        return str(c->wire);
    }
};
struct Ask {
    std::string method = "GET", target = "/";
    std::vector<std::pair<std::string, std::string>> headers;
    std::string text() const {
        auto s = method + " " + target + " HTTP/1.1\r\n";
        for (auto& [k, v] : headers) s += k + ": " + v + "\r\n";
        return s + "\r\n";
    }
};
inline std::string lower(std::string s) {
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    return s;
}
inline bool contains(const Ask& a, std::string_view name, std::string_view text) {
    for (auto& [k, v] : a.headers)
        if (lower(k) == lower(std::string(name)) && lower(v).find(lower(std::string(text))) != std::string::npos) return true;
    return false;
}
inline const std::string* first(const Ask& a, std::string_view name) {
    for (auto& [k, v] : a.headers)
        if (lower(k) == lower(std::string(name))) return &v;
    return nullptr;
}
inline bool asksUpgrade(const Ask& a) {
    return a.method == "GET" && contains(a, "Connection", "upgrade") && contains(a, "Upgrade", "websocket") && first(a, "Sec-WebSocket-Key");
}
// The file a target names; nothing if the target is not acceptable
inline std::optional<std::string> fileOf(std::string_view target) {
    auto d = oracle::percentDecode(target);
    if (d.empty() || d[0] != '/' || d.find("..") != std::string::npos) return {};
    size_t i = 0;
    while (i < d.size() && d[i] == '/') ++i;
    auto p = d.substr(i);
    if (p.empty() || p.back() == '/') p += "index.html";
    return p;
}
struct Expected {
    int status = 0;
    std::vector<std::pair<std::string, std::string>> headers; // those which have to be there
    std::optional<std::string> body;                          // nothing: an error page, whatever its text
    std::vector<std::string> absent;
};
inline Expected expected(const Ask& a, const std::map<std::string, MemFile>& files) {
    Expected e;
    auto path = fileOf(a.target);
    if (!path) { e.status = 400; return e; }
    if (a.method != "GET" && a.method != "HEAD") { e.status = 501; return e; }
    if (asksUpgrade(a)) {
        e.status = 101;
        e.body = "";
        e.headers = {{"Upgrade", "websocket"}, {"Connection", "Upgrade"}, {"Sec-WebSocket-Accept", oracle::acceptKey(*first(a, "Sec-WebSocket-Key"))}};
        return e;
    }
    auto it = files.find(*path);
    if (it == files.end()) { e.status = 404; return e; }
    auto& f = it->second;
    if (!f.encoding.empty() && a.method == "GET" && !contains(a, "Accept-Encoding", f.encoding)) { e.status = 506; return e; }
    e.status = 200;
    e.body = a.method == "HEAD" ? "" : f.content;
    e.headers = {{"Content-Length", std::to_string(f.content.size())}, {"Content-Type", oracle::mimeOfFile(*path)}};
    if (!f.encoding.empty()) e.headers.emplace_back("Content-Encoding", f.encoding);
    else e.absent.push_back("Content-Encoding");
    return e;
}
// Compares what is on the wire with what was expected; the wire has to hold exactly one response
inline void checkAnswer(std::string_view wire, const Expected& e, bool head, const std::string& what) {
    auto r = parseResponse(wire, head);
    MC_REQUIRE(!r.malformed, "malformed-response", "%s: %s in %s", what.c_str(), r.why.c_str(), show(wire).c_str());
    MC_REQUIRE(r.complete, "no-response", "%s: no complete response (%s)", what.c_str(), show(wire).c_str());
    MC_REQUIRE(r.status == e.status, "wrong-status", "%s: answered %d instead of %d", what.c_str(), r.status, e.status);
    MC_REQUIRE(r.reason == reasonOf(r.status), "wrong-reason", "%s: reason '%s' for %d", what.c_str(), r.reason.c_str(), r.status);
    MC_REQUIRE(r.size == wire.size(), "extra-bytes", "%s: %zu bytes after the response", what.c_str(), wire.size() - r.size);
    for (auto& [k, v] : e.headers) {
        MC_REQUIRE(r.count(k) == 1, "wrong-header", "%s: header %s appears %zu times", what.c_str(), k.c_str(), r.count(k));
        MC_REQUIRE(*r.header(k) == v, "wrong-header", "%s: %s is '%s' instead of '%s'", what.c_str(), k.c_str(), r.header(k)->c_str(), v.c_str());
    }
    for (auto& k : e.absent) MC_REQUIRE(!r.count(k), "wrong-header", "%s: unexpected %s", what.c_str(), k.c_str());
    if (e.body) MC_REQUIRE(r.body == *e.body, "wrong-body", "%s: body of %zu bytes instead of %zu, or different", what.c_str(), r.body.size(), e.body->size());
    else if (!head) MC_REQUIRE(r.header("Content-Type") == "text/html" && r.body.find(std::to_string(r.status)) != std::string::npos, "wrong-body", "%s: not an error page", what.c_str());
    else MC_REQUIRE(r.body.empty(), "wrong-body", "%s: body after a HEAD", what.c_str());
}
} // namespace h
