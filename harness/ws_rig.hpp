// A WebSocket over one simulated connection, without the HTTP server in front of it.
#pragma once
#include "sim.hpp"

namespace h {
struct Msg {
    int type; // 1 text, 2 binary
    std::string payload;
    bool operator==(const Msg&) const = default;
};
inline std::string show(const std::vector<Msg>& v) {
    std::string s;
    for (auto& m : v) s += (m.type == 1 ? "text(" : "binary(") + show(m.payload, 16) + ") ";
    return s.empty() ? "nothing" : s;
}
using WS = webfront::websocket::WebSocket<Net>;

struct WsRig {
    WorldScope scope;
    std::experimental::net::io_context io;
    ConnP conn = newConn();
    std::unique_ptr<WS> ws;
    std::vector<Msg> got;
    int closed = 0;
    WsRig() : WsRig(true, true) {}
    WsRig(bool text, bool binary) {
        scope.world.spontaneousOrder = false;
        ws = std::make_unique<WS>(Net::Socket(io.impl, conn));
        if (text) ws->onMessage([this](std::string_view t) { got.push_back({1, std::string(t)}); });
        if (binary) ws->onMessage([this](std::span<const std::byte> b) { got.push_back({2, str(b)}); });
        ws->onClose([this](webfront::websocket::CloseEvent) { ++closed; });
    }
    void feed(std::string_view s) {
        deliver(conn, s);
        io.run();
    }
};

// A byte stream and the messages it carries, with the number of bytes after which each is complete.
struct Stream {
    std::string bytes;
    std::vector<Msg> messages;
    std::vector<size_t> completeAt;
    std::vector<size_t> frameEnds, headerEnds;
    std::string partial;
    int partialType = 0;
    Stream& frame(const WsFrame& f) {
        auto e = encodeFrame(f);
        headerEnds.push_back(bytes.size() + e.size() - f.payload.size());
        bytes += e;
        frameEnds.push_back(bytes.size());
        if (f.opcode >= 8) return *this;
        if (f.opcode != 0) {
            partial.clear();
            partialType = f.opcode;
        }
        partial += f.payload;
        if (f.fin) {
            messages.push_back({partialType, partial});
            completeAt.push_back(bytes.size());
            partial.clear();
            partialType = 0;
        }
        return *this;
    }
    size_t due(size_t received) const {
        size_t n = 0;
        while (n < completeAt.size() && completeAt[n] <= received) ++n;
        return n;
    }
};
} // namespace h
