// H06: no request target reaches outside the document root.
#include "server_rig.hpp"
#include <system/NativeFS.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace h;
namespace fs = std::filesystem;

namespace {
const std::vector<std::string> symbols{"/", ".", "..", "%2e", "%2F", "%00", "%25", "\\", "a", "+", "?", "#", "%5c", "%2E%2e"};
const std::string marker = "SECRET-OUTSIDE-THE-ROOT";

// the paths handed to the file systems
void opened(const std::string& target, bool refused) {
    for (auto& p : MemFS<6>::opened) {
        MC_REQUIRE(!refused, "opened-refused", "target '%s' is refused but '%s' was opened", show(target).c_str(), show(p).c_str());
        fs::path path(p);
        MC_REQUIRE(!p.empty() && !path.is_absolute() && path.is_relative() && !path.has_root_path(), "absolute", "target '%s' opens the absolute '%s'", show(target).c_str(), show(p).c_str());
        int depth = 0;
        size_t i = 0;
        while (i <= p.size()) { // resolved by hand
            auto e = p.find('/', i);
            if (e == std::string::npos) e = p.size();
            auto part = p.substr(i, e - i);
            i = e + 1;
            if (part == "..") --depth;
            else if (!part.empty() && part != ".") ++depth;
            MC_REQUIRE(depth >= 0, "escape", "target '%s' opens '%s'", show(target).c_str(), show(p).c_str());
        }
    }
}
// straight through the request handler
void handle(const std::string& target, webfront::http::RequestHandler<Net, MemFS<6>>& rh, webfront::http::Request::Method m) {
    using webfront::http::Request;
    using webfront::http::Response;
    MemFS<6>::opened.clear();
    Request r;
    r.method = m;
    r.uri = target;
    r.httpVersionMajor = r.httpVersionMinor = 1;
    auto answer = rh.handleRequest(r);
    auto f = fileOf(target);
    mc::step(mc::mix(mc::hash(target), static_cast<uint64_t>(m)));
    mc::count("evaluations");
    if (!f) MC_REQUIRE(answer.statusCode == Response::badRequest, "not-400", "target '%s' is answered %d", show(target).c_str(), answer.statusCode);
    else MC_REQUIRE(answer.statusCode != Response::badRequest, "wrongly-400", "target '%s' is answered 400", show(target).c_str());
    opened(target, !f);
    if (f) {
        MC_REQUIRE(MemFS<6>::opened.size() == 1, "opens", "target '%s' opens %zu files", show(target).c_str(), MemFS<6>::opened.size());
        MC_REQUIRE(fs::path(MemFS<6>::opened[0]).lexically_normal() == fs::path(*f).lexically_normal(), "other-file", "target '%s' opens '%s' instead of '%s'", show(target).c_str(), show(MemFS<6>::opened[0]).c_str(), show(*f).c_str());
    }
    if (!f) mc::outcome(1);
    else mc::outcome(mc::hash(*f));
}
void served(Srv<MemFS<6>>& s, const std::string& method, const std::string& target) {
    MemFS<6>::opened.clear();
    auto w = s.ask(method + " " + target + " HTTP/1.1\r\n\r\n");
    auto r = parseResponse(w, method == "HEAD");
    auto f = fileOf(target);
    MC_REQUIRE(r.complete && !r.malformed, "no-answer", "target '%s': %s", show(target).c_str(), show(w).c_str());
    mc::count("evaluations");
    if (!f) MC_REQUIRE(r.status == 400, "not-400", "target '%s' is answered %d", show(target).c_str(), r.status);
    else MC_REQUIRE(r.status == 404 || r.status == 200, "wrong-status", "target '%s' is answered %d", show(target).c_str(), r.status);
    opened(target, !f);
}

// A real tree: scratch/{secret.txt, root/..., root-other/secret.txt, outer/secret.txt}
struct Tree {
    fs::path base, root;
    std::map<std::string, std::string> inside; // path below root -> content
    Tree() {
        base = fs::path(mc::ex().data) / mc::fmt("tree-%d", static_cast<int>(getpid()));
        base = fs::absolute(base);
        root = base / "outer" / "root";
        if (!fs::exists(root)) {
            fs::create_directories(root / "a" / "a");
            fs::create_directories(root / "sub");
            fs::create_directories(base / "outer" / "root-other");
            fs::create_directories(base / "outer" / "a");
            for (auto p : {base / "secret.txt", base / "outer" / "secret.txt", base / "outer" / "root-other" / "secret.txt", base / "outer" / "index.html", base / "index.html", base / "outer" / "a" / "index.html", base / "a", base / "outer" / "b"})
                std::ofstream(p) << marker;
        }
        for (auto p : {"index.html", "a/index.html", "a/a/index.html", "sub/x.txt", "secret.txt", "+", "a/b", ".a", "a.", "%", "\\"}) {
            inside[p] = std::string("inside:") + p;
            if (!fs::exists(root / p)) std::ofstream(root / p) << inside[p];
        }
    }
    ~Tree() = default;
};
Tree& tree() {
    static Tree t;
    return t;
}
void real(Srv<webfront::fs::NativeDebugFS>& s, const std::string& method, const std::string& target) {
    auto w = s.ask(method + " " + target + " HTTP/1.1\r\n\r\n");
    auto r = parseResponse(w, method == "HEAD");
    MC_REQUIRE(r.complete && !r.malformed, "no-answer", "target '%s': %s", show(target).c_str(), show(w).c_str());
    MC_REQUIRE(w.find(marker) == std::string::npos, "leak", "target '%s' is answered with a file from outside the root", show(target).c_str());
    mc::count("evaluations");
    auto f = fileOf(target);
    if (!f) { MC_REQUIRE(r.status == 400, "not-400", "target '%s' is answered %d", show(target).c_str(), r.status); return; }
    auto normal = fs::path(*f).lexically_normal().string();
    auto it = tree().inside.find(normal);
    if (r.status == 200) {
        MC_REQUIRE(it != tree().inside.end(), "unknown-file", "target '%s' is answered 200", show(target).c_str());
        if (method == "HEAD") MC_REQUIRE(r.header("Content-Length") == std::to_string(it->second.size()), "wrong-file", "target '%s': wrong length", show(target).c_str());
        else MC_REQUIRE(r.body == it->second, "wrong-file", "target '%s' is answered '%s'", show(target).c_str(), show(r.body).c_str());
    }
    else MC_REQUIRE(r.status == 404, "wrong-status", "target '%s' is answered %d", show(target).c_str(), r.status);
    if (it != tree().inside.end() && normal == *f) MC_REQUIRE(r.status == 200, "not-served", "target '%s' is answered %d", show(target).c_str(), r.status);
    mc::outcome(mc::hash(target));
}
std::string spell(const std::string& s, int how) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        auto c = static_cast<unsigned char>(s[i]);
        bool enc = how == 1 || (how == 2 && c == '.') || (how == 3 && c == '/') || (how == 4 && (c == '.' || c == '/')) || (how == 6 && i % 2);
        if (how == 5) o += c == '.' ? "%252e" : c == '/' ? "%252f" : std::string(1, s[i]);
        else if (enc) o += mc::fmt(i % 2 ? "%%%02x" : "%%%02X", c);
        else o += s[i];
    }
    return o;
}
} // namespace

void declare() {
    bool t = mc::thorough();
    using M = webfront::http::Request::Method;
    // 1. every target of symbols through the request handler (the first symbol is the scenario)
    for (size_t first = 0; first < symbols.size(); ++first)
        for (size_t second = 0; second < symbols.size(); ++second)
            mc::add(mc::fmt("handler/%zu/%zu", first, second), [=] {
                MemFS<6>::files.clear();
                webfront::log::setLogLevel(webfront::log::Disabled);
                webfront::http::RequestHandler<Net, MemFS<6>> rh("/root");
                auto third = static_cast<size_t>(mc::pick(static_cast<int>(symbols.size())));
                std::vector<std::string> level{symbols[first] + symbols[second] + symbols[third]};
                handle(symbols[first] + symbols[second], rh, M::Get);
                for (int depth = 3;; ++depth) {
                    for (auto& x : level) {
                        handle(x, rh, M::Get);
                        if (depth <= 4) { handle("/" + x, rh, M::Head); handle(x, rh, M::Head); }
                    }
                    if (depth == (t ? 7 : 6)) break;
                    std::vector<std::string> next;
                    for (auto& x : level)
                        for (auto& y : symbols) next.push_back(x + y);
                    level = std::move(next);
                }
            });
    // 2. shorter ones through the whole server
    for (size_t first = 0; first < symbols.size(); ++first)
        mc::add(mc::fmt("server/%zu", first), [=] {
            MemFS<6>::files.clear();
            Srv<MemFS<6>> s("/root");
            auto second = static_cast<size_t>(mc::pick(static_cast<int>(symbols.size())));
            auto method = mc::flip() ? "HEAD" : "GET";
            served(s, method, symbols[first] + symbols[second]);
            for (auto& x : symbols) {
                served(s, method, symbols[first] + symbols[second] + x);
                for (auto& y : symbols) served(s, method, symbols[first] + symbols[second] + x + y);
                if (!t && second % 4) s.world().conns.clear();
                if (t) for (auto& y : symbols) for (auto& z : symbols) { served(s, method, symbols[first] + symbols[second] + x + y + z); }
                s.world().conns.clear();
            }
            mc::outcome(first * 64 + second);
        });
    // 3. every pair of percent-encoded bytes
    mc::add("bytes", [=] {
        MemFS<6>::files.clear();
        webfront::log::setLogLevel(webfront::log::Disabled);
        webfront::http::RequestHandler<Net, MemFS<6>> rh("/root");
        auto a = mc::pick(256);
        for (int b = 0; b < 256; ++b) {
            handle(mc::fmt("/%%%02x%%%02X", a, b), rh, M::Get);
            handle(mc::fmt("/a%%%02x%%%02X/b", a, b), rh, M::Get);
            handle(std::string("/") + static_cast<char>(a) + static_cast<char>(b), rh, M::Get);
            handle(std::string() + static_cast<char>(a) + static_cast<char>(b) + "/x", rh, M::Get);
        }
    });
    // 4. a real directory as root: short targets over symbols, and every spelling of the way to what is outside
    for (int rootForm = 0; rootForm < 4; ++rootForm) {
        auto rootOf = [rootForm] {
            auto r = tree().root.string();
            return rootForm == 1 ? r + "/" : rootForm == 2 ? fs::relative(tree().root).string() : rootForm == 3 ? r + "/../root" : r;
        };
        mc::add(mc::fmt("real/%d", rootForm), [=] {
            Srv<webfront::fs::NativeDebugFS> s(rootOf());
            auto first = static_cast<size_t>(mc::pick(static_cast<int>(symbols.size())));
            for (auto& x : symbols) {
                real(s, "GET", "/" + symbols[first] + x);
                for (auto& y : symbols) {
                    real(s, "GET", "/" + symbols[first] + x + y);
                    real(s, "GET", symbols[first] + x + y);
                    for (auto tail : {"secret.txt", "index.html", "/secret.txt", "/"}) real(s, "GET", "/" + symbols[first] + x + y + tail);
                    if (t) for (auto& z : symbols) real(s, "GET", "/" + symbols[first] + x + y + z + "/secret.txt");
                    s.world().conns.clear();
                }
            }
        });
        mc::add(mc::fmt("outside/%d", rootForm), [=] {
            Srv<webfront::fs::NativeDebugFS> s(rootOf());
            auto b = tree().base.string();
            std::vector<std::string> ways{"../secret.txt", "../../secret.txt", "../root-other/secret.txt", "a/../../secret.txt", "sub/../../secret.txt", "./../secret.txt", "..//secret.txt", b + "/secret.txt", "/" + b + "/secret.txt", b + "/outer/secret.txt",
                "..", "../", "../..", "a/..", "a/../..", "../b", "-other/secret.txt", "..\\secret.txt", "a/%00/../../../secret.txt", "../../outer/secret.txt", "etc/passwd", "/etc/passwd", ".../secret.txt", "~/secret.txt", "file://" + b + "/secret.txt"};
            auto& w = mc::pickOf(ways);
            auto how = mc::pick(7);
            for (auto lead : {"/", "", "//", "///", "/./", "%2f", "%2F%2f", "/%2f", "\\", "/a/", "/sub//", "/?", "/.", "http://h/"})
                for (auto method : {"GET", "HEAD"})
                    for (auto tail : {"", "?", "%00", "%00.html", "/", "/.", "#x"}) real(s, method, lead + spell(w, how) + tail);
        });
    }
}
int main(int c, char** v) { return mc::run(c, v, declare); }
