// F03: every embedded asset is served whole and decodes to what it claims to be.
#include "exact.hpp"
#include "server_rig.hpp"
#include <fstream>
#include <system/BabelFS.hpp>
#include <system/IndexFS.hpp>
#include <system/JasmineFS.hpp>
#include <system/ReactFS.hpp>
using namespace h;
using webfront::fs::File;

namespace {
using Open = std::function<std::optional<File>(const std::string&)>;
template<typename FS>
Open opener() {
    return [](const std::string& n) {
        FS f{std::filesystem::path(".")};
        return f.open(std::filesystem::path(n));
    };
}
struct Provider {
    std::string name;
    Open open;
    std::vector<std::string> files;
};
const std::vector<Provider>& providers() {
    static const std::vector<Provider> p{
        {"IndexFS", opener<webfront::fs::IndexFS>(), {"index.html", "favicon.ico", "WebFront.js"}},
        {"JasmineFS", opener<webfront::fs::JasmineFS>(), {"jasmine/4.6.0/jasmine_favicon.png", "jasmine/4.6.0/jasmine.css", "jasmine/4.6.0/jasmine.js", "jasmine/4.6.0/jasmine-html.js", "jasmine/4.6.0/boot0.js", "jasmine/4.6.0/boot1.js"}},
        {"ReactFS", opener<webfront::fs::ReactFS>(), {"react@18/umd/react.production.min.js", "react-dom@18/umd/react-dom.production.min.js"}},
        {"BabelFS", opener<webfront::fs::BabelFS>(), {"babel-standalone@7.22.5/babel.min.js"}}};
    return p;
}
std::string readAll(File& f, size_t by) {
    std::string s;
    auto b = std::make_unique<char[]>(by);
    while (auto n = f.read(std::span<char>(b.get(), by))) {
        s.append(b.get(), n);
        MC_REQUIRE(s.size() < 50000000, "endless", "an asset does not end");
    }
    MC_REQUIRE(f.eof(), "no-eof", "the end of an asset is not reported");
    return s;
}
void absent(const Provider& p, const std::string& n) {
    MC_REQUIRE(!p.open(n), "unknown-name", "%s has '%s'", p.name.c_str(), show(n).c_str());
    mc::count("evaluations");
    mc::outcome(mc::hash(p.name + n));
}
bool offered(const Provider& p, const std::string& n) {
    auto r = n.substr(std::min(n.size(), n.find_first_not_of('/'))); // one or more leading slashes make no difference
    return std::find(p.files.begin(), p.files.end(), r) != p.files.end();
}
} // namespace

void declare() {
    for (auto& p : providers())
        for (size_t i = 0; i < p.files.size(); ++i) {
            auto name = p.files[i];
            auto label = p.name + "-" + std::to_string(i);
            // 1. whole and alike by any read size, with or without the leading slash, several times; kept for the decoders
            mc::add("whole/" + label, [&p, name, label] {
                auto f = p.open(name);
                MC_REQUIRE(f.has_value(), "absent", "%s does not have '%s'", p.name.c_str(), name.c_str());
                auto encoding = std::string(f->getEncoding());
                auto all = readAll(*f, 100000);
                MC_REQUIRE(!all.empty(), "empty", "'%s' is empty", name.c_str());
                for (size_t by : {1u, 7u, 8u, 511u, 512u, 513u, 4096u})
                    for (std::string lead : {"", "/"}) {
                        auto g = p.open(lead + name);
                        MC_REQUIRE(g.has_value(), "absent", "%s does not have '%s%s'", p.name.c_str(), lead.c_str(), name.c_str());
                        MC_REQUIRE(readAll(*g, by) == all && g->getEncoding() == encoding, "differs", "'%s%s' differs when read by %zu", lead.c_str(), name.c_str(), by);
                        mc::count("evaluations");
                    }
                std::ofstream(mc::ex().data + "/asset." + label, std::ios::binary) << all;
                std::ofstream(mc::ex().data + "/asset." + label + ".json") << "{\"name\":\"" << name << "\",\"encoding\":\"" << encoding << "\"}";
                mc::outcome(mc::hash(all));
                mc::step(mc::hash(name));
            });
            // 2. any single-character change of the name is another name
            for (size_t at = 0; at <= name.size(); ++at)
                mc::add(mc::fmt("edits/%s/%zu", label.c_str(), at), [&p, name, at] {
                    auto one = [&](const std::string& n) { if (!offered(p, n)) { absent(p, n); absent(p, "/" + n); } };
                    if (at < name.size()) one(name.substr(0, at) + name.substr(at + 1));
                    one(name.substr(0, at));
                    one(name.substr(at));
                    for (int b = 0; b < 256; ++b) {
                        auto n = name;
                        n.insert(at, 1, static_cast<char>(b));
                        one(n);
                        if (at == name.size()) continue;
                        n = name;
                        n[at] = static_cast<char>(b);
                        one(n);
                        if (mc::thorough())
                            for (size_t k = at + 1; k < name.size(); ++k)
                                for (int c = 32; c < 127; ++c) {
                                    auto m = n;
                                    m[k] = static_cast<char>(c);
                                    one(m);
                                }
                    }
                    mc::step(mc::hash(name) + at);
                });
            // 3. names of others, directories, other cases
            mc::add("others/" + label, [&p, name] {
                for (auto& q : providers())
                    for (auto& n : q.files) {
                        if (!offered(p, n)) absent(p, n);
                        for (std::string m : {name + n, name + "/" + n, n + "/" + name, "x/" + n, n + "/", n + ".br", n + ".gz"}) if (!offered(p, m)) absent(p, m);
                        auto up = n;
                        for (auto& c : up) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
                        absent(p, up);
                        if (auto e = n.rfind('/'); e != n.npos) {
                            absent(p, n.substr(0, e));
                            absent(p, n.substr(0, e + 1));
                            absent(p, n.substr(e + 1));
                        }
                    }
                absent(p, "");
                absent(p, "/");
                mc::step(mc::hash(name) + 1000);
            });
        }
    // 4. through the server: the declared length and encoding are those of the body
    mc::add("served", [] {
        using All = webfront::fs::Multi<webfront::fs::IndexFS, webfront::fs::JasmineFS, webfront::fs::ReactFS, webfront::fs::BabelFS>;
        Srv<All> s;
        for (auto& p : providers())
            for (auto& n : p.files) {
                auto f = p.open(n);
                MC_REQUIRE(f.has_value(), "absent", "%s does not have '%s'", p.name.c_str(), n.c_str());
                auto all = readAll(*f, 4096);
                auto r = parseResponse(s.ask("GET /" + oracle::percentEncode(n) + " HTTP/1.1\r\nAccept-Encoding: gzip, deflate, br\r\n\r\n"));
                MC_REQUIRE(r.complete && r.status == 200 && r.body == all && r.header("Content-Encoding").value_or("") == f->getEncoding(), "served", "'%s' is served (%d) with %zu bytes instead of %zu", n.c_str(), r.status, r.body.size(), all.size());
                MC_REQUIRE(r.header("Content-Type") == oracle::mimeOfFile(n), "served-type", "'%s' is served as '%s'", n.c_str(), r.header("Content-Type").value_or("").c_str());
                s.world().conns.clear();
                mc::count("evaluations");
            }
        mc::step(4);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
