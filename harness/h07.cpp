// H07: the answer is the one the request, the files and the client's encodings call for.
#include "server_rig.hpp"
#include <system/NativeFS.hpp>
#include <fstream>
using namespace h;
namespace fs = std::filesystem;

namespace {
const std::vector<std::string> methods{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "GETT", "HEADS", "GE", "get", "head", "Z", "UNDEFINED", "PROPFIND"};
void one(Srv<>& s, const Ask& a) {
    checkAnswer(s.ask(a.text()), expected(a, MemFS<0>::files), a.method == "HEAD", a.method + " " + a.target);
    s.world().conns.clear();
    MemFS<0>::opened.clear();
    mc::count("evaluations");
    mc::outcome(mc::hash(a.text()));
}
using Headers = std::vector<std::pair<std::string, std::string>>;
const std::vector<Headers> accepts{{}, {{"Accept-Encoding", "br"}}, {{"accept-encoding", "gzip, deflate, br"}}, {{"Accept-Encoding", "gzip;q=1.0, br;q=0.5"}}, {{"Accept-Encoding", "BR"}}, {{"Accept-Encoding", "identity"}}, {{"Accept-Encoding", ""}},
    {{"Accept-Encoding", "gzip"}}, {{"Accept-Encoding", "deflate"}, {"ACCEPT-ENCODING", "br"}}, {{"Accept-Encoding", "b, r"}}, {{"Accept", "br"}}, {{"Accept-Encodings", "br"}}, {{"Accept-Encoding", "deflate, GZip"}}, {{"Accept-Encoding", "compress"}, {"Accept-Encoding", "gzip"}, {"Accept-Encoding", "x"}}, {{"X", "Accept-Encoding: br"}}};
const std::vector<std::string> extensions{"js", "mjs", "htm", "html", "jpg", "jpeg", "css", "png", "gif", "json", "pdf", "ttf", "ico", "svg", "webp", "csv", "txt", "xml", "bin", "", "JS", "js.txt", "tar.gz", "html.js", "j", "jsx"};
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. every size, stored plain or encoded, GET and HEAD; the storage is padded with bytes that must not be served
    for (int block = 0; block < 8; ++block)
        mc::add(mc::fmt("sizes/%d", block), [=] {
            int total = mc::thorough() ? 8200 : 1100;
            auto n = static_cast<size_t>(mc::pick((total - block + 7) / 8) * 8 + block);
            for (int kind = 0; kind < 4; ++kind) {
                MemFS<0>::files = {{"f.html", MemFile(kind & 2 ? std::string(n, '\0') : pattern(n, static_cast<unsigned>(n)), kind & 1 ? "gzip" : "")}};
                Srv<> s;
                for (auto m : {"GET", "HEAD"})
                    for (auto& acc : {accepts[7], accepts[0]}) one(s, {m, "/f.html", acc});
            }
        });
    mc::add("big", [=] {
        static const std::vector<size_t> sizes{1535, 1536, 1537, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100001, 300000};
        auto n = mc::pickOf(sizes);
        MemFS<0>::files = {{"f.bin", MemFile(pattern(n, 3))}};
        Srv<> s;
        one(s, {mc::flip() ? "HEAD" : "GET", "/f.bin", {}});
    });
    // 2. every method x target x Accept-Encoding x stored encoding
    static const std::vector<std::string> targets{"/", "/f.css", "/d/", "/d", "/d/f.css", "/none", "/none/", "/f.css/", "/F.CSS", "//f.css", "/%66.css", "/f%2Ecss", "/f.css%00", "/f.css?x", "/d%2ff.css", "/d%2F", "/a+b", "/a%20b", "/a%2Bb", "/f.cs", "/.css", "/index.html", "f.css", "", "*", "/../f.css", "/x..y", "/%2e%2e/f.css", "/d/index.html", "/u/", "/e%CC%81.css", "/\xc3\xa9", "/.", "/a%", "/a%2", "/a%zz"};
    for (auto& m : methods)
        mc::add("product/" + m, [=] {
            auto enc = mc::pick(4);
            std::string e = enc == 0 ? "" : enc == 1 ? "br" : enc == 2 ? "gzip" : "deflate";
            auto& tg = mc::pickOf(targets);
            MemFS<0>::files = {{"index.html", MemFile("top", e)}, {"f.css", MemFile("css content", e)}, {"d/index.html", MemFile("in d", e)}, {"d", MemFile("plain d")}, {"d/f.css", MemFile("css in d", e)}, {"a b", MemFile("blank", e)}, {"a+b", MemFile("plus", e)}, {".css", MemFile("hidden", e)}, {"e\xCC\x81.css", MemFile("accent")}, {"\xc3\xa9", MemFile("utf8")}, {"a%", MemFile("percent")}, {"a%2", MemFile("percent two")}, {"a%zz", MemFile("zz")}};
            Srv<> s;
            for (auto& acc : accepts) {
                if (tg.empty()) continue; // not a request line
                one(s, {m, tg, acc});
            }
        });
    // 3. every extension, on plain and encoded files, deeper in the tree too
    for (auto& x : extensions)
        mc::add("extension/" + x, [=] {
            static const std::vector<std::string> names{"f", "a.b", "d/f", "x.js/f", "very-long-name-of-a-file-in-a-directory/and/more/levels/to/it", "."};
            auto& n = mc::pickOf(names);
            auto path = n + (x.empty() ? "" : "." + x);
            if (path.find("..") != std::string::npos || path == ".") return;
            auto enc = mc::flip();
            MemFS<0>::files = {{path, MemFile("content of " + path, enc ? "br" : "")}};
            Srv<> s;
            for (auto m : {"GET", "HEAD"})
                for (auto& acc : {accepts[1], accepts[0]}) one(s, {m, "/" + path, acc});
        });
    // 4. every byte in a name, percent-encoded or raw
    mc::add("names", [=] {
        auto b = mc::pick(256);
        auto c = static_cast<char>(b);
        auto where = mc::pick(3);
        std::string name = where == 0 ? std::string(1, c) + "z.js" : where == 1 ? std::string("z") + c + "y.js" : std::string("zy.js") + c;
        std::string canonical = name;
        MemFS<0>::files = {{"index.html", MemFile("index")}};
        if (c != '/') MemFS<0>::files[canonical] = MemFile("content");
        Srv<> s;
        std::string spelled;
        for (auto k : name) spelled += mc::fmt("%%%02x", static_cast<unsigned char>(k));
        one(s, {"GET", "/" + spelled, {}});
        one(s, {"HEAD", "/" + oracle::percentEncode(name), {}});
        bool raw = b > 32 && b != 127;
        if (raw) one(s, {"GET", "/" + name, {}});
    });
    // 5. answers do not depend on the requests before
    mc::add("sequences", [=] {
        MemFS<0>::files = {{"index.html", MemFile("top")}, {"f.css", MemFile(pattern(600, 1), "br")}, {"g.js", MemFile(pattern(513, 2))}, {"h", MemFile("")}};
        static const std::vector<Ask> asks{{"GET", "/f.css", accepts[1]}, {"GET", "/f.css", {}}, {"HEAD", "/f.css", {}}, {"GET", "/g.js", {}}, {"HEAD", "/g.js", accepts[1]}, {"GET", "/h", {}}, {"GET", "/none", {}}, {"POST", "/g.js", {}}, {"GET", "/", {}}, {"HEAD", "/none", {}}, {"GET", "/..", {}}};
        Srv<> s;
        for (int i = 0; i < (t ? 4 : 3); ++i) one(s, mc::pickOf(asks));
    });
    // 6. a file may appear, change or go away between two requests
    mc::add("changes", [=] {
        MemFS<0>::files.clear();
        Srv<> s;
        for (int i = 0; i < 4; ++i) {
            switch (mc::pick(4)) {
            case 0: MemFS<0>::files["f.js"] = MemFile(pattern(static_cast<size_t>(10 + i), static_cast<unsigned>(i))); break;
            case 1: MemFS<0>::files["f.js"] = MemFile(pattern(static_cast<size_t>(700 + i), static_cast<unsigned>(i)), "gzip"); break;
            case 2: MemFS<0>::files.erase("f.js"); break;
            case 3: MemFS<0>::files["f.js"] = MemFile(""); break;
            }
            one(s, {"GET", "/f.js", accepts[2]});
            one(s, {"HEAD", "/f.js", {}});
        }
    });
    // 7. files of a real directory
    mc::add("native", [=] {
        auto root = fs::path(mc::ex().data) / mc::fmt("native-%d", static_cast<int>(getpid()));
        fs::create_directories(root / "d");
        auto n = static_cast<size_t>(mc::pick(mc::thorough() ? 2100 : 1100));
        auto kind = mc::pick(3);
        std::string content = kind == 0 ? pattern(n, 1) : kind == 1 ? std::string(n, '\n') : std::string(n, '\0');
        auto& x = extensions[n % extensions.size()];
        std::string name = n % 2 ? "d/f" : "f";
        if (!x.empty()) name += "." + x;
        std::ofstream(root / name, std::ios::binary) << content;
        {
            Srv<webfront::fs::NativeDebugFS> s(root.string());
            std::map<std::string, MemFile> files{{name, MemFile(content)}};
            for (auto m : {"GET", "HEAD", "PUT"})
                for (auto tg : {"/" + name, std::string("/d"), std::string("/d/"), std::string("/none")}) {
                    Ask a{m, tg, accepts[2]};
                    checkAnswer(s.ask(a.text()), expected(a, files), a.method == "HEAD", a.method + " native " + a.target);
                    mc::count("evaluations");
                }
        }
        fs::remove(root / name);
        mc::outcome(n * 4 + static_cast<size_t>(kind));
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
