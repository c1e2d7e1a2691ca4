// H08: content types match file extensions.
#include "server_rig.hpp"
using namespace h;

namespace {
using webfront::http::MimeType;
void check(const std::string& ext) {
    auto want = oracle::mimeOf(ext);
    auto a = std::string(MimeType(std::string_view(ext)).toString()), b = std::string(MimeType::fromExtension(ext).toString());
    MC_REQUIRE(a == want && b == want, "wrong-type", "extension '%s' has type '%s' / '%s' instead of '%s'", show(ext).c_str(), a.c_str(), b.c_str(), want.c_str());
    mc::count("evaluations");
}
void both(const std::string& e) {
    check(e);
    check("." + e);
    if (oracle::mimeOf(e) != "text/plain") mc::outcome(mc::hash(e));
}
void served(Srv<>& s, const std::string& file) {
    MemFS<0>::files = {{file, MemFile("x")}};
    auto r = parseResponse(s.ask("GET /" + oracle::percentEncode(file) + " HTTP/1.1\r\n\r\n"));
    auto want = oracle::mimeOfFile(file);
    MC_REQUIRE(r.status == 200 && r.header("Content-Type") == want, "wrong-header", "file '%s' is served (%d) as '%s' instead of '%s'", show(file).c_str(), r.status, r.header("Content-Type").value_or("").c_str(), want.c_str());
    mc::count("evaluations");
    s.world().conns.clear();
    MemFS<0>::opened.clear();
}
} // namespace

void declare() {
    // 1. every string of up to 4 (5) lower-case letters
    for (char a = 'a'; a <= 'z'; ++a)
        for (char b = 'a'; b <= 'z'; ++b)
            mc::add(mc::fmt("letters/%c%c", a, b), [=] {
                std::string p{a, b};
                check(std::string(1, a));
                both(p);
                for (char c = 'a'; c <= 'z'; ++c) {
                    both(p + c);
                    for (char d = 'a'; d <= 'z'; ++d) {
                        both(p + c + d);
                        if (mc::thorough()) for (char e = 'a'; e <= 'z'; ++e) both(p + c + d + e);
                    }
                }
                mc::step(mc::hash(p));
            });
    // 2. every edit of a known extension: a changed, inserted or removed byte, pairs of changes; doubled dots
    for (auto& [ext, type] : oracle::mimeTypes())
        mc::add("edits/" + ext, [ext = ext] {
            both(ext);
            both("." + ext);
            both(ext + ".");
            for (size_t i = 0; i <= ext.size(); ++i) {
                if (i < ext.size()) both(ext.substr(0, i) + ext.substr(i + 1));
                for (int b = 0; b < 256; ++b) {
                    auto s = ext;
                    s.insert(i, 1, static_cast<char>(b));
                    both(s);
                    if (i == ext.size()) continue;
                    s = ext;
                    s[i] = static_cast<char>(b);
                    both(s);
                    for (size_t j = i + 1; j < ext.size(); ++j)
                        for (int c = 0; c < 256; c += mc::thorough() ? 1 : 3) {
                            s[j] = static_cast<char>(c);
                            both(s);
                            s[j] = ext[j];
                        }
                }
            }
            // every mix of cases
            for (unsigned m = 0; m < 1u << ext.size(); ++m) {
                auto s = ext;
                for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1) s[i] = static_cast<char>(std::toupper(s[i]));
                both(s);
            }
            for (auto& [other, x] : oracle::mimeTypes()) { both(ext + other); both(ext + "." + other); both(ext + "," + other); }
            mc::step(mc::hash(ext));
        });
    // 3. in the header of a served file
    for (auto& [ext, type] : oracle::mimeTypes())
        mc::add("served/" + ext, [ext = ext] {
            Srv<> s;
            for (std::string base : {"f", "d/f", "d.css/f", "a.b.c", ".f", "f.", "f.js", "F", "f f", "d/."})
                if ((base + ".").find("..") == std::string::npos) for (std::string tail : {"", "x", ".x", ".html"}) served(s, base + "." + ext + tail);
            served(s, "." + ext);
            served(s, "d/." + ext);
            served(s, ext);
            served(s, "d." + ext + "/f");
            for (auto& [other, x] : oracle::mimeTypes()) { served(s, "f." + other + "." + ext); served(s, "d." + other + "/f." + ext); }
            std::string e = ext;
            for (size_t i = 0; i < e.size(); ++i)
                for (char c : std::string("abcxyzABC019_-~")) {
                    auto y = e;
                    y[i] = c;
                    served(s, "f." + y);
                    y = e;
                    y.insert(i, 1, c);
                    served(s, "f." + y);
                }
            auto up = e;
            for (auto& c : up) c = static_cast<char>(std::toupper(c));
            served(s, "f." + up);
        });
    // 4. types are printed as registered
    mc::add("names", [] {
        static const std::vector<std::pair<MimeType::Type, std::string>> all{{MimeType::plain, "text/plain"}, {MimeType::html, "text/html"}, {MimeType::css, "text/css"}, {MimeType::js, "application/javascript"}, {MimeType::jpg, "image/jpeg"}, {MimeType::png, "image/png"}, {MimeType::gif, "image/gif"}, {MimeType::json, "application/json"}, {MimeType::pdf, "application/pdf"}, {MimeType::ttf, "font/ttf"}, {MimeType::ico, "image/x-icon"}, {MimeType::svg, "image/svg+xml"}, {MimeType::webp, "image/webp"}};
        for (auto& [k, v] : all) MC_REQUIRE(MimeType(k).toString() == v, "wrong-name", "type %d is '%s'", static_cast<int>(k), std::string(MimeType(k).toString()).c_str());
        mc::step(1);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
