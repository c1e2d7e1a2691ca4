// H02: request heads are accepted, rejected and decoded by one grammar.
#include "server_rig.hpp"
using namespace h;
using Request = webfront::http::Request;

namespace {
// ------------------------------------------------------------ the grammar, by recursive descent over the whole string
struct Parsed {
    enum { incomplete, accepted, rejected } verdict = incomplete;
    size_t at = 0; // accepted: size of the head; rejected: index of the offending byte
    std::string method, target;
    std::string major, minor;
    std::vector<std::pair<std::string, std::string>> headers;
};
bool ctl(unsigned char c) { return c < 32 || c == 127; }
bool token(unsigned char c) { return c > 32 && c < 127 && !strchr("()<>@,;:\\\"/[]?={} \t", c); }
struct Grammar {
    std::string_view s;
    size_t i = 0;
    Parsed p;
    struct Stop {};
    unsigned char peek() { if (i >= s.size()) throw Stop{}; return static_cast<unsigned char>(s[i]); }
    [[noreturn]] void reject() { p.verdict = Parsed::rejected; p.at = i; throw Stop{}; }
    void expect(std::string_view w) { for (unsigned char c : w) { if (peek() != c) reject(); ++i; } }
    std::string tokens() {
        std::string t;
        if (!token(peek())) reject();
        while (token(peek())) t += static_cast<char>(s[i++]);
        return t;
    }
    std::string digits() {
        std::string t;
        if (!isdigit(peek())) reject();
        while (isdigit(peek())) t += static_cast<char>(s[i++]);
        return t;
    }
    std::string textUntilCR() {
        std::string t;
        while (!ctl(peek())) t += static_cast<char>(s[i++]);
        return t;
    }
    void head() {
        p.method = tokens();
        expect(" ");
        while (peek() != ' ') { if (ctl(peek())) reject(); p.target += static_cast<char>(s[i++]); }
        expect(" HTTP/");
        p.major = digits();
        expect(".");
        p.minor = digits();
        expect("\r\n");
        while (peek() != '\r') {
            if (!p.headers.empty() && (peek() == ' ' || peek() == '\t')) {
                while (peek() == ' ' || peek() == '\t') ++i;
                p.headers.back().second += textUntilCR();
            }
            else {
                p.headers.emplace_back();
                p.headers.back().first = tokens();
                expect(": ");
                p.headers.back().second = textUntilCR();
            }
            expect("\r\n");
        }
        expect("\r\n");
        p.verdict = Parsed::accepted;
        p.at = i;
    }
    Parsed run() { try { head(); } catch (Stop) {} return p; }
};
Parsed grammar(std::string_view s) { return Grammar{s}.run(); }

std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }

// ------------------------------------------------------------ one head through the real parser
void check(const std::string& s, bool bytewise = false) {
    auto g = grammar(s);
    Request r;
    bool rejected = false, done = false;
    size_t used = 0;
    mc::count("heads");
    // exactly the bytes which may be read
    std::vector<char> exact(s.begin(), s.end());
    try {
        if (bytewise) {
            for (; used < exact.size() && !done; ++used) {
                done = r.parseSomeData(exact.data() + used, exact.data() + used + 1);
                MC_REQUIRE(done == r.completed(), "completed", "completed() disagrees with the parser on %s", show(s, 200).c_str());
                if (!done && used + 1 < exact.size()) MC_REQUIRE(!(g.verdict == Parsed::rejected && used >= g.at), "late-rejection", "byte %zu of %s is not rejected as soon as it arrives", g.at, show(s, 200).c_str());
            }
            if (done) MC_REQUIRE(used == g.at, "wrong-end", "the head ends after %zu bytes, the parser needed %zu: %s", g.at, used, show(s, 200).c_str());
        }
        else done = r.parseSomeData(exact.data(), exact.data() + exact.size());
    }
    catch (const webfront::http::BadRequestException&) {
        rejected = true;
        if (bytewise) MC_REQUIRE(g.verdict == Parsed::rejected && used == g.at, "wrong-rejection", "byte %zu of %s is rejected", used, show(s, 200).c_str());
    }
    auto name = [&] { return show(s, 300); };
    MC_REQUIRE(!(rejected && g.verdict != Parsed::rejected), "wrongly-rejected", "%s is rejected", name().c_str());
    MC_REQUIRE(!(!rejected && g.verdict == Parsed::rejected), "wrongly-accepted", "%s is not rejected although its byte %zu is wrong", name().c_str(), g.at);
    MC_REQUIRE(done == (g.verdict == Parsed::accepted), "completeness", "%s is %scomplete", name().c_str(), done ? "" : "not ");
    MC_REQUIRE(rejected || r.completed() == done, "completeness", "completed() disagrees");
    mc::step(mc::mix(mc::hash(s.substr(0, g.verdict == Parsed::incomplete ? s.size() : g.at)), g.verdict));
    if (g.verdict != Parsed::accepted) return;
    static const char* methods[] = {"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
    auto m = Request::Method::Undefined;
    for (size_t k = 0; k < 9; ++k) if (g.method == methods[k]) m = static_cast<Request::Method>(k);
    MC_REQUIRE(r.method == m, "method", "%s: method %d", name().c_str(), static_cast<int>(r.method));
    MC_REQUIRE(std::string(r.getMethodName()) == (m == Request::Method::Undefined ? "UNDEFINED" : g.method), "method", "%s: method name %s", name().c_str(), std::string(r.getMethodName()).c_str());
    MC_REQUIRE(r.uri == g.target, "target", "%s: target '%s'", name().c_str(), show(r.uri).c_str());
    if (g.major.size() < 9) MC_REQUIRE(r.httpVersionMajor == atoi(g.major.c_str()), "version", "%s: major %d", name().c_str(), r.httpVersionMajor);
    if (g.minor.size() < 9) MC_REQUIRE(r.httpVersionMinor == atoi(g.minor.c_str()), "version", "%s: minor %d", name().c_str(), r.httpVersionMinor);
    MC_REQUIRE(r.headers.size() == g.headers.size(), "headers", "%s: %zu headers", name().c_str(), r.headers.size());
    for (size_t k = 0; k < g.headers.size(); ++k) {
        auto& [n, v] = g.headers[k];
        MC_REQUIRE(r.headers[k].name == n && r.headers[k].value == v, "headers", "%s: header %zu is '%s: %s' instead of '%s: %s'", name().c_str(), k, show(r.headers[k].name).c_str(), show(r.headers[k].value).c_str(), show(n).c_str(), show(v).c_str());
        // lookup ignores the case and gives the first one, the list gives all
        std::list<std::string> all;
        for (auto& [n2, v2] : g.headers) if (upper(n2) == upper(n)) all.push_back(v2);
        for (auto& q : {n, upper(n), lower(n)}) {
            MC_REQUIRE(r.getHeaderValue(q) == all.front(), "lookup", "%s: value of %s is wrong", name().c_str(), q.c_str());
            MC_REQUIRE(r.getHeadersValues(q) == all, "lookup", "%s: values of %s are wrong", name().c_str(), q.c_str());
            if (v.size() > 1) MC_REQUIRE(r.headersContain(q, v.substr(v.size() / 3, v.size() / 2)), "lookup", "%s: part of the value of %s is not found", name().c_str(), q.c_str());
        }
        auto other = n + "x";
        bool exists = std::any_of(g.headers.begin(), g.headers.end(), [&](auto& h) { return upper(h.first) == upper(other); });
        if (!exists) MC_REQUIRE(!r.getHeaderValue(other) && r.getHeadersValues(other).empty(), "lookup", "%s: a value for the absent %s", name().c_str(), other.c_str());
    }
    mc::outcome(mc::hash(s));
}

const std::vector<std::string> heads{
    "GET / HTTP/1.1\r\n\r\n",
    "POST /a%20b?c=d HTTP/1.0\r\nHost: x\r\n\r\n",
    "HEAD /x HTTP/12.34\r\nA: b\r\nc-D: \r\na: z y\r\n\r\n",
    "!#$%&'*+-.^_`|~ * HTTP/1.1\r\nX: 1\r\n 2\r\n\t3 \r\n\r\n",
    "DELETE  HTTP/1.1\r\nQ: \x80\xff\r\n\r\n",
    "Get /\xc3\xa9 HTTP/0.9\r\nK: v: w\r\n  \r\n\r\n",
};
const std::vector<std::string> prefixes{
    "", "G", "GET", "GET ", "GET /", "GET /a", "GET / ", "GET / H", "GET / HT", "GET / HTT", "GET / HTTP", "GET / HTTP/", "GET / HTTP/1", "GET / HTTP/1.", "GET / HTTP/1.1", "GET / HTTP/1.1\r",
    "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA", "GET / HTTP/1.1\r\nA:", "GET / HTTP/1.1\r\nA: ", "GET / HTTP/1.1\r\nA: b", "GET / HTTP/1.1\r\nA: b\r", "GET / HTTP/1.1\r\nA: b\r\n", "GET / HTTP/1.1\r\nA: b\r\n ",
    "GET / HTTP/1.1\r\nA: b\r\n c", "GET / HTTP/1.1\r\nA: b\r\n c\r", "GET / HTTP/1.1\r\nA: b\r\n \r\n", "GET / HTTP/1.1\r\n\r", "GET / HTTP/1.1\r\nA: b\r\n\r", "GET / HTTP/1.1\r\nA: b\r\nC: d\r\n"};
const std::vector<std::string> completions{"", "\n", "\r\n", "\r\n\r\n", "\n\r\n", " ", "x", ": ", ": v\r\n\r\n", " / HTTP/1.1\r\n\r\n", "/ HTTP/1.1\r\n\r\n", " HTTP/1.1\r\n\r\n", "HTTP/1.1\r\n\r\n", "TTP/1.1\r\n\r\n", "TP/1.1\r\n\r\n", "P/1.1\r\n\r\n",
                                            "/1.1\r\n\r\n", "1.1\r\n\r\n", ".1\r\n\r\n", "1\r\n\r\n", "A: b\r\n\r\n", " cont\r\n\r\n", "\t\r\n\r\n", "\r", "\rx", "\0"};
} // namespace

void declare() {
    bool t = mc::thorough();
    // 1. every prefix x every byte (x every byte) x every completion
    for (size_t p = 0; p < prefixes.size(); ++p)
        mc::add("byte/" + std::to_string(p), [=] {
            auto c = static_cast<char>(mc::pick(256));
            for (auto& k : completions) check(prefixes[p] + c + k, true);
            for (auto& k : completions) check(prefixes[p] + c + k, false);
        });
    for (size_t p = 0; p < prefixes.size(); ++p)
        mc::add("bytes/" + std::to_string(p), [=] {
            auto c = static_cast<char>(mc::pick(256));
            for (int d = 0; d < 256; ++d) check(prefixes[p] + c + static_cast<char>(d), false);
            if (mc::thorough()) for (int d = 0; d < 256; ++d) for (auto& k : completions) check(prefixes[p] + c + static_cast<char>(d) + k, false);
        });
    // 2. every edit at distance one of valid heads: deletion, insertion, replacement, transposition, truncation
    for (size_t i = 0; i < heads.size(); ++i) {
        mc::add("edit/" + std::to_string(i), [=] {
            auto& s = heads[i];
            auto at = static_cast<size_t>(mc::pick(static_cast<int>(s.size())));
            check(s, true);
            auto e = s;
            e.erase(at, 1);
            check(e, true);
            for (int c = 0; c < 256; ++c) {
                e = s;
                e[at] = static_cast<char>(c);
                check(e, true);
                e = s;
                e.insert(at, 1, static_cast<char>(c));
                check(e, true);
            }
            if (at + 1 < s.size()) { e = s; std::swap(e[at], e[at + 1]); check(e, true); }
            check(s.substr(0, at), true);
            check(s + s, true);
        });
        // two edits over a small alphabet
        mc::add("two-edits/" + std::to_string(i), [=] {
            auto& s = heads[i];
            static const std::string alpha = mc::thorough() ? std::string("\0\t\r\n :/A1.\x7f\x80", 12) : std::string("\t\r\n :A", 6);
            auto a = static_cast<size_t>(mc::pick(static_cast<int>(s.size())));
            for (size_t b = a; b < s.size(); ++b)
                for (auto c : alpha)
                    for (auto d : alpha) {
                        auto e = s;
                        e[a] = c;
                        e[b] = d;
                        check(e);
                    }
        });
    }
    // 3. all short strings over a small alphabet after representative prefixes
    for (size_t p = 0; p < prefixes.size(); ++p)
        mc::add("short/" + std::to_string(p), [=] {
            static const std::string alpha("\r\n :A\t/.1", 9);
            int depth = mc::thorough() ? 6 : 4;
            std::string s = prefixes[p];
            s += alpha[static_cast<size_t>(mc::pick(9))];
            s += alpha[static_cast<size_t>(mc::pick(9))];
            std::function<void(int)> rec = [&](int left) {
                check(s);
                if (!left) return;
                for (auto c : alpha) { s.push_back(c); rec(left - 1); s.pop_back(); }
            };
            rec(depth - 2);
        });
    // 4. methods
    mc::add("methods", [] {
        static const std::vector<std::string> m{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "UNDEFINED", "get", "GETT", "GE", "G", "HEADX", "head", "LOCK", "PO", "PUTT", "TRACEROUTE", "X", std::string(3000, 'M')};
        auto& x = mc::pickOf(m);
        check(x + " / HTTP/1.1\r\n\r\n", true);
    });
    // 5. the first of several headers with the same name in any case; histories of many headers
    mc::add("same-name", [] {
        static const std::vector<std::string> n{"Key", "kEY", "key", "KEY", "Kez", "Ke", "Keyy", "K-y", "K\x7ey"};
        std::string s = "GET / HTTP/1.1\r\n";
        for (int i = 0; i < 4; ++i) s += mc::pickOf(n) + ": v" + std::to_string(i) + "\r\n";
        check(s + "\r\n");
    });
    mc::add("many", [] {
        auto n = mc::pick(4);
        std::string s = "GET /" + std::string(static_cast<size_t>(n) * 5000, 'u') + " HTTP/1.1\r\n";
        for (int i = 0; i < n * 300; ++i) s += "H" + std::to_string(i) + ": " + std::string(static_cast<size_t>(i % 50), 'v') + "\r\n" + (i % 7 ? "" : " more\r\n");
        check(s + "\r\n");
    });
    // 5b. no element of a head has a size limit; neither has their number
    for (int element = 0; element < 9; ++element)
        for (int bits = 4; bits <= (element == 7 ? 11 : element == 8 ? 14 : mc::thorough() ? 22 : 20); ++bits)
            mc::add(mc::fmt("size/%d/2^%d", element, bits), [=] {
                auto n = (size_t{1} << bits) + static_cast<size_t>(mc::pick(3)) - 1;
                auto of = [&](int e, char c) { return element == e ? std::string(n, c) : std::string(1, c); };
                std::string s = of(0, 'M') + " /" + of(1, 'u') + " HTTP/1.1\r\n" + of(2, 'n') + ": " + of(3, 'v') + "\r\n" + of(4, ' ') + of(5, 'c') + "\r\nX: " + of(6, ' ') + "\r\n";
                if (element == 7) for (size_t i = 0; i < n; ++i) s += "H" + std::to_string(i) + ": " + std::to_string(i) + "\r\n";
                if (element == 8) for (size_t i = 0; i < n; ++i) s += " l" + std::to_string(i) + "\r\n";
                check(s + "\r\n", bits < 14);
            });
    // 6. the server answers 400 as soon as the offending byte arrives, and nothing before
    for (size_t p = 0; p < prefixes.size(); ++p)
        mc::add("server/" + std::to_string(p), [=] {
            MemFS<0>::files = {{"index.html", MemFile("i")}};
            auto c = static_cast<char>(mc::pick(256));
            auto s = prefixes[p] + c + (mc::flip() ? "\r\n\r\n" : "");
            auto g = grammar(s);
            Srv<> srv;
            auto conn = srv.open();
            for (size_t i = 0; i < s.size(); ++i) {
                deliver(conn, s.substr(i, 1));
                srv.run();
                bool due = (g.verdict == Parsed::rejected && i >= g.at) || (g.verdict == Parsed::accepted && i + 1 >= g.at);
                MC_REQUIRE(conn->wire.empty() == !due, "answer-time", "%s: %s after byte %zu", show(s).c_str(), due ? "no answer" : "answer", i);
                if (due) break;
            }
            if (g.verdict == Parsed::incomplete) return;
            auto r = parseResponse(str(conn->wire), g.method == "HEAD");
            MC_REQUIRE(r.complete && (g.verdict != Parsed::rejected || r.status == 400), "not-400", "%s: answered %s", show(s).c_str(), show(str(conn->wire)).c_str());
            mc::outcome(mc::hash(s));
        });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
