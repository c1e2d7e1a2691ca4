// E02: URI splitting is exact and independent of history.
#include "exact.hpp"
#include "sim.hpp"
#include <http/Encodings.hpp>
using namespace h;

namespace {
using webfront::uri::URI;
using Opt = std::optional<std::string>;
struct Fields {
    std::string scheme, authority, path, query, fragment, userinfo, host, port;
    bool operator==(const Fields&) const = default;
    std::string text() const { return "scheme '" + scheme + "' authority '" + authority + "' path '" + path + "' query '" + query + "' fragment '" + fragment + "' userinfo '" + userinfo + "' host '" + host + "' port '" + port + "'"; }
};
Fields split(const std::string& s) {
    URI u(s);
    MC_REQUIRE(u.string == s, "string", "'%s' becomes '%s'", show(s).c_str(), show(u.string).c_str());
    auto b = u.string.data(), e = b + u.string.size();
    for (auto v : {u.scheme, u.authority, u.path, u.query, u.fragment, u.userinfo, u.host, u.port}) // reads outside are refused before they happen
        MC_REQUIRE(v.empty() || (v.data() >= b && v.data() + v.size() <= e), "outside", "a field of '%s' lies outside it", show(s).c_str());
    mc::count("evaluations");
    mc::outcome(mc::hash(s));
    return {std::string(u.scheme), std::string(u.authority), std::string(u.path), std::string(u.query), std::string(u.fragment), std::string(u.userinfo), std::string(u.host), std::string(u.port)};
}
struct Case {
    std::string text;
    Fields want;
};
Case make(const std::string& scheme, const Opt& user, const std::string& host, const Opt& port, const std::string& path, const Opt& query, const Opt& fragment) {
    Fields f{scheme, {}, path, query.value_or(""), fragment.value_or(""), user.value_or(""), host, port.value_or("")};
    f.authority = (user ? *user + "@" : "") + host + (port ? ":" + *port : "");
    return {scheme + "://" + f.authority + path + (query ? "?" + *query : "") + (fragment ? "#" + *fragment : ""), f};
}
void exact(const Case& c) {
    auto got = split(c.text);
    MC_REQUIRE(got == c.want, "wrong-field", "'%s' is split into %s instead of %s", show(c.text).c_str(), got.text().c_str(), c.want.text().c_str());
}
const std::vector<std::string> schemes{"http", "https", "a", "x-y+z.1", "ws", "h1"};
const std::vector<Opt> users{std::nullopt, "u", "u:p", "john.doe", "a:b:c", "", ":", "%40"};
const std::vector<std::string> hosts{"h", "www.example.com", "127.0.0.1", "", "localhost", "a-b.c"};
const std::vector<Opt> ports{std::nullopt, "", "8", "65535"};
const std::vector<std::string> paths{"", "/", "/a/b", "/a:b@c", "//x", "/a://b", "/%3F%23", "/a;b=c,d", "/@", "/:"};
const std::vector<Opt> queries{std::nullopt, "", "a=b&c=d", "x/y?z", "a@b:c", "u=http://x:1/y", "?", "/"};
const std::vector<Opt> fragments{std::nullopt, "", "top", "a/b?c", "c@d:e://f", "?"};
const std::vector<std::string> some{"http://h/p", "https://u:p@h.i:8/p/q?r=s#t", "", ":", "://", "http:", "http:/", "http//x", "#", "?", "@", "/", "a@b", "http://@", "http://:", "http://#?/@:", "http://h?q#f?g", "http://h#f/p?q", "x://y", "://h/p", "noscheme/path?q#f", "file:///etc/x", "http://h:80:90/p", "http://a@b@c/d", "ftp://h/p;t=a", "a://b://c", "\xff://\xfe", std::string("http://h\0/p", 11), "john.doe@www.example.com:123/forum"};
} // namespace

void declare() {
    // 1. the product of the fields
    for (auto& s : schemes)
        for (auto& u : users)
            mc::add("fields/" + s + "," + u.value_or("-"), [=] {
                for (auto& h : hosts) for (auto& p : ports) for (auto& path : paths) for (auto& q : queries) for (auto& f : fragments) exact(make(s, u, h, p, path, q, f));
                mc::step(mc::hash(s + u.value_or("-")));
            });
    // 2. every string of up to 6 (8) symbols, as a whole and after a scheme: nothing thrown, nothing outside; twice the same
    static const std::vector<std::string> symbols{"a", ":", "/", "?", "#", "@"};
    for (auto& f : symbols)
        for (auto& g : symbols)
            mc::add("symbols/" + f + g, [=] {
                split(f);
                auto run = [](const std::string& s) {
                    auto a = split(s);
                    split("https://u:p@h.i:8/p/q?r=s#t");
                    auto b = split(s);
                    MC_REQUIRE(a == b, "history", "'%s' is split into %s, then %s", show(s).c_str(), a.text().c_str(), b.text().c_str());
                };
                strings(symbols, mc::thorough() ? 6 : 4, run, f + g);
                strings(symbols, mc::thorough() ? 5 : 3, run, "a://" + f + g);
                strings(symbols, mc::thorough() ? 5 : 3, run, "://" + f + g);
                mc::step(mc::hash(f + g));
            });
    // 3. every sequence of 3 (4) URIs, malformed or not: the last one as in a fresh state (its first split in the process)
    for (size_t first = 0; first < some.size(); ++first)
        mc::add("history/" + std::to_string(first), [=] {
            static std::map<std::string, Fields> fresh;
            auto last = [&](const std::string& s) {
                auto f = split(s);
                auto [it, isNew] = fresh.try_emplace(s, f);
                MC_REQUIRE(it->second == f, "history", "'%s' is split into %s after others, %s before", show(s).c_str(), f.text().c_str(), it->second.text().c_str());
                exact(make("https", "u:p", "h.i", "8", "/p", "q", "f"));
            };
            last(some[first]);
            for (auto& b : some) {
                last(b);
                for (auto& c : some) {
                    last(c);
                    if (mc::thorough()) for (auto& d : some) last(d);
                }
            }
            mc::step(first);
        });
    // 4. two alive at once, long ones
    mc::add("alive", [] {
        for (auto& a : some)
            for (auto& b : some) {
                auto fa = split(a);
                URI x(a);
                URI y(b);
                split(b);
                MC_REQUIRE(x.string == a && x.path == fa.path && x.host == fa.host && x.query == fa.query && x.scheme == fa.scheme && x.fragment == fa.fragment, "history", "'%s' changes when '%s' is split", show(a).c_str(), show(b).c_str());
            }
        mc::step(1);
    });
    // copies and elements of containers keep their own fields
    mc::add("copies", [] {
        auto fields = [](const URI& u) { return Fields{std::string(u.scheme), std::string(u.authority), std::string(u.path), std::string(u.query), std::string(u.fragment), std::string(u.userinfo), std::string(u.host), std::string(u.port)}; };
        for (auto& a : some) {
            auto want = split(a);
            auto original = std::make_unique<URI>(a);
            URI copy(*original);
            auto moved = std::make_unique<URI>(std::move(*original));
            original.reset();
            std::vector<URI> many;
            for (int i = 0; i < 20; ++i) many.push_back(copy), many.emplace_back(a);
            URI last(many[7]);
            many.pop_back();
            for (auto* u : {&copy, moved.get(), &last, &many.front(), &many.back()}) {
                auto b = u->string.data(), e = b + u->string.size();
                for (auto v : {u->scheme, u->authority, u->path, u->query, u->fragment, u->userinfo, u->host, u->port}) MC_REQUIRE(v.empty() || (v.data() >= b && v.data() + v.size() <= e), "outside", "a field of a copy of '%s' lies outside it", show(a).c_str());
            }
            MC_REQUIRE(fields(copy) == want && fields(*moved) == want && fields(last) == want && fields(many[0]) == want, "wrong-field", "a copy of '%s' has other fields", show(a).c_str());
        }
        mc::step(2);
    });
    for (size_t n : {1u, 7u, 15u, 16u, 17u, 64u, 1000u, 65536u})
        mc::add(mc::fmt("long/%zu", n), [=] {
            std::string z(n, 'z');
            for (unsigned m = 0; m < 128; ++m)
                exact(make(m & 1 ? z : "s", m & 2 ? Opt(z) : std::nullopt, m & 4 ? z : "h", m & 8 ? Opt(std::string(n, '9')) : std::nullopt, m & 16 ? "/" + z : "", m & 32 ? Opt(z) : std::nullopt, m & 64 ? Opt(z) : std::nullopt));
            mc::step(n);
        });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
