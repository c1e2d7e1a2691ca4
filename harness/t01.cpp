// T01: a type-erased function calls its target only with matching argument types.
#include "exact.hpp"
#include "sim.hpp"
#include <utils/TypeErasedFunction.hpp>
using namespace h;

namespace {
using webfront::utils::TypeErasedFunction;
template<typename... A> struct Sig {};
// argument values: the same for every signature
template<typename T> T value(size_t i) {
    if constexpr (std::is_same_v<T, int>) return static_cast<int>(100 + i);
    else if constexpr (std::is_same_v<T, double>) return -2.5 - static_cast<double>(i);
    else if constexpr (std::is_same_v<T, bool>) return i % 2 == 0;
    else if constexpr (std::is_same_v<T, std::string>) return "a string longer than its small buffer " + std::to_string(i);
    else if constexpr (std::is_same_v<T, const char*>) { static const char* const texts[] = {"zero", "one", "two", "three"}; return texts[i]; }
    else return T(static_cast<char>(i));
}
std::string repr(int v) { return mc::fmt("int %d;", v); }
std::string repr(double v) { return mc::fmt("double %g;", v); }
std::string repr(bool v) { return mc::fmt("bool %d;", v); }
std::string repr(const std::string& v) { return "string " + v + ";"; }
std::string repr(const char* v) { return std::string("text ") + v + ";"; }
int runs = 0;
std::string seen;
template<typename R> R answer() {
    if constexpr (std::is_same_v<R, int>) return 4242;
    else if constexpr (std::is_same_v<R, std::string>) return "the answer of the target, a long one";
    else if constexpr (std::is_same_v<R, double>) return 0.125;
}
template<typename R> constexpr int kindOf = std::is_void_v<R> ? 0 : std::is_same_v<R, int> ? 1 : std::is_same_v<R, std::string> ? 2 : 3;

struct Stored {
    std::string name, args; // args: what it should see
    int result;
    std::function<std::unique_ptr<TypeErasedFunction>()> make;
};
struct Caller {
    std::string name;
    int result; // -1: untyped call
    std::function<void(TypeErasedFunction&)> call; // checks the result
};
std::vector<Stored>& stored() { static std::vector<Stored> v; return v; }
std::vector<Caller>& callers() { static std::vector<Caller> v; return v; }

template<typename T> std::string tname() { return std::is_same_v<T, int> ? "int" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, std::string> ? "string" : std::is_same_v<T, const char*> ? "const char*" : webfront::utils::TypeName<T>(); }
template<typename... A> std::string names() {
    std::string s;
    ((s += (s.empty() ? "" : ",") + tname<A>()), ...);
    return s;
}
template<typename R, typename... A>
void addStored() {
    stored().push_back({names<A...>(), {}, kindOf<R>, [] {
        return std::make_unique<TypeErasedFunction>([](A... a) -> R {
            ++runs;
            ((seen += repr(a)), ...);
            return answer<R>();
        });
    }});
    [&]<size_t... I>(std::index_sequence<I...>) { ((stored().back().args += repr(value<A>(I))), ...); }(std::index_sequence_for<A...>{});
}
template<typename R, typename... A>
void addTyped() {
    callers().push_back({names<A...>(), kindOf<R>, [](TypeErasedFunction& f) {
        [&]<size_t... I>(std::index_sequence<I...>) {
            if constexpr (std::is_void_v<R>) f.call<void>(value<A>(I)...);
            else MC_REQUIRE(f.call<R>(value<A>(I)...) == answer<R>(), "result", "a call does not return the result of its target");
        }(std::index_sequence_for<A...>{});
    }});
}
template<typename... A>
void addSig(Sig<A...>, bool both = true) {
    if constexpr ((... && (std::is_same_v<A, int> || std::is_same_v<A, double> || std::is_same_v<A, bool> || std::is_same_v<A, std::string> || std::is_same_v<A, const char*>))) {
        addStored<void, A...>();
        addStored<int, A...>();
        addStored<std::string, A...>();
        addTyped<void, A...>();
        addTyped<int, A...>();
        addTyped<std::string, A...>();
        addTyped<double, A...>();
    }
    callers().push_back({names<A...>(), -1, [](TypeErasedFunction& f) {
        [&]<size_t... I>(std::index_sequence<I...>) { f(value<A>(I)...); }(std::index_sequence_for<A...>{});
    }});
}
template<typename... T, typename F> void each(Sig<T...>, const F& f) { (f(Sig<T>{}), ...); }
void makeSigs() {
    if (!stored().empty()) return;
    using Five = Sig<int, double, bool, std::string, const char*>;
    using Three = Sig<int, bool, std::string>;
    addSig(Sig<>{});
    each(Five{}, []<typename A>(Sig<A>) {
        addSig(Sig<A>{});
        each(Five{}, []<typename B>(Sig<B>) { addSig(Sig<A, B>{}); });
    });
    each(Three{}, []<typename A>(Sig<A>) { each(Three{}, []<typename B>(Sig<B>) { each(Three{}, []<typename C>(Sig<C>) { addSig(Sig<A, B, C>{}); }); }); });
    // near misses, in calls only
    each(Sig<long, unsigned, short, char, float, long double, unsigned char, unsigned long long>{}, []<typename A>(Sig<A>) { addSig(Sig<A>{}); addSig(Sig<int, A>{}); addSig(Sig<A, std::string>{}); });
}
// one call: runs the target once and only if it should
void attempt(const Stored& s, const Caller& c, TypeErasedFunction& f) {
    bool match = s.name == c.name && (c.result < 0 || c.result == s.result);
    runs = 0;
    seen.clear();
    bool thrown = false;
    try { c.call(f); }
    catch (const mc::Violation&) { throw; }
    catch (const std::exception&) { thrown = true; }
    auto what = mc::fmt("a function of (%s) result %d called with (%s) result %d", s.name.c_str(), s.result, c.name.c_str(), c.result);
    if (match) {
        MC_REQUIRE(!thrown, "refused", "%s throws", what.c_str());
        MC_REQUIRE(runs == 1, "runs", "%s runs %d times", what.c_str(), runs);
        MC_REQUIRE(seen == s.args, "arguments", "%s sees '%s' instead of '%s'", what.c_str(), seen.c_str(), s.args.c_str());
    }
    else {
        MC_REQUIRE(runs == 0, "ran", "%s runs its target with '%s'", what.c_str(), seen.c_str());
        MC_REQUIRE(thrown, "accepted", "%s does not throw", what.c_str());
    }
    mc::count("evaluations");
}

// ---- kinds of callables of (int, std::string) -> int, with and without state
int freeFunction(int a, std::string b) { ++runs; seen += repr(a) + repr(b); return 7 + a; }
struct Mutable {
    int total = 0;
    int operator()(int a, std::string b) { ++runs; seen += repr(a) + repr(b); return total += a; }
};
struct Const {
    int operator()(int a, std::string b) const { ++runs; seen += repr(a) + repr(b); return 7 + a; }
};
struct Object {
    int total = 0;
    int member(int a, std::string b) { ++runs; seen += repr(a) + repr(b); return total += a; }
    int constant(int a, std::string b) const { ++runs; seen += repr(a) + repr(b); return total + 7 + a; }
    void nothing() { ++runs; ++total; }
};
struct Kind {
    std::string name;
    bool keeps; // the total is kept between calls
    std::function<std::unique_ptr<TypeErasedFunction>(Object&)> make;
};
const std::vector<Kind>& kinds() {
    using namespace std::placeholders;
    static const std::vector<Kind> k{
        {"function", false, [](Object&) { return std::make_unique<TypeErasedFunction>(freeFunction); }},
        {"pointer", false, [](Object&) { return std::make_unique<TypeErasedFunction>(&freeFunction); }},
        {"lambda", false, [](Object&) { return std::make_unique<TypeErasedFunction>([](int a, std::string b) { return freeFunction(a, std::move(b)); }); }},
        {"capture", true, [](Object& o) { return std::make_unique<TypeErasedFunction>([&o](int a, std::string b) { return o.member(a, b); }); }},
        {"mutable lambda", true, [](Object&) { return std::make_unique<TypeErasedFunction>([total = 0](int a, std::string b) mutable { freeFunction(a, b); return total += a; }); }},
        {"functor", true, [](Object&) { return std::make_unique<TypeErasedFunction>(Mutable{}); }},
        {"shared state", true, [](Object&) { return std::make_unique<TypeErasedFunction>([t = std::make_shared<int>(0)](int a, std::string b) { freeFunction(a, b); return *t += a; }); }},
        {"const functor", false, [](Object&) { return std::make_unique<TypeErasedFunction>(Const{}); }},
        {"std::function", true, [](Object&) { return std::make_unique<TypeErasedFunction>(std::function<int(int, std::string)>(Mutable{})); }},
        {"large", false, [](Object&) { return std::make_unique<TypeErasedFunction>([big = std::array<char, 500>{}](int a, std::string b) { return freeFunction(a, b) + big[499]; }); }},
        {"member", true, [](Object& o) { return std::make_unique<TypeErasedFunction>(&Object::member, &o, _1, _2); }},
        {"const member", false, [](Object& o) { return std::make_unique<TypeErasedFunction>(&Object::constant, &o, _1, _2); }},
        {"moved", true, [](Object&) { TypeErasedFunction f(Mutable{}); auto p = std::make_unique<TypeErasedFunction>(std::move(f)); return std::make_unique<TypeErasedFunction>(std::move(*p)); }},
    };
    return k;
}
void callSequences(const Kind& k, size_t depth) {
    // 0 untyped, 1 typed, 2 wrong arguments untyped, 3 wrong arguments typed, 4 wrong result, 5 too few, 6 too many, 7 moved elsewhere
    std::vector<int> s;
    auto run = [&] {
        Object o;
        auto f = k.make(o);
        int total = 0, n = 0;
        for (auto c : s) {
            runs = 0;
            seen.clear();
            bool thrown = false;
            int a = 10 + ++n, got = -1;
            auto b = "text " + std::to_string(n);
            try {
                switch (c) {
                case 0: (*f)(std::move(a), std::string(b)); break;
                case 1: got = f->call<int>(std::move(a), std::string(b)); break;
                case 2: (*f)(2.5, std::string(b)); break;
                case 3: f->call<int>(std::string(b), 1); break;
                case 4: f->call<double>(std::move(a), std::string(b)); break;
                case 5: (*f)(std::move(a)); break;
                case 6: (*f)(std::move(a), std::string(b), 3); break;
                case 7: f = std::make_unique<TypeErasedFunction>(std::move(*f)); break;
                }
            }
            catch (const std::exception&) { thrown = true; }
            if (c == 7) continue;
            MC_REQUIRE(thrown == (c > 1) && runs == (c > 1 ? 0 : 1), "call", "%s: call of kind %d %s and runs %d times", k.name.c_str(), c, thrown ? "throws" : "does not throw", runs);
            if (c > 1) continue;
            total += 10 + n;
            MC_REQUIRE(seen == repr(10 + n) + repr(b), "arguments", "%s sees '%s'", k.name.c_str(), seen.c_str());
            if (c == 1) MC_REQUIRE(got == (k.keeps ? total : 17 + n), "result", "%s: call %d returns %d instead of %d", k.name.c_str(), n, got, k.keeps ? total : 17 + n);
        }
        mc::count("evaluations");
        mc::outcome(mc::mix(mc::hash(k.name), mc::hashBytes(s.data(), s.size() * sizeof(int))));
    };
    std::function<void()> go = [&] {
        run();
        if (s.size() == depth) return;
        for (int c = 0; c < 8; ++c) {
            s.push_back(c);
            go();
            s.pop_back();
        }
    };
    go();
}
} // namespace

void declare() {
    makeSigs();
    for (size_t i = 0; i < stored().size(); ++i)
        mc::add("pairs/" + std::to_string(i), [i] {
            auto& s = stored()[i];
            auto f = s.make();
            for (auto& c : callers()) attempt(s, c, *f);
            for (auto& c : callers()) { // and on a fresh one, twice
                auto g = s.make();
                attempt(s, c, *g);
                attempt(s, c, *g);
            }
            mc::outcome(i);
            mc::step(i);
        });
    for (auto& k : kinds())
        mc::add("kinds/" + k.name, [&k] {
            callSequences(k, mc::thorough() ? 6 : 5);
            mc::step(mc::hash(k.name));
        });
    // what a target throws reaches the caller as it is, and the function can be called again
    mc::add("throwing", [] {
        struct Own { int n; };
        int calls = 0;
        std::vector<std::pair<std::string, std::function<void()>>> raisers{
            {"runtime_error", [] { throw std::runtime_error("r"); }}, {"invalid_argument", [] { throw std::invalid_argument("i"); }}, {"bad_cast", [] { throw std::bad_cast(); }},
            {"out_of_range", [] { throw std::out_of_range("o"); }}, {"int", [] { throw 5; }}, {"own", [] { throw Own{7}; }}};
        auto thrown = [](auto f) -> std::string {
            try { f(); }
            catch (const std::runtime_error& e) { return std::string("runtime_error") + (e.what() == std::string("r") ? "" : "?"); }
            catch (const std::invalid_argument& e) { return std::string("invalid_argument") + (e.what() == std::string("i") ? "" : "?"); }
            catch (const std::out_of_range& e) { return std::string("out_of_range") + (e.what() == std::string("o") ? "" : "?"); }
            catch (const std::bad_cast&) { return "bad_cast"; }
            catch (int n) { return n == 5 ? "int" : "?"; }
            catch (const Own& o) { return o.n == 7 ? "own" : "?"; }
            catch (...) { return "other"; }
            return "";
        };
        bool raise = true;
        for (auto& r : raisers) {
            std::function<void()>& act = r.second;
            TypeErasedFunction none([&] { ++calls; if (raise) act(); });
            TypeErasedFunction one([&](int) { ++calls; if (raise) act(); });
            TypeErasedFunction gives([&](std::string s, double) { ++calls; if (raise) act(); return s; });
            for (int round = 0; round < 6; ++round) {
                raise = round % 3 != 1;
                auto want = raise ? r.first : "";
                calls = 0;
                auto is = [&](const std::string& got, const char* what) { MC_REQUIRE(got == want, "exception", "%s throwing '%s': the caller sees '%s'", what, want.c_str(), got.c_str()); };
                is(thrown([&] { none(); }), "a function");
                is(thrown([&] { none.call<void>(); }), "a function");
                is(thrown([&] { one(3); }), "a function of an int");
                is(thrown([&] { one.call<void>(3); }), "a function of an int");
                is(thrown([&] { gives.call<std::string>(std::string("s"), 1.5); }), "a function which returns");
                MC_REQUIRE(calls == 5, "runs", "5 calls run %d times", calls);
                if (!raise) MC_REQUIRE(gives.call<std::string>(std::string("value"), 1.5) == "value", "result", "another result");
                mc::count("evaluations", 5);
            }
        }
        mc::step(3);
    });
    mc::add("nothing", [] {
        Object o;
        TypeErasedFunction f(&Object::nothing, &o);
        for (int i = 1; i < 6; ++i) {
            runs = 0;
            i % 2 ? f() : f.call<void>();
            MC_REQUIRE(runs == 1 && o.total == i, "runs", "a bound member without parameters runs %d times", runs);
            bool thrown = false;
            try { f(1); } catch (const std::exception&) { thrown = true; }
            MC_REQUIRE(thrown && o.total == i, "accepted", "a bound member without parameters accepts an argument");
        }
        mc::step(1);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
