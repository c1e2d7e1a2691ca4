// Stateless explorer: enumerates every sequence of answers to choose()/pick() by depth-first replay.
//   pick(n)   : an input choice, always fully enumerated
//   choose(n) : an environment/schedule choice; answer 0 is the default, any other answer costs one deviation.
//               With a scenario bound B >= 0 only executions with at most B deviations are explored (all of them).
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {
struct Violation {
    std::string key, msg;
};
struct Prune {};

struct Point {
    int n, chosen;
    bool costs;
};
struct Scenario {
    std::string name;
    std::function<void()> body;
    int bound;
};

// Position of the running execution, in a file mapping: it survives a crash of the process.
struct Shared {
    uint32_t magic, scenario, count;
    int32_t choices[65536];
};

struct Explorer {
    std::vector<Scenario> scenarios;
    std::vector<Point> trace;      // current execution
    std::vector<int> prefix;       // answers to replay
    std::vector<int> prefixN;      // their arities
    int bound = -1, spent = 0;
    bool replaying = false, verbose = false;
    uint64_t executions = 0, transitions = 0, points = 0, pruned = 0, maxDepth = 0, diverged = 0, knownHits = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::map<std::string, uint64_t> counters;
    std::set<std::string> known, knownSeen;
    std::vector<std::string> samples;
    std::string currentLog;
    bool sampling = false;
    Shared* shared = nullptr;
    size_t scenarioIndex = 0;
    std::string outPath;
    FILE* out = nullptr;
    bool thorough = false;
    int boundOverride = -1000;
    bool hasPending = false, recording = true; // recording off: step() and note() allocate nothing
    Violation pending;
    std::string data; // directory with files prepared by the driver
};
inline Explorer& ex() {
    static Explorer e;
    return e;
}
inline bool thorough() { return ex().thorough; }

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return mix(h, n);
}
inline uint64_t hash(std::string_view s) { return hashBytes(s.data(), s.size()); }

// A step of the system under test: counts a transition and, if given, records the state reached.
inline void step(uint64_t stateHash) {
    ++ex().transitions;
    if (ex().recording && ex().states.size() < 3000000) ex().states.insert(stateHash);
}
inline void step() { ++ex().transitions; }
inline void outcome(uint64_t h) { if (ex().outcomes.size() < 3000000) ex().outcomes.insert(h); }
inline void count(const std::string& name, uint64_t n = 1) { ex().counters[name] += n; }

inline std::string vfmt(const char* f, va_list ap) {
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap2);
    va_end(ap2);
    std::string s(static_cast<size_t>(n), 0);
    vsnprintf(s.data(), s.size() + 1, f, ap);
    return s;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}
inline bool logging() { return ex().recording && (ex().sampling || ex().verbose); }
__attribute__((format(printf, 1, 2))) inline void note(const char* f, ...) {
    if (!logging()) return;
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    if (ex().verbose) fprintf(stderr, "    %s\n", s.c_str());
    if (ex().sampling && ex().currentLog.size() < 1500) ex().currentLog += (ex().currentLog.empty() ? "" : "; ") + s;
}
// Reports that the property does not hold. The key identifies the failing input/call site/history.
// It is remembered, in case the code under test swallows the exception.
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
    if (!ex().hasPending) {
        ex().hasPending = true;
        ex().pending = {key, msg};
    }
    throw Violation{key, msg};
}
inline void require(bool ok, const char* key, const std::string& msg = {}) {
    if (!ok) fail(key, msg);
}
#define MC_REQUIRE(cond, key, ...)                             \
    do {                                                       \
        if (!(cond)) ::mc::fail((key), ::mc::fmt(__VA_ARGS__)); \
    } while (0)

inline int answer(int n, bool costs) {
    auto& e = ex();
    if (n <= 0) {
        fprintf(stderr, "harness error: choice among %d\n", n);
        _exit(97);
    }
    size_t i = e.trace.size();
    int c = 0;
    if (i < e.prefix.size()) {
        c = e.prefix[i];
        if (c >= n || (!e.prefixN.empty() && i < e.prefixN.size() && e.prefixN[i] != n)) {
            ++e.diverged;
            throw Violation{"divergence", fmt("execution diverged while replaying a prefix: choice %zu had %d answers, now %d", i,
                                              i < e.prefixN.size() ? e.prefixN[i] : -1, n)};
        }
    }
    e.trace.push_back({n, c, costs});
    if (costs && c) ++e.spent;
    ++e.points;
    if (e.shared && i < 65536) {
        e.shared->choices[i] = c;
        e.shared->count = static_cast<uint32_t>(i + 1);
    }
    return c;
}
inline int choose(int n) { return n == 1 ? 0 : answer(n, true); }
inline int pick(int n) { return n == 1 ? 0 : answer(n, false); }
template<typename C>
auto& pickOf(C& c) {
    return c[static_cast<size_t>(pick(static_cast<int>(c.size())))];
}
inline bool flip() { return pick(2) != 0; }
// True when a further deviation would still be explored: lets a harness skip building hopeless alternatives.
inline bool deviationsLeft() { return ex().bound < 0 || ex().spent < ex().bound || ex().trace.size() < ex().prefix.size(); }

inline void add(std::string name, std::function<void()> body, int bound = -1) { ex().scenarios.push_back({std::move(name), std::move(body), bound}); }

inline std::string traceText(const std::vector<Point>& t) {
    std::string s;
    for (auto& p : t) s += (s.empty() ? "" : ",") + std::to_string(p.chosen);
    return s;
}
inline std::string jsonStr(std::string_view s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
struct Failure {
    std::string key, msg, scenario, choices;
};

inline void armWatchdog(int seconds) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline int watchdogSeconds = 30;

// Runs one execution; returns true and fills f if it violates the property (known findings excluded).
inline bool runOnce(Scenario& s, Failure& f) {
    auto& e = ex();
    e.trace.clear();
    e.spent = 0;
    e.currentLog.clear();
    e.sampling = e.samples.size() < 3;
    if (e.shared) {
        e.shared->scenario = static_cast<uint32_t>(e.scenarioIndex);
        e.shared->count = 0;
    }
    armWatchdog(watchdogSeconds);
    bool bad = false;
    e.hasPending = false;
    e.recording = true;
    try {
        s.body();
        if (e.hasPending) throw e.pending;
    }
    catch (const Prune&) {
        ++e.pruned;
    }
    catch (const Violation& v) {
        if (e.known.contains(v.key)) {
            ++e.knownHits;
            e.knownSeen.insert(v.key);
        }
        else {
            f = {v.key, v.msg, s.name, traceText(e.trace)};
            bad = true;
        }
    }
    catch (const std::exception& x) {
        f = {"unexpected-exception", std::string("exception escaped: ") + x.what(), s.name, traceText(e.trace)};
        bad = true;
    }
    catch (...) {
        f = {"unexpected-exception", "unknown exception escaped", s.name, traceText(e.trace)};
        bad = true;
    }
    armWatchdog(0);
    ++e.executions;
    e.maxDepth = std::max<uint64_t>(e.maxDepth, e.trace.size());
    if (e.sampling && !e.currentLog.empty()) e.samples.push_back(s.name + ": " + e.currentLog);
    return bad;
}

enum class Progress { failed, finished, more };
// Up to n executions in DFS order
inline Progress exploreSome(Scenario& s, Failure& f, int n) {
    auto& e = ex();
    while (n-- > 0) {
        if (runOnce(s, f)) return Progress::failed;
        // next prefix in DFS order: last point that can still be advanced within the bound
        auto t = e.trace;
        if (t.size() < e.prefix.size()) { // shorter than the replayed prefix: hidden state
            if (e.currentLog.empty()) {}
            f = {"divergence", "execution ended before its replayed prefix", s.name, traceText(t)};
            ++e.diverged;
            return Progress::failed;
        }
        std::vector<int> cost(t.size() + 1, 0);
        for (size_t i = 0; i < t.size(); ++i) cost[i + 1] = cost[i] + (t[i].costs && t[i].chosen ? 1 : 0);
        size_t i = t.size();
        bool found = false;
        while (i-- > 0) {
            if (t[i].chosen + 1 >= t[i].n) continue;
            if (t[i].costs && e.bound >= 0 && cost[i] + 1 > e.bound) continue;
            found = true;
            break;
        }
        if (!found) return Progress::finished;
        e.prefix.clear();
        e.prefixN.clear();
        for (size_t j = 0; j < i; ++j) {
            e.prefix.push_back(t[j].chosen);
            e.prefixN.push_back(t[j].n);
        }
        e.prefix.push_back(t[i].chosen + 1);
        e.prefixN.push_back(t[i].n);
    }
    return Progress::more;
}
inline bool explore(Scenario& s, Failure& f) {
    auto& e = ex();
    e.prefix.clear();
    e.prefixN.clear();
    e.bound = e.boundOverride != -1000 && s.bound >= 0 ? e.boundOverride : s.bound;
    auto p = Progress::more;
    // By batches, each on its own thread: exceptions leave frames behind in AddressSanitizer's fake stack, which belongs to the thread
    while (p == Progress::more) std::thread([&] { p = exploreSome(s, f, 100); }).join();
    return p == Progress::failed;
}

inline void writeResult(const Failure* f, size_t done) {
    auto& e = ex();
    FILE* o = fopen(e.outPath.c_str(), "w");
    if (!o) _exit(97);
    fprintf(o, "{\"complete\":%s,\"scenarios\":%zu,\"executions\":%llu,\"transitions\":%llu,\"choice_points\":%llu,\"pruned\":%llu,\"max_depth\":%llu,"
               "\"diverged\":%llu,\"known_hits\":%llu,",
            f ? "false" : "true", done, (unsigned long long)e.executions, (unsigned long long)e.transitions, (unsigned long long)e.points,
            (unsigned long long)e.pruned, (unsigned long long)e.maxDepth, (unsigned long long)e.diverged, (unsigned long long)e.knownHits);
    fprintf(o, "\"known\":[");
    bool first = true;
    for (auto& k : e.knownSeen) fprintf(o, "%s%s", first ? "" : ",", jsonStr(k).c_str()), first = false;
    fprintf(o, "],\"counters\":{");
    first = true;
    for (auto& [k, v] : e.counters) fprintf(o, "%s%s:%llu", first ? "" : ",", jsonStr(k).c_str(), (unsigned long long)v), first = false;
    fprintf(o, "},\"samples\":[");
    first = true;
    for (auto& s : e.samples) fprintf(o, "%s%s", first ? "" : ",", jsonStr(s).c_str()), first = false;
    fprintf(o, "]");
    if (f)
        fprintf(o, ",\"failure\":{\"key\":%s,\"msg\":%s,\"scenario\":%s,\"choices\":%s}", jsonStr(f->key).c_str(), jsonStr(f->msg).c_str(),
                jsonStr(f->scenario).c_str(), jsonStr(f->choices).c_str());
    fprintf(o, "}\n");
    fclose(o);
    for (auto [suffix, set] : {std::pair{".states", &e.states}, std::pair{".outcomes", &e.outcomes}}) {
        FILE* b = fopen((e.outPath + suffix).c_str(), "w");
        for (auto h : *set) fwrite(&h, 8, 1, b);
        fclose(b);
    }
}

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

// main(): --out FILE --shard I N [--tier quick|thorough] [--known FILE] [--data DIR] [--current FILE]
//         --replay SCENARIO CHOICES | --list
inline int run(int argc, char** argv, const std::function<void()>& declare) {
    auto& e = ex();
    static NullBuf nullBuf;
    std::cout.rdbuf(&nullBuf);
    std::clog.rdbuf(&nullBuf);
    size_t shard = 0, shards = 1;
    std::string replayScenario, replayChoices, current, only, queueFile, runList;
    bool replay = false, list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { if (i + 1 >= argc) _exit(97); return std::string(argv[++i]); };
        if (a == "--out") e.outPath = next();
        else if (a == "--shard") { shard = std::stoul(next()); shards = std::stoul(next()); }
        else if (a == "--tier") e.thorough = next() == "thorough";
        else if (a == "--bound") e.boundOverride = std::stoi(next());
        else if (a == "--data") e.data = next();
        else if (a == "--only") only = next();
        else if (a == "--watchdog") watchdogSeconds = std::stoi(next());
        else if (a == "--known") {
            if (FILE* k = fopen(next().c_str(), "r")) {
                char line[4096];
                while (fgets(line, sizeof line, k)) {
                    std::string s = line;
                    while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
                    if (!s.empty()) e.known.insert(s);
                }
                fclose(k);
            }
        }
        else if (a == "--current") current = next();
        else if (a == "--replay") { replay = true; replayScenario = next(); replayChoices = next(); }
        else if (a == "--queue") queueFile = next();       // scenarios are taken one by one from a counter shared by the processes
        else if (a == "--run-list") runList = next();      // scenarios to run, in this order
        else if (a == "--list") list = true;
        else if (a == "--verbose") e.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 97; }
    }
    signal(SIGPROF, [](int) {
        static const char m[] = "WATCHDOG: one execution used up its CPU time\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(98);
    });
    declare();
    if (list) {
        for (auto& s : e.scenarios) printf("%s bound=%d\n", s.name.c_str(), s.bound);
        return 0;
    }
    if (!current.empty()) {
        int fd = open(current.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 97;
        auto p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 97;
        e.shared = static_cast<Shared*>(p);
        e.shared->magic = 0x4d43;
    }
    if (replay) {
        for (size_t i = 0; i < e.scenarios.size(); ++i)
            if (e.scenarios[i].name == replayScenario || std::to_string(i) == replayScenario) {
                e.verbose = true;
                e.scenarioIndex = i;
                size_t pos = 0;
                while (pos < replayChoices.size()) {
                    auto comma = replayChoices.find(',', pos);
                    if (comma == std::string::npos) comma = replayChoices.size();
                    e.prefix.push_back(std::stoi(replayChoices.substr(pos, comma - pos)));
                    pos = comma + 1;
                }
                Failure f;
                fprintf(stderr, "replaying scenario %s choices [%s]\n", e.scenarios[i].name.c_str(), replayChoices.c_str());
                if (runOnce(e.scenarios[i], f)) {
                    fprintf(stderr, "REPRODUCED key=%s %s\n", f.key.c_str(), f.msg.c_str());
                    return 1;
                }
                fprintf(stderr, "not reproduced\n");
                return 0;
            }
        fprintf(stderr, "no such scenario %s\n", replayScenario.c_str());
        return 97;
    }
    size_t done = 0;
    // Same names are a harness error: replays would be ambiguous.
    {
        std::set<std::string> names;
        for (auto& s : e.scenarios)
            if (!names.insert(s.name).second) { fprintf(stderr, "duplicate scenario %s\n", s.name.c_str()); return 97; }
    }
    Failure f;
    auto exploreOne = [&](size_t i) {
        e.scenarioIndex = i;
        auto before = e.executions;
        ++done;
        if (explore(e.scenarios[i], f)) {
            writeResult(&f, done);
            return false;
        }
        if (e.verbose) fprintf(stderr, "%s: %llu executions\n", e.scenarios[i].name.c_str(), (unsigned long long)(e.executions - before));
        return true;
    };
    if (!queueFile.empty()) {
        int fd = open(queueFile.c_str(), O_RDWR);
        if (fd < 0) return 97;
        auto p = mmap(nullptr, 4, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 97;
        auto counter = static_cast<uint32_t*>(p);
        FILE* taken = fopen((e.outPath + ".taken").c_str(), "w");
        if (!taken) return 97;
        for (;;) {
            auto i = __atomic_fetch_add(counter, 1u, __ATOMIC_RELAXED);
            if (i >= e.scenarios.size()) break;
            fprintf(taken, "%u\n", i);
            fflush(taken);
            if (!exploreOne(i)) {
                __atomic_store_n(counter, 1u << 30, __ATOMIC_RELAXED); // the others stop after their scenario
                return 1;
            }
        }
        fclose(taken);
    }
    else if (!runList.empty()) {
        size_t pos = 0;
        while (pos < runList.size()) {
            auto comma = std::min(runList.find(',', pos), runList.size());
            if (!exploreOne(std::stoul(runList.substr(pos, comma - pos)))) return 1;
            pos = comma + 1;
        }
    }
    else
        for (size_t i = 0; i < e.scenarios.size(); ++i) {
            if (!only.empty() && e.scenarios[i].name.find(only) == std::string::npos) continue;
            if (only.empty() && i % shards != shard) continue;
            if (!exploreOne(i)) return 1;
        }
    writeResult(nullptr, done);
    return 0;
}
} // namespace mc
