// F02: stacked file systems resolve to the first provider that has the file.
#include "exact.hpp"
#include "sim.hpp"
#include <system/FileSystem.hpp>
#include <system/IndexFS.hpp>
#include <system/NativeFS.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace h;
namespace fs = std::filesystem;
using webfront::fs::File;
using webfront::fs::Multi;

namespace {
const std::vector<std::string> names{"a", "dir/b.js", "c d"};
const std::vector<std::string> absent{"", "A", "a/", "dir", "dir/b", "b.js", "c", "/a", "a/../a", "./a", "a.gz"};
std::string readAll(File& f) {
    std::string s;
    char b[7];
    while (auto n = f.read(b)) s.append(b, n);
    return s;
}
template<int Id>
void reset() { MemFS<Id>::files.clear(); MemFS<Id>::opened.clear(); MemFS<Id>::roots.clear(); }
template<int Id>
MemFile made(const std::string& name) {
    if (name == names[2] && Id % 2 == 0) return MemFile("", Id ? "br" : ""); // an empty file is a file
    return MemFile(mc::fmt("%s of provider %d, ", name.c_str(), Id) + std::string(static_cast<size_t>(Id) * 3, 'x'), std::array{"", "br", "gzip", ""}[(Id + name.size()) % 4]);
}
template<int Id>
void fill(unsigned mask) {
    reset<Id>();
    for (size_t i = 0; i < names.size(); ++i) if (mask >> i & 1) MemFS<Id>::files[names[i]] = made<Id>(names[i]);
}
template<int Id>
void asked(const std::string& name, const std::string& root) {
    for (auto& o : MemFS<Id>::opened) MC_REQUIRE(o == name, "name-changed", "provider %d is asked '%s' when '%s' is opened", Id, show(o).c_str(), show(name).c_str());
    MC_REQUIRE(MemFS<Id>::roots.size() == 1 && MemFS<Id>::roots[0] == root, "root", "provider %d is not made on the document root '%s'", Id, root.c_str());
    MemFS<Id>::opened.clear();
}
template<int... Ids>
void stack(const std::array<unsigned, sizeof...(Ids)>& masks, const std::string& root) {
    size_t k = 0;
    (fill<Ids>(masks[k++]), ...);
    Multi<MemFS<Ids>...> multi{fs::path(root)};
    auto all = names;
    all.insert(all.end(), absent.begin(), absent.end());
    for (int round = 0; round < 2; ++round)
        for (auto& name : all) {
            auto f = multi.open(name);
            const MemFile* want = nullptr;
            ((want = want ? want : MemFS<Ids>::files.contains(name) ? &MemFS<Ids>::files[name] : nullptr), ...);
            MC_REQUIRE(f.has_value() == (want != nullptr), "presence", "'%s' is %s", show(name).c_str(), f ? "opened though no provider has it" : "absent though a provider has it");
            if (f) {
                MC_REQUIRE(f->getEncoding() == want->encoding && f->isEncoded() == !want->encoding.empty(), "encoding", "'%s' has encoding '%s' instead of '%s'", name.c_str(), std::string(f->getEncoding()).c_str(), want->encoding.c_str());
                auto got = readAll(*f);
                MC_REQUIRE(got == want->content, "content", "'%s' reads '%s' instead of '%s'", name.c_str(), show(got).c_str(), show(want->content).c_str());
            }
            (asked<Ids>(name, root), ...);
            mc::count("evaluations");
        }
    mc::outcome(mc::mix(mc::hashBytes(masks.data(), sizeof(masks)), sizeof...(Ids)));
}
// a real tree
struct Tree {
    fs::path root;
    std::map<std::string, std::string> files;
    std::vector<std::string> others; // exist, but are no regular files
    Tree() : root(fs::absolute(fs::path(mc::ex().data) / mc::fmt("native-%d", static_cast<int>(getpid()))) / "root") {
        fs::create_directories(root / "d" / "e");
        fs::create_directories(root / "empty.dir");
        files = {{"f", "content of f"}, {"d/f", "content of d/f"}, {"d/e/f.html", std::string(3000, 'h')}, {"index.html", "native index"}, {"empty", ""}, {"a b", "spaces"}, {"%41", "percent"}, {"A", "letter"}, {".hidden", "h"}, {"é", "accent"}, {std::string("c\0r\n", 1), "c"}, {"bin", std::string("\0\r\n\x1a\xff\0", 6)}};
        for (auto& [n, c] : files) std::ofstream(root / n, std::ios::binary) << c;
        fs::create_symlink("f", root / "link");
        files["link"] = "content of f";
        fs::create_directory_symlink("d", root / "dlink");
        fs::create_symlink("nowhere", root / "dangling");
        fs::create_symlink("loop", root / "loop");
        mkfifo((root / "fifo").c_str(), 0600);
        others = {"d", "d/e", "empty.dir", "dlink", "dangling", "loop", "fifo", ".", "", "d/..", "d/"};
    }
};
Tree& tree() {
    static Tree t;
    return t;
}
template<typename FS>
void native(FS& fsys, const std::string& name, const std::string* want, const char* encoding = "") {
    auto f = fsys.open(name);
    MC_REQUIRE(f.has_value() == (want != nullptr), "native-presence", "native '%s' is %s", show(name).c_str(), f ? "opened" : "absent");
    if (f) {
        auto got = readAll(*f);
        MC_REQUIRE(got == *want && f->getEncoding() == encoding, "native-content", "native '%s' reads '%s'", show(name).c_str(), show(got).c_str());
    }
    mc::count("evaluations");
    mc::outcome(mc::hash(name));
}
} // namespace

void declare() {
    static const std::vector<std::string> roots{".", "", "/srv/www", "a/b/../c/"};
    for (unsigned a = 0; a < 8; ++a) {
        mc::add(mc::fmt("stacks/%u", a), [=] {
            for (auto& r : roots) {
                stack<0>({a}, r);
                for (unsigned b = 0; b < 8; ++b) {
                    stack<0, 1>({a, b}, r);
                    stack<1, 0>({a, b}, r);
                    for (unsigned c = 0; c < 8; ++c) stack<2, 0, 1>({a, b, c}, r);
                }
            }
            mc::step(a);
        });
        for (unsigned b = 0; b < 8; ++b)
            mc::add(mc::fmt("stacks4/%u%u", a, b), [=] {
                for (unsigned c = 0; c < 8; ++c)
                    for (unsigned d = 0; d < 8; ++d) {
                        stack<0, 1, 2, 3>({a, b, c, d}, ".");
                        stack<3, 1, 0, 2>({d, c, b, a}, "/srv/www");
                    }
                mc::step(a * 8 + b);
            });
    }
    // a native provider, alone and in stacks
    mc::add("native/alone", [] {
        for (auto root : {tree().root, tree().root / "", tree().root / "d" / "..", fs::relative(tree().root)}) {
            webfront::fs::NativeDebugFS n(root);
            for (int round = 0; round < 2; ++round) {
                for (auto& [name, c] : tree().files) native(n, name, &c);
                for (auto& name : tree().others) native(n, name, nullptr);
                for (auto& [name, c] : tree().files)
                    for (std::string tail : {"x", "/", "/f", "/.", ".gz"}) native(n, name + tail, nullptr);
                for (auto& [name, c] : tree().files) native(n, name + std::string("\0.html", 6), nullptr);
                native(n, std::string("\0", 1), nullptr);
                native(n, std::string(300, 'n'), nullptr);
                native(n, std::string(5000, 'n'), nullptr);
                for (int c = 0; c < 256; ++c) {
                    std::string s(1, static_cast<char>(c));
                    if (c == '.' || c == '/') continue;
                    native(n, s, tree().files.contains(s) ? &tree().files[s] : nullptr);
                }
            }
        }
        mc::step(100);
    });
    mc::add("native/no-root", [] {
        for (auto root : {tree().root / "nothing", tree().root / "f"}) {
            webfront::fs::NativeDebugFS n(root);
            for (auto& [name, c] : tree().files) native(n, name, nullptr);
        }
        mc::step(101);
    });
    for (unsigned mask = 0; mask < 8; ++mask)
        mc::add(mc::fmt("native/stack-%u", mask), [=] {
            std::vector<std::string> in{"f", "d/f", "new"};
            reset<0>();
            for (size_t i = 0; i < 3; ++i) if (mask >> i & 1) MemFS<0>::files[in[i]] = MemFile("memory " + in[i]);
            MemFS<0>::files["empty"] = MemFile("not empty in memory");
            MemFS<0>::files["a b"] = MemFile("");
            in.push_back("empty");
            in.push_back("a b");
            auto& t = tree();
            Multi<webfront::fs::NativeDebugFS, MemFS<0>> first{t.root};
            Multi<MemFS<0>, webfront::fs::NativeDebugFS> second{t.root};
            MC_REQUIRE(MemFS<0>::roots.size() == 2 && MemFS<0>::roots[0] == t.root.string() && MemFS<0>::roots[1] == t.root.string(), "root", "the document root is changed");
            auto all = in;
            for (auto& [name, c] : t.files) all.push_back(name);
            for (auto& name : t.others) all.push_back(name);
            for (auto& name : all) {
                const std::string* disk = t.files.contains(name) ? &t.files[name] : nullptr;
                const std::string* mem = MemFS<0>::files.contains(name) ? &MemFS<0>::files[name].content : nullptr;
                native(first, name, disk ? disk : mem);
                native(second, name, mem ? mem : disk);
            }
            Multi<webfront::fs::NativeDebugFS, webfront::fs::IndexFS> replaced{t.root};
            native(replaced, "index.html", &t.files["index.html"]);
            Multi<webfront::fs::IndexFS, webfront::fs::NativeDebugFS> bundled{t.root};
            auto f = bundled.open("index.html");
            MC_REQUIRE(f && f->isEncoded(), "order", "the bundled index.html does not come first");
            native(bundled, "f", &t.files["f"]);
            mc::step(200 + mask);
        });
    // files that come and go
    mc::add("native/changes", [] {
        auto p = tree().root / "d" / "moving";
        webfront::fs::NativeDebugFS n(tree().root);
        reset<0>();
        Multi<webfront::fs::NativeDebugFS, MemFS<0>> m{tree().root};
        MemFS<0>::files["d/moving"] = MemFile("behind");
        std::string state, behind = "behind";
        bool there = false;
        for (unsigned seq = 0; seq < 64 * 4; ++seq) {
            switch (seq >> (seq % 3 * 2) & 3) {
            case 0: fs::remove_all(p); there = false; break;
            case 1: fs::remove_all(p); state = mc::fmt("version %u", seq); std::ofstream(p) << state; there = true; break;
            case 2: fs::remove_all(p); fs::create_directory(p); there = false; break;
            default: break;
            }
            native(n, "d/moving", there ? &state : nullptr);
            native(m, "d/moving", there ? &state : &behind);
        }
        mc::step(300);
    });
}
int main(int c, char** v) { return mc::run(c, v, declare); }
