// Dependency tracking.   Case: a sequence of operations, one letter each.
#include "mc.hpp"
#include "dependency_tracker.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
#include <set>
#include <sstream>
using namespace quickbook;
namespace fs = boost::filesystem;

static const char* names[] = {"f", "dir/f", "dir/../f", "tab\there", "new\nline", "back\\n", "del\177", "bell\a\x01", "caf\xc3\xa9"};

struct H : mc::Harness {
    std::string dir;
    H() { rule = "every sequence of up to N operations (note a present, missing or later created file, start a search, note a match), each written out in all four formats; non-trivial when two operations name the same file"; }
    void init() { dir = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/deps"; mkdir(dir.c_str(), 0777); }
    // operations: 0-8 add name k; m missing file; x create the missing file; X remove it; g h search; p q match
    void enumerate(mc::Sink& s)
    {
        mc::strings({"0", "m", "x", "X", "g", "h", "p", "q", "1", "d"}, 0, thorough ? 6 : 5, [&](std::string const& c) { s.emit(c); });
        mc::pumped({"0", "m", "x", "X", "g", "h", "p", "q", "3", "d", "8"}, 4, {4}, [&](std::string const& c) { s.emit(c); });
        mc::strings({"0", "1", "2", "3", "4", "5", "6", "7", "8", "m", "g", "p", "d", "D"}, 0, thorough ? 4 : 3, [&](std::string const& c) { s.emit(c); });
    }
    static std::string unescape(const std::string& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] != '\\') { r += s[i]; continue; }
            char c = s[++i];
            if (c >= '0' && c <= '7') { r += (char)strtol(s.substr(i, 3).c_str(), 0, 8); i += 2; }
            else r += c == 'a' ? '\a' : c == 'b' ? '\b' : c == 't' ? '\t' : c == 'n' ? '\n' : c == 'v' ? '\v' : c == 'f' ? '\f' : c == 'r' ? '\r' : c;
        }
        return r;
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        std::string d = dir + "/w" + std::to_string(getpid());
        static std::string made;
        if (made != d) {
            fs::create_directories(d + "/dir");
            for (auto n : names) std::ofstream((d + "/" + n).c_str());
            std::ofstream((d + "/dir/one.qbk").c_str());
            made = d;
        }
        if (chdir(d.c_str())) return x.fail("chdir");
        unlink("late");
        dependency_tracker t;
        std::map<std::string, bool> deps;
        std::map<std::string, std::set<std::string>> globs;
        std::string last;
        bool exists = false;
        for (char k : c) {
            x.step();
            if (k >= '0' && k <= '8') {
                std::string n = names[k - '0'];
                if (deps.count(n)) x.nontrivial();
                deps[n] = true;
                if (!t.add_dependency(n)) return x.fail("a present file was reported missing");
            }
            else if (k == 'm') { if (deps.count("late")) x.nontrivial(); deps["late"] = deps["late"] || exists; if (t.add_dependency("late") != exists) return x.fail("presence of the file is wrong"); }
            else if (k == 'd') { deps["dir/one.qbk"] = true; if (!t.add_dependency("dir/one.qbk")) return x.fail("a present file was reported missing"); }
            else if (k == 'D') { deps["dir"] = true; if (!t.add_dependency("dir")) return x.fail("a directory was reported missing"); }
            else if (k == 'x') { std::ofstream("late"); exists = true; }
            else if (k == 'X') { unlink("late"); exists = false; }
            else if (k == 'g' || k == 'h') { last = k == 'g' ? "dir/*.qbk" : "*.q\t?"; globs[last]; t.add_glob(last); }
            else {
                if (last.empty()) return; // a match always follows a search
                std::string n = k == 'p' ? "dir/one.qbk" : "tw\no.q";
                globs[last].insert(n);
                t.add_glob_match(n);
            }
        }
        for (int f = 0; f < 4; ++f) {
            std::ostringstream o, o2;
            t.write_dependencies(o, dependency_tracker::flags(f));
            t.write_dependencies(o2, dependency_tracker::flags(f));
            if (o.str() != o2.str()) return x.fail("writing twice gives different results");
            if (!(f & 2) && o.str().find("new") != std::string::npos && 0) continue;
            bool esc = f & 2, chk = f & 1;
            std::set<std::string> plain;
            std::multiset<std::string> want;
            for (auto& k : deps) if (k.second) plain.insert(k.first);
            for (auto& g : globs) for (auto& k : g.second) plain.insert(k);
            // split into lines: unescaped names may hold a newline, so then only compare the whole
            std::string text = o.str();
            if (!esc) {
                bool nl = false;
                for (auto& k : plain) if (k.find('\n') != std::string::npos) nl = true;
                if (nl) continue;
            }
            std::vector<std::string> lines = mc::split(text, '\n');
            if (!lines.empty()) { if (!lines.back().empty()) return x.fail("last line is not terminated"); lines.pop_back(); }
            std::vector<std::string> raw = lines;
            for (auto& l : lines) {
                for (char ch : l) if (esc && ch >= 0 && ch < 16) return x.fail("control character in escaped output");
                if (esc) l = unescape(l);
            }
            if (!chk && !std::is_sorted(lines.begin(), lines.end()) && !std::is_sorted(raw.begin(), raw.end())) return x.fail("list not in order: [" + mc::show(text) + "]");
            if (!chk) {
                std::multiset<std::string> got(lines.begin(), lines.end()), w(plain.begin(), plain.end());
                if (got != w) return x.fail("dependency list: got [" + mc::show(text) + "] for " + std::to_string(w.size()) + " files");
            }
            else {
                std::multiset<std::string> got, w;
                std::map<std::string, std::multiset<std::string>> gg, wg;
                std::string cur;
                for (auto& l : lines) {
                    if (l.size() < 3 || l[1] != ' ') return x.fail("malformed line " + l);
                    if (l[0] == 'g') { cur = l.substr(2); if (gg.count(cur)) return x.fail("search listed twice"); gg[cur]; }
                    else if (cur.empty()) got.insert(l);
                    else if (l[0] == '+') gg[cur].insert(l.substr(2));
                    else return x.fail("unexpected line under a search: " + l);
                }
                for (auto& k : deps) w.insert((k.second ? "+ " : "- ") + k.first);
                for (auto& g : globs) wg[g.first] = std::multiset<std::string>(g.second.begin(), g.second.end());
                if (got != w || gg != wg) return x.fail("checked list: got [" + mc::show(text) + "]");
            }
            if (f == 3) x.state(text);
        }
    }
};
MC_MAIN(H)
