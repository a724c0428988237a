// Relative paths and file URLs.
// Case: d<0|1>|base|path  relative path (1: path is a file)     u|path  path to URL     p|text  command line value     j|text|child
#include "mc.hpp"
#include "path.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
using namespace quickbook;
namespace fs = boost::filesystem;

struct H : mc::Harness {
    std::string dir;
    H() { rule = "every pair of paths over existing, missing, dotted and symbolically linked components up to the length bound, and every path text over an alphabet of special characters; non-trivial when the two paths share part of their ancestry or a character is escaped"; }
    void init()
    {
        dir = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/paths";
        fs::create_directories(dir + "/a/b");
        fs::create_directories(dir + "/b/a");
        std::ofstream((dir + "/a/f").c_str());
        if (symlink("a", (dir + "/ln").c_str())) {}
        if (chdir(dir.c_str())) {}
    }
    void enumerate(mc::Sink& s)
    {
        std::vector<std::string> comp = {"a", "b", "f", "ln", "..", "."}, paths = {""};
        for (int n = 1; n <= (thorough ? 4 : 3); ++n)
            mc::tuples(comp.size(), n, [&](std::vector<size_t> const& t) {
                std::string p;
                for (size_t i : t) p += (p.empty() ? "" : "/") + comp[i];
                paths.push_back(p);
            });
        std::vector<std::string> shorter;
        for (auto& p : paths) if (std::count(p.begin(), p.end(), '/') < 2) shorter.push_back(p);
        for (auto& b : thorough ? shorter : paths) for (auto& p : paths) for (char f : {'0', '1'}) {
            if (!thorough && std::count(b.begin(), b.end(), '/') + std::count(p.begin(), p.end(), '/') > 3) continue;
            s.emit(std::string("d") + f + "|" + b + "|" + p);
            if (std::count(b.begin(), b.end(), '/') + std::count(p.begin(), p.end(), '/') < 2) {
                s.emit(std::string("d") + f + "|@/" + b + "|" + p);
                s.emit(std::string("d") + f + "|" + b + "|@/" + p);
                s.emit(std::string("d") + f + "|@/" + b + "|@/" + p);
                s.emit(std::string("d") + f + "|/nowhere/" + b + "|/nowhere/x/" + p);
            }
        }
        mc::strings({"a", "/", ".", "..", " ", "%", "#", "?", "\xc3\xa9", ":", "\"", "&", "<", "\\"}, 0, thorough ? 5 : 4, [&](std::string const& t) { if (t.compare(0, 2, "//") == 0) return; // network paths
            s.emit("u|" + t); });
        mc::strings({"http", "c", ":", "/", "+", "a.b-", "1", " "}, 0, thorough ? 6 : 5, [&](std::string const& t) { s.emit("p|" + t); });
        // long ones
        mc::pumped({"a", "b", "f", "ln", "..", "."}, thorough ? 3 : 2, {5, 16}, [&](std::string const& w) {
            std::string p;
            for (size_t i = 0; i < w.size();) {
                size_t n = w[i] == 'l' || (w[i] == '.' && i + 1 < w.size() && w[i + 1] == '.') ? 2 : 1;
                p += (p.empty() ? "" : "/") + w.substr(i, n);
                i += n;
            }
            if (std::count(p.begin(), p.end(), '/') > 40) return;
            for (auto b : {"", "a", "../b", "a/b/a/b/a/b/a/b/a/b", "a/../b/../a/../b/../a"}) for (char f : {'0', '1'}) {
                s.emit(std::string("d") + f + "|" + b + "|" + p);
                s.emit(std::string("d") + f + "|" + p + "|" + b);
            }
        });
        mc::pumped({"a", "/", ".", "..", " ", "%", "#", "?", "\xc3\xa9", ":", "\"", "&", "<", "\\"}, thorough ? 3 : 2, {9, 70}, [&](std::string const& t) { if (t.compare(0, 2, "//") == 0) return;
            s.emit("u|" + t); });
        mc::pumped({"c", "+", "a.b-", "1"}, thorough ? 4 : 3, {5, 40}, [&](std::string const& t) { s.emit("p|" + t + ":"); s.emit("p|" + t + "://x"); s.emit("p|" + t); });
        for (auto base : {"http://x", "http://x/", "http://x/y", "http://x/y/", "file:///z", "dir", "dir/sub", "/abs"})
            for (auto child : {"a", "a/b.css", "/a.png", "/c/1.png"}) s.emit(std::string("j|") + base + "|" + child);
    }
    // .. and . removed by name, as seen from the root
    static std::vector<std::string> norm(const fs::path& p)
    {
        std::vector<std::string> r;
        for (auto& k : fs::absolute(p).relative_path()) {
            std::string s = k.string();
            if (s == "..") { if (!r.empty()) r.pop_back(); }
            else if (!s.empty() && s != ".") r.push_back(s);
        }
        return r;
    }
    static std::string join(std::vector<std::string> const& v) { std::string r; for (auto& k : v) r += "/" + k; return r.empty() ? "/" : r; }
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'd') {
            auto p = mc::split(c, '|');
            auto place = [&](std::string s) { return s.compare(0, 2, "@/") == 0 ? dir + s.substr(1) : s; };
            fs::path base = place(p[1]), path = place(p[2]);
            if (base.empty()) base = ".";
            bool file = c[1] == '1';
            if (path.empty()) path = ".";
            fs::path got = path_difference(base, path, file);
            x.step();
            if (got.has_root_directory()) return x.fail("absolute result " + got.string());
            if (got.empty()) return x.fail("empty result for base " + base.string() + " path " + path.string());
            auto nb = norm(base), np = norm(path), ng = norm(fs::path(join(nb)) / got);
            // same place by name, or with symbolic links resolved
            bool linked = std::find(nb.begin(), nb.end(), "ln") != nb.end() || std::find(np.begin(), np.end(), "ln") != np.end();
            if (ng != np) {
                if (!linked) return x.fail("from " + base.string() + " to " + path.string() + " gives " + got.string());
                fs::path q = fs::path(join(nb)) / got, w = join(np);
                boost::system::error_code ec;
                // follow by name: ln and a are the same directory
                auto fix = [](std::vector<std::string> v) { for (auto& k : v) if (k == "ln") k = "a"; return v; };
                if (fix(ng) != fix(np)) return x.fail("from " + base.string() + " to " + path.string() + " gives " + got.string());
                (void)ec;
            }
            // no detour: .. only at the front, and no more than needed
            int ups = 0, rest = 0, n = 0;
            bool front = true;
            for (auto& k : got) { ++n; if (k == "..") { if (!front) return x.fail(".. in the middle of " + got.string()); ++ups; } else { front = false; if (k != ".") ++rest; else if (n > 1) return x.fail("'.' inside " + got.string()); } }
            size_t common = 0;
            auto eq = [](const std::string& a, const std::string& b) { return a == b; };
            while (common < nb.size() && common < np.size() && eq(nb[common], np[common])) ++common;
            if (file && common == np.size() && common) --common;
            if (!linked && (ups != (int)(nb.size() - common) || rest != (int)(np.size() - common)))
                return x.fail("from " + base.string() + " to " + path.string() + " takes a detour: " + got.string());
            if (file && !np.empty() && !linked && (got.filename().string() != np.back())) return x.fail("the file name is not in " + got.string());
            x.state(got.string());
            if (common && common < np.size()) x.nontrivial();
        }
        else if (c[0] == 'u') {
            std::string s = c.substr(2);
            fs::path p(s);
            for (int d = 0; d < 2; ++d) {
                std::string u = d ? dir_path_to_url(p) : file_path_to_url(p);
                x.step();
                for (unsigned char k : u) if (k <= ' ' || k >= 127 || strchr("\"<>#?\\", k)) return x.fail("unsafe character in " + u);
                std::string dec;
                for (size_t i = 0; i < u.size(); ++i) {
                    if (u[i] == '%') {
                        if (i + 2 >= u.size() || !isxdigit((unsigned char)u[i + 1]) || !isxdigit((unsigned char)u[i + 2])) return x.fail("bad escape in " + u);
                        dec += (char)strtol(u.substr(i + 1, 2).c_str(), 0, 16);
                        i += 2;
                    }
                    else dec += u[i];
                }
                bool net = s.size() > 2 && s[0] == '/' && s[1] == '/' && s[2] != '/';
                std::string body = dec;
                if (p.has_root_directory() || net) {
                    std::string scheme = net ? "file:" : "file://";
                    if (body.compare(0, scheme.size(), scheme) != 0) return x.fail("no scheme in " + u + " for " + s);
                    body = body.substr(scheme.size());
                }
                // same components, nothing added but the final slash of a directory
                auto parts = [](const std::string& v) { std::vector<std::string> r; for (auto& k : mc::split(v, '/')) if (!k.empty() && k != ".") r.push_back(k); return r; };
                if (parts(body) != parts(s)) return x.fail("url " + u + " for path " + s);
                bool slash = !u.empty() && u.back() == '/';
                if (d && !slash) return x.fail("directory url without final slash: " + u + " for " + s);
                if (!s.empty() && (s.back() == '/') && !slash && !net) return x.fail("final slash lost: " + u + " for " + s);
                if (!d && slash && s.back() != '/' && !(s.size() > 1 && s.substr(s.size() - 2) == "/.")) return x.fail("slash added: " + u + " for " + s);
                if ((body.size() && body[0] == '/') != (!s.empty() && s[0] == '/')) return x.fail("url " + u + " changes whether " + s + " is absolute");
                if (u != s) x.nontrivial();
                x.state(u);
            }
        }
        else if (c[0] == 'p') {
            std::string s = c.substr(2);
            detail::path_or_url v((detail::command_line_string(s))), w;
            x.step();
            size_t k = 0;
            while (k < s.size() && (isalpha((unsigned char)s[k]) || strchr("+-.", s[k]))) ++k;
            bool url = k > 1 && k < s.size() && s[k] == ':';
            if (v.is_url() != url || v.is_path() == url || !v || w || w.is_url() || w.is_path()) return x.fail("classified wrongly");
            w = v;
            if (url ? w.get_url() != s : w.get_path() != fs::path(s)) return x.fail("value changed");
            w = detail::path_or_url();
            w.swap(v);
            if (v || (url ? w.get_url() != s : w.get_path() != fs::path(s))) return x.fail("swap");
            x.state(s);
            if (url) x.nontrivial();
        }
        else {
            auto p = mc::split(c, '|');
            detail::path_or_url v((detail::command_line_string(p[1])));
            auto r = v / p[2];
            x.step();
            std::string got = r.is_url() ? r.get_url() : r.get_path().generic_string(), child = p[2][0] == '/' ? p[2].substr(1) : p[2];
            if (r.is_url() != v.is_url()) return x.fail("kind changed");
            if (!x.eq("joined", got, p[1] + (p[1].back() == '/' ? "" : "/") + child)) return;
            x.nontrivial();
            x.state(got);
        }
    }
};
MC_MAIN(H)
