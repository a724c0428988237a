// Finding included files: current directory, include path, globs, nesting.
// Case: L<version><files present, hex><include path list><inner statement>; every statement is tried in the document.
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"
#include <filesystem>
#include <set>
namespace fs = std::filesystem;

static const char* places[] = {"m/a.qbk", "m/s/a.qbk", "m/s/b.qbk", "i/a.qbk", "i/s/b.qbk", "j/b.qbk", "j/s/a.qbk", "m/ab.qbk", "m/s/ab.qbk", "j/t/a.qbk", "m/[s]/a.qbk", "m/s/*.qbk"};
static const int NP = sizeof places / sizeof *places;
static const char* stmts[] = {"a.qbk", "s/a.qbk", "s/b.qbk", "../i/a.qbk", "b.qbk", "s/../a.qbk", "./a.qbk", "@/i/s/b.qbk",
    "*.qbk", "s/*.qbk", "*/a.qbk", "[ab].qbk", "a?.qbk", "*/*.qbk", "[^a].qbk", "?/b.*", "../i/*.qbk", "s*", "*b.qbk", "[a-c]*[b-z].qbk",
    "\\[s\\]/a.qbk", "\\[s\\]/*.qbk", "*/\\*.qbk", "s/\\*.qbk", "\\[?\\]/a.qbk", "s/?.qbk", "[\\[]s*/a.qb\\k", "\\s/[*]?qbk"};
static const int NS = sizeof stmts / sizeof *stmts;
static const char* inner[] = {"", "b.qbk", "../a.qbk", "s/b.qbk", "*b.qbk", "../*.qbk", "a.qbk"};
static const int NI = sizeof inner / sizeof *inner;
static const char* ipaths[] = {"", "i", "ij", "ji"};

static bool glob1(const char* p, const char* s)
{
    if (!*p) return !*s;
    if (*p == '*') { for (;; ++s) { if (glob1(p + 1, s)) return true; if (!*s) return false; } }
    if (!*s) return false;
    if (*p == '?') return glob1(p + 1, s + 1);
    if (*p == '[') {
        ++p;
        bool neg = *p == '^', in = false;
        if (neg) ++p;
        for (; *p != ']'; ++p) {
            if (*p == '\\') ++p;
            if (p[1] == '-') { in = in || (*p <= *s && *s <= p[2]); p += 2; }
            else in = in || *p == *s;
        }
        return in != neg && glob1(p + 1, s + 1);
    }
    if (*p == '\\') ++p;
    return *p == *s && glob1(p + 1, s + 1);
}
static size_t first_glob(std::string const& s)
{
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\\') ++i;
        else if (strchr("*?[", s[i])) return i;
    return std::string::npos;
}
static std::string literal(std::string const& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\\') ++i; r += s[i]; }
    return r;
}
static bool is_glob(std::string const& s) { return first_glob(s) != std::string::npos; }

struct Loc { // a file found: where it is, which search directory, and its name relative to that
    std::string file, rel;
    int dir;
    bool operator<(Loc const& o) const
    {
        fs::path a(rel), b(o.rel);
        if (a != b) return a < b;
        return dir != o.dir ? dir < o.dir : fs::path(file) < fs::path(o.file);
    }
};
static std::string join(std::string const& a, std::string const& b) { return a.empty() ? b : a + "/" + b; }
static std::string parent(std::string const& a) { size_t k = a.rfind('/'); return k == std::string::npos ? "" : a.substr(0, k); }

struct Ref {
    std::string root;
    std::vector<std::string> ip;
    std::map<std::string, std::string> nested; // file (normal form) -> statement in it
    bool globs;
    std::string out, missing;
    std::set<std::string> checked, used;
    bool endless = false;

    static std::string norm(std::string const& f) { return fs::path(f).lexically_normal().string(); }
    void search(std::set<Loc>& r, Loc const& l, std::string const& path, std::set<std::string>& c)
    {
        size_t g = first_glob(path);
        if (g == std::string::npos) {
            Loc n{join(l.file, literal(path)), join(l.rel, literal(path)), l.dir};
            if (fs::exists(n.file)) { r.insert(n); c.insert("+ " + norm(n.file)); }
            return;
        }
        size_t b = path.rfind('/', g), e = path.find('/', g);
        Loc in = l;
        if (b != std::string::npos) { in.file = join(in.file, literal(path.substr(0, b))); in.rel = join(in.rel, literal(path.substr(0, b))); }
        std::string pat = path.substr(b == std::string::npos ? 0 : b + 1, e == std::string::npos ? e : e - (b == std::string::npos ? 0 : b + 1));
        if (!fs::is_directory(in.file)) return;
        for (auto& d : fs::directory_iterator(in.file)) {
            std::string n = d.path().filename().string();
            if (!glob1(pat.c_str(), n.c_str())) continue;
            Loc k{join(in.file, n), join(in.rel, n), in.dir};
            if (e == std::string::npos) { if (d.is_regular_file()) { r.insert(k); c.insert("+ " + norm(k.file)); } }
            else if (d.is_directory()) search(r, k, path.substr(e + 1), c);
        }
    }
    bool probe(std::string const& f)
    {
        bool e = fs::exists(f);
        checked.insert((e ? "+ " : "- ") + norm(f));
        return e;
    }
    void find(std::set<Loc>& r, Loc const& at, std::string const& written)
    {
        std::string s = globs && !is_glob(written) ? literal(written) : written;
        Loc here{parent(at.file), parent(at.rel), at.dir};
        if (globs && is_glob(written)) {
            checked.insert("g " + norm(here.file + "/" + s));
            search(r, here, s, checked);
            for (size_t i = 0; i < ip.size(); ++i) {
                checked.insert("g " + norm(ip[i] + "/" + s));
                search(r, Loc{ip[i], "", (int)i + 1}, s, checked);
            }
            return;
        }
        if (s[0] == '/') { if (probe(s)) r.insert(Loc{s, s, 0}); else missing = s; return; }
        Loc n{join(here.file, s), join(here.rel, s), here.dir};
        if (probe(n.file)) { r.insert(n); return; }
        for (size_t i = 0; i < ip.size(); ++i)
            if (probe(ip[i] + "/" + s)) { r.insert(Loc{ip[i] + "/" + s, s, (int)i + 1}); return; }
        missing = s;
    }
    void include(Loc const& at, std::string const& s, int depth)
    {
        if (endless || missing.size()) return;
        if (depth > 25) { endless = true; return; }
        std::set<Loc> r;
        find(r, at, s);
        for (auto& l : r) {
            used.insert(norm(l.file));
            out += "<" + norm(l.file).substr(root.size()) + ":" + l.rel;
            auto k = nested.find(norm(l.file));
            if (k != nested.end() && k->second.size()) include(l, k->second, depth + 1);
            out += ":" + l.rel + ">";
        }
    }
};

static void normals(std::string const& text, std::set<std::string>& r, bool marked)
{
    for (auto& l : mc::split(text, '\n'))
        if (l.size() > 2) r.insert(marked ? l.substr(0, 2) + Ref::norm(l.substr(2)) : Ref::norm(l));
}

struct H : mc::Harness {
    H() { rule = "every subset of ten files (two of them with others whose names hold glob characters) in a tree of directories, four include paths, every pair of an include statement in the document and one in the included files (plain, relative, absolute, globs); files, order, __FILENAME__ and dependency output compared with a reference search; non-trivial when a file is included"; case_timeout = 30; }
    void enumerate(mc::Sink& s)
    {
        static const char* vs[] = {"7", "6", "5"};
        int full = thorough ? 10 : 7;
        for (int v = 0; v < 3; ++v)
            for (int m = 0; m < 1 << full; ++m)
                for (int p = 0; p < 4; ++p)
                    for (int n = 0; n < (thorough || v == 0 ? NI : 2); ++n) {
                        char b[32];
                        snprintf(b, 32, "L%s%03x%d%d", vs[v], thorough ? m : (m & 31) | (m & 96) << 2, p, n);
                        s.emit(b);
                    }
        for (char v : {'7', '6', '5'})
            for (char w : {'0', '1', '2', '3'})
                for (char o : {'0', '1', '2', '3'})
                    for (char b : {'0', '1', '2', '3', '4'})
                        for (char xb : {'0', '1', '2', '3', '4'}) s.emit(std::string("X") + v + w + o + b + xb);
    }
    // xinclude: the address written leads from the base directory to the file
    void xinclude(const std::string& c, mc::Ctx& x)
    {
        static const char* dirs[] = {"m", "m/s", "i", "j/t"};
        static const char* xs[] = {"x.xml", "s/x.xml", "../i/x.xml", "./x.xml", "s/../x.xml", "../../x.xml", "@/j/x.xml", "x%25+#&.xml"};
        static const char* xb[] = {"", ".", "s", "../i", ".."};
        char v = c[1];
        std::string root = qbk::fresh(), where = dirs[c[2] - '0'], o = root + "/" + dirs[c[3] - '0'] + "/o.xml";
        for (auto d : dirs) fs::create_directories(root + "/" + d);
        std::string base = c[4] == '0' ? std::string(dirs[c[3] - '0']) : dirs[c[4] - '1'];
        std::string head = std::string("[article D\n[quickbook 1.") + v + "]\n[id d]\n";
        std::string bdir = root + "/" + base, xdir = xb[c[5] - '0'];
        if (xdir.size()) { head += "[xmlbase " + xdir + "]\n"; bdir = Ref::norm(root + "/m/" + xdir); }
        head += "]\n";
        std::vector<std::string> want;
        std::string body;
        for (std::string s : xs) {
            if (s[0] == '@') s = root + s.substr(1);
            body += "[xinclude " + s + "]\n\n";
            want.push_back(Ref::norm(s[0] == '/' ? s : root + "/" + where + "/" + s));
        }
        if (where == "m") qbk::spit(root + "/m/d.qbk", head + "\n" + body);
        else {
            qbk::spit(root + "/" + where + "/e.qbk", body);
            qbk::spit(root + "/m/d.qbk", head + "\n[include " + root + "/" + where + "/e.qbk]\n");
        }
        std::vector<std::string> a{"--debug", "--no-pretty-print", "--output-file=" + o};
        if (c[4] != '0') a.push_back("--xinclude-base=" + root + "/" + base);
        a.push_back(root + "/m/d.qbk");
        qbk::Result q = qbk::call(a);
        std::string text = qbk::slurp(o), err;
        fs::remove_all(root);
        if (q.rc) return x.fail("rejected: " + q.err);
        auto t = html::parse(text, err, false);
        if (!t) return x.fail("ill-formed: " + err);
        std::string got;
        size_t n = 0;
        std::string at = root + "/" + base;
        t->walk([&](html::Node* k) {
            std::string h;
            if (k->name == "article" && k->attr("xml:base")) at = leads(at, k->get("xml:base"));
            if (k->name != "xi:include") return;
            h = leads(at, k->get("href"));
            x.step();
            if (n >= want.size() || h != want[n]) x.fail("xinclude of " + (n < want.size() ? want[n] : "?") + " has address " + k->get("href") + " from " + at);
            got += k->get("href") + " ";
            ++n;
        });
        if (n != want.size()) x.fail("xincludes lost");
        if (xdir.size() && Ref::norm(at + "/.") != Ref::norm(bdir + "/.")) x.fail("xml:base leads to " + at + " instead of " + bdir);
        x.nontrivial();
        x.state(at + got);
    }
    static std::string leads(std::string const& from, std::string const& url)
    {
        std::string u;
        for (size_t i = 0; i < url.size(); ++i)
            if (url[i] == '%' && i + 2 < url.size()) { u += (char)strtol(url.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
            else u += url[i];
        if (u.compare(0, 7, "file://") == 0) return Ref::norm(u.substr(7));
        return Ref::norm(from + "/" + u);
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'X') return xinclude(c, x);
        int mask = strtol(c.substr(2, 3).c_str(), 0, 16), n = c[6] - '0';
        char v = c[1];
        std::string root = qbk::fresh();
        fs::create_directories(root + "/m/s");
        fs::create_directories(root + "/i/s");
        fs::create_directories(root + "/j/s");
        fs::create_directories(root + "/j/t");
        Ref base;
        base.root = root;
        base.globs = v == '7';
        std::vector<std::string> args;
        for (const char* k = ipaths[c[5] - '0']; *k; ++k) { base.ip.push_back(root + "/" + *k); args.push_back("--include-path=" + base.ip.back()); }
        if (mask & 128) mask |= 1024;
        if (mask & 256) mask |= 2048;
        if (mask & 1024) fs::create_directories(root + "/m/[s]");
        for (int k = 0; k < NP; ++k)
            if (mask >> k & 1) {
                std::string f = root + "/" + places[k];
                base.nested[f] = inner[n];
                std::string shown;
                for (char ch : f.substr(root.size())) { if (strchr("/[]*", ch)) shown += '\\'; shown += ch; }
                qbk::spit(f, "<" + shown + ":__FILENAME__\n\n" + (*inner[n] ? std::string("[include ") + inner[n] + "]\n\n" : "") + ":__FILENAME__>\n");
            }
        for (int k = 0; k < NS && !x.failed; ++k) {
            std::string s = stmts[k];
            if (s[0] == '@') s = root + s.substr(1);
            if (v != '7' && s.find_first_of("[\\") != std::string::npos) continue; // not in a path there
            std::string w; // as written
            for (char ch : s) { if (ch == '[' || ch == ']' || ch == '\\') w += '\\'; w += ch; }
            std::string doc = root + "/m/d" + std::to_string(k) + ".quickbook", name = "d" + std::to_string(k) + ".quickbook";
            qbk::spit(doc, std::string("[article D\n[quickbook 1.") + v + "]\n[id d]\n]\n{__FILENAME__\n\n[include " + w + "]\n\n__FILENAME__}\n");
            Ref r = base;
            r.out = "{" + name;
            r.used.insert(doc);
            r.probe(doc);
            r.include(Loc{doc, name, 0}, s, 0);
            r.out += name + "}";
            std::string dep = root + "/dep", loc = root + "/loc", o = root + "/out.xml";
            auto a = args;
            for (auto& e : {"--debug", "--no-pretty-print"}) a.push_back(e);
            a.push_back("--output-deps=" + dep);
            a.push_back("--output-checked-locations=" + loc);
            a.push_back("--output-file=" + o);
            a.push_back(doc);
            qbk::Result q = qbk::call(a);
            x.step();
            std::string what = std::string(stmts[k]) + " with " + inner[n];
            if (r.endless || r.missing.size()) {
                if (!q.rc) x.fail(what + ": no error for " + (r.endless ? "endless inclusion" : "missing " + r.missing));
                else if (r.missing.size() && q.err.find("Unable to find file: " + r.missing) == std::string::npos) x.fail(what + ": missing " + r.missing + " not named in: " + q.err);
                else if (qbk::slurp(o).size()) x.fail(what + ": output in spite of an error");
                x.state(r.endless ? "endless" : "missing " + r.missing);
                if (r.endless) continue;
            }
            else if (q.rc) { x.fail(what + " rejected: " + q.err); break; }
            else {
                std::string err, text;
                auto t = html::parse(qbk::slurp(o), err, false);
                if (!t) { x.fail(what + ": ill-formed: " + err); break; }
                for (char ch : t->all()) if (!isspace((unsigned char)ch)) text += ch;
                std::string want = "D" + r.out;
                if (text != want) { x.fail(what + ": included " + text + " instead of " + want); break; }
                if (r.used.size() > 1) x.nontrivial();
                x.state(want);
                std::set<std::string> got;
                normals(qbk::slurp(dep), got, false);
                if (got != r.used) {
                    std::string w, g;
                    for (auto& e : r.used) w += e.substr(root.size()) + " ";
                    for (auto& e : got) g += e.substr(std::min(e.size(), root.size())) + " ";
                    x.fail(what + ": dependencies are " + g + "instead of " + w);
                    break;
                }
            }
            std::set<std::string> got;
            normals(qbk::slurp(loc), got, true);
            if (got != r.checked) {
                std::string w, g;
                for (auto& e : r.checked) if (!got.count(e)) w += e + "; ";
                for (auto& e : got) if (!r.checked.count(e)) g += e + "; ";
                x.fail(what + ": checked locations lack " + w + "and have too many of " + g);
            }
            unlink(o.c_str());
        }
        fs::remove_all(root);
    }
};
MC_MAIN(H)
