// The HTML options: style sheet, graphics directory, boost root, places of input and output.
// Case: <css><graphics><boost root><output><input><pretty>, each an index
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"
#include <set>

static const char* css[] = {"", "s.css", "t/u/s.css", "../s.css", "@/t/s.css", "http://h/s.css?a&b", "./o/../s.css", "t/html/p/s.css", "q#%41 ?\\&.css", "./ab:\xc3\xa9.css"};
static const char* gfx[] = {"", "g", "../g", "@/t/o/x", "http://h/g", "http://h/g/", "g/", "g#%41 ?/\xc3\xa9"};
static const char* root[] = {"", "r", "../r/", "@", "http://h/r", "https://h/", "./r:#?/%41"};
static const char* outs[] = {"d", "d--output-dir=o", "d--output-dir=t/o/", "d--output-dir=@/t/html", "d--output-dir=../@@/o", "f", "f--output-file=t/y.html", "f--output-file=@/z.htm"};
static const char* ins[] = {"in.qbk", "t/in.qbk", "@/t/in.qbk", "./t/../in.qbk"};
template <class A, size_t N> static constexpr size_t len(A (&)[N]) { return N; }

static const char* boost_links[][2] = {{"boost:/libs/a.html", "libs/a.html"}, {"boost:libs/a/b.html#f.g", "libs/a/b.html#f.g"}, {"boost:/a.html?q=1&r=2", "a.html?q=1&r=2"}};
static const char* rel_links[] = {"rel/p.html", "p.html#f", "x/y.html", "x/q.html", "x/y/z/w.html?u"};
static const char* abs_links[] = {"http://h/a/b", "/p/q.html", "mailto:a", "#top"};
static const char* images[] = {"i.png", "images/i.png", "x/i.png"};

static std::string links()
{
    std::string r = "\n";
    for (auto& k : boost_links) r += std::string("[@") + k[0] + " l]\n";
    for (auto& k : rel_links) r += std::string("[@") + k + " l]\n";
    for (auto& k : abs_links) r += std::string("[@") + k + " l]\n";
    for (auto& k : images) r += std::string("[$") + k + "]\n";
    return r + "[link b to top] [link x.y to c] [link x.y.k to k] [link x.y.z to d]\n\n";
}

struct H : mc::Harness {
    H() { rule = "every combination of style sheet, graphics directory, boost root (none, relative, absolute, address), output place and input place, with pretty printing or identifiers special in addresses for a third; every link, image and style sheet of every page resolved from where the page lies; all are non-trivial"; case_timeout = 30; }
    void enumerate(mc::Sink& s)
    {
        for (size_t o = 0; o < len(outs); ++o)
            for (size_t c = 0; c < len(css); ++c)
                for (size_t g = 0; g < len(gfx); ++g)
                    for (size_t r = 0; r < len(root); ++r)
                        for (size_t i = 0; i < len(ins); ++i)
                            for (int p = 0; p < 3; ++p) if (thorough || p == 0 || (int)((o + c + g + r) % 3) == p) s.emit(std::string{(char)('0' + c), (char)('0' + g), (char)('0' + r), (char)('0' + o), (char)('0' + i), (char)('0' + p)});
    }
    std::string d, name;
    std::string fill(std::string s)
    {
        for (size_t k; (k = s.find("@@")) != std::string::npos;) s.replace(k, 2, name);
        size_t k = s.find('@');
        if (k != std::string::npos) s.replace(k, 1, d);
        return s;
    }
    static bool is_url(std::string const& s) { return s.find("://") != std::string::npos; }
    static std::string normal(std::string const& p)
    {
        std::vector<std::string> v;
        std::string r, k;
        for (char c : p + "/") {
            if (c != '/') { k += c; continue; }
            if (k == "..") { if (v.size()) v.pop_back(); }
            else if (k.size() && k != ".") v.push_back(k);
            k.clear();
        }
        for (auto& e : v) r += "/" + e;
        return r;
    }
    std::string absolute(std::string const& p) { return normal(p[0] == '/' ? p : d + "/" + p); }
    static std::string join(std::string a, std::string const& b) { return a + (a.back() == '/' ? "" : "/") + b; }
    static std::string unpercent(std::string const& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] == '%' && i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16), i += 2;
            else r += s[i];
        }
        return r;
    }
    // an address split into file, query and fragment
    static void split(std::string s, std::string& f, std::string& tail)
    {
        tail.clear();
        size_t k = s.find('#');
        if (k != std::string::npos) tail = k + 1 < s.size() ? s.substr(k) : "", s.resize(k);
        k = s.find('?');
        if (k != std::string::npos) tail = "\x01" + s.substr(k + 1) + tail, s.resize(k);
        f = s;
    }
    // the file a reference in this page leads to
    static std::string aim(std::string const& page, std::string const& href)
    {
        size_t k = href.find(':');
        if (k != std::string::npos && href.find_first_of("/?#") > k) return href; // has a scheme
        std::string f, tail;
        split(href, f, tail);
        if (f.empty()) return page + tail;
        f = unpercent(f);
        return normal(f[0] == '/' ? f : page.substr(0, page.rfind('/') + 1) + f) + tail;
    }
    static std::string below(std::string const& path, std::string const& link)
    {
        std::string f, tail;
        split(link, f, tail);
        return join(path, f) + tail;
    }
    static void list(std::string const& dir, std::vector<std::string>& v)
    {
        DIR* h = opendir(dir.c_str());
        if (!h) return;
        while (dirent* e = readdir(h)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            struct stat st;
            if (!stat((dir + "/" + n).c_str(), &st) && S_ISDIR(st.st_mode)) list(dir + "/" + n, v);
            else v.push_back(dir + "/" + n);
        }
        closedir(h);
    }
    static void scrub(std::string const& d)
    {
        DIR* h = opendir(d.c_str());
        if (!h) return;
        std::vector<std::string> n;
        while (dirent* e = readdir(h)) n.push_back(e->d_name);
        closedir(h);
        for (auto& k : n) {
            if (k == "." || k == "..") continue;
            std::string p = d + "/" + k;
            struct stat s;
            if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) scrub(p);
            else unlink(p.c_str());
        }
        rmdir(d.c_str());
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        struct Guard { std::string d; ~Guard() { if (chdir("/")) {} scrub(d); } } guard;
        d = guard.d = qbk::fresh("w");
        name = d.substr(d.rfind('/') + 1);
        for (std::string k : {"", "/t", "/t/u", "/o", "/t/o", "/t/html"}) mkdir((d + k).c_str(), 0777);
        if (chdir(d.c_str())) return x.fail("chdir");
        std::string in = fill(ins[c[4] - '0']);
        if (c[5] == '2') in[in.size() - 5] = 'm'; // (loaded files are kept by name)
        std::string c1 = c[5] == '2' ? "cm.qbk" : "c.qbk", e1 = c[5] == '2' ? "em.qbk" : "e.qbk", indir = in.find('/') == std::string::npos ? "" : in.substr(0, in.rfind('/') + 1);
        // the second and third document's identifiers, and so the pages' names
        std::string X = c[5] == '2' ? "a%41?#:'\xc3\xa9" : "x";
        auto spit = [&](std::string const& f, std::string t) {
            if (c[5] == '2') {
                for (size_t k = 0; (k = t.find("x.y", k)) != std::string::npos; k += X.size()) t.replace(k, 1, X);
                for (size_t k; (k = t.find("1.7")) != std::string::npos;) t.replace(k, 3, "1.6");
            }
            qbk::spit(f, t);
        };
        spit(in, "[book B\n[quickbook 1.7]\n[id b]\n]\n" + links() + "[include " + c1 + "]\n[include " + e1 + "]\n");
        spit(indir + c1, "[chapter C\n[quickbook 1.7]\n[id x.y]\n]\n" + links() + "[section:k K]\n" + links() + "[endsect]\n[import a.cpp]\n[a]\n");
        spit(indir + e1, "[chapter E\n[quickbook 1.7]\n[id x.y.z]\n]\n" + links());
        spit(indir + "a.cpp", "//[a\nint a; /*< one >*/\nint b; /*< two >*/\n//]\n");
        std::string o = fill(outs[c[3] - '0']), cs = fill(css[c[0] - '0']), gf = fill(gfx[c[1] - '0']), ro = fill(root[c[2] - '0']);
        std::vector<std::string> a = {"--debug"};
        if (c[5] != '1') a.push_back("--no-pretty-print");
        a.push_back(o[0] == 'd' ? "--output-format=html" : "--output-format=onehtml");
        if (o.size() > 1) a.push_back(o.substr(1));
        if (cs.size()) a.push_back("--css-path=" + cs);
        if (gf.size()) a.push_back("--graphics-path=" + gf);
        if (ro.size()) a.push_back("--boost-root-path=" + ro);
        a.push_back(in);
        auto r = qbk::call(a);
        x.step(1);
        std::string what;
        for (auto& k : a) what += " " + k;
        what = "quickbook" + what + ": ";
        if (r.rc) return x.fail(what + "fails: " + r.err);
        // where the pages are
        bool chunked = o[0] == 'd';
        std::string place = o.size() > 1 ? o.substr(o.find('=') + 1) : chunked ? indir + "html" : in.substr(0, in.size() - 4) + ".html";
        place = absolute(place);
        std::string dir = chunked ? place : place.substr(0, place.rfind('/'));
        std::set<std::string> want;
        if (chunked) want = {dir + "/index.html", dir + "/" + X + "/y.html", dir + "/" + X + "/y/z.html"};
        else want = {place};
        std::vector<std::string> all;
        list(d, all);
        std::set<std::string> got;
        for (auto& k : all) {
            std::string b = k.substr(k.rfind('/') + 1);
            if (b.find(".qbk") == std::string::npos && b != "a.cpp") got.insert(k);
        }
        if (got != want) {
            std::string m;
            for (auto& k : got) m += " " + k;
            return x.fail(what + "wrote" + m);
        }
        std::string wantcss = cs.size() ? (is_url(cs) ? cs : absolute(cs)) : ro.size() ? (is_url(ro) ? join(ro, "doc/src/boostbook.css") : absolute(join(ro, "doc/src/boostbook.css"))) : "";
        std::string graphics = gf.size() ? gf : ro.size() ? join(ro, "doc/src/images") : "";
        auto graphic = [&](std::string const& n) { return is_url(graphics) ? join(graphics, n) : absolute(join(graphics, n)); };
        size_t links_seen = 0;
        for (auto& page : want) {
            std::string err, text = qbk::slurp(page);
            auto t = html::parse(text, err);
            if (!err.empty()) return x.fail(what + page + ": " + err);
            std::multiset<std::string> have, need;
            std::set<std::string> ids;
            std::string bad;
            t->walk([&](html::Node* n) {
                if (n->attr("id")) ids.insert(n->get("id"));
                if (n->name == "link") have.insert("css " + aim(page, n->get("href")));
                if (n->name == "img") {
                    std::string alt = n->get("alt"), s = n->get("src");
                    bool g = alt == "prev" || alt == "up" || alt == "home" || alt == "next" || (alt.size() == 3 && alt[0] == '(');
                    have.insert((g ? "graphic " + alt + " " : std::string("image ")) + aim(page, s));
                }
                if (n->name == "a" && n->attr("href")) {
                    std::string h = n->get("href"), s;
                    for (char k : n->all()) if (!isspace((unsigned char)k) || (s.size() && s.back() != ' ')) s += isspace((unsigned char)k) ? ' ' : k;
                    while (s.size() && s.back() == ' ') s.pop_back();
                    ++links_seen;
                    if (s == "l") have.insert("link " + ((h[0] == '#' && h.size() > 1) || h[0] == '/' ? h : aim(page, h)));
                    else if (!s.compare(0, 3, "to ")) have.insert(s + " " + aim(page, h.substr(0, h.find('#'))) + "\x02" + (h.find('#') == std::string::npos ? "" : h.substr(h.find('#') + 1)));
                    else if (!is_url(h)) { // navigation and contents: to a page that exists
                        std::string f = aim(page, h.substr(0, h.find('#')));
                        if (!want.count(f)) bad += " " + h;
                    }
                }
            });
            if (bad.size()) return x.fail(what + page + " links to" + bad);
            // how often the links are on this page
            std::string base = page.substr(dir.size() + 1);
            int n = !chunked ? 4 : base == X + "/y.html" ? 2 : 1;
            for (int i = 0; i < n; ++i) {
                for (auto& k : boost_links) need.insert("link " + (ro.empty() ? std::string("http://www.boost.org/doc/libs/release/") + k[1] : is_url(ro) ? join(ro, k[1]) : below(absolute(ro), k[1])));
                for (auto& k : rel_links) need.insert("link " + aim(dir + "/x", k));
                for (auto& k : abs_links) need.insert(std::string("link ") + k);
                for (auto& k : images) need.insert("image " + aim(dir + "/x", k));
            }
            if (wantcss.size()) need.insert("css " + wantcss);
            if (graphics.size()) {
                std::vector<std::string> nav, call;
                if (!chunked) call = {"1", "1", "2", "2"};
                else if (base == "index.html") nav = {"next"};
                else if (base == X + "/y.html") nav = {"prev", "up", "home", "next"}, call = {"1", "1", "2", "2"};
                else nav = {"prev", "up", "home"};
                for (auto& k : nav) need.insert("graphic " + k + " " + graphic(k + ".png"));
                for (auto& k : call) need.insert("graphic (" + k + ") " + graphic("callouts/" + k + ".png"));
            }
            std::multiset<std::string> tos;
            for (auto i = have.begin(); i != have.end();) {
                if (!i->compare(0, 3, "to ")) tos.insert(*i), i = have.erase(i);
                else ++i;
            }
            for (auto& k : need) {
                auto i = have.find(k);
                if (i == have.end()) {
                    std::string m;
                    for (auto& h : have) m += "\n   " + h;
                    return x.fail(what + page + " has no " + k + "; left are" + m);
                }
                have.erase(i);
            }
            if (have.size()) return x.fail(what + page + " also has " + *have.begin());
            if ((int)tos.size() != 4 * n) return x.fail(what + page + " has " + std::to_string(tos.size()) + " links to sections");
            for (auto& k : tos) { // "to NAME file, fragment"
                std::string who = k.substr(3, k.find(' ', 3) - 3), f = k.substr(k.find(' ', 3) + 1), g;
                size_t h = f.find('\x02');
                if (h != std::string::npos) g = f.substr(h + 1), f.resize(h);
                std::string home = !chunked ? place : dir + (who == "top" ? std::string("/index.html") : "/" + X + (who == "d" ? "/y/z.html" : "/y.html"));
                if (f != home) return x.fail(what + page + ": link " + k);
                std::string id = who == "top" ? "b" : who == "c" ? X + ".y" : who == "d" ? X + ".y.z" : X + ".y.k";
                if (g.size() && g != id) return x.fail(what + page + ": link " + k);
                if (g.empty() && (who == "k" || (!chunked && who != "top"))) return x.fail(what + page + ": link " + k);
            }
        }
        x.nontrivial();
        x.state(std::to_string(links_seen) + o + c);
    }
};
int main(int argc, char** argv) { H h; return mc::main_(argc, argv, h); }
