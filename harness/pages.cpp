// HTML pages: splitting a document into pages, navigation, contents lists and links.
// Case: <opts>:<tree>   opts = output 'c'hunked/'s'ingle, id style 0-3, asset style 0-2, pretty 0/1
// tree = preorder with parentheses; B book, C chapter, S section, lower case = untitled, e.g. B(C(S)S)
#include "mc.hpp"
#include "html.hpp"
#include "bb2html.hpp"
#include "path.hpp"
#include "utils.hpp"
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <set>
using namespace quickbook;
namespace fs = boost::filesystem;

struct Chunk {
    char type = 0;
    int parent = -1, k = 0;
    std::vector<int> kids;
    std::string id; // "" = none given
    bool titled = true, inl = false;
    int page = 0; // chunk that owns the page
    std::string file;
};

struct Link { std::string text, want_file, want_token; bool missing; };

struct H : mc::Harness {
    std::string dir;
    H() { rule = "every document tree up to the node bound (all twelve kinds of documents and divisions for small trees, book, chapters, sections, untitled ones for larger ones) under every output, id and asset style; every page is parsed and every link, navigation arrow and contents entry followed; non-trivial when there are at least two pages or an inlined chunk"; case_timeout = 20; }
    void init() { dir = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/pages"; mkdir(dir.c_str(), 0777); }

    static void trees(int n, const std::string& types, const std::function<void(const std::string&)>& f)
    {
        // all forests of n nodes over the types
        std::vector<std::vector<std::string>> forest(n + 1);
        forest[0].push_back("");
        for (int m = 1; m <= n; ++m)
            for (int first = 1; first <= m; ++first)
                for (auto& kids : forest[first - 1])
                    for (auto& rest : forest[m - first])
                        for (char t : types) forest[m].push_back(std::string(1, t) + (kids.empty() ? "" : "(" + kids + ")") + rest);
        for (auto& x : forest[n]) f(x);
    }
    // elements which may be the target of a link; @ is replaced by the identifier
    static const std::vector<const char*>& targets()
    {
        static const std::vector<const char*> v{"<para@>x</para>", "<simpara@>x</simpara>", "<para><phrase@ role='q'>x</phrase></para>", "<para><phrase@>x</phrase></para>", "<para><emphasis@>x</emphasis></para>",
            "<para><emphasis@ role='bold'>x</emphasis></para>", "<para><emphasis@ role='z'>x</emphasis></para>", "<anchor@/>", "<para><anchor@/></para>", "<bridgehead@ renderas='sect2'>x</bridgehead>", "<bridgehead renderas='sect3'><phrase@>x</phrase></bridgehead>",
            "<table@><title>t</title><tgroup cols='1'><tbody><row><entry>x</entry></row></tbody></tgroup></table>", "<informaltable@><tgroup cols='1'><tbody><row><entry>x</entry></row></tbody></tgroup></informaltable>",
            "<table><title@>t</title><tgroup cols='1'><tbody><row><entry>x</entry></row></tbody></tgroup></table>", "<informaltable><tgroup cols='1'><thead><row@><entry>x</entry></row></thead><tbody><row><entry>x</entry></row></tbody></tgroup></informaltable>",
            "<informaltable><tgroup cols='1'><thead><row><entry@>x</entry></row></thead><tbody><row><entry>x</entry></row></tbody></tgroup></informaltable>", "<informaltable><tgroup cols='1'><tbody><row@><entry>x</entry></row></tbody></tgroup></informaltable>",
            "<informaltable><tgroup cols='1'><tbody><row><entry@>x</entry></row></tbody></tgroup></informaltable>", "<informaltable><tgroup cols='1'><tbody><row><entry><para@>x</para></entry></row></tbody></tgroup></informaltable>",
            "<itemizedlist@><listitem>x</listitem></itemizedlist>", "<orderedlist><listitem@>x</listitem></orderedlist>", "<itemizedlist><listitem><itemizedlist><listitem><simpara@>x</simpara></listitem></itemizedlist></listitem></itemizedlist>",
            "<variablelist@><varlistentry><term>x</term><listitem>y</listitem></varlistentry></variablelist>", "<variablelist><varlistentry><term@>x</term><listitem>y</listitem></varlistentry></variablelist>", "<variablelist><varlistentry><term>x</term><listitem@>y</listitem></varlistentry></variablelist>",
            "<para>a<footnote@>x</footnote></para>", "<para>a<footnote><para@>x</para></footnote></para>", "<para>a<footnote><para>x<footnote@>y</footnote></para></footnote></para>", "<blockquote@><para>x</para></blockquote>", "<note@><para>x</para></note>", "<warning@><para>x</para></warning>", "<tip><para@>x</para></tip>",
            "<sidebar@><para>x</para></sidebar>", "<sidebar role='blurb'@><para>x</para></sidebar>", "<programlisting@>x</programlisting>", "<programlisting><phrase@ role='keyword'>x</phrase></programlisting>", "<para><literal@>x</literal></para>", "<para><code@>x</code></para>", "<para><quote@>x</quote></para>",
            "<para><replaceable@>x</replaceable></para>", "<para><superscript@>x</superscript></para>", "<para><ulink@ url='http://x/'>x</ulink></para>", "<para><link@ linkend='d'>x</link></para>", "<para><inlinemediaobject@><imageobject><imagedata fileref='i.png'/></imageobject></inlinemediaobject></para>",
            "<calloutlist@><callout arearefs='q'><para>x</para></callout></calloutlist>", "<calloutlist><callout@ arearefs='q'><para>x</para></callout></calloutlist>", "<unknown><para@>x</para></unknown>"};
        return v;
    }
    void enumerate(mc::Sink& s)
    {
        for (size_t k = 0; k < targets().size(); ++k) for (char o : {'c', 's'}) for (char to : {'0', '1', '2', '3', '4', '5'}) for (char in : {'b', 't', 'i'}) s.emit(std::string("L") + o + to + in + ":" + std::to_string(k));
        std::vector<std::string> units{"x", "y", "y.html", "z.html", "index.html", "/", "..", "#f", "?q", "a", "-b", ".c", "+", ":", "http://", "boost:", "%20", "\xc3\xa9"};
        mc::strings(units, 0, thorough ? 3 : 2, [&](std::string const& t) { s.emit("U:" + t); });
        // every kind of element as the document and in it
        for (char root : std::string("BALPXFDQRTCS"))
            for (int n = 0; n <= (thorough ? 3 : 2); ++n)
                trees(n, n < 2 ? "ALPXFDQRTBSCx" : n == 2 ? "ALPXFDQRTBSC" : "ARBS", [&](std::string const& t) {
                    for (char o : {'c', 's'}) {
                        if (n == 2 && o == 's' && root > 'B') continue;
                        s.emit(std::string() + o + "010:" + root + (t.empty() ? "" : "(" + t + ")"));
                    }
                });
        int small = thorough ? 4 : 3, big = thorough ? 6 : 5;
        for (int n = 0; n <= small; ++n)
            trees(n, n <= small - 1 ? "CScs" : "CSc", [&](std::string const& t) {
                for (char o : {'c', 's'}) for (char i : {'0', '1', '2', '3'}) for (char a : {'0', '1', '2'}) for (char p : {'0', '1'})
                    s.emit(std::string() + o + i + a + p + ":B" + (t.empty() ? "" : "(" + t + ")"));
            });
        // many and deep
        for (int n : {11, 13, 26}) mc::strings(mc::chars("CSc"), 1, 3, [&](std::string const& w) {
            if (!thorough && (n == 13 || (n == 26 && w.size() > 2))) return;
            std::string wide, deep, end, comb;
            for (int i = 0; i < n; ++i) {
                char k = w[i % w.size()];
                wide += k;
                if (i < 13) deep += k, deep += "(", end = (i % 3 == 1 ? std::string(1, w[0]) : "") + ")" + end;
                comb += i % 3 == 1 ? std::string(1, k) + "(SS(C))" : i % 3 ? std::string(1, k) + "(S)" : std::string(1, k);
            }
            deep = deep.substr(0, deep.size() - 1) + end.substr(0, end.size() - 1);
            size_t open = std::count(deep.begin(), deep.end(), '('), close = std::count(deep.begin(), deep.end(), ')');
            while (close > open) deep.erase(deep.rfind(')'), 1), --close;
            while (close < open) deep += ")", ++close;
            for (char o : {'c', 's'}) for (char i : {'0', '1', '2', '3'}) for (auto& t : {wide, deep, comb}) if (n < 20 || (t == wide && (o == 'c') == (i == '2' || i == '3'))) s.emit(std::string() + o + i + "00:B(" + t + ")");
        });
        for (int n = small + 1; n <= big; ++n)
            trees(n, "CS", [&](std::string const& t) {
                for (char o : {'c', 's'}) for (char i : {'0', '1', '2', '3'}) {
                    if (n == big && (o == 's' || i == '1' || i == '2')) continue;
                    s.emit(std::string() + o + i + char('0' + n % 3) + "0:B(" + t + ")");
                }
            });
    }

    std::vector<Chunk> cs;
    void build(const std::string& t, char idstyle)
    {
        cs.clear();
        std::vector<int> st;
        int last = -1;
        for (char c : t) {
            if (c == '(') { st.push_back(last); continue; }
            if (c == ')') { st.pop_back(); continue; }
            Chunk n;
            n.k = cs.size();
            n.type = toupper(c);
            n.titled = isupper(c);
            n.parent = st.empty() ? -1 : st.back();
            if (n.parent >= 0) cs[n.parent].kids.push_back(n.k);
            std::string num = std::to_string(n.k);
            if (n.parent < 0) n.id = "d";
            else if (idstyle == '0') n.id = (cs[n.parent].id.empty() ? "z" : cs[n.parent].id) + ".x" + num;
            else if (idstyle == '1') n.id = "k" + num;
            else if (idstyle == '2') n.id = "";
            else n.id = n.k % 3 == 0 ? "" : n.k % 3 == 1 ? "d.q.r" + num : "d.q" + num;
            cs.push_back(n);
            last = n.k;
        }
    }
    static const char* element(char t)
    {
        static const std::map<char, const char*> m{{'B', "book"}, {'C', "chapter"}, {'S', "section"}, {'A', "article"}, {'L', "library"}, {'P', "part"}, {'X', "appendix"}, {'F', "preface"}, {'D', "qandadiv"}, {'Q', "qandaset"}, {'R', "reference"}, {'T', "set"}};
        return m.at(t);
    }
    std::string body(int k, std::vector<std::string> const& ids)
    {
        Chunk& c = cs[k];
        std::string n = std::to_string(k), e = element(c.type), r;
        r += "<" + e + (c.id.empty() ? "" : " id=\"" + c.id + "\"") + ">";
        if (c.titled) r += "<title id=\"t" + n + "\">T" + n + " <emphasis>x</emphasis></title>";
        r += "<" + e + "info><legalnotice><para id=\"i" + n + "\">I" + n + "</para></legalnotice></" + e + "info>";
        r += "<para>A" + n + "</para><para id=\"d.p" + n + "\">P" + n + "</para>";
        for (auto& i : ids) r += "<link linkend=\"" + i + "\">L" + n + "|" + i + "</link> ";
        r += "<link linkend=\"nowhere\">M" + n + "</link> ";
        for (auto u : {"http://e.x/a/b.html?q=1&amp;r=2#f", "mailto:a@b.c", "boost:libs/x.html", "boost:/libs/y.html", "img/u.html", "../up.html#g", "/abs/p.html"})
            r += std::string("<ulink url=\"") + u + "\">U" + n + "|" + u + "</ulink> ";
        r += "<inlinemediaobject><imageobject><imagedata fileref=\"img/i.png\"></imagedata></imageobject></inlinemediaobject>";
        for (int q : c.kids) r += body(q, ids);
        return r + "</" + e + ">";
    }
    void inl(int k) { for (int q : cs[k].kids) { cs[q].inl = true; cs[q].page = cs[k].page; inl(q); } }
    void split(int k)
    {
        bool leading = true;
        for (int q : cs[k].kids) {
            if (cs[q].type != 'S') leading = false;
            if (leading) { cs[q].inl = true; cs[q].page = cs[k].page; inl(q); }
            else { cs[q].inl = false; cs[q].page = q; split(q); }
        }
    }
    void toc(int page, int x, int depth, std::string& out)
    {
        if (x != page && depth == 0) {
            bool other = false;
            for (int q : cs[x].kids) if (cs[q].type != 'S') other = true;
            if (!other) return;
        }
        for (int q : cs[x].kids) {
            out += "(" + (cs[q].titled ? "T" + std::to_string(q) + " x" : std::string("Untitled")) + "@" + std::to_string(q);
            if (!cs[q].kids.empty()) toc(page, q, cs[q].type == 'S' && depth > 0 ? depth - 1 : depth, out);
            out += ")";
        }
    }
    static std::string squeeze(const std::string& s)
    {
        std::string r;
        for (char c : s) {
            if (isspace((unsigned char)c)) { if (!r.empty() && r.back() != ' ') r += ' '; }
            else r += c;
        }
        while (!r.empty() && r.back() == ' ') r.pop_back();
        return r;
    }

    // pages of the document below: the root, its inlined section, a chapter on x/y.html and its section, a chapter below it, a plain one
    static constexpr const char* page_ids[6] = {"d", "is", "x.y", "x.s", "x.y.z", "w"};
    static constexpr const char* page_files[6] = {"index.html", "index.html", "x/y.html", "x/y.html", "x/y/z.html", "w.html"};
    static std::string six(const std::function<std::string(int)>& body)
    {
        auto el = [&](const char* e, int k) { return std::string("<") + e + " id='" + page_ids[k] + "'><title>T" + std::to_string(k) + "</title>" + body(k); };
        return el("book", 0) + el("section", 1) + "</section>" + el("part", 2) + el("section", 3) + "</section>" + el("chapter", 4) + "</chapter></part>" + el("chapter", 5) + "</chapter></book>";
    }
    bool convert(std::string const& src, bool chunked, std::map<std::string, std::unique_ptr<html::Node>>& pages, mc::Ctx& x)
    {
        std::string out = dir + "/q" + std::to_string(getpid());
        fs::remove_all(out);
        fs::create_directories(out);
        detail::html_options op;
        op.chunked_output = chunked;
        op.home_path = out + "/index.html";
        op.pretty_print = false;
        int rc = detail::boostbook_to_html(src, op);
        x.step(src.size());
        for (fs::recursive_directory_iterator i(out), e; i != e; ++i) {
            if (!fs::is_regular_file(i->status())) continue;
            std::string rel = i->path().string().substr(out.size() + 1), err;
            auto t = html::parse(mc::Driver::readfile(i->path().string()), err);
            if (!t) x.fail("page " + rel + " is malformed: " + err);
            else pages[rel] = std::move(t);
        }
        fs::remove_all(out);
        if (rc) x.fail("conversion reported " + std::to_string(rc) + " errors");
        return !x.failed && x.eq("pages", (int)pages.size(), chunked ? 4 : 1);
    }
    void target(const std::string& c, mc::Ctx& x)
    {
        bool chunked = c[1] == 'c';
        int to = c[2] - '0';
        std::string el = targets()[atoi(c.c_str() + 5)];
        size_t at = el.find('@');
        el.replace(at, 1, " id='tgt'");
        if (c[3] == 't' && el.compare(0, 6, "<para>") && el[1] != 'a') return; // in a title: only inline
        if (c[3] == 't' && el.find("<para>") == 0) el = el.substr(6, el.size() - 13);
        if (c[3] == 'i') el = "<legalnotice>" + el + "</legalnotice>";
        static const char* infos[6] = {"bookinfo", "sectioninfo", "partinfo", "sectioninfo", "chapterinfo", "chapterinfo"};
        std::string src = six([&](int k) {
            std::string r = "<para><link linkend='tgt'>L" + std::to_string(k) + "</link></para>";
            if (k != to) return r;
            if (c[3] == 'b') return r + el;
            return c[3] == 'i' ? "<" + std::string(infos[k]) + ">" + el + "</" + infos[k] + ">" + r : r;
        });
        if (c[3] == 't') { std::string w = "T" + std::to_string(to) + "<"; size_t p = src.find(w); src.insert(p + w.size() - 1, el); }
        std::map<std::string, std::unique_ptr<html::Node>> pages;
        if (!convert(src, chunked, pages, x)) return;
        int seen = 0;
        for (auto& p : pages) {
            std::string want = chunked ? page_files[to] : "index.html";
            int n = 0;
            p.second->walk([&](html::Node* k) {
                if (k->get("id") == "tgt") ++n;
                if (k->name != "a" || k->all()[0] != 'L') return;
                ++seen;
                std::string f, g;
                if (!html::resolve(p.first, k->get("href"), f, g) || f != want || g != "tgt") x.fail("link on " + p.first + " to an element of " + want + " is " + k->get("href"));
            });
            if (x.failed || !x.eq(("elements with the identifier on " + p.first).c_str(), n, p.first == want ? 1 : 0)) return;
        }
        if (!x.eq("links", seen, 6)) return;
        x.state(c);
        x.nontrivial();
    }
    // addresses written in the document are relative to the output directory, wherever the page is
    static std::string norm(std::string const& dirs, std::string const& ref)
    {
        size_t e = ref.find_first_of("?#");
        std::string path = dirs + ref.substr(0, e), tail = e == std::string::npos ? "" : ref.substr(e);
        std::vector<std::string> v;
        auto parts = mc::split(path, '/');
        for (size_t k = 0; k < parts.size(); ++k) {
            bool last = k + 1 == parts.size();
            if (parts[k] == ".." ) { if (!v.empty()) v.pop_back(); if (last) v.push_back(""); }
            else if (parts[k] == ".") { if (last) v.push_back(""); }
            else v.push_back(parts[k]);
        }
        std::string r;
        for (auto& p : v) r += "/" + p;
        return r + tail;
    }
    void urls(const std::string& first, mc::Ctx& x)
    {
        std::vector<std::string> units{"", "x", "y", "y.html", "z.html", "index.html", "/", "..", "#f", "?q", "a", "-b", ".c", "+", ":", "//h", "%20", "\xc3\xa9"}, all;
        for (auto& a : units) for (auto& b : units) {
            std::string u = first + a + b;
            if (u.empty() || (a.empty() && !b.empty())) continue;
            all.push_back(u);
        }
        auto listed = [&](int) {
            std::string r;
            for (size_t k = 0; k < all.size(); ++k) r += "<ulink url='" + all[k] + "'>U" + std::to_string(k) + "</ulink><inlinemediaobject><imageobject><imagedata fileref='" + all[k] + "'/></imageobject><textobject><phrase role='alt'>G" + std::to_string(k) + "</phrase></textobject></inlinemediaobject>";
            return r;
        };
        std::map<std::string, std::unique_ptr<html::Node>> pages;
        if (!convert(six(listed), true, pages, x)) return;
        int seen = 0;
        for (auto& p : pages) {
            std::string dirs = "r0/r1/r2/r3/" + p.first.substr(0, p.first.rfind('/') + 1);
            p.second->walk([&](html::Node* k) {
                if (x.failed) return;
                std::string label = k->name == "a" ? k->all() : k->name == "img" ? k->get("alt") : "";
                if (label.size() < 2 || (label[0] != 'U' && label[0] != 'G') || !isdigit((unsigned char)label[1])) return;
                ++seen;
                std::string const& u = all[atoi(label.c_str() + 1)];
                std::string h = k->get(k->name == "a" ? "href" : "src");
                if (u.compare(0, 6, "boost:") == 0) { std::string rest = u.substr(6); if (rest[0] == '/') rest = rest.substr(1); x.eq("boost link", h, "http://www.boost.org/doc/libs/release/" + rest); return; }
                size_t colon = u.find(':');
                if (colon > u.find_first_of("/?#")) colon = std::string::npos;
                if (colon != std::string::npos) {
                    for (size_t i = 0; i < colon; ++i) if (!isalnum((unsigned char)u[i]) && !strchr("+-.", u[i])) return; // neither absolute nor relative
                    if (!colon || !isalpha((unsigned char)u[0])) return;
                    x.eq("absolute address", h, u);
                    return;
                }
                if (u[0] == '/' || u[0] == '#') { x.eq("address", h, u); return; }
                if (u[0] == '?' || u.find("//") != std::string::npos) return; // not claimed
                std::string got;
                if (h.empty() || h[0] == '#' || h[0] == '?') { // the page itself
                    got = norm("r0/r1/r2/r3/", p.first);
                    if (h != "#") got += h;
                }
                else {
                    size_t hc = h.find(':');
                    if (hc < h.find_first_of("/?#")) { x.fail("relative address " + u + " becomes " + h); return; }
                    got = h[0] == '/' ? h : norm(dirs, h);
                }
                if (!x.eq(("address " + u + " on " + p.first + ", " + h).c_str(), got, norm("r0/r1/r2/r3/", u))) return;
            });
            if (x.failed) return;
        }
        if (!x.eq("addresses", seen, (int)all.size() * 12)) return;
        x.state(first);
        x.nontrivial();
    }

    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'L') return target(c, x);
        if (c[0] == 'U') return urls(c.substr(2), x);
        char o = c[0], idst = c[1], asset = c[2];
        build(c.substr(5), idst);
        std::vector<std::string> ids;
        for (auto& k : cs) {
            if (!k.id.empty()) ids.push_back(k.id);
            if (k.titled) ids.push_back("t" + std::to_string(k.k));
            ids.push_back("d.p" + std::to_string(k.k));
            ids.push_back("i" + std::to_string(k.k));
        }
        cs[0].page = 0;
        if (o == 'c') split(0); else inl(0);
        std::string root = dir + "/w" + std::to_string(getpid());
        fs::remove_all(root);
        fs::create_directories(root);
        std::string out = root + "/sub/out";
        fs::create_directories(root + "/sub");
        if (o == 's') fs::create_directories(out);
        detail::html_options op;
        op.chunked_output = o == 'c';
        std::string home = o == 'c' ? "index.html" : "one.html";
        op.home_path = out + "/" + home;
        op.pretty_print = c[3] == '1';
        std::string css, gfx, boost_root = "http://www.boost.org/doc/libs/release";
        if (asset == '1') {
            op.css_path = detail::path_or_url::path(css = root + "/css/a.css");
            op.graphics_path = detail::path_or_url::path(gfx = root + "/sub/out/g");
            op.boost_root_path = detail::path_or_url::path(boost_root = root + "/sub");
        }
        if (asset == '2') {
            op.css_path = detail::path_or_url::url(css = "http://c.d/s.css");
            op.graphics_path = detail::path_or_url::url(gfx = "http://c.d/g");
            op.boost_root_path = detail::path_or_url::url(boost_root = "http://b.r/1_2/");
        }
        std::string src = body(0, ids);
        int rc = detail::boostbook_to_html(src, op);
        x.step(src.size());
        if (rc) return x.fail("conversion reported " + std::to_string(rc) + " errors");

        // Read everything back
        std::map<std::string, std::unique_ptr<html::Node>> pages;
        for (fs::recursive_directory_iterator i(out), e; i != e; ++i) {
            if (!fs::is_regular_file(i->status())) continue;
            std::string rel = i->path().string().substr(out.size() + 1), err;
            auto t = html::parse(mc::Driver::readfile(i->path().string()), err);
            if (!t) return x.fail("page " + rel + " is malformed: " + err);
            pages[rel] = std::move(t);
        }
        fs::remove_all(root);
        // Where is each chunk?
        std::vector<int> owners;
        for (auto& k : cs) if (k.page == k.k) owners.push_back(k.k);
        if (pages.size() != owners.size()) {
            std::string l;
            for (auto& p : pages) l += " " + p.first;
            return x.fail(std::to_string(owners.size()) + " pages expected, there are " + std::to_string(pages.size()) + ":" + l);
        }
        struct PageInfo { std::map<std::string, html::Node*> ids; std::vector<std::pair<std::string, html::Node*>> words; };
        std::map<std::string, PageInfo> info;
        std::map<std::string, std::string> where; // word -> page
        for (auto& p : pages) {
            PageInfo& pi = info[p.first];
            p.second->walk([&](html::Node* n) {
                if (auto i = n->attr("id")) pi.ids.insert({*i, n});
                if (!n->name.empty()) return;
                for (html::Node* u = n->up; u; u = u->up) if (u->get("class") == "toc" || u->get("class") == "spirit-nav") return;
                std::string t = squeeze(n->text);
                for (auto& w : mc::split(t, ' '))
                    if (w.size() > 1 && strchr("TIAP", w[0]) && isdigit((unsigned char)w[1])) { pi.words.push_back({w, n}); if (!where.insert({w, p.first}).second) x.fail(w + " appears twice"); }
            });
        }
        if (x.failed) return;
        for (int k : owners) {
            auto w = where.find("A" + std::to_string(k));
            if (w == where.end()) return x.fail("the text of chunk " + std::to_string(k) + " is on no page");
            cs[k].file = w->second;
            std::string want = k == 0 ? home : cs[k].id;
            if (k && !want.empty()) { for (char& ch : want) if (ch == '.') ch = '/'; want += ".html"; }
            if (!want.empty() && !x.eq("file of a page", w->second, want)) return;
        }
        for (auto& k : cs) k.file = cs[k.page].file;
        for (int k : owners) {
            std::string want, got;
            for (auto& q : cs) if (q.page == k) {
                std::string n = std::to_string(q.k);
                want += (q.titled ? "T" + n + " " : std::string()) + "I" + n + " A" + n + " P" + n + " ";
            }
            for (auto& w : info[cs[k].file].words) got += w.first + " ";
            if (!x.eq(("text of page " + cs[k].file).c_str(), got, want)) return;
        }
        auto follow = [&](const std::string& page, const std::string& href, int chunk, const std::string& token, const std::string& what) {
            std::string f, g;
            if (!html::resolve(page, href, f, g)) return x.fail(what + " on " + page + " leaves the output: " + href);
            if (f != cs[chunk].file) return x.fail(what + " on " + page + " goes to " + f + " (" + href + ") not " + cs[chunk].file);
            if (g.empty()) {
                if (token.empty() && cs[chunk].page == chunk) return;
                return x.fail(what + " on " + page + " has no fragment: " + href);
            }
            auto i = info[f].ids.find(g);
            if (i == info[f].ids.end()) return x.fail(what + " on " + page + " goes to a missing id: " + href);
            std::string t = squeeze(i->second->all()), w = token.empty() ? "A" + std::to_string(chunk) : token;
            if ((" " + t + " ").find(w) == std::string::npos) return x.fail(what + " on " + page + " goes to an element without " + w + ": " + href);
            if (token.empty() && cs[chunk].page == chunk) x.fail(what + ": fragment for a whole page: " + href);
        };
        auto nslash = [](const std::string& s) { return std::count(s.begin(), s.end(), '/'); };
        for (size_t pi = 0; pi < owners.size(); ++pi) {
            int k = owners[pi];
            std::string page = cs[k].file;
            html::Node* t = pages[page].get();
            std::map<std::string, std::string> nav;
            int navs = 0;
            std::map<std::string, int> linkcount;
            std::vector<html::Node*> tocs, csslinks;
            t->walk([&](html::Node* n) {
                if (n->name == "div" && n->get("class") == "spirit-nav") ++navs;
                if (n->name == "div" && n->get("class") == "toc") tocs.push_back(n);
                if (n->name == "link") csslinks.push_back(n);
                if (n->name == "img") {
                    std::string src = n->get("src");
                    bool in_nav = n->up->up && n->up->up->get("class") == "spirit-nav";
                    if (in_nav) {
                        std::string nm = n->get("alt"), f, g;
                        if (asset == '2') { if (src != gfx + "/" + nm + ".png") x.fail("graphic " + src); }
                        else if (!html::resolve(out + "/" + page, src, f, g) || f != gfx + "/" + nm + ".png") x.fail("graphic on " + page + ": " + src);
                    }
                    else {
                        std::string f, g;
                        if (!html::resolve(page, src, f, g) || f != "img/i.png") x.fail("image on " + page + ": " + src);
                        ++linkcount["img"];
                    }
                }
                if (n->name != "a") return;
                std::string text = squeeze(n->all()), href = n->get("href");
                if (auto ak = n->attr("accesskey")) { if (!nav.insert({*ak, href}).second) x.fail("two navigation links for " + *ak); return; }
                if (text[0] == 'M') { if (n->attr("href")) x.fail("a link to nothing goes to " + href); ++linkcount["M"]; return; }
                size_t bar = text.find('|');
                if (bar == std::string::npos) return;
                std::string target = text.substr(bar + 1);
                if (text[0] == 'L') {
                    ++linkcount["L"];
                    for (auto& q : cs) {
                        std::string n2 = std::to_string(q.k);
                        if (q.id == target) follow(page, href, q.k, "", "link to " + target);
                        else if ("t" + n2 == target) follow(page, href, q.k, "T" + n2, "link to " + target);
                        else if ("d.p" + n2 == target) follow(page, href, q.k, "P" + n2, "link to " + target);
                        else if ("i" + n2 == target) follow(page, href, q.k, "I" + n2, "link to " + target);
                    }
                }
                else if (text[0] == 'U') {
                    ++linkcount["U"];
                    std::string want = target, f, g;
                    if (target.compare(0, 6, "boost:") == 0) {
                        std::string rest = target.substr(6);
                        if (rest[0] == '/') rest = rest.substr(1);
                        if (asset == '1') { if (!html::resolve(out + "/" + page, href, f, g) || f != boost_root + "/" + rest) x.fail("boost link on " + page + ": " + href); return; }
                        want = boost_root + (boost_root.back() == '/' ? "" : "/") + rest;
                        x.eq(("boost link on " + page).c_str(), href, want);
                    }
                    else if (target[0] == '/' || target.find(':') != std::string::npos) x.eq(("url on " + page).c_str(), href, want);
                    else { // relative to the root of the output
                        std::string f2, g2, fake = "r0/" + page;
                        if (!html::resolve(fake, href, f, g) || !html::resolve("r0/x.html", target, f2, g2) || f != f2 || g != g2)
                            x.fail("relative url " + target + " on " + page + ": " + href);
                    }
                }
            });
            if (x.failed) return;
            int inpage = 0;
            for (auto& q : cs) if (q.page == k) ++inpage;
            if (!x.eq("links on the page", linkcount["L"], inpage * (int)ids.size()) || !x.eq("urls on the page", linkcount["U"], inpage * 7) ||
                !x.eq("images on the page", linkcount["img"], inpage) || !x.eq("broken links", linkcount["M"], inpage)) return;
            // navigation
            std::map<std::string, std::string> want;
            if (pi) want["p"] = cs[owners[pi - 1]].file;
            if (cs[k].parent >= 0) { want["u"] = cs[cs[k].parent].file; want["h"] = home; }
            // within a single page there is no other page; a home page always starts the chain
            if (pi + 1 < owners.size()) want["n"] = cs[owners[pi + 1]].file;
            else if (o == 's' && 0) {}
            for (auto& nv : nav) {
                std::string f, g;
                if (!html::resolve(page, nv.second, f, g)) return x.fail("navigation leaves the output: " + nv.second);
                if (o == 's') { want.erase(nv.first); if (f != page) return x.fail("navigation away from the only page"); continue; }
                if (!want.count(nv.first)) return x.fail("unexpected navigation '" + nv.first + "' on " + page + " to " + f);
                if (!x.eq(("navigation '" + nv.first + "' on " + page).c_str(), f, want[nv.first]) || !x.eq("fragment", g, std::string())) return;
                want.erase(nv.first);
            }
            if (!want.empty()) return x.fail("no navigation '" + want.begin()->first + "' on " + page);
            // contents lists, in page order
            std::vector<int> with;
            for (auto& q : cs) if (q.page == k && q.type != 'S' && !q.kids.empty()) with.push_back(q.k);
            if (!x.eq("contents lists", tocs.size(), with.size())) return;
            for (size_t ti = 0; ti < tocs.size(); ++ti) {
                std::string w, got, want_plain;
                toc(with[ti], with[ti], 1, w);
                // expected order of chunks
                std::vector<int> order;
                for (size_t p = 0; (p = w.find('@', p)) != std::string::npos; ++p) order.push_back(atoi(w.c_str() + p + 1));
                for (size_t p = 0; p < w.size(); ++p) { if (w[p] == '@') { while (p + 1 < w.size() && isdigit((unsigned char)w[p + 1])) ++p; continue; } want_plain += w[p]; }
                size_t n = 0;
                std::function<void(html::Node*)> rec = [&](html::Node* u) {
                    for (auto& q : u->kids) {
                        if (q->name == "li") { got += "("; rec(q.get()); got += ")"; }
                        else if (q->name == "a") {
                            got += squeeze(q->all());
                            if (n < order.size()) follow(page, q->get("href"), order[n], "", "contents entry");
                            ++n;
                        }
                        else rec(q.get());
                    }
                };
                rec(tocs[ti]);
                if (x.failed || !x.eq("contents list", got, want_plain)) return;
            }
            if (!x.eq("stylesheets", (int)csslinks.size(), css.empty() ? 0 : 1)) return;
            if (!css.empty()) {
                std::string h = csslinks[0]->get("href"), f, g;
                if (asset == '2' ? h != css : (!html::resolve(out + "/" + page, h, f, g) || f != css)) return x.fail("stylesheet on " + page + ": " + h);
            }
            (void)nslash;
        }
        std::string st = c.substr(0, 2);
        for (auto& k : cs) st += "|" + k.file + (k.inl ? "i" : "");
        x.state(st);
        if (cs.size() > 1) x.nontrivial();
    }
};
constexpr const char* H::page_ids[6];
constexpr const char* H::page_files[6];
MC_MAIN(H)
