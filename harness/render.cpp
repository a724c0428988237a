// HTML rendering: every BoostBook construct becomes its HTML counterpart and no text is lost.
// Case: s:<forest> as the title of a section, listed in the contents    m:<spec> images
//       g:<forest>  general elements, preorder with parentheses, one letter per element ('.' = text)
//       t:<spec> tables     v:<spec> variable lists     i:<spec> document information   x:<text> text
#include "mc.hpp"
#include "html.hpp"
#include "bb2html.hpp"
#include <boost/filesystem.hpp>
using namespace quickbook;

struct El { const char* name; const char* attrs; const char* tag; const char* hattrs; const char* inner; };
// the correspondence between BoostBook and HTML
static const El els[] = {
    {"para", "", "p", "", ""}, {"para", " role='r1'", "p", " class='r1'", ""}, {"simpara", "", "div", "", ""},
    {"emphasis", "", "span", " class='emphasis'", "em"}, {"emphasis", " role='bold'", "span", " class='bold'", "strong"},
    {"emphasis", " role='strong'", "span", " class='strong'", "strong"}, {"emphasis", " role='underline'", "span", " class='underline'", ""},
    {"phrase", " role='keyword'", "span", " class='keyword'", ""}, {"phrase", "", "span", "", ""},
    {"orderedlist", "", "ol", "", ""}, {"itemizedlist", "", "ul", "", ""}, {"listitem", "", "li", "", ""},
    {"blockquote", "", "blockquote", "", ""}, {"quote", "", "q", "", ""}, {"code", "", "code", "", ""}, {"classname", "", "code", "", ""},
    {"programlisting", "", "pre", " class='programlisting'", ""}, {"literal", "", "tt", "", ""}, {"subscript", "", "sub", "", ""},
    {"superscript", "", "sup", "", ""}, {"anchor", "", "span", "", ""}, {"warning", "", "div", " class='warning'", ""},
    {"caution", "", "div", " class='caution'", ""}, {"important", "", "div", " class='important'", ""}, {"note", "", "div", " class='note'", ""},
    {"tip", "", "div", " class='tip'", ""}, {"replaceable", "", "em", " class='replaceable'", ""},
    {"sidebar", "", "div", " class='sidebar'", ""}, {"sidebar", " role='blurb'", "div", " class='blurb'", ""}, {"sbr", "", "br", "", ""},
    {"bridgehead", " renderas='sect1'", "h1", "", ""}, {"bridgehead", " renderas='sect4'", "h4", "", ""}, {"bridgehead", " renderas='sect6'", "h6", "", ""},
    {"bridgehead", "", "h3", "", ""}, {"bridgehead", " renderas='sect9'", "h3", "", ""},
    {"ulink", " url='http://a.b/'", "a", " href='http://a.b/'", ""}, {"link", " linkend='d'", "a", " href='#'", ""}, {"mystery", "", "", "", ""},
    {"footnote-like", "", "", "", ""},
};
static const int nel = sizeof(els) / sizeof(els[0]) - 1;

static std::string dump(html::Node* n, bool top = true)
{
    if (n->name.empty()) return n->text;
    std::string r;
    if (!top) {
        std::vector<std::string> a;
        for (auto& k : n->attrs) a.push_back(" " + k.first + "='" + k.second + "'");
        std::sort(a.begin(), a.end());
        r += "<" + n->name;
        for (auto& k : a) r += k;
        r += ">";
    }
    for (auto& k : n->kids) r += dump(k.get(), false);
    if (!top) r += "</" + n->name + ">";
    return r;
}

struct H : mc::Harness {
    std::string file;
    H() { rule = "every forest of up to N BoostBook elements, every table/list/doc-info shape and every text over an entity alphabet, rendered and compared with a reference rendering; non-trivial when an element is rendered"; }
    void init() { file = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/r"; }
    static char letter(int i) { return i < 26 ? 'A' + i : 'a' + (i - 26); }
    static int index(char c) { return c <= 'Z' ? c - 'A' : c - 'a' + 26; }
    void enumerate(mc::Sink& s)
    {
        std::vector<std::vector<std::string>> forest(1, std::vector<std::string>(1, ""));
        std::string all = ".", few = ".ADJLQRXde";
        for (int i = 0; i < nel; ++i) all += letter(i);
        auto grow = [&](int m, std::string const& types) {
            forest.resize(m + 1);
            for (int first = 1; first <= m; ++first)
                for (auto& kids : forest[first - 1])
                    for (auto& rest : forest[m - first])
                        for (char t : types) { if ((t == '.' || t == 'd') && !kids.empty()) continue; // text and line breaks have no content
                            forest[m].push_back(std::string(1, t) + (kids.empty() ? "" : "(" + kids + ")") + rest); }
        };
        grow(1, all);
        grow(2, all);
        if (thorough) grow(3, all);
        for (auto& f : forest) for (auto& t : f) for (char id : {'0', '1'}) { s.emit(std::string("g") + id + t); s.emit(std::string("s") + id + t); }
        // many and deep: every pair of elements repeated or nested
        for (int i = -1; i < nel; ++i) for (int j = -1; j < nel; ++j) {
            char a = i < 0 ? '.' : letter(i), b = j < 0 ? '.' : letter(j);
            if (a == 'd' || b == 'd' || a == '.') continue;
            for (int n : {6, 14}) {
                std::string wide, deep, end;
                for (int k = 0; k < n; ++k) wide += k % 2 ? b : a, deep += std::string(1, k % 2 && b != '.' ? b : a) + "(", end += ")";
                s.emit("g1" + wide);
                s.emit("g1" + deep + ".." + end);
                if (n == 6) s.emit("s1" + std::string(1, a) + "(" + wide + ")" + b);
            }
        }
        for (auto kind : {"T", "I"}) for (int n : {9, 12, 30}) for (auto a : {"g", "tg"}) for (auto g : {"hb", "b", "bh"}) {
            s.emit(std::string("t") + kind + a + ";" + g + ";" + std::string(n, '2'));
            s.emit(std::string("t") + kind + a + ";" + g + ";" + std::string(n, '9') + "1");
        }
        mc::pumped({"tl|", "t|", "ttl|", "l|"}, 3, {4, 10}, [&](std::string const& v) { s.emit("v" + v); });
        for (int y = 1; y <= 14; ++y) for (int h = 0; h <= 12; ++h) s.emit("y" + std::to_string(y) + "," + std::to_string(h));
        mc::strings({"f", "s", "S", "O", "3", "a", "r", "c", "e", "k", "L"}, 1, 4, [&](std::string const& v) { s.emit("i" + v); });
        mc::pumped({"a", "p", "e", "c", "L", "k", "2", "o"}, 3, {4, 11}, [&](std::string const& v) { s.emit("i" + v); });
        mc::pumped({"a", "&amp;", "&lt;", "&quot;", " ", "\xc3\xa9", "&#160;"}, 3, {10, 100, 1000}, [&](std::string const& v) { s.emit("x" + v); });
        forest.resize(1);
        for (int m = 1; m <= (thorough ? 5 : 4); ++m) grow(m, few);
        for (size_t m = 3; m < forest.size(); ++m) for (auto& t : forest[m]) { s.emit("g1" + t); if (m == 3) s.emit("s1" + t); }
        // images: pictures with and without file, texts with the role alt and others
        mc::strings({"f", "n", "q", "A", "B", "C", "E", "r", "d", "x"}, 0, thorough ? 4 : 3, [&](std::string const& v) { s.emit("m0" + v); s.emit("m1" + v); });
        // tables: element order in the table, in the group, rows x columns
        for (auto kind : {"T", "I"})
            mc::strings({"t", "g", "x"}, 0, 3, [&](std::string const& a) {
                mc::strings({"h", "b"}, 0, 2, [&](std::string const& g) {
                    for (auto rows : {"", "0", "1", "2", "11", "12", "x1", "1x2"}) s.emit(std::string("t") + kind + a + ";" + g + ";" + rows);
                });
            });
        mc::strings({"tl|", "lt|", "t|", "l|", "T|", "ttl|", "tll|", "|"}, 0, thorough ? 4 : 3, [&](std::string const& v) { s.emit("v" + v); });
        mc::strings({"a", "p", "e", "c", "g(", ")", "o", "r", "L", "y", "k", "2", "z"}, 0, thorough ? 5 : 4, [&](std::string const& v) {
            int d = 0;
            for (char c : v) { if (c == '(') ++d; if (c == ')' && --d < 0) return; if (d > 1) return; }
            if (!d) s.emit("i" + v);
        });
        mc::strings({"a", "&amp;", "&lt;", "&gt;", "&quot;", " ", "'", "\xc3\xa9", "&#160;", "\n"}, 0, thorough ? 5 : 4, [&](std::string const& v) { s.emit("x" + v); });
    }
    int n;
    bool bare = false; // no ids, as in the contents
    // reference: source in src, expected in exp
    void gen(const std::string& c, size_t& i, bool ids, std::string& src, std::string& exp)
    {
        while (i < c.size() && c[i] != ')') {
            char k = c[i++];
            if (k == '.') { std::string t = "w" + std::to_string(n++) + " &lt;"; src += t; exp += t.substr(0, t.size() - 4) + "<"; continue; }
            const El& e = els[index(k)];
            std::string id = ids ? "i" + std::to_string(n++) : "", s2, e2;
            bool kids = i < c.size() && c[i] == '(';
            if (kids) { ++i; gen(c, i, ids, s2, e2); ++i; }
            src += std::string("<") + e.name + e.attrs + (ids ? " id='" + id + "'" : "") + ">" + s2 + "</" + e.name + ">";
            if (!*e.tag) { exp += e2; continue; }
            std::vector<std::string> a;
            if (*e.hattrs) a.push_back(e.hattrs);
            if (ids && !bare) a.push_back(" id='" + id + "'");
            std::sort(a.begin(), a.end());
            exp += std::string("<") + e.tag;
            for (auto& q : a) exp += q;
            exp += std::string(">") + (*e.inner ? std::string("<") + e.inner + ">" : "") + e2 + (*e.inner ? std::string("</") + e.inner + ">" : "") + "</" + e.tag + ">";
        }
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        n = 0;
        std::string src, exp, info, expinfo;
        if (c[0] == 'g') { size_t i = 2; gen(c, i, c[1] == '1', src, exp); }
        else if (c[0] == 's') { // the title is shown twice, the contents entry has no ids
            size_t i = 2;
            std::string plain, ignored;
            gen(c, i, c[1] == '1', src, exp);
            n = 0, i = 2;
            bare = true;
            gen(c, i, c[1] == '1', ignored, plain);
            bare = false;
            src = "<section id='s'><title>" + src + "</title><para>p</para></section>";
            exp = "<div class='toc'><p><b>Table of contents</b></p><ul><li><a href='#s'>" + plain + "</a></li></ul></div><div id='s'><h3>" + exp + "</h3><p>p</p></div>";
        }
        else if (c[0] == 'm') {
            std::string file, alt, id = c[1] == '1' ? " id='im'" : "";
            src = "<para>a<inlinemediaobject" + id + ">";
            for (char k : c.substr(2)) {
                std::string f = "dir/i" + std::to_string(n++) + ".png";
                switch (k) {
                case 'f': src += "<imageobject><imagedata width='2' fileref='" + f + "'/></imageobject>"; file = f; break;
                case 'n': src += "<imageobject><imagedata width='2'/></imageobject>"; break;
                case 'q': src += "<imageobject role='x'>\n<objectinfo/>\n<imagedata fileref='" + f + "' align='left'></imagedata></imageobject>"; file = f; break;
                case 'A': src += "<textobject><phrase role='alt'>One " + f + "</phrase></textobject>"; alt = "One " + f; break;
                case 'B': src += "<textobject>\n<phrase role='alt'>x&amp;&lt;y</phrase></textobject>"; alt = "x&<y"; break;
                case 'E': src += "<textobject><phrase role='alt'>p<emphasis>q &gt;</emphasis>r</phrase></textobject>"; alt = "pq >r"; break;
                case 'C': src += "<textobject><phrase role='alt'></phrase></textobject>"; alt = ""; break;
                case 'r': src += "<textobject><phrase role='other'>O</phrase></textobject>"; break;
                case 'd': src += "<textobject><para role='alt'>O</para></textobject>"; break;
                case 'x': src += "<phrase role='alt'>O</phrase>"; break;
                }
            }
            src += "</inlinemediaobject>b</para>";
            if (alt.empty()) alt = "[]";
            exp = "<p>a" + (file.empty() ? "" : "<span class='inlinemediaobject'><img alt='" + alt + "'" + id + " src='" + file + "'></img></span>") + "b</p>";
            if (std::count_if(c.begin() + 2, c.end(), [](char k) { return k == 'f' || k == 'q'; }) > 1 ||
                std::count_if(c.begin() + 2, c.end(), [](char k) { return k == 'A' || k == 'B' || k == 'C' || k == 'E'; }) > 1) return;
        }
        else if (c[0] == 'x') {
            src = "<para>" + c.substr(1) + "</para><phrase role=\"" + c.substr(1) + "\">q</phrase>";
            std::string d = html::decode(c.substr(1));
            exp = "<p>" + d + "</p><span" + (d.empty() ? "" : " class='" + d + "'") + ">q</span>";
        }
        else if (c[0] == 't') {
            auto p = mc::split(c.substr(2), ';');
            p.resize(3);
            std::string name = c[1] == 'T' ? "table" : "informaltable";
            auto rows = [&](const std::string& cell, std::string& s, std::string& e) {
                int r = 0;
                for (char k : p[2]) {
                    if (k == 'x') { s += "<other>lost</other>"; continue; }
                    std::string rn = cell + std::to_string(r++);
                    s += "<row id='" + rn + "'>";
                    e += "<tr id='" + rn + "'>";
                    for (int q = 0; q < k - '0'; ++q) {
                        std::string w = rn + "c" + std::to_string(q);
                        s += "<entry id='" + w + "'><para>" + w + "</para></entry>";
                        e += "<" + cell + " id='" + w + "'><p>" + w + "</p></" + cell + ">";
                    }
                    s += "</row>";
                    e += "</tr>";
                }
            };
            std::string title, th, tb;
            bool group = false;
            src = "<" + name + " id='tab'>";
            for (char k : p[0]) {
                if (k == 't') { std::string w = "cap" + std::to_string(n++); src += "<title>" + w + "</title>"; title = "<caption>" + w + "</caption>"; }
                else if (k == 'x') src += " \n";
                else {
                    group = true;
                    th = tb = "";
                    src += "<tgroup cols='2'>";
                    for (char q : p[1]) {
                        std::string s, e;
                        rows(q == 'h' ? "th" : "td", s, e);
                        src += (q == 'h' ? "<thead>" : "<tbody>") + s + (q == 'h' ? "</thead>" : "</tbody>");
                        (q == 'h' ? th : tb) = (q == 'h' ? "<thead>" : "<tbody>") + e + (q == 'h' ? "</thead>" : "</tbody>");
                    }
                    src += "</tgroup>";
                }
            }
            // the same rows are generated for repeated groups, keep ids unique
            if (std::count(p[0].begin(), p[0].end(), 'g') > 1 || std::count(p[0].begin(), p[0].end(), 't') > 1 ||
                std::count(p[1].begin(), p[1].end(), 'h') > 1 || std::count(p[1].begin(), p[1].end(), 'b') > 1) return;
            src += "</" + name + ">";
            if (group) exp = "<div class='" + name + "' id='tab'><table>" + title + th + tb + "</table></div>";
        }
        else if (c[0] == 'v') {
            src = "<variablelist id='vl'><title>never shown</title>";
            for (auto& e : mc::split(c.substr(1), '|')) {
                if (&e == 0) continue;
                if (e == "T") { src += " <title>again</title> "; continue; }
                src += "<varlistentry>";
                std::string term, item;
                int nt = 0, nl = 0;
                for (char k : e) {
                    std::string w = std::string(k == 't' ? "term" : "item") + std::to_string(n++);
                    if (k == 't') { src += "<term id='" + w + "'>" + w + "</term>"; term = "<dt id='" + w + "'>" + w + "</dt>"; ++nt; }
                    else { src += "<listitem><para>" + w + "</para></listitem>"; item = "<dd><p>" + w + "</p></dd>"; ++nl; }
                }
                src += "</varlistentry>";
                if (nt > 1 || nl > 1) return; // several terms share one description in DocBook: not produced by quickbook
                if (nt && nl) exp += term + item;
            }
            src += "</variablelist>";
            if (!exp.empty()) exp = "<dl id='vl'>" + exp + "</dl>";
        }
        else if (c[0] == 'y') { // years x holders
            int y, h;
            sscanf(c.c_str() + 1, "%d,%d", &y, &h);
            std::string t;
            info = "<copyright>";
            for (int k = 0; k < y; ++k) { info += "<year>" + std::to_string(1990 + k) + "</year>"; t += (k ? ", " : "") + std::to_string(1990 + k); }
            for (int k = 0; k < h; ++k) { info += "<holder>H" + std::to_string(k) + "</holder>"; t += (k ? ", H" : " H") + std::to_string(k); }
            info = "<articleinfo>" + info + "</copyright></articleinfo>";
            expinfo = "<p class='copyright'>" + t + "</p>";
        }
        else if (c[0] == 'i') {
            std::string authors, editors, collabs, copy, legal;
            int k = 0;
            for (char q : c.substr(1)) {
                std::string w = std::to_string(k++);
                switch (q) {
                case 'a': info += "<author><firstname>F" + w + "</firstname><surname>S" + w + "</surname></author>"; authors += "<h3 class='author'>F" + w + " S" + w + "</h3>"; break;
                case 'p': info += "<author><personname><surname>S" + w + "</surname><honorific>H" + w + "</honorific></personname></author>"; authors += "<h3 class='author'>H" + w + " S" + w + "</h3>"; break;
                case 'e': info += "<editor><firstname>F" + w + "</firstname></editor>"; editors += "<h3 class='editor'>F" + w + "</h3>"; break;
                case 'c': info += "<collab><collabname>C" + w + "</collabname></collab>"; collabs += "<h3 class='collab'>C" + w + "</h3>"; break;
                case 'g': info += "<authorgroup>"; break;
                case ')': info += "</authorgroup>"; break;
                case 'o': info += "<othercredit class='translator'><firstname>O" + w + "</firstname></othercredit>"; authors += "<h3 class='author'>translator: O" + w + "</h3>"; break;
                case 'r': info += "<corpauthor>R" + w + "</corpauthor>"; authors += "<h3 class='author'>R" + w + "</h3>"; break;
                case 'L': info += "<legalnotice><para>L" + w + "</para></legalnotice>"; legal += "<div class='legalnotice'><p>L" + w + "</p></div>"; break;
                case 'y': info += "<copyright><year>1" + w + "</year></copyright>"; copy += "<p class='copyright'>1" + w + "</p>"; break;
                case 'k': info += "<copyright><year>1" + w + "</year><holder>K" + w + "</holder></copyright>"; copy += "<p class='copyright'>1" + w + " K" + w + "</p>"; break;
                case '2': info += "<copyright><year>1" + w + "</year><year>2" + w + "</year><holder>K" + w + "</holder><holder>J" + w + "</holder></copyright>"; copy += "<p class='copyright'>1" + w + ", 2" + w + " K" + w + ", J" + w + "</p>"; break;
                case 'f': info += "<author><surname>S" + w + "</surname> <honorific>H<emphasis role='x'>&amp;</emphasis></honorific><firstname>F" + w + "</firstname></author>"; authors += "<h3 class='author'>H<span class='x'>&</span> F" + w + " S" + w + "</h3>"; break;
                case 's': info += "<corpcredit class='s" + w + "'>Q" + w + "</corpcredit>"; authors += "<h3 class='author'>s" + w + ": Q" + w + "</h3>"; break;
                case 'S': info += "<corpcredit>Q" + w + "</corpcredit>"; authors += "<h3 class='author'>Q" + w + "</h3>"; break;
                case 'O': info += "<othercredit><firstname>O" + w + "</firstname></othercredit>"; authors += "<h3 class='author'>O" + w + "</h3>"; break;
                case '3': info += "<copyright> <year>1" + w + "</year>\n<year>2" + w + "</year><year>3" + w + "</year> <holder>K<emphasis role='y'>&lt;</emphasis></holder><holder>J" + w + "</holder><holder>I" + w + "</holder></copyright>"; copy += "<p class='copyright'>1" + w + ", 2" + w + ", 3" + w + " K<span class='y'><</span>, J" + w + ", I" + w + "</p>"; break;
                case 'z': info += "<releaseinfo><legalnotice>N" + w + "</legalnotice></releaseinfo>"; legal += "<div class='legalnotice'>N" + w + "</div>"; break;
                }
            }
            info = "<articleinfo>" + info + "</articleinfo>";
            if (!(authors + editors + collabs).empty()) expinfo = "<div class='authorgroup'>\n" + authors + editors + collabs + "</div>\n";
            expinfo += copy + legal;
            std::string e2; // newlines are printed after each heading
            for (size_t a = 0; a < expinfo.size();) { if (expinfo.compare(a, 5, "</h3>") == 0) { e2 += "</h3>\n"; a += 5; } else e2 += expinfo[a++]; }
            expinfo = e2;
        }
        std::string doc = "<?xml version=\"1.0\"?>\n<article id='d'><title>T</title>" + info + src + "</article>";
        std::string f = file + std::to_string(getpid());
        detail::html_options op;
        op.chunked_output = false;
        op.pretty_print = false;
        op.home_path = f;
        x.step(doc.size());
        int rc = detail::boostbook_to_html(doc, op);
        std::string got = mc::Driver::readfile(f), err;
        unlink(f.c_str());
        if (rc) return x.fail("conversion failed");
        auto t = html::parse(got, err);
        if (!t) return x.fail("malformed html: " + err + " in " + got);
        html::Node* body = 0;
        t->walk([&](html::Node* k) { if (k->name == "body") body = k; });
        if (!body) return x.fail("no body");
        if (got.compare(0, 15, "<!DOCTYPE html>") != 0) return x.fail("no doctype");
        std::string d = dump(body);
        if (c[0] == 's') { // whether the section's content has an element of its own is not looked at
            std::string two = "<div id='s'><p>p</p></div></div>";
            if (d.size() > two.size() && d.compare(d.size() - two.size(), two.size(), two) == 0) d.replace(d.size() - two.size(), two.size(), "<p>p</p></div>");
        }
        if (!x.eq("html", d, "<h3>T</h3>" + expinfo + exp)) return;
        x.state(d);
        if (!exp.empty() || !expinfo.empty()) x.nontrivial();
    }
};
MC_MAIN(H)
