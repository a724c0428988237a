// Reading generated XML back into a tree.   Case: the XML text.
#include "mc.hpp"
#include "xml_parse.hpp"
#include "utils.hpp"
#include <memory>
using namespace quickbook;
using namespace quickbook::detail;

// The reference reader: builds a canonical dump, or reports an error.
struct Ref {
    std::string s, out;
    size_t i = 0;
    std::vector<std::string> open;
    std::vector<std::string> names;
    bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    void skip() { while (i < s.size() && ws(s[i])) ++i; }
    bool name(std::string& n)
    {
        skip();
        size_t b = i;
        while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr(":-_.", s[i])) && s[i]) ++i;
        n = s.substr(b, i - b);
        return i > b;
    }
    bool quoted(std::string& v)
    {
        char q = s[i];
        size_t e = s.find(q, i + 1);
        if (e == std::string::npos) return false;
        v = s.substr(i + 1, e - i - 1);
        i = e + 1;
        return true;
    }
    bool decl(const char* stops, bool q)
    {
        std::string v;
        for (;;) {
            while (i < s.size() && !strchr(stops, s[i])) ++i;
            if (i >= s.size()) return false;
            if (s[i] == '"' || s[i] == '\'') { if (!quoted(v)) return false; }
            else if (q && s[i] == '?') { if (i + 1 < s.size() && s[i + 1] == '>') { i += 2; return true; } ++i; }
            else if (!q && s[i] == '>') { ++i; return true; }
            else return false;
        }
    }
    bool run()
    {
        while (i < s.size()) {
            size_t b = i;
            while (i < s.size() && s[i] != '<') ++i;
            if (i > b) out += "T{" + s.substr(b, i - b) + "}";
            if (i >= s.size()) break;
            if (++i >= s.size()) return false;
            if (s[i] == '?') { ++i; if (!decl("\"'?<>", true)) return false; }
            else if (s.compare(i, 3, "!--") == 0) { size_t e = s.find("-->", i + 3); if (e == std::string::npos) return false; i = e + 3; }
            else if (s[i] == '!') { ++i; if (!decl("\"'<>", false)) return false; }
            else if (s[i] == '/') {
                ++i;
                std::string n;
                if (!name(n)) return false;
                skip();
                if (i >= s.size() || s[i] != '>') return false;
                ++i;
                if (open.empty() || open.back() != n) return false;
                open.pop_back();
                out += ")";
            }
            else {
                std::string n;
                if (!name(n)) return false;
                std::vector<std::pair<std::string, std::string>> at;
                bool empty = false;
                for (;;) {
                    skip();
                    if (i >= s.size()) return false;
                    if (s[i] == '>') { ++i; break; }
                    if (s[i] == '/') { ++i; skip(); if (i >= s.size() || s[i] != '>') return false; ++i; empty = true; break; }
                    std::string a, v;
                    if (!name(a)) return false;
                    skip();
                    if (i >= s.size()) return false;
                    if (s[i] == '=') { ++i; skip(); if (i >= s.size() || (s[i] != '"' && s[i] != '\'') || !quoted(v)) return false; }
                    v = decode_string(v);
                    if (std::find(names.begin(), names.end(), a) == names.end()) names.push_back(a);
                    bool found = false;
                    for (auto& q : at) if (q.first == a) { q.second = v; found = true; }
                    if (!found) at.push_back({a, v});
                }
                out += "E" + n;
                for (auto& q : at) out += "[" + q.first + "=" + q.second + "]";
                out += "(";
                if (empty) out += ")"; else open.push_back(n);
            }
        }
        while (!open.empty()) { out += ")"; open.pop_back(); } // left open at the end: closed there
        return true;
    }
};

static void dump(xml_element* n, std::vector<std::string> const& attrs, std::string& o, mc::Ctx& x, xml_element* parent)
{
    xml_element* prev = 0;
    for (; n; prev = n, n = n->next()) {
        if (n->prev() != prev || n->parent() != parent) x.fail("tree links are inconsistent");
        if (n->type_ == xml_element::element_text) { o += "T{" + n->contents_ + "}"; continue; }
        o += "E" + n->name_;
        for (auto& a : attrs) if (n->has_attribute(a)) o += "[" + a + "=" + n->get_attribute(a).to_s() + "]";
        o += "(";
        dump(n->children(), attrs, o, x, n);
        o += ")";
    }
}

struct H : mc::Harness {
    H() { rule = "every sequence of XML tokens up to the length bound and every truncation of a realistic document; compared with a reference reader; non-trivial when accepted with at least one element"; }
    std::vector<std::string> attrs = {"id", "b-c", "x:href", "d2", "e_f", "g.h"};
    void enumerate(mc::Sink& s)
    {
        std::vector<std::string> big = {"<a>", "</a>", "<b id=\"1\">", "</b>", "<a/>", "t", " ", "<!--x-->", "<?x y?>", "<!D \"e>\">", "&amp;", "<sect1 d2='v'>", "</sect1>", "<x:inc x:href=\"a.b\" b-c='&lt;\"'/>", "< a >", "</ a\n>"};
        std::vector<std::string> small = {"<", ">", "/", "a", " ", "=", "\"", "'", "!", "-", "?", "id"};
        mc::strings(big, 0, thorough ? 5 : 4, [&](std::string const& c) { s.emit(c); });
        mc::strings(small, 1, thorough ? 6 : 5, [&](std::string const& c) { s.emit(c); });
        mc::strings({" ", "id", "=", "\"v&quot;\"", "'w'", "/", ">", "e_f", "g.h", "d2"}, 1, thorough ? 7 : 5, [&](std::string const& c) { s.emit("<a" + c); s.emit("<a id='0'" + c + "t</a>"); });
        mc::strings({"-", "<", ">", "x", "\""}, 0, thorough ? 7 : 6, [&](std::string const& c) { s.emit("<!--" + c); s.emit("<?" + c + "?>y"); s.emit("<!" + c + ">y"); });
        mc::strings({"<a>", "</a>", "<b>", "</b>", "t"}, 5, thorough ? 8 : 7, [&](std::string const& c) { s.emit(c); });
        for (int n : {5, 9, 16, 17, 33, 64, 100, 256, 300}) {
            std::string many, nest, end, at;
            for (auto w : {"a", "&amp;", "&#65;", "<a/>", "<b id=\"1\">x</b>", "<!--x-->", " ", "\n", "<a>"}) {
                many = "";
                for (int i = 0; i < n; ++i) many += w;
                s.emit(many); s.emit("<a>" + many + "</a>t"); s.emit("<b id=\"" + many + "\">x</b>");
            }
            for (int i = 0; i < n; ++i) { nest += i % 3 ? "<a>" : "<b id='1'>t"; end = std::string(i % 3 ? "</a>" : "</b>") + (i % 2 ? "u" : "") + end; }
            s.emit(nest + end); s.emit(nest); s.emit(nest + end + "</a>");
            std::string l(n, 'n');
            s.emit("<" + l + "/>"); s.emit("<" + l + ">t</" + l + ">"); s.emit("<" + l + "></" + l + "n>"); s.emit("<a" + std::string(n, ' ') + "id='v'" + std::string(n, '\n') + "/>");
            s.emit("<!--" + std::string(n, '-') + "x-->t"); s.emit("<?" + l + "?>t"); s.emit("<a e_f='" + l + "' g.h=\"" + l + "\" id='" + l + "'>" + l + "</a>");
        }
        std::string doc = "<?xml version=\"1.0\"?>\n<!DOCTYPE article PUBLIC \"-//B//DTD\" \"u>\">\n<article id=\"a\" x:href='1'>\n <title>T &amp; <b>x</b></title><!-- <c> --><para>p<br/>q</para>\n</article>\n";
        for (size_t i = 0; i <= doc.size(); ++i) {
            s.emit(doc.substr(0, i));
            for (auto ins : {"<", ">", "\"", "'", "/", "</b>", "<q>"}) s.emit(doc.substr(0, i) + ins + doc.substr(i));
            if (i < doc.size()) s.emit(doc.substr(0, i) + doc.substr(i + 1));
        }
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        Ref r;
        r.s = c;
        bool ok = r.run();
        std::unique_ptr<char[]> buf(new char[c.size()]);
        memcpy(buf.get(), c.data(), c.size());
        string_view v(buf.get(), c.size());
        bool got = true;
        std::string o;
        x.step(c.size());
        try {
            xml_tree t = xml_parse(v);
            std::vector<std::string> ns = attrs;
            for (auto& n : r.names) if (std::find(ns.begin(), ns.end(), n) == ns.end()) ns.push_back(n);
            dump(t.root(), ns, o, x, 0);
        } catch (xml_parse_error& e) {
            got = false;
            if (e.pos < v.begin() || e.pos > v.end()) x.fail("error position outside the text");
        }
        if (got != ok) { x.fail(got ? "malformed document accepted as " + o : "well formed document rejected, should be " + r.out); return; }
        if (!ok) { x.state("rejected"); return; }
        // attributes are dumped in a fixed order on both sides
        std::string w = r.out;
        auto norm = [](std::string s) {
            std::string o2;
            for (size_t i = 0; i < s.size();) {
                if (s[i] == '[') {
                    std::vector<std::string> v;
                    while (i < s.size() && s[i] == '[') { size_t e = s.find(']', i); v.push_back(s.substr(i, e - i + 1)); i = e + 1; }
                    std::sort(v.begin(), v.end());
                    for (auto& q : v) o2 += q;
                }
                else o2 += s[i++];
            }
            return o2;
        };
        if (!x.eq("tree", norm(o), norm(w))) return;
        x.state(o);
        if (o.find('E') != std::string::npos) x.nontrivial();
    }
};
MC_MAIN(H)
