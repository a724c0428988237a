// Pretty printing: only insignificant whitespace may change.
// Case: <h|b><indent>,<width>:<letters>, each letter naming a token below.
#include "mc.hpp"
#include "post_process.hpp"
using namespace quickbook;

static const char* ESC_IN = "<!--quickbook-escape-prefix--> @x<i  a='>'/>y@ <!--quickbook-escape-postfix-->";
static const char* ESC_OUT = "@x<i  a='>'/>y@";

struct Tk { char id; const char* bb; const char* html; };
static const Tk toks[] = {
    {'P', "<para>", "<p>"}, {'p', "</para>", "</p>"},
    {'S', "<section id=\"a  b\">", "<div class=\"a  b\">"}, {'s', "</section>", "</div>"},
    {'B', "<emphasis role=\"bold\">", "<b title=\"u  v\">"}, {'b', "</emphasis>", "</b>"},
    {'a', "ab", "ab"}, {'.', "c.", "c."}, {' ', " ", " "}, {'n', "\n", "\n"}, {'w', "  \n\t ", "  \n\t "},
    {'q', "&quot;\xc3\xa9", "&quot;\xc3\xa9"},
    {'C', "<programlisting>x  y\n\n  z \nw</programlisting>", "<pre class=\"programlisting\">x  y\n\n  z \nw</pre>"},
    {'D', "<programlisting>\n<p>  q</p>\r\n    r  </programlisting>", "<pre>\n<p>  q</p>\r\n    r  </pre>"},
    {'X', "<xi:include href=\"u v\" />", "<hr class=\"u  v\" />"}, {'I', "<br/>", "<img src=\"a  b\"/>"},
    {'E', ESC_IN, ESC_IN},
    {'H', "<?xml version=\"1.0\"  e=\"x\"?>", "<?xml version=\"1.0\"  e=\"x\"?>"},
    {'M', "<!-- c  d -->", "<!-- c  d -->"},
    {'T', "<link  linkend=\"a.b\"\n  x=\"1\" >", "<a  href=\"a.b\"\n  x=\"1\" >"}, {'t', "</link>", "</a>"},
    {'L', "longword", "longword"}, {'K', "aaa bbb cc dddd e fff", "aaa bbb cc dddd e fff"},
};

struct Item { char k; std::string s; bool ws_before; bool block; size_t at; }; // k: t text, g tag, c code, e escape

static bool sp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }

static bool blockname(std::string const& n, bool html)
{
    static const char* bb[] = {"para", "section", "xi:include"};
    static const char* ht[] = {"p", "div", "hr"};
    for (int i = 0; i < 3; ++i) if (n == (html ? ht[i] : bb[i])) return true;
    return false;
}

// splits a document into significant pieces
static std::vector<Item> pieces(std::string s, bool html, bool input)
{
    std::vector<Item> r;
    size_t i = 0;
    bool ws = false;
    auto push = [&](char k, std::string const& t, bool b, size_t at) { r.push_back({k, t, ws, b, at}); ws = false; };
    std::string esc = input ? ESC_IN : ESC_OUT;
    std::string copen = html ? "<pre" : "<programlisting>", cclose = html ? "</pre>" : "</programlisting>";
    while (i < s.size()) {
        if (sp(s[i])) { ws = true; ++i; continue; }
        if (s.compare(i, esc.size(), esc) == 0) { push('e', ESC_OUT, false, i); i += esc.size(); continue; }
        if (s.compare(i, copen.size(), copen) == 0) {
            size_t e = s.find(cclose, i);
            if (e == std::string::npos) { push('?', s.substr(i), true, i); break; }
            e += cclose.size();
            std::string t, line;
            for (size_t k = i; k < e; ++k) {
                if (s[k] == '\r') continue;
                if (s[k] == '\n') { line.erase(line.find_last_not_of(' ') + 1); t += line + "\n"; line = ""; }
                else line += s[k];
            }
            push('c', t + line, true, i);
            i = e;
            continue;
        }
        if (s[i] == '<') {
            size_t e = s.compare(i, 4, "<!--") == 0 ? s.find("-->", i) + 3 : s.find('>', i) + 1;
            std::string t;
            bool str = false;
            for (size_t k = i; k < e; ++k) {
                if (s[k] == '"') str = !str;
                if (!str && sp(s[k])) { if (!t.empty() && t[t.size() - 1] != ' ') t += ' '; }
                else t += s[k];
            }
            // space before the closing bracket is insignificant
            size_t nb = i + 1 + (s[i + 1] == '/'), ne = nb;
            while (ne < s.size() && (isalnum((unsigned char)s[ne]) || s[ne] == ':')) ++ne;
            bool odd = s[i + 1] == '!' || s[i + 1] == '?';
            push('g', t, odd || blockname(s.substr(nb, ne - nb), html), i);
            if (odd) r.back().k = 'm';
            i = e;
            continue;
        }
        size_t b = i;
        while (i < s.size() && s[i] != '<' && !sp(s[i]) && s.compare(i, esc.size(), esc) != 0) ++i;
        push('t', s.substr(b, i - b), false, b);
    }
    return r;
}

struct H : mc::Harness {
    H() { rule = "every sequence of markup tokens up to the length bound, for several indents and line widths and both output dialects; non-trivial when the document is accepted and has a tag and text"; }
    void enumerate(mc::Sink& s)
    {
        std::vector<std::string> par = {"b2,80:", "h2,80:", "b2,6:", "h1,6:", "b0,4:", "b4,9:", "h0,1:"};
        std::vector<std::string> all, some = mc::chars("PpBb aKEC"), tiny = mc::chars("PpBba ");
        for (auto& t : toks) all.push_back(std::string(1, t.id));
        for (auto& p : par) {
            mc::strings(all, 0, 3, [&](std::string const& c) { s.emit(p + c); });
            mc::strings(some, 4, thorough ? 6 : p == "b2,6:" || p == "h2,80:" ? 5 : 4, [&](std::string const& c) { s.emit(p + c); });
        }
        for (auto p : {"b2,6:", "h0,4:"}) {
            if (thorough) mc::strings(tiny, 6, 8, [&](std::string const& c) { s.emit(p + c); });
            if (thorough || p[0] == 'b') mc::strings(all, 4, 4, [&](std::string const& c) { s.emit(p + c); });
            mc::strings(mc::chars("PSspa"), 4, thorough ? 9 : 7, [&](std::string const& c) { if (c.find("Pp") + 1 || c.find("Ss") + 1) s.emit(p + c); });
        }
        // long and deep: lines of every length near the width, every depth
        for (auto p : {"b2,80:", "h2,80:", "b2,40:", "h4,60:"}) {
            for (int n = 8; n < 60; n += thorough ? 1 : 2) {
                std::string l;
                for (int i = 0; i < n; ++i) l += i % 7 == 3 ? "La" : i % 5 == 2 ? " aB" : i % 5 == 4 ? "b. " : " L";
                s.emit(p + ("P" + l) + "p");
                for (auto w : {" aa", "L ", "a Tatb", " BLb", "q "}) { std::string m; for (int i = 0; i < n; ++i) m += w; s.emit(p + ("P" + m) + "p"); s.emit(p + m); s.emit(p + ("SP" + m) + "pP" + m + "ps"); }
                s.emit(p + std::string(n, 'S') + "PL a Bb Lp" + std::string(n, 's'));
                s.emit(p + std::string(n, 'S') + "PK K K" + "C" + "K Kp" + std::string(n, 's') + "PKp");
                s.emit(p + std::string(n, 'a') + " " + std::string(90 - n, 'a') + " L");
            }
            mc::pumped({"K", " ", "L", "Ba", "b", "T", "t", "."}, 3, {13, 29}, [&](std::string const& c) { s.emit(p + ("P" + c) + "p"); });
        }
        // code: every text over spaces, tabs, line ends and markup
        for (auto p : {"b2,80:~", "h2,80:~", "b4,9:~"})
            mc::strings({"x", " ", "\t", "\n", "\r\n", "\r", "<b>", "&lt;", "\""}, 0, thorough ? 6 : 5, [&](std::string const& c) { s.emit(p + c); });
        // elements within a line, whatever their name
        for (auto n : {"emphasis", "phrase", "code", "literal", "link", "ulink", "quote", "subscript", "superscript", "replaceable", "classname", "functionname", "macroname", "conceptname", "headername", "globalname", "email", "anchor", "co", "firstname", "surname", "footnote", "inlinemediaobject", "imageobject", "guilabel", "term", "title"})
            for (auto p : {"b2,80:@", "b2,6:@"}) s.emit(p + std::string(n));
        for (auto n : {"a", "b", "i", "em", "strong", "code", "tt", "span", "sub", "sup", "q", "cite", "del", "ins", "u", "s", "small", "big", "abbr", "kbd", "samp", "var", "dfn", "bdo", "label"})
            for (auto p : {"h2,80:@", "h2,6:@"}) s.emit(p + std::string(n));
        // malformed ends
        for (auto p : {"b2,80:", "h2,80:"})
            mc::strings({"a", "P", "p", "<", "</", "<p", "<!--", "<?x", " ", "C"}, 1, 4, [&](std::string const& c) { s.emit(std::string(p) + "!" + c); });
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        bool html = c[0] == 'h';
        int indent, width;
        sscanf(c.c_str() + 1, "%d,%d", &indent, &width);
        std::string l = c.substr(c.find(':') + 1), in;
        bool raw = !l.empty() && l[0] == '!';
        if (!l.empty() && l[0] == '~') {
            std::string t = l.substr(1), lines, line;
            for (size_t i = 0; (i = t.find("\n\r", i)) != std::string::npos; ++i) if (t.substr(i + 2, 1) != "\n") return; // not line ends anyone writes
            for (size_t i = 0; i < t.size(); ++i) {
                if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') ++i;
                if (t[i] == '\n' || t[i] == '\r') { line.erase(line.find_last_not_of(' ') + 1); lines += line + "\n"; line = ""; }
                else line += t[i];
            }
            std::string o = html ? "<pre class=\"a\">" : "<programlisting>", e = html ? "</pre>" : "</programlisting>", p = html ? "p" : "para";
            std::string r = post_process("<" + p + ">a</" + p + ">" + o + t + e + "<" + p + ">b</" + p + ">", indent, width, html);
            x.step();
            size_t at = r.find(o + lines + line + e + "\n");
            if (at == std::string::npos) return x.fail("code changed in " + mc::show(r));
            if (at && r[at - 1] != '\n') return x.fail("code does not start a line: " + mc::show(r));
            if (pieces(r.substr(0, at), html, false).size() != 3 || pieces(r.substr(at + o.size() + lines.size() + line.size() + e.size()), html, false).size() != 3) return x.fail("text around code changed: " + mc::show(r));
            if (t.find_first_of("\r\n\t ") != std::string::npos) x.nontrivial();
            return x.state(r);
        }
        if (!l.empty() && l[0] == '@') {
            std::string n = l.substr(1), o = "<" + n + ">", e = "</" + n + ">";
            for (std::string t : {"a" + o + "b" + e + "c", "a " + o + "b" + e + " c", "a" + o + " b " + e + "c", "aaaa" + o + "bbbbbb" + e + "cccccc" + o + e + "d"}) {
                std::string r = post_process(html ? "<p>" + t + "</p>" : "<para>" + t + "</para>", indent, width, html);
                auto a = pieces(t, html, true), b = pieces(r, html, false);
                if (b.size() != a.size() + 2) return x.fail("content changed: " + mc::show(r));
                for (size_t i = 0; i < a.size(); ++i)
                    if (a[i].s != b[i + 1].s || (i && a[i].ws_before != b[i + 1].ws_before)) return x.fail("space added or removed at an element within a line: " + mc::show(r));
                x.step();
            }
            x.nontrivial();
            return;
        }
        if (raw) {
            for (size_t i = 1; i < l.size(); ++i) {
                bool tok = false;
                if (strchr("PpCa", l[i]) && (i == 1 || l[i - 1] != '<') ) for (auto& t : toks) if (t.id == l[i]) { in += html ? t.html : t.bb; tok = true; break; }
                if (!tok) in += l[i];
            }
        }
        else
            for (char ch : l) for (auto& t : toks) if (t.id == ch) in += html ? t.html : t.bb;
        x.step(l.size());
        std::string out;
        bool rejected = false;
        try { out = post_process(in, indent, width, html); } catch (post_process_failure&) { rejected = true; }
        if (raw) {
            // anything left unterminated must be rejected; anything accepted keeps its text
            std::string t = in;
            bool bad = false;
            int depth = 0;
            for (size_t i = 0; i < t.size() && !bad;) {
                if (t[i] != '<') { ++i; continue; }
                std::string close = html ? "</pre>" : "</programlisting>", open = html ? "<pre" : "<programlisting>";
                size_t e;
                if (t.compare(i, open.size(), open) == 0 && (e = t.find(close, i)) != std::string::npos) { i = e + close.size(); continue; }
                if (t.compare(i, 4, "<!--") == 0) { e = t.find("-->", i); }
                else e = t.find('>', i);
                if (e == std::string::npos) { bad = true; break; }
                return; // not judged: bracket soup
            }
            (void)depth;
            if (bad && !rejected) x.fail("unterminated markup accepted: " + mc::show(in) + " -> " + mc::show(out));
            return;
        }
        int depth = 0;
        bool want_reject = false;
        for (char ch : l) {
            if (strchr("PSBT", ch)) ++depth;
            if (strchr("psbt", ch) && --depth < 0) { want_reject = true; break; }
        }
        if (rejected != want_reject) { x.fail(rejected ? "rejected" : "closing tag without an opening tag accepted: " + mc::show(out)); return; }
        if (rejected) { x.state("rejected"); return; }
        auto a = pieces(in, html, true), b = pieces(out, html, false);
        // closing tags are block-level when what they close is
        for (auto* v : {&a, &b}) {
            std::vector<bool> st;
            for (auto& it : *v) {
                if (it.k != 'g' || it.s.compare(it.s.size() - 2, 2, "/>") == 0) continue;
                if (it.s[1] == '/') { if (!st.empty()) { it.block = st.back(); st.pop_back(); } }
                else st.push_back(it.block);
            }
        }
        for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
            if (i >= a.size() || i >= b.size() || a[i].s != b[i].s) {
                x.fail("content changed at piece " + std::to_string(i) + ": [" + (i < a.size() ? mc::show(a[i].s) : "") + "] became [" + (i < b.size() ? mc::show(b[i].s) : "") + "] in " + mc::show(out));
                return;
            }
            if (i && !a[i].block && !a[i - 1].block && a[i].ws_before != b[i].ws_before) {
                x.fail(std::string("space ") + (b[i].ws_before ? "added" : "removed") + " before [" + mc::show(b[i].s) + "] in " + mc::show(out) + " from " + mc::show(in));
                return;
            }
        }
        // layout: block tags start a line, indented by their depth; lines are broken at the width
        bool plain = l.find_first_of("EMHCD") == std::string::npos;
        if (plain) {
            std::vector<bool> st;
            int lvl = 0;
            for (size_t i = 0; i < b.size(); ++i) {
                auto& it = b[i];
                bool self = it.k == 'g' && it.s.compare(it.s.size() - 2, 2, "/>") == 0;
                bool close = it.k == 'g' && it.s[1] == '/';
                if (close && !st.empty()) { lvl -= st.back(); st.pop_back(); }
                if (it.k == 'g' && it.block) {
                    size_t ls = it.at;
                    while (ls && out[ls - 1] == ' ') --ls;
                    if ((ls && out[ls - 1] != '\n') || (int)(it.at - ls) != lvl * indent) {
                        x.fail("block tag " + it.s + " not at the start of a line indented by " + std::to_string(lvl * indent) + ": " + mc::show(out));
                        return;
                    }
                }
                if (it.k == 'g' && !close && !self) { st.push_back(it.block); lvl += it.block; }
                // a breakable gap at or past the width must have been broken
                if (i && !b[i].block && !b[i - 1].block && b[i].ws_before && width > 0) {
                    size_t g = it.at - 1;
                    size_t ls = out.rfind('\n', g);
                    ls = ls == std::string::npos ? 0 : ls + 1;
                    size_t end = b[i].at;
                    while (end > ls && out[end - 1] == ' ') --end;
                    if (end > ls && (int)(end - ls) >= width + 1 && lvl * indent < width) { x.fail("line not broken at width " + std::to_string(width) + ": " + mc::show(out)); return; }
                }
            }
        }
        if (l.find('E') == std::string::npos) {
            std::string again;
            try { again = post_process(out, indent, width, html); } catch (post_process_failure&) { x.fail("own output rejected"); return; }
            auto c2 = pieces(again, html, false);
            for (size_t i = 0; i < b.size() || i < c2.size(); ++i)
                if (i >= b.size() || i >= c2.size() || b[i].s != c2[i].s) { x.fail("second pass changed content"); return; }
        }
        x.state(out);
        if (a.size() > 2 && depth >= 0) x.nontrivial();
    }
};
MC_MAIN(H)
