// Phrase markup: one document per prefix, one paragraph per way of extending it by two tokens,
// against a reference parser of the phrase syntax.
// Case: <alphabet><tokens as indices in base 36>
#include "mc.hpp"
#include "qbk.hpp"

struct Ref {
    std::string const& s;
    bool error = false, skip = false;
    static bool space(int c) { return c == ' ' || c == '\n' || c == '\t'; }
    static bool punct(int c) { return c > 32 && c < 127 && !isalnum(c); }
    static bool graph(int c) { return c > 32 && c < 127; }
    explicit Ref(std::string const& s_) : s(s_) {}
    int at(size_t i) { return i < s.size() ? (unsigned char)s[i] : -1; }
    bool lit(size_t i, const char* t) { return s.compare(i, strlen(t), t) == 0; }
    static const char* open(char m) { return m == '*' ? "<emphasis role=\"bold\">" : m == '/' ? "<emphasis>" : m == '_' ? "<emphasis role=\"underline\">" : "<literal>"; }
    static const char* close(char m) { return m == '=' ? "</literal>" : "</emphasis>"; }
    static std::string plain(char c)
    {
        return c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
    }
    static const char* macro() { return "<quote>q</quote>"; }
    size_t blank_line(size_t i) // a line end followed by an empty line
    {
        if (at(i) != '\n') return 0;
        size_t k = i + 1;
        while (at(k) == ' ' || at(k) == '\t') ++k;
        return at(k) == '\n' ? k + 1 : 0;
    }
    bool phrase_end(size_t i) { return at(i) == ']' || blank_line(i); }
    bool mark_end(size_t i, char m)
    {
        if (i && graph((unsigned char)s[i - 1]) && at(i) == m && at(i + 1) != m &&
            (i + 1 == s.size() || space(at(i + 1)) || punct(at(i + 1)))) return true;
        return stop(i);
    }
    bool stop(size_t i)
    {
        return at(i) == '[' || lit(i, "'''") || at(i) == '`' || phrase_end(i);
    }
    // comment starting at i: its end, or 0
    size_t comment(size_t i)
    {
        if (!lit(i, "[/")) return 0;
        return dummy(i + 2);
    }
    size_t dummy(size_t i) // after an opening bracket: greedy, an inner bracket that does not close is just a character
    {
        while (i < s.size() && s[i] != ']') {
            if (s[i] == '[') { if (size_t e = dummy(i + 1)) { i = e; continue; } }
            ++i;
        }
        return i < s.size() ? i + 1 : 0;
    }
    size_t blank(size_t i)
    {
        for (;;) {
            if (at(i) == ' ' || at(i) == '\t') ++i;
            else if (size_t e = comment(i)) i = e;
            else return i;
        }
    }
    size_t spaces(size_t i)
    {
        for (;;) {
            if (space(at(i))) ++i;
            else if (size_t e = comment(i)) i = e;
            else return i;
        }
    }
    bool is_macro(size_t i) { return at(i) == 'M' && !(at(i + 1) > 0 && isalpha(at(i + 1))) && at(i + 1) != '_'; }
    // one item of text; appends to out, returns the next position
    size_t common(size_t i, std::string& out)
    {
        int c = at(i);
        if (is_macro(i)) { out += macro(); return i + 1; }
        if (c == '[') {
            int m = at(i + 1);
            const char *o = 0, *e = 0;
            switch (m) {
            case '*': o = open('*'); e = close('*'); break;
            case '\'': o = open('/'); e = close('/'); break;
            case '_': o = open('_'); e = close('_'); break;
            case '^': o = open('='); e = close('='); break;
            case '-': o = "<emphasis role=\"strikethrough\">"; e = "</emphasis>"; break;
            case '"': o = "<quote>"; e = "</quote>"; break;
            case '~': o = "<replaceable>"; e = "</replaceable>"; break;
            case '?': {
                bool neg = at(i + 2) == '!';
                size_t k = blank(i + 2 + neg), b = k;
                while (k < s.size() && !space(at(k)) && !strchr("[\\]", at(k))) ++k;
                if (k == b) { error = true; return s.size(); }
                std::string in;
                bool have = s.substr(b, k - b) == "M";
                k = until_end(k, in);
                if (at(k) != ']') { error = true; return s.size(); }
                if (have != neg) out += in;
                return k + 1;
            }
            }
            if (o) {
                std::string in;
                size_t k = until_end(blank(i + 2), in);
                k = spaces(k);
                if (at(k) != ']') { error = true; return s.size(); }
                out += o + in + e;
                return k + 1;
            }
            size_t k = spaces(i + 1);
            if (lit(k, "br")) { size_t e = spaces(k + 2); if (at(e) == ']') { out += "<sbr/> "; return e + 1; } }
        }
        if (lit(i, "``")) { skip = true; return s.size(); } // code blocks belong to another check
        if (c == '`') {
            size_t k = i + 1;
            while (k < s.size() && s[k] != '`' && !blank_line(k)) ++k;
            if (at(k) == '`') {
                out += "<code>";
                for (size_t j = i + 1; j < k; ++j) out += is_macro(j) ? macro() : plain(s[j]); // macros work in code
                out += "</code>";
                return k + 1;
            }
        }
        if (c > 0 && strchr("*/_=", c)) { size_t k = simple(i, out); if (k) return k; }
        if (c == '\\') {
            if (at(i + 1) == 'n') { out += "<sbr/> "; return i + 2; }
            if (at(i + 1) == ' ') return i + 2;
            if (punct(at(i + 1))) { out += plain(s[i + 1]); return i + 2; }
            size_t n = at(i + 1) == 'u' ? 4 : at(i + 1) == 'U' ? 8 : 0;
            if (n && i + 2 + n <= s.size()) {
                bool hex = true;
                for (size_t k = 0; k < n; ++k) if (!isxdigit(at(i + 2 + k))) hex = false;
                if (hex) {
                    unsigned long v = strtoul(s.substr(i + 2, n).c_str(), 0, 16);
                    if ((v && v < 32 && v != 9 && v != 10 && v != 13) || (v >= 0xd800 && v < 0xe000) || v == 0xfffe || v == 0xffff || v > 0x10ffff) { error = true; return s.size(); }
                    char b[16];
                    snprintf(b, 16, "&#x%lx;", v);
                    if (v) out += v < 128 && v >= 32 ? plain((char)v) : b;
                    return i + 2 + n;
                }
            }
        }
        if (lit(i, "'''")) {
            size_t k = i + 3, b = blank(k);
            if (at(b) == '\n') k = b + 1;
            if (lit(b, "[/")) { skip = true; return s.size(); } // a comment that may go on in the next paragraph
            size_t e = s.find("'''", k);
            if (e == std::string::npos) { error = true; return s.size(); }
            out += "<!--quickbook-escape-prefix-->" + s.substr(k, e - k) + "<!--quickbook-escape-postfix-->";
            return e + 3;
        }
        if (size_t e = comment(i)) return e;
        if (c == '[') {
            out += '[';
            size_t k = until_end(i + 1, out);
            if (at(k) != ']') { error = true; return s.size(); }
            out += ']';
            return k + 1;
        }
        if (c == ']') { error = true; return s.size(); }
        out += plain(c);
        return i + 1;
    }
    size_t until_end(size_t i, std::string& out)
    {
        while (i < s.size() && !error && !skip && !phrase_end(i)) i = common(i, out);
        return i;
    }
    size_t simple(size_t i, std::string& out)
    {
        char m = s[i];
        if (!graph(at(i + 1) < 0 ? 0 : at(i + 1))) return 0;
        if (i) { unsigned char p = s[i - 1]; if (p == (unsigned char)m || !(space(p) || punct(p))) return 0; }
        std::string in;
        size_t k = i + 1;
        if (at(k) == 'M' && mark_end(k + 1, m)) { in = macro(); ++k; }
        else {
            if (at(k) == m) return 0;
            size_t b = k;
            while (k < s.size() && !((unsigned char)s[k - 1] != (unsigned char)m && mark_end(k, m)) && !stop(k)) in += plain(s[k++]);
            if (k == b) return 0;
        }
        if (at(k) != m) return 0;
        out += open(m) + in + close(m);
        return k + 1;
    }
};

static std::string squash(std::string const& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == '&' && i + 2 < s.size() && s[i + 1] == '#') { // the number however it is written
            size_t e = s.find(';', i);
            r += "&#" + std::to_string(s[i + 2] == 'x' ? strtoul(s.c_str() + i + 3, 0, 16) : strtoul(s.c_str() + i + 2, 0, 10)) + ";";
            if (e == std::string::npos) return r + "?";
            i = e;
        }
        else if (Ref::space(c)) { if (r.size() && r.back() != ' ') r += ' '; }
        else r += c;
    }
    while (r.size() && r.back() == ' ') r.pop_back();
    return r;
}

struct Alpha { std::vector<std::string> t; int quick, deep; };
static const std::vector<Alpha> alphas = {
    {{"*", "/", "=", "a", " ", ".", "M", "\n", "\xc3\xa9"}, 6, 7},
    {{"*", "[*", "]", "`", "a", " ", "'''", "\\", "[/", "\n", "M"}, 5, 6},
    {{"_", "=", "[^", "]", "a", " ", "_a_", "M", "[?M ", "[?!M ", "[?N "}, 5, 6},
    {{"*", "/", "_", "=", "a", " ", ".", "\n", "[*", "['", "[_", "[^", "[-", "[\"", "[~", "]", "`", "'''", "\\", "M", "[/", "<", "&", "\"", "[br]", "\\n", "\\u00e9", "\\u003c", "[", "[? M ", "[?!N x"}, 3, 4},
    {{"\\u00e9", "\\u00E9", "\\U0001f6Aa", "\\U0000003C", "\\u", "\\U", "0", "1", "f", "G", "\\\\", "\\u0000", "\\u0001", "\\ud8", "a", " ", "*", "/", "]"}, 4, 5},
};

struct H : mc::Harness {
    H() { rule = "every string of phrase tokens up to the bounds, over five alphabets (simple markup with macros, words and non-ASCII; bracketed markup, code, escapes and comments; conditionals; everything together; unicode escapes), each a paragraph of a real document compared with a reference parser; non-trivial when markup is produced or an error is due"; case_timeout = 15; }
    void enumerate(mc::Sink& s)
    {
        for (size_t a = 0; a < alphas.size(); ++a) {
            int n = thorough ? alphas[a].deep : alphas[a].quick;
            mc::pump(alphas[a].t.size(), 2, {3, 9}, [&](std::vector<size_t> const& ix) {
                if (alphas[a].t.size() > 20 && ix.size() > 3 && (thorough ? ix.size() > 9 : true)) return;
                std::string c(1, char('0' + a));
                for (size_t i : ix) c += "0123456789abcdefghijklmnopqrstuvwxyz"[i];
                s.emit(c);
            });
            for (int k = 0; k <= n - 2; ++k)
                mc::tuples(alphas[a].t.size(), k, [&](std::vector<size_t> const& ix) {
                    std::string c(1, char('0' + a));
                    for (size_t i : ix) c += "0123456789abcdefghijklmnopqrstuvwxyz"[i];
                    s.emit(c);
                });
        }
    }
    static std::string header() { return "[article T\n[quickbook 1.7]\n[source-mode teletype]\n]\n\n[def M [\"q]]\n\n"; }
    bool one(std::string const& p, mc::Ctx& x)
    {
        Ref r(p);
        std::string want;
        size_t i = 0;
        while (i < p.size() - 2 && !r.error && !r.skip) i = r.common(i, want);
        qbk::Result q = qbk::convert(header() + p);
        if (r.error) {
            if (!q.rc) x.fail("no error for [" + mc::show(p) + "]");
            if (q.written) x.fail("output written despite an error in [" + mc::show(p) + "]");
            if (qbk::error_lines(q.err).empty()) x.fail("no error position for [" + mc::show(p) + "]");
            return !x.failed;
        }
        if (q.rc) { x.fail("[" + mc::show(p) + "] rejected: " + q.err); return false; }
        size_t b = q.text.find("<para>"), e = q.text.rfind("</para>");
        std::string got = b == std::string::npos || e == std::string::npos ? "no paragraph" : squash(q.text.substr(b + 6, e - b - 6));
        if (got.size() && got[0] == ' ') got.erase(0, 1);
        if (got != squash(want)) { x.fail("[" + mc::show(p) + "]: got " + got + " want " + squash(want)); return false; }
        return true;
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        auto& al = alphas[c[0] - '0'].t;
        std::string pre;
        for (size_t k = 1; k < c.size(); ++k) pre += al[isdigit(c[k]) ? c[k] - '0' : c[k] - 'a' + 10];
        std::string doc = header();
        std::vector<std::string> ps, want, errs;
        auto add = [&](std::string const& p0) {
            std::string p = "P" + std::to_string(ps.size()) + ": " + p0 + "\n\n";
            Ref r(p);
            std::string w;
            size_t i = 0;
            // a blank line would start another paragraph
            for (size_t k = 0; k + 2 < p.size(); ++k) if (r.blank_line(k)) r.skip = true;
            while (i < p.size() - 2 && !r.error && !r.skip) i = r.common(i, w);
            if (r.skip) return;
            x.step();
            if (r.error) { errs.push_back(p); return; }
            if (w.find('<') != std::string::npos) x.nontrivial();
            ps.push_back(p);
            want.push_back(squash(w));
            doc += p;
        };
        for (auto& a : al) for (auto& b : al) add(pre + a + b);
        if (c.size() == 1) { add(pre); for (auto& a : al) add(pre + a); }
        qbk::Result q = qbk::convert(doc);
        std::vector<std::string> got;
        for (size_t b = q.text.find("<para>"); b != std::string::npos; b = q.text.find("<para>", b)) {
            size_t e = q.text.find("</para>", b);
            std::string g = squash(q.text.substr(b + 6, e - b - 6));
            if (g.size() && g[0] == ' ') g.erase(0, 1);
            got.push_back(g);
            b = e;
        }
        bool ok = !q.rc && got == want;
        if (!ok) {
            for (auto& p : ps) if (!one(p, x)) return;
            size_t k = 0;
            while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
            return x.fail("paragraphs of one document influence each other: " + q.err.substr(0, 300) + " paragraph [" + (k < ps.size() ? mc::show(ps[k]) : "") + "] gave [" + (k < got.size() ? got[k] : "nothing") + "] want [" + (k < want.size() ? want[k] : "nothing") + "]");
        }
        for (auto& p : errs) { x.nontrivial(); if (!one(p, x)) return; }
        if (ps.size()) x.state(want[0]);
    }
};
MC_MAIN(H)
