// Code: highlighting keeps the text and classifies tokens (C), source modes apply where they should (M).
// Case: C<c|p|t><tokens>, extended by every two tokens; M<version><items>, extended by every item; K: keywords
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

typedef std::vector<std::pair<std::string, std::string>> Spans; // role ("" for plain) and text
static void add(Spans& s, std::string const& role, std::string const& text)
{
    if (text.empty()) return;
    if (role.empty() && s.size() && s.back().first.empty()) s.back().second += text;
    else s.push_back({role, text});
}
static std::string show(Spans const& s)
{
    std::string r;
    for (auto& p : s) r += "(" + p.first + ":" + mc::show(p.second) + ")";
    return r;
}

static const char* ctoks[] = {"int", "x", "MM", "1", "0x1F", " ", "\n", "+", "//", "/*", "*/", "\"", "'", "\\", "#", "``[*e]``", "\xc3\xa9", "<", "&;", "class", "_", "/", "*", "1.5e3f", "@"};
static const char* ptoks[] = {"def", "x", "MM", "1j", "0x1F", " ", "\n", "+", "#", "\"", "'", "'''", "\"\"\"", "\\", "``[*e]``", "\xc3\xa9", "<", "&", "None", "_", "?", "$"};
static const int NC = sizeof ctoks / sizeof *ctoks, NPY = sizeof ptoks / sizeof *ptoks;
static const char* cppkw[] = {"alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch", "char", "char16_t", "char32_t", "class", "compl", "const", "constexpr", "const_cast", "continue", "decltype", "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept", "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register", "reinterpret_cast", "return", "short", "signed", "sizeof", "static", "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union", "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq"};
static const char* pykw[] = {"and", "as", "assert", "break", "class", "continue", "def", "del", "elif", "else", "except", "exec", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "not", "or", "pass", "print", "raise", "return", "try", "while", "yield", "None"};

static bool letter(char c) { return isalpha((unsigned char)c) || c == '_'; }
static bool word(char c) { return isalnum((unsigned char)c) || c == '_'; }
static const std::string ESC = "``[*e]``";

// the text between a and its end: the position after the closing mark, or npos
static size_t quoted(std::string const& s, size_t i, std::string const& q)
{
    if (s.compare(i, q.size(), q)) return std::string::npos;
    for (i += q.size(); i < s.size();) {
        if (s.compare(i, q.size(), q) == 0) return i + q.size();
        if (s[i] == '\\') { ++i; if (i >= s.size()) break; while (++i < s.size() && (s[i] & 0xc0) == 0x80) {} }
        else ++i;
    }
    return std::string::npos;
}
static std::string escaped(std::string const& s) // text with escapes replaced
{
    std::string r;
    for (size_t i = 0; i < s.size();)
        if (s.compare(i, ESC.size(), ESC) == 0) { r += "e"; i += ESC.size(); }
        else r += s[i++];
    return r;
}
static bool macro(std::string const& s, size_t i) { return s.compare(i, 2, "MM") == 0 && !(i + 2 < s.size() && letter(s[i + 2])); }

static size_t number(std::string const& s, size_t i, const char* suffix)
{
    size_t b = i;
    if (s[i] == '0' && i + 2 < s.size() && tolower(s[i + 1]) == 'x' && isxdigit((unsigned char)s[i + 2])) { i += 2; while (i < s.size() && isxdigit((unsigned char)s[i])) ++i; }
    else {
        while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
        if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; }
        if (i < s.size() && tolower(s[i]) == 'e') {
            size_t k = i + 1;
            if (k < s.size() && (s[k] == '+' || s[k] == '-')) ++k;
            if (k < s.size() && isdigit((unsigned char)s[k])) { while (k < s.size() && isdigit((unsigned char)s[k])) ++k; i = k; }
        }
    }
    if (i > b) while (i < s.size() && strchr(suffix, tolower((unsigned char)s[i]))) ++i;
    return i;
}

static Spans lex(std::string const& s, char mode)
{
    Spans r;
    bool start = true;
    const char* special = mode == 'c' ? "~!%^&*()+={[}]:;,<.>?/|\\#-" : "~!%^&*()+={[}]:;,<.>/|\\-";
    for (size_t i = 0; i < s.size();) {
        size_t j = i;
        if (isspace((unsigned char)s[i])) {
            while (j < s.size() && isspace((unsigned char)s[j])) { if (s[j] == '\n') start = true; ++j; }
            add(r, "", s.substr(i, j - i));
            i = j;
            continue;
        }
        bool first = start;
        start = false;
        if (mode == 'c' && first && s[i] == '#') {
            ++j;
            while (j < s.size() && isspace((unsigned char)s[j])) ++j;
            if (j < s.size() && letter(s[j])) {
                while (j < s.size() && word(s[j])) ++j;
                add(r, "preprocessor", s.substr(i, j - i));
                i = j;
                continue;
            }
            j = i;
        }
        if (macro(s, i)) { add(r, "", "mmm"); i += 2; continue; }
        if (s.compare(i, ESC.size(), ESC) == 0) { add(r, "", "e"); i += ESC.size(); continue; }
        if (mode == 't') { add(r, "", s.substr(i++, 1)); continue; }
        if (mode == 'c' ? s.compare(i, 2, "//") == 0 : s[i] == '#') {
            j = std::min(s.size(), s.find('\n', i));
            add(r, "comment", escaped(s.substr(i, j - i)));
        }
        else if (mode == 'c' && s.compare(i, 2, "/*") == 0) {
            j = s.find("*/", i + 2);
            j = j == std::string::npos ? s.size() : j + 2;
            add(r, "comment", escaped(s.substr(i, j - i)));
        }
        else if (letter(s[i])) {
            while (j < s.size() && word(s[j])) ++j;
            std::string w = s.substr(i, j - i);
            bool kw = false;
            if (mode == 'c') for (auto k : cppkw) kw = kw || w == k;
            else for (auto k : pykw) kw = kw || w == k;
            add(r, kw ? "keyword" : "identifier", w);
        }
        else if (strchr(special, s[i])) {
            while (j < s.size() && strchr(special, s[j]) && !(mode == 'c' && (s.compare(j, 2, "//") == 0 || s.compare(j, 2, "/*") == 0))) ++j;
            add(r, "special", s.substr(i, j - i));
        }
        else if (isdigit((unsigned char)s[i])) {
            j = number(s, i, mode == 'c' ? "ldfu" : "lj");
            add(r, "number", s.substr(i, j - i));
        }
        else {
            size_t e = std::string::npos;
            std::string q(1, s[i]);
            if (s[i] == '"' || s[i] == '\'') {
                if (mode == 'p') e = quoted(s, i, q + q + q);
                if (e == std::string::npos) e = quoted(s, i, q);
            }
            if (e != std::string::npos) { j = e; add(r, mode == 'c' && s[i] == '\'' ? "char" : "string", s.substr(i, j - i)); }
            else {
                ++j;
                while (j < s.size() && (s[j] & 0xc0) == 0x80) ++j;
                add(r, "error", s.substr(i, j - i));
            }
        }
        i = j;
    }
    return r;
}

static void spans(html::Node* n, std::string const& role, Spans& out)
{
    if (n->name.empty()) { if (n->text.size()) { if (role.size() && out.size() && out.back().first == "*" + role) out.back().second += n->text; else add(out, role.empty() ? "" : "*" + role, n->text); } return; }
    std::string r = n->name == "phrase" && n->attr("role") ? n->get("role") : role;
    for (auto& k : n->kids) spans(k.get(), r, out);
    if (n->name == "phrase") for (auto& p : out) if (p.first[0] == '*') p.first.erase(0, 1);
}

// ---- source modes
static const char* items[] = {
    "[c++]", "[python]", "[teletype]", "w `int def`", "```\nint def\n```", "[!python]\n```\nint def\n```", "[!teletype] `int def` `int def`",
    "[!python]\nw `int def` `int def`", "[!python][table [[`int def`][[c++]`int def`]]]", "[note [python] `int def`]", "[t]", "[t [python]`int def`]", "[include G.qbk]",
    "[!teletype]\n[section s]", "[section s]", "[endsect]", "[b]", "* [!python] `int def`\n* `int def`", "[import I.qbk]", "w\n\n    int def\n\nw", "[?__nothing__ [python]]"};
static const int NI = sizeof items / sizeof *items;

struct H : mc::Harness {
    H() { rule = "every C++, Python and plain code text of up to N tokens (words, numbers, quotes, comments, escapes, macros, operators), in blocks and in line, each piece of the output compared with a reference lexer; every sequence of up to N source mode changes and uses compared with a reference scope; non-trivial when highlighted"; case_timeout = 20; }
    static std::vector<std::string> toks(char m)
    {
        if (m == 'c') return std::vector<std::string>(ctoks, ctoks + NC);
        return std::vector<std::string>(ptoks, ptoks + NPY);
    }
    void enumerate(mc::Sink& s)
    {
        s.emit("Kc");
        s.emit("Kp");
        for (char m : {'c', 'p', 't'})
            for (int k = 0; k <= (m == 't' ? 1 : 2); ++k)
                mc::tuples(toks(m).size(), k, [&](std::vector<size_t> const& ix) { std::string c{'C', m}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
        for (char m : {'c', 'p'})
            mc::pump(toks(m).size(), 2, {3, 8}, [&](std::vector<size_t> const& ix) {
                if (ix.size() > 8 || (!thorough && ix.size() == 6 && (ix[0] + ix[1]) % 5)) return;
                std::string c{'C', m};
                for (size_t i : ix) c += char('a' + i);
                s.emit(c);
            });
        mc::pump(NI, 2, {3}, [&](std::vector<size_t> const& ix) { std::string c{'M', '7'}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
        if (thorough)
            for (char m : {'c', 'p'})
                mc::tuples(toks(m).size(), 3, [&](std::vector<size_t> const& ix) { if (m == 'p' && (ix[0] + ix[1] + ix[2]) % 2) return; std::string c{'C', m}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
        for (char v : {'7', '6', '5'})
            for (int k = 0; k <= (thorough ? 4 : 3); ++k)
                mc::tuples(v == '7' ? NI : NI, k, [&](std::vector<size_t> const& ix) {
                    if (v != '7' && k > 2) return;
                    std::string c{'M', v};
                    for (size_t i : ix) c += char('a' + i);
                    s.emit(c);
                });
    }
    static bool usable(std::string const& t, char m)
    {
        if (t.find("```") != std::string::npos || t.find("/*<") != std::string::npos || (m == 'p' && t.find("#<") != std::string::npos)) return false;
        // a directive's name on another line than its #
        for (size_t i = 0; i < t.size(); ++i)
            if (t[i] == '#') { size_t j = i + 1; while (j < t.size() && isspace((unsigned char)t[j])) ++j; if (t.substr(i, j - i).find('\n') != std::string::npos) return false; }
        return true;
    }
    void run(std::vector<std::string> const& texts, char m, bool block, mc::Ctx& x, bool retry = true)
    {
        std::string doc = std::string("[article D\n[quickbook 1.7]\n[source-mode ") + (m == 'c' ? "c++" : m == 'p' ? "python" : "teletype") + "]\n]\n[def MM mmm]\n\n";
        for (auto& t : texts) doc += block ? "```\nQ\n" + t + "\nQ\n```\n\n" : "w `Q " + t + " Q`\n\n";
        qbk::Result q = qbk::convert(doc);
        std::string err;
        if (q.rc) {
            if (texts.size() == 1) return x.fail("rejected " + mc::show(doc) + ": " + q.err);
            for (auto& t : texts) { run({t}, m, block, x); if (x.failed) return; }
            return x.fail("rejected together only: " + q.err);
        }
        auto tree = html::parse(q.text, err, false);
        if (!tree) return x.fail("ill-formed: " + err);
        size_t n = 0;
        tree->walk([&](html::Node* k) {
            if (k->name != (block ? "programlisting" : "code") || x.failed) return;
            if (n >= texts.size()) return x.fail("too much code in " + mc::show(doc));
            Spans got, want;
            spans(k, "", got);
            std::string src = block ? "Q\n" + texts[n] + "\nQ" : "Q " + texts[n] + " Q";
            want = lex(src, m);
            // trailing newlines of a block are layout
            auto trim = [](Spans& s) { while (s.size()) { std::string& t = s.back().second; while (t.size() && t.back() == '\n') t.pop_back(); if (t.size()) break; s.pop_back(); } };
            if (block) { trim(got); trim(want); }
            x.step(want.size());
            if (got != want) x.fail("code " + mc::show(src) + " is written " + show(got) + " instead of " + show(want));
            ++n;
        });
        if (!x.failed && n != texts.size()) {
            if (texts.size() > 1) for (auto& t : texts) { run({t}, m, block, x); if (x.failed) return; }
            x.fail("code lost: " + std::to_string(n) + " of " + std::to_string(texts.size()) + " in " + mc::show(doc));
        }
        x.nontrivial();
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        char m = c[1];
        std::vector<std::string> texts, lines;
        if (c[0] == 'M') return modes(c, x);
        auto put = [&](std::string const& t) {
            if (!usable(t, m)) return;
            texts.push_back(t);
            if (t.find('\n') == std::string::npos && t.find('`') == std::string::npos) lines.push_back(t);
        };
        if (c[0] == 'K') {
            for (auto k : cppkw) for (const char* p : {"", "x", "_", "1"}) { put(std::string(k) + p); put("x" + std::string(k) + p); put(std::string(k) + "+"); }
            for (auto k : pykw) for (const char* p : {"", "x", "_", "1"}) { put(std::string(k) + p); put("x" + std::string(k) + p); put(std::string(k) + "+"); }
            for (const char* k : {"0", "00", "07", "0xFFFFFFFFFFFFFFFFFF", "0X1fUL", "123456789012345678901234567890", "1.5", "1.5e-10", "1e5f", "077777777777777777777777", "1.", "1u", "3L"}) { put(k); put(k + std::string("+")); put("+" + std::string(k)); }
        }
        else {
            auto t = toks(m);
            std::string pre;
            for (size_t k = 2; k < c.size(); ++k) pre += t[c[k] - 'a'];
            for (auto& a : t) for (auto& b : t) put(pre + a + b);
        }
        run(texts, m, true, x);
        if (!x.failed) run(lines, m, false, x);
        x.state(c);
    }
    void modes(const std::string& c, mc::Ctx& x);
};

struct Modes {
    struct M { char m; int order; };
    M base{'c', 0};
    int order = 0;
    std::vector<M> sections, tags;
    std::string out;
    M now() const
    {
        M r = base;
        if (sections.size() && sections.back().order > r.order) r = sections.back();
        for (auto& t : tags) if (t.order > r.order) r = t;
        return r;
    }
    void code() { out += now().m; }
    void set(char m) { base = M{m, ++order}; }
    void tag(char m) { tags.push_back(M{m, ++order}); }
    void untag() { tags.pop_back(); }
};
void H::modes(const std::string& c, mc::Ctx& x)
{
    static const char* GT = "w `int def`\n\n[python]\nw `int def`\n\n[teletype]\n\nw `int def`\n";
    static const char* IT = "[python]\n`int def`\n";
    static std::string at;
    if (at != qbk::dir()) { at = qbk::dir(); qbk::spit(at + "/G.qbk", GT); qbk::spit(at + "/I.qbk", IT); }
    char v = c[1];
    for (int a = 0; a < NI; ++a) {
        std::string seq = c.substr(2) + char('a' + a), doc = std::string("[article D\n[quickbook 1.") + v + "]\n]\n[template t[] [python]`int def`]\n[template u[x] [teletype][x]`int def`]\n[template b[]\nw `int def`\n\n[teletype]\n\nw `int def`\n]\n\n";
        Modes r;
        bool ok = true;
        for (char k : seq) {
            std::string it = items[k - 'a'];
            if (v < '7' && (it.find("[!") != std::string::npos || it.find("```") == 0 || k == 'm' + 0)) { if (k != 'm') ok = false; }
            if (v < '6' && (it.find("[import") == 0 || it.find("```") == 0)) ok = false;
            if (it == "[t [python]`int def`]") it = "[u [python]`int def`]";
            switch (k) {
            case 'a': r.set('c'); break;
            case 'b': r.set('p'); break;
            case 'c': r.set('t'); break;
            case 'd': case 'e': case 't': r.code(); break;
            case 'f': r.tag('p'); r.code(); r.untag(); break;
            case 'g': r.tag('t'); r.code(); r.untag(); r.code(); break;
            case 'h': r.tag('p'); r.code(); r.code(); r.untag(); break;
            case 'i': r.tag('p'); r.code(); r.set('c'); r.code(); r.untag(); break;
            case 'j': r.set('p'); r.code(); break;
            case 'k': { auto b = r.base; r.set('p'); r.code(); r.base = b; break; }
            case 'l': { auto b = r.base; r.set('t'); auto b2 = r.base; r.set('p'); r.code(); r.base = b2; r.code(); r.base = b; break; }
            case 'm': { auto b = r.base; r.code(); r.set('p'); r.code(); r.set('t'); r.code(); if (v >= '6') r.base = b; break; }
            case 'n': r.tag('t'); r.sections.push_back(r.now()); r.untag(); break;
            case 'o': r.sections.push_back(r.now()); break;
            case 'p': if (r.sections.empty()) ok = false; else r.sections.pop_back(); break;
            case 'q': { auto b = r.base; r.code(); r.set('t'); r.code(); r.base = b; break; }
            case 'r': r.tag('p'); r.code(); r.untag(); r.code(); break;
            case 's': case 'u': break;
            }
            if (!ok) break;
            doc += it + "\n\n";
        }
        if (!ok) continue;
        doc += "w `int def`\n";
        r.code();
        x.step();
        qbk::Result q = qbk::convert(doc);
        if (q.rc) return x.fail("rejected " + mc::show(doc) + ": " + q.err);
        std::string err, got;
        auto tree = html::parse(q.text, err, false);
        if (!tree) return x.fail("ill-formed: " + err);
        tree->walk([&](html::Node* k) {
            if (k->name != "programlisting" && k->name != "code") return;
            Spans s;
            spans(k, "", s);
            std::string kw;
            for (auto& p : s) if (p.first == "keyword") kw += p.second;
            got += kw == "int" ? 'c' : kw == "def" ? 'p' : kw.empty() && k->all().find("int def") != std::string::npos ? 't' : '?';
        });
        if (got != r.out) return x.fail(mc::show(doc) + ": code is highlighted as " + got + " instead of " + r.out);
        x.state(got);
        x.nontrivial();
    }
}
MC_MAIN(H)
