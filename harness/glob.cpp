// Glob patterns against a token-by-token reference matcher.
// Case: a pattern.  Every filename over a small alphabet is matched against it.
#include "mc.hpp"
#include "glob.hpp"
#include <set>
#include <memory>
using quickbook::string_view;

enum Kind { PLAIN, GLOB, ERR };
struct Tok { char k; std::set<char> set; bool inv; char c; }; // k: 'c' char, '?' any, '*' many, '[' set

static Kind parse(std::string const& p, std::vector<Tok>& out, bool& odd)
{
    bool g = false, ascii = true;
    odd = false;
    for (char c : p) if ((unsigned char)c >= 128 || (unsigned char)c < 32) ascii = false;
    size_t i = 0, n = p.size();
    auto esc = [&](char& c) { // at a backslash
        if (i + 1 >= n || p[i + 1] == '\\' || p[i + 1] == '/') return false;
        c = p[i + 1];
        i += 2;
        return true;
    };
    while (i < n) {
        Tok t;
        t.k = 'c'; t.inv = false; t.c = p[i];
        if (p[i] == '\\') { if (!esc(t.c)) return ERR; }
        else if (p[i] == ']') return ERR;
        else if (p[i] == '?') { t.k = '?'; g = true; ++i; }
        else if (p[i] == '*') { t.k = '*'; g = true; ++i; if (i < n && p[i] == '*') return ERR; }
        else if (p[i] == '[') {
            g = true;
            t.k = '[';
            ++i;
            if (i < n && p[i] == ']') return ERR;
            if (i < n && p[i] == '^') { t.inv = true; ++i; if (i < n && p[i] == ']') odd = true; }
            std::vector<std::pair<char, bool>> m; // char, is a bare dash
            bool closed = false;
            while (i < n && !closed) {
                char c = p[i];
                if (c == ']') { closed = true; ++i; }
                else if (c == '[' || c == '/') { odd = c == '['; return ERR; }
                else if (c == '\\') { if (!esc(c)) return ERR; m.push_back({c, false}); }
                else { m.push_back({c, c == '-'}); ++i; }
            }
            if (!closed) return ERR;
            for (size_t k = 0; k < m.size(); ++k) {
                if (k + 2 < m.size() && m[k + 1].second) {
                    for (int c = (unsigned char)m[k].first; c <= (unsigned char)m[k + 2].first; ++c) t.set.insert((char)c);
                    k += 2;
                }
                else t.set.insert(m[k].first);
            }
        }
        else ++i;
        out.push_back(t);
    }
    if (g && !ascii) return ERR;
    return g ? GLOB : PLAIN;
}

static bool m(std::vector<Tok> const& t, size_t i, std::string const& f, size_t j)
{
    if (t.size() > 8) { // by table instead
        std::vector<std::vector<char>> ok(t.size() + 1, std::vector<char>(f.size() + 1, 0));
        for (size_t a = t.size() + 1; a-- > i;)
            for (size_t b = f.size() + 1; b-- > j;) {
                if (a == t.size()) ok[a][b] = b == f.size();
                else if (t[a].k == '*') ok[a][b] = ok[a + 1][b] || (b < f.size() && ok[a][b + 1]);
                else if (b < f.size()) ok[a][b] = ok[a + 1][b + 1] && (t[a].k == 'c' ? t[a].c == f[b] : t[a].k == '[' ? (t[a].set.count(f[b]) > 0) != t[a].inv : true);
            }
        return ok[i][j];
    }
    if (i == t.size()) return j == f.size();
    if (t[i].k == '*') {
        for (size_t k = j; k <= f.size(); ++k) if (m(t, i + 1, f, k)) return true;
        return false;
    }
    if (j == f.size()) return false;
    if (t[i].k == 'c' && t[i].c != f[j]) return false;
    if (t[i].k == '[' && (t[i].set.count(f[j]) > 0) == t[i].inv) return false;
    return m(t, i + 1, f, j + 1);
}

struct H : mc::Harness {
    H() { rule = "every pattern (characters and glob tokens up to the bounds) against every file name over a 6 letter alphabet up to the bound; non-trivial when the pattern is a valid glob that matches some but not all names"; }
    std::vector<std::string> names, ext;
    void init()
    {
        mc::strings(mc::chars("abc-]"), 0, thorough ? 5 : 4, [&](std::string const& c) { names.push_back(c); });
        mc::strings(mc::chars("ab"), 5, thorough ? 9 : 8, [&](std::string const& c) { names.push_back(c); });
        mc::pumped({"a", "b"}, 3, {4, 9, 20}, [&](std::string const& c) { names.push_back(c); names.push_back(c + "b"); });
        mc::strings(mc::chars("a\xe9*\\[."), 1, 2, [&](std::string const& c) { names.push_back(c); });
    }
    void enumerate(mc::Sink& s)
    {
        mc::strings(mc::chars("ab*?[]\\-^/"), 0, thorough ? 6 : 5, [&](std::string const& c) { s.emit(c); });
        mc::strings({"a", "b", "*", "?", "[ab]", "[^a]", "[a-c]", "[b-]", "[-b]", "\\*", "\\a", "[\\]c]", "[^b-c]", "[a-\\b]", "[\\b-c]"}, 1, thorough ? 5 : 4, [&](std::string const& c) { s.emit(c); });
        mc::strings({"a", "b", "*", "?"}, 5, thorough ? 8 : 7, [&](std::string const& c) { s.emit(c); });
        mc::pumped({"a", "b", "*", "?", "[ab]", "[^a]"}, 3, {4, 7}, [&](std::string const& c) { s.emit(c); s.emit(c + "b"); });
        for (int n : {10, 40, 100, 300}) for (auto a : {"b", "bc", "a-b", "^b", "b-c"}) { std::string set = "["; set += a; for (int k = 0; k < n; ++k) set += char('b' + k % 2); s.emit(set + "]"); s.emit("a" + set + "]b*"); }
        mc::strings({"a", "\xe9", "\x01", "*", "[", "]", "\\"}, 1, 5, [&](std::string const& c) { s.emit(c); });
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        std::vector<Tok> t;
        bool odd;
        Kind want = parse(c, t, odd), got;
        // an exactly sized copy, so that reading past the end is caught
        std::unique_ptr<char[]> buf(new char[c.size()]);
        memcpy(buf.get(), c.data(), c.size());
        string_view p(buf.get(), c.size());
        try { got = quickbook::check_glob(p) ? GLOB : PLAIN; } catch (quickbook::glob_error&) { got = ERR; }
        if (got != want) { x.fail("pattern classified as " + std::to_string(got) + ", should be " + std::to_string(want) + " (0 plain, 1 glob, 2 invalid)"); return; }
        if (want == ERR) {
            x.step();
            for (char k : c) if ((unsigned char)k >= 128 || (unsigned char)k < 32) return;
            if (odd) return;
            for (auto& f : names) {
                if (f.size() > 2) continue;
                bool g = false;
                try { g = quickbook::glob(p, f); } catch (quickbook::glob_error&) {}
                if (g) { x.fail("malformed pattern \"" + mc::show(c) + "\" matches \"" + mc::show(f) + "\""); return; }
            }
            return;
        }
        // plain text of a pattern and its first special character
        std::string un;
        size_t first = std::string::npos;
        for (size_t i = 0; i < c.size(); ++i) {
            if (c[i] == '\\') { un += c[++i]; continue; }
            if (first == std::string::npos && strchr("[]?*", c[i])) first = i;
            un += c[i];
        }
        if (!x.eq("glob_unescape", quickbook::glob_unescape(p), un)) return;
        if (!x.eq("find_glob_char", quickbook::find_glob_char(p), first)) return;
        if (odd) return;
        size_t yes = 0, no = 0;
        std::string sig;
        for (auto& f : names) {
            bool w = f.empty() ? c.empty() : m(t, 0, f, 0);
            bool g = quickbook::glob(p, f);
            if (g != w) { x.fail("pattern \"" + mc::show(c) + "\" " + (g ? "matches" : "does not match") + " \"" + mc::show(f) + "\""); return; }
            ++(g ? yes : no);
            sig += g ? '1' : '0';
        }
        x.step(names.size());
        x.state(sig);
        if (yes && no && want == GLOB) x.nontrivial();
    }
};
MC_MAIN(H)
