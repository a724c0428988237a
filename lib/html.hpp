// A strict reader for generated HTML/XML, used by oracles only.
#ifndef VERIF_HTML_HPP
#define VERIF_HTML_HPP
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace html {
struct Node {
    std::string name; // "" for text
    std::string text; // decoded
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<std::unique_ptr<Node>> kids;
    Node* up = 0;
    const std::string* attr(const std::string& n) const
    {
        for (auto& a : attrs) if (a.first == n) return &a.second;
        return 0;
    }
    std::string get(const std::string& n) const { auto a = attr(n); return a ? *a : ""; }
    std::string all() const
    {
        if (name.empty()) return text;
        std::string r;
        for (auto& k : kids) r += k->all();
        return r;
    }
    template <class F> void walk(F f)
    {
        f(this);
        for (auto& k : kids) k->walk(f);
    }
};

inline std::string decode(const std::string& s, bool* bad = 0)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '&') { r += s[i]; continue; }
        size_t e = s.find(';', i);
        std::string n = e == std::string::npos ? "" : s.substr(i + 1, e - i - 1);
        if (n == "lt") r += '<';
        else if (n == "gt") r += '>';
        else if (n == "amp") r += '&';
        else if (n == "quot") r += '"';
        else if (n == "apos") r += '\'';
        else if (n.size() > 1 && n[0] == '#') {
            char* end = 0;
            unsigned long u = n[1] == 'x' ? strtoul(n.c_str() + 2, &end, 16) : strtoul(n.c_str() + 1, &end, 10);
            if (*end || u > 0x10ffff || (u < 32 && u != 9 && u != 10 && u != 13) || (u >= 0xd800 && u < 0xe000) || u == 0xfffe || u == 0xffff) { if (bad) *bad = true; r += '&'; continue; }
            if (u < 0x80) r += (char)u;
            else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); }
            else if (u < 0x10000) { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
            else { r += (char)(0xf0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
        }
        else {
            bool ok = !n.empty() && n.size() < 12;
            for (char c : n) if (!isalnum((unsigned char)c) && c != '#') ok = false;
            if (!ok) { if (bad) *bad = true; r += '&'; continue; }
            r += "&" + n + ";";
        }
        i = e;
    }
    return r;
}

struct Parser {
    const std::string& s;
    bool voids;
    std::string err;
    size_t i = 0;
    Parser(const std::string& s_, bool v) : s(s_), voids(v) {}
    static bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
    static bool namec(char c) { return isalnum((unsigned char)c) || c == ':' || c == '-' || c == '_' || c == '.'; }
    std::unique_ptr<Node> fail(const std::string& m)
    {
        err = m + " at offset " + std::to_string(i) + ": " + s.substr(i > 30 ? i - 30 : 0, 80);
        return nullptr;
    }
    std::unique_ptr<Node> run()
    {
        std::unique_ptr<Node> root(new Node);
        root->name = "#root";
        Node* cur = root.get();
        while (i < s.size()) {
            if (s[i] != '<') {
                size_t e = s.find('<', i);
                if (e == std::string::npos) e = s.size();
                std::string t = s.substr(i, e - i);
                if (t.find('>') != std::string::npos && !voids) {} // '>' is legal in XML text
                bool bad = false;
                std::unique_ptr<Node> n(new Node);
                n->text = decode(t, &bad);
                if (bad) return fail("bad entity in text '" + t.substr(0, 60) + "'");
                n->up = cur;
                cur->kids.push_back(std::move(n));
                i = e;
                continue;
            }
            if (s.compare(i, 4, "<!--") == 0) {
                size_t e = s.find("-->", i + 4);
                if (e == std::string::npos) return fail("unclosed comment");
                i = e + 3;
                continue;
            }
            if (s[i + 1] == '?' || s[i + 1] == '!') {
                size_t e = s.find('>', i);
                if (e == std::string::npos) return fail("unclosed declaration");
                i = e + 1;
                continue;
            }
            if (s[i + 1] == '/') {
                size_t b = i + 2, e = b;
                while (e < s.size() && namec(s[e])) ++e;
                std::string n = s.substr(b, e - b);
                while (e < s.size() && space(s[e])) ++e;
                if (e >= s.size() || s[e] != '>') return fail("bad end tag");
                if (cur->name != n) return fail("end tag '" + n + "' closes '" + cur->name + "'");
                cur = cur->up;
                i = e + 1;
                continue;
            }
            size_t b = i + 1, e = b;
            while (e < s.size() && namec(s[e])) ++e;
            if (e == b) return fail("bad tag");
            std::unique_ptr<Node> n(new Node);
            n->name = s.substr(b, e - b);
            n->up = cur;
            bool empty = false;
            for (;;) {
                size_t sp = e;
                while (e < s.size() && space(s[e])) ++e;
                if (e >= s.size()) return fail("unclosed tag");
                if (s[e] == '>') { ++e; break; }
                if (s[e] == '/' && e + 1 < s.size() && s[e + 1] == '>') { e += 2; empty = true; break; }
                if (sp == e) return fail("no space before attribute");
                size_t a = e;
                while (e < s.size() && namec(s[e])) ++e;
                if (e == a || e + 1 >= s.size() || s[e] != '=' || (s[e + 1] != '"' && s[e + 1] != '\'')) return fail("bad attribute");
                std::string an = s.substr(a, e - a);
                size_t q = s.find(s[e + 1], e + 2);
                if (q == std::string::npos) return fail("unclosed attribute");
                std::string v = s.substr(e + 2, q - e - 2);
                bool bad = false;
                if (v.find('<') != std::string::npos) return fail("'<' in attribute");
                for (auto& k : n->attrs) if (k.first == an) return fail("attribute twice: " + an);
                n->attrs.push_back({an, decode(v, &bad)});
                if (bad) return fail("bad entity in attribute '" + v + "'");
                e = q + 1;
            }
            i = e;
            Node* p = n.get();
            cur->kids.push_back(std::move(n));
            if (!empty && !(voids && (p->name == "img" || p->name == "br" || p->name == "hr" || p->name == "link"))) cur = p;
        }
        if (cur != root.get()) return fail("'" + cur->name + "' is never closed");
        return root;
    }
};

inline std::unique_ptr<Node> parse(const std::string& s, std::string& err, bool voids = true)
{
    Parser p(s, voids);
    auto r = p.run();
    err = p.err;
    return r;
}

// Resolve a relative URL against the page it is on. "dir/page.html" + "../x#f" -> {"x","f"}
inline bool resolve(const std::string& page, const std::string& href, std::string& file, std::string& frag)
{
    std::string h = href;
    frag.clear();
    size_t k = h.find('#');
    if (k != std::string::npos) { frag = h.substr(k + 1); h = h.substr(0, k); }
    if (h.empty()) { file = page; return true; }
    std::vector<std::string> parts;
    auto add = [&](const std::string& p) {
        size_t a = 0;
        for (;;) {
            size_t b = p.find('/', a);
            std::string c = p.substr(a, b == std::string::npos ? b : b - a);
            if (c == "..") { if (parts.empty()) return false; parts.pop_back(); }
            else if (!c.empty() && c != ".") parts.push_back(c);
            if (b == std::string::npos) return true;
            a = b + 1;
        }
    };
    size_t sl = page.rfind('/');
    if (h[0] != '/' && sl != std::string::npos && !add(page.substr(0, sl))) return false;
    if (!add(h)) return false;
    file.clear();
    for (auto& p : parts) { if (!file.empty()) file += '/'; file += p; }
    if (page[0] == '/' || h[0] == '/') file = "/" + file;
    return true;
}
} // namespace html
#endif
