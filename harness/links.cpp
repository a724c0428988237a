// Links, references, roles and anchors.
// Case L: <version 4 5 6 7><kind><target tokens>|<content tokens>     Case A: a<version><anchor kind>|<constructs>
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

struct T { const char *text, *value; char from, to; }; // versions in which it can be used
static const T target[] = {{"a", "a", '4', '7'}, {"B9", "B9", '4', '7'}, {".", ".", '4', '7'}, {"-_", "-_", '4', '7'}, {"/", "/", '4', '7'}, {":", ":", '4', '7'}, {"&", "&", '4', '7'}, {"\"", "\"", '4', '7'},
                           {"<", "<", '4', '7'}, {"%", "%", '4', '7'}, {"4f", "4f", '4', '7'}, {"#", "#", '4', '7'}, {"\xc3\xa9", "\xc3\xa9", '4', '7'}, {"$", "$", '4', '7'}, {"'", "'", '4', '7'}, {"^`|{};,(", "^`|{};,(", '4', '7'},
                           {"?=+~*!", "?=+~*!", '4', '7'}, {"\\[", "[", '6', '7'}, {"\\]", "]", '6', '7'}, {"\\ ", "", '6', '7'}, {"\\\\", "\\", '6', '7'}, {"\\u00e9", "\xc3\xa9", '6', '7'}, {"\\U0000004d", "M", '6', '7'},
                           {"[t]", "T k", '7', '7'}, {"[u x y]", "x y>.", '7', '7'}, {"[e]", "", '7', '7'}, {"__m__", "__m__", '4', '7'}, {">", ">", '4', '7'}};
static const T content[] = {{"c", "c", '4', '7'}, {" ", " ", '4', '7'}, {"[*b]", "<emphasis role=bold>b</emphasis>", '4', '7'}, {"\\]", "]", '4', '7'}, {"[@n m]", "<ulink url=n>m</ulink>", '4', '7'}, {"[classref q]", "<classname alt=q>q</classname>", '4', '7'},
                            {"&", "&", '4', '7'}, {"\n", "\n", '4', '7'}, {"__m__.", "<emphasis>M</emphasis>.", '4', '7'}, {"[t]", "T k", '4', '7'}, {"[/z]", "", '4', '7'}, {"'''<i/>'''", "<i></i>", '4', '7'}, {"[role r p]", "<phrase role=r>p</phrase>", '6', '7'}, {"[link i]", "<link linkend=i>i</link>", '4', '7'}};
struct K { const char *text, *elem, *attr; };
static const K kinds[] = {{"@", "ulink", "url"}, {"link ", "link", "linkend"}, {"funcref ", "functionname", "alt"}, {"classref ", "classname", "alt"}, {"memberref ", "methodname", "alt"}, {"enumref ", "enumname", "alt"}, {"macroref ", "macroname", "alt"},
                          {"headerref ", "headername", "alt"}, {"conceptref ", "conceptname", "alt"}, {"globalref ", "globalname", "alt"}, {"role ", "phrase", "role"}, {"#", "anchor", "id"}, {"@ ", "ulink", "url"}, {"link\n", "link", "linkend"}};
static const char* seps[] = {" ", "\n", "  ", "[/z]", " [/z]\n"};
// anchors: Z stands for an anchor, W for a word
struct C { const char* text; char from; };
static const C cons[] = {{"W", '4'}, {"Z", '4'}, {"\n\n", '4'}, {"[*ZWZ]", '4'}, {"\n\n[heading WZW]\n\n", '4'}, {"\n\n* WZW\n* ZW\n\n", '4'}, {"\n\n[table WZ[[WZ][ZW]][[W][Z]]]\n\n", '6'}, {"\n\n[note WZ\n\nZW]\n\n", '4'},
                         {"[@u ZW]", '4'}, {"~`W`~", '4'}, {"\n\n  W\n\n", '4'}, {"[footnote WZW]", '4'}, {"[q WZ]", '5'}, {"[r WZW]", '5'}, {"[p WZ]", '5'}, {"[?__m__ WZW]", '4'}, {"[?__n__ [#q]x]", '4'}, {"\n\n----\n\n", '4'}, {"[@u]", '4'},
                         {"\n\n[variablelist W[[WZ][ZW]]]\n\n", '6'}, {"\n\n[:WZW]\n\n", '4'}, {"[role r WZW]", '6'}, {"\n\n[section WZW]\n\nZW\n\n[endsect]\n\n", '4'}, {"[$i.png]", '4'}, {"'''<i/>'''", '4'}, {"\n\nZ\n\n", '4'}, {"\n\n[h2 ZWZ]\n\n", '4'}, {"__m__", '4'}, {"Z[/z]Z", '4'}, {"~Z~ [\"WZ]", '4'},
                         {"\n\n[note W\n\nZ]\n\n", '4'}, {"\n\n[table [[W\n\nZ]][[Z]]]\n\n", '6'}, {"[link l ZW]", '4'}, {"\n\n* Z\n  # WZ\n\n", '4'}};
template <class A, size_t N> static constexpr size_t len(A (&)[N]) { return N; }
static const size_t NT = len(target), NC = len(content), NK = len(kinds), NS = len(seps), NA = len(cons);

static std::string ser(html::Node* n)
{
    if (n->name.empty()) return n->text;
    std::string r, a;
    for (auto& k : n->kids) r += ser(k.get());
    for (auto& k : n->attrs) a += " " + k.first + "=" + k.second;
    return "<" + n->name + a + ">" + r + "</" + n->name + ">";
}
static std::string url(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        bool ok = c < 128 && (isalnum(c) || strchr("-_.!~*'()?\\/:&=#+", c)), pc = c == '%' && i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2]);
        char b[4];
        snprintf(b, 4, "%%%02x", c);
        r += ok || pc ? std::string(1, c) : std::string(b);
    }
    return r;
}

struct H : mc::Harness {
    H() { rule = "every link, reference, role and anchor whose target consists of up to N tokens, with content of up to M, in four versions, and every sequence of constructs holding anchors; the element or error given is compared with the reference, the anchors with their place; non-trivial with an escape, special character or anchor"; }
    void enumerate(mc::Sink& s)
    {
        for (char v : {'7', '6', '5', '4'}) {
            auto use = [&](T const& t) { return t.from <= v && v <= t.to; };
            auto gen = [&](char k, int n, bool all, const char* more, bool deep) {
                mc::tuples(NT, n, [&](std::vector<size_t> const& ix) {
                    std::string p;
                    for (size_t i : ix) { if (!use(target[i])) return; p += char('A' + i); }
                    if (p.find("OOO") != p.npos) return; // the boostbook escape
                    for (size_t q = 0; n && q < (all ? NS : 1); ++q) s.emit(std::string(1, v) + k + char('0' + q) + p + "|" + more);
                    if (n < 2 || (n == 2 && deep)) s.emit(std::string(1, v) + k + "0" + p + "|");
                });
            };
            for (size_t k = 0; k < NK; ++k) {
                char kc = 'a' + k;
                if (v < '6' && k == 10) continue;
                bool deep = k == 0 || k == 1 || k == 3 || k == 11;
                for (int n = 0; n <= (thorough ? 4 : v == '7' ? 3 : 2); ++n) {
                    if (n > 2 && !deep) continue;
                    if (n == 4 && v != '7') continue;
                    gen(kc, n, n == 1, "a", deep);
                }
                if (k == 11) continue;
                for (int n = 1; n <= (thorough ? 4 : v == '7' ? 3 : 2); ++n) {
                    if (n > 2 && !deep) continue;
                    mc::tuples(NC, n, [&](std::vector<size_t> const& ix) {
                        std::string p;
                        for (size_t i : ix) { if (!use(content[i])) return; p += char('a' + i); }
                        if (p.find("hh") == p.npos && p.find("hbh") == p.npos) s.emit(std::string(1, v) + kc + "0A|" + p); // not the end of the paragraph
                    });
                }
            }
            // long ones
            for (size_t k = 0; k < NK; ++k) {
                if (v < '6' && k == 10) continue;
                mc::pump(NT, thorough && v == '7' ? 2 : 1, {5, 33}, [&](std::vector<size_t> const& ix) {
                    std::string p;
                    for (size_t i : ix) { if (!use(target[i])) return; p += char('A' + i); }
                    if (p.find("OOO") != p.npos) return;
                    s.emit(std::string(1, v) + char('a' + k) + "0" + p + "|a");
                });
                if (k != 11) mc::pump(NC, thorough && v == '7' ? 2 : 1, {5, 33}, [&](std::vector<size_t> const& ix) {
                    std::string p;
                    for (size_t i : ix) { if (!use(content[i])) return; p += char('a' + i); }
                    if (p.find("hh") == p.npos && p.find("hbh") == p.npos) s.emit(std::string(1, v) + char('a' + k) + "0A|" + p);
                });
            }
            auto anchors = [&](std::vector<size_t> const& ix) {
                std::string p;
                for (size_t i : ix) { if (cons[i].from > v) return; p += char('A' + i); }
                size_t f = p.find_first_of("Fb"), k = f == p.npos ? f : p.find_first_not_of("CQFb", f);
                if (k != p.npos && p[k] == 'K') return; // a paragraph of the list
                s.emit(std::string("a") + v + "|" + p);
            };
            mc::pump(NA, 2, {3, 9}, anchors);
            for (int n = 1; n <= (thorough ? 4 : 3); ++n) {
                if (n == 4 && v != '7') continue;
                mc::tuples(NA, n, [&](std::vector<size_t> const& ix) {
                    std::string p;
                    for (size_t i : ix) { if (cons[i].from > v) return; p += char('A' + i); }
                    size_t f = p.find_first_of("Fb"), k = f == p.npos ? f : p.find_first_not_of("CQFb", f);
                    if (k != p.npos && p[k] == 'K') return; // a paragraph of the list
                    s.emit(std::string("a") + v + "|" + p);
                });
            }
        }
    }
    static qbk::Result run(char v, std::string const& body)
    {
        return qbk::convert(std::string("[article D\n[quickbook 1.") + v + "]\n[id d]\n]\n\n[def __m__ ['M]]\n[template t[]T k]\n[template u[x] [x]>.]\n[template e[]]\n[template q[x] [x]]\n[template r[x][*[x]]]\n[template p[x]\n[x]\n]\n\n" + body + "\n");
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'a') return anchors(c, x);
        char v = c[0];
        const K& k = kinds[c[1] - 'a'];
        size_t bar = c.find('|');
        std::string src = std::string("[") + k.text, dst, txt, want;
        bool role = k.attr == std::string("role"), anchor = k.elem == std::string("anchor"), link = k.elem == std::string("link"), is_url = k.elem == std::string("ulink");
        bool any = bar > 3, syntax = false, special = false;
        for (size_t i = 3; i < bar; ++i) {
            const T& t = target[c[i] - 'A'];
            src += t.text;
            dst += t.value;
            special = special || !isalnum((unsigned char)t.text[0]);
        }
        std::string sep = seps[c[2] - '0'];
        if (v < '7' && sep[0] == '[') { return; } // the bracket of the comment belongs to the target
        if (bar + 1 < c.size()) {
            if (!anchor) {
                src += sep;
                for (size_t i = bar + 1; i < c.size(); ++i) { src += content[c[i] - 'a'].text; txt += content[c[i] - 'a'].value; }
            }
        }
        src += "]";
        // roles before 1.7 and what follows a name
        if (role && v < '7' && bar == 3) return;
        if (role && v < '7') for (char ch : src.substr(6, bar > 3 ? src.find_first_of(" \n]", 6) - 6 : 0)) if (!isalnum((unsigned char)ch) && ch != '_') { return; }
        if (v < '6' && src.find("]", 0) != src.size() - 1 && bar == 3) { return; }
        if (!any && (v >= '7' || role)) syntax = true;
        bool empty = any ? dst.empty() : !syntax, bad = false;
        if (link || anchor) {
            bad = !dst.empty() && dst[0] == '$';
            if (v >= '7') for (char ch : dst) if (!isalnum((unsigned char)ch) && !strchr("_.-", ch)) bad = true;
        }
        x.step();
        qbk::Result r = run(v, "x" + src + "y");
        auto said = [&](const char* s) { return r.err.find(s) != r.err.npos; };
        if (syntax || empty || bad) {
            x.nontrivial();
            x.state("error");
            const char* msg = syntax ? "Syntax Error" : empty ? "Empty attribute value" : "Invalid id: ";
            if (!r.rc) return x.fail(mc::show(src) + " accepted, but: " + msg);
            if (!said(msg)) return x.fail(mc::show(src) + " says " + mc::show(r.err) + " instead of: " + msg);
            if (!syntax && qbk::error_lines(r.err).size() != 1) return x.fail(mc::show(src) + " says " + mc::show(r.err));
            return;
        }
        if (r.rc || said("rror") || said("arning")) return x.fail(mc::show(src) + " rejected: " + r.err);
        std::string err, got;
        auto t = html::parse(r.text, err, false);
        if (!t) return x.fail(mc::show(src) + " gives ill-formed output: " + err);
        if (is_url) dst = url(dst);
        size_t lead = txt.find_first_not_of(" \n");
        txt = lead == txt.npos ? "" : txt.substr(lead);
        if (txt.empty() && !role && !anchor) txt = dst;
        want = std::string("x<") + k.elem + " " + k.attr + "=" + dst + ">" + txt + "</" + k.elem + ">y";
        t->walk([&](html::Node* n) { if (n->name == "para") for (auto& q : n->kids) got += ser(q.get()); });
        if (!got.empty() && got[0] == '\n') got.erase(0, 1);
        if (got != want) return x.fail(mc::show(src) + " gives " + mc::show(got) + " instead of " + mc::show(want));
        x.state(got);
        if (special || txt.find('<') != txt.npos) x.nontrivial();
    }
    void anchors(const std::string& c, mc::Ctx& x)
    {
        std::string src, want;
        int n = 0;
        for (size_t i = 3; i < c.size(); ++i)
            for (const char* p = cons[c[i] - 'A'].text; *p; ++p) {
                if (*p == 'Z') { std::string m = "z" + std::to_string(n++); src += "[#" + m + "]"; want += m + " "; }
                else if (*p == 'W') { std::string m = "w" + std::to_string(n++) + "w"; src += m; want += m + " "; }
                else src += *p;
            }
        x.step();
        qbk::Result r = run(c[1], src);
        if (r.rc) return x.fail(mc::show(src) + " rejected: " + r.err);
        std::string err, got;
        auto t = html::parse(r.text, err, false);
        if (!t) return x.fail(mc::show(src) + " gives ill-formed output: " + err);
        t->walk([&](html::Node* q) {
            if (q->name == "anchor") got += q->get("id") + " ";
            if (q->name.empty()) for (size_t i = 0; i < q->text.size(); ++i) if (q->text[i] == 'w') { size_t e = q->text.find('w', i + 1); got += q->text.substr(i, e - i + 1) + " "; i = e; }
        });
        if (got != want) return x.fail(mc::show(src) + " gives the order " + got + "instead of " + want);
        x.state(got);
        if (want.find('z') != want.npos) x.nontrivial();
    }
};
MC_MAIN(H)
