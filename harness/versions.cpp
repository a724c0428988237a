// Language versions of files including one another. Cases: r<version><mode><header of A><header of B><items>;
// q<tokens> the version attribute itself; m<version><place><head><tokens> an import adds no markup: same output as when the file is empty;
// p<version><place><tokens> an included fragment: same output as when its text stands there
#include "mc.hpp"
#include "qbk.hpp"
#include <set>

static const int vers[] = {101, 104, 105, 106, 107};
static const char* vtext[] = {"1.1", "1.4", "1.5", "1.6", "1.7"};
static const char* qtoks[] = {"1", ".", "7", "0", " ", "6", "8", "2"};
// what an imported file may hold besides definitions
static const char* mtoks[] = {"w", "[#z]", "[heading h]", "[section s]", "[section:s s]\n\n[heading h]\n\n[endsect]", "[note n [#k]]", "* i\n  * [#y]j", "[table T\n[[x]]\n]", "w [footnote n]", "[link z t]", "[python]", "[:q]",
    "[$x.png]", "    c", "[blurb b [#b]]", "[xinclude f.xml]", "[#d.s]\n[#q]", "'''<b/>'''", "[article x]", "\"q"};
static const int NM = sizeof mtoks / sizeof *mtoks;
static const int NQ = sizeof qtoks / sizeof *qtoks;

// headers: kind (none, attribute before, block with it inside, block without, both), version, source mode
struct Header {
    int kind, v, w; // w: version of the block when there are both
    bool py;
};
static std::vector<Header> headers()
{
    std::vector<Header> r;
    for (int py = 0; py < 2; ++py) {
        r.push_back({0, 0, 0, py == 1});
        r.push_back({3, 0, 0, py == 1});
        for (int k = 1; k <= 2; ++k)
            for (int v : vers) r.push_back({k, v, v, py == 1});
    }
    r.push_back({4, 105, 0, false});
    r.push_back({4, 107, 0, true});
    return r;
}
static std::string vname(int v) { return "1." + std::to_string(v - 100); }

// what a piece of text becomes in a file of this version
static const char* PROBE = "[role a b] [!teletype]`def` [t2 x[*a..b] y] `def` [zz]";
static std::string code(bool py, bool tele)
{
    if (tele) return "<code>def</code>";
    return std::string("<code><phrase role=\"") + (py ? "keyword" : "identifier") + "\">def</phrase></code>";
}
static std::string probe(int v, bool py)
{
    std::string r = v >= 106 ? "<phrase role=\"a\">b</phrase>" : "[role a b]";
    if (v >= 107) r += " " + code(py, true);
    else r += " [!teletype]" + code(py, false);
    r += v >= 105 ? " (x<emphasis role=\"bold\">a..b</emphasis>;y)" : " (x[*a;b) y]";
    return r + " " + code(py, false) + " [zz]";
}

struct Model {
    struct File {
        Header h;
        int version = 0;
        std::string body; // items
    };
    std::map<char, File> files;
    struct Tpl { int version; };
    std::vector<std::map<std::string, Tpl>> scopes;
    bool macro = false; // __m__ is defined
    int v = 0, mute = 0; // text of imported files is not wanted
    bool py = false, redefined = false;
    std::vector<std::string> out;

    bool find(std::string const& n, Tpl& t)
    {
        for (size_t i = scopes.size(); i-- > 0;)
            if (scopes[i].count(n)) { t = scopes[i][n]; return true; }
        return false;
    }
    void header(char name, bool nested)
    {
        File& f = files[name];
        bool block = f.h.kind >= 2, used = block && (!nested || v >= 106);
        if (block && v >= 106 && !f.h.py) py = false;
        if (f.h.py) py = true;
        int nv = 0;
        if (f.h.kind == 1 || f.h.kind == 4) nv = f.h.v;
        if (f.h.kind == 2 && used) nv = f.h.v;
        if (nv) v = nv;
        else if (used) v = 101;
        f.version = v;
    }
    void run(char name, bool imported)
    {
        std::string body = files[name].body;
        for (char c : body) {
            if (redefined) return;
            auto say = [&](std::string const& s) { if (!mute) out.push_back(s); };
            auto call = [&](std::string const& n) {
                Tpl t;
                if (!find(n, t)) return "[" + n + "]";
                return probe(t.version, py);
            };
            switch (c) {
            case 'p': say("{p " + probe(v, py) + "}"); break;
            case 'm': say(std::string("{m ") + (macro ? "M" : "__m__") + "}"); break;
            case 'd': macro = true; break;
            case 'D': { // defines the template of the file
                std::string n = std::string("t") + char(name | 32);
                if (scopes.back().count(n)) redefined = true;
                scopes.back()[n] = {v};
                break;
            }
            case 't': say("{ta " + call("ta") + "}"); break;
            case 'u': say("{tb " + call("tb") + "}"); break;
            case 'w': say("{tt " + call("tt") + "}"); break;
            case 'r': say("{tr " + call("tr") + "}"); break;
            case 'a': case 'b': {
                if (imported && v >= 106) break;
                int ov = v;
                bool op = py, om = macro;
                if (ov >= 106) scopes.push_back({});
                header(c - 32, true);
                run(c - 32, false);
                if (ov >= 106) scopes.pop_back(), py = op;
                v = ov;
                macro = om;
                break;
            }
            case 'i': case 'x': {
                char f = c == 'i' ? 'T' : 'A';
                if (v < 106) break; // not quickbook
                int ov = v;
                bool op = py;
                header(f, true);
                ++mute;
                run(f, true);
                --mute;
                py = op;
                v = ov;
                break;
            }
            }
        }
    }
};

struct H : mc::Harness {
    std::vector<Header> hs = headers();
    H() { rule = "every root version and source mode x every header of two included (or imported) files x every sequence of up to N items (text, including, importing, calling templates of the files); version attributes of up to 4 tokens; compared with a reference of the rules of each version; non-trivial when files of different versions were read"; case_timeout = 15; }
    static constexpr const char* items = "pabtuixrm";
    std::string hc(size_t i) { return std::string(1, char('A' + i)); }
    void enumerate(mc::Sink& s)
    {
        for (int n = 1; n <= (thorough ? 3 : 2); ++n)
            for (char v : {'7', '6'}) for (char place : std::string("bastn")) for (char head : std::string("012"))
                mc::tuples(NM, n, [&](std::vector<size_t> const& ix) {
                    if (v == '6' && place == 'n') return;
                    std::string k{'m', v, place, head};
                    for (size_t i : ix) k += char('a' + i);
                    if (v == '6' && k.find("gn") != std::string::npos) return; // no paragraphs in lists there
                    s.emit(k);
                    if (head != '0' || k.find_first_of("kns", 4) != std::string::npos) return; // (the source mode ends with the file, document information is one, and code joins code)
                    k[0] = 'p';
                    s.emit(k);
                });
        for (int n = 1; n <= 4; ++n)
            mc::tuples(NQ, n, [&](std::vector<size_t> const& ix) {
                std::string c = "q";
                for (size_t i : ix) c += char('a' + i);
                s.emit(c);
            });
        for (int n = 1; n <= (thorough ? 3 : 2); ++n)
            mc::tuples(strlen(items), n, [&](std::vector<size_t> const& ix) {
                std::string seq;
                bool a = false, b = false;
                for (size_t i : ix) seq += items[i];
                for (char c : seq) {
                    if (strchr("abix", c)) a = true;
                    if (c == 'b' || c == 'i') b = true;
                }
                size_t na = a ? hs.size() : 1, nb = b ? hs.size() : 1;
                for (int r = 0; r < 6; ++r)
                    for (int m = 0; m < 2; ++m)
                        for (size_t i = 0; i < na; ++i)
                            for (size_t j = 0; j < nb; ++j) {
                                if (!thorough && n == 2 && na * nb > 26 && (i + j + m) % 4) continue;
                                if (thorough && n == 3 && na * nb > 26 && (i + 2 * j + m + r) % 9) continue;
                                s.emit("r" + std::to_string(r) + (m ? "p" : "c") + hc(i) + hc(j) + seq);
                            }
            });
    }
    static std::string header_text(Header const& h, const char* type)
    {
        std::string r;
        if (h.kind == 1 || h.kind == 4) r += "[quickbook " + vname(h.v) + "]\n";
        if (h.py && h.kind != 2) r += "[source-mode python]\n";
        if (h.kind >= 2) {
            r += std::string("[") + type + " N\n";
            if (h.kind == 2) r += "[quickbook " + vname(h.v) + "]\n";
            if (h.py && h.kind == 2) r += "[source-mode python]\n";
            r += "]\n";
        }
        return r + "\n";
    }
    static std::string body_text(std::string const& body, char name, std::string const& base)
    {
        std::string r;
        for (char c : body) {
            switch (c) {
            case 'p': r += std::string("{p ") + PROBE + "}"; break;
            case 'm': r += "{m __m__}"; break;
            case 'd': r += "[def __m__ M]"; break;
            case 'D': r += std::string("[template t") + char(name | 32) + "[]" + PROBE + "]"; break;
            case 't': r += "{ta [ta]}"; break;
            case 'u': r += "{tb [tb]}"; break;
            case 'w': r += "{tt [tt]}"; break;
            case 'r': r += "{tr [tr]}"; break;
            case 'a': r += "[include " + base + "A.qbk]"; break;
            case 'b': r += "[include " + base + "B.qbk]"; break;
            case 'i': r += "[import " + base + "T.qbk]"; break;
            case 'x': r += "[import " + base + "A.qbk]"; break;
            }
            r += "\n\n";
        }
        return r;
    }
    void no_markup(std::string const& c, mc::Ctx& x)
    {
        char v = c[1];
        bool paste = c[0] == 'p';
        std::string text;
        if (c[3] == '1') text = std::string("[quickbook 1.") + v + "]\n\n";
        if (c[3] == '2') text = std::string("[article F\n[quickbook 1.") + v + "]\n[id f]\n]\n\n";
        if (paste) text = "";
        for (char t : c.substr(4)) text += mtoks[t - 'a'] + std::string("\n\n");
        std::string in = "[import X]\n\n";
        if (c[2] == 'n') in = "[note\n[import X]\n]\n\n";
        if (c[2] == 't') in = "[template imp[]\n[import X]\n]\n\n[imp]\n\n";
        std::string doc = std::string("[article D\n[quickbook 1.") + v + "]\n]\n\n";
        std::string rest = "[heading h]\n\n`def x`\n\n[#z]q [footnote g]\n\n[table T\n[[x]]\n]\n\n[link z l]\n\n    def c\n\n", sec = "[section s]\n\n" + rest;
        switch (c[2]) {
        case 'b': doc += in + sec + "[endsect]\n"; break;                 // before everything
        case 'a': doc += sec + (paste ? "" : "[#k]\n") + in + "[endsect]\n\n" + rest; break; // at the end of a section, an anchor waiting
        case 's': doc += "[section:s s]\n\n" + in + sec + "[endsect]\n[endsect:s]\n"; break;
        default: doc += "[section s]\n\n" + in + sec + "[endsect]\n[endsect]\n"; break;
        }
        auto run = [&](std::string const& body) {
            std::string f = qbk::fresh(".qbk"), d = doc;
            qbk::spit(f, body);
            size_t k = d.find("[import X]");
            if (paste && body.empty()) d.replace(k, 10, text);
            else d.replace(k, 10, (paste ? "[include " : "[import ") + f + "]");
            qbk::Result r = qbk::convert(d);
            unlink(f.c_str());
            x.step();
            return r;
        };
        qbk::Result w = run(""), g = run(text);
        if (paste && w.rc && g.rc) return x.state("rejected");
        if (paste && w.rc) return x.fail("accepted only in a file of its own: " + mc::show(text) + w.err);
        if (w.rc) return x.fail("rejected with an empty file: " + w.err);
        if (g.rc) return x.fail("rejected: " + g.err);
        if (g.text != w.text) return x.fail((paste ? "including [" : "importing [") + mc::show(text) + "] changes the document: " + mc::show(g.text) + " instead of " + mc::show(w.text));
        x.nontrivial();
        x.state(text);
    }
    void check(std::string const& c, mc::Ctx& x) override
    {
        if (c[0] == 'q') return attribute(c, x);
        if (c[0] == 'm' || c[0] == 'p') return no_markup(c, x);
        Model m;
        int r = c[1] - '0';
        bool py = c[2] == 'p';
        m.files['R'] = {{2, r ? vers[r - 1] : 0, 0, py}, 0, "D"};
        m.files['A'] = {hs[c[3] - 'A'], 0, "pdDtrm"};
        m.files['B'] = {hs[c[4] - 'A'], 0, "pDaptum"};
        m.files['T'] = {hs[c[4] - 'A'], 0, "pdDax"};
        std::string& rb = m.files['R'].body;
        for (char k : c.substr(5)) {
            rb += k;
            if (k == 'i') rb += "wm";
        }
        rb += "p";
        std::string base = qbk::fresh();
        std::string id = base.substr(base.rfind('/') + 1);
        std::string root = "[article R\n" + (r ? "[quickbook " + std::string(vtext[r - 1]) + "]\n" : "") + (py ? "[source-mode python]\n" : "") +
            "[id d]\n]\n\n[template t2[p q]([p];[q])]\n\n" + body_text(rb, 'R', id);
        for (char f : std::string("ABT")) qbk::spit(base + f + ".qbk", header_text(m.files[f].h, f == 'T' ? "library" : "chapter") + body_text(m.files[f].body, f, id));
        m.scopes.push_back({});
        if (!r) m.files['R'].h.kind = 3;
        m.header('R', false);
        m.run('R', false);
        qbk::spit(base + ".qbk", root);
        std::string o = base + ".out";
        x.step();
        qbk::Result q = qbk::call({"--debug", "--no-pretty-print", "--output-file=" + o, base + ".qbk"});
        q.text = qbk::slurp(o);
        for (char f : std::string("ABT")) unlink((base + f + ".qbk").c_str());
        unlink((base + ".qbk").c_str());
        unlink(o.c_str());
        if (m.redefined) {
            if (!q.rc) x.fail("template defined twice accepted: " + mc::show(root));
            else x.nontrivial();
            return;
        }
        if (q.rc) return x.fail("rejected " + mc::show(root) + ": " + q.err);
        std::vector<std::string> got;
        for (size_t i = 0; (i = q.text.find('{', i)) != std::string::npos;) {
            size_t e = q.text.find('}', i);
            if (e == std::string::npos) return x.fail("text lost");
            got.push_back(q.text.substr(i, e + 1 - i));
            i = e;
        }
        for (auto& g : got) { // space around code is not of interest
            std::string t;
            for (char ch : g) if (ch != '\n') t += ch; else if (t.size() && t.back() != ' ') t += ' ';
            g = t;
        }
        for (size_t i = 0; i < got.size() || i < m.out.size(); ++i) {
            std::string g = i < got.size() ? got[i] : "(nothing)", w = i < m.out.size() ? m.out[i] : "(nothing)";
            if (g != w) return x.fail("piece " + std::to_string(i) + " is " + g + " instead of " + w + " in " + mc::show(root) +
                                      " A: " + mc::show(header_text(m.files['A'].h, "chapter")) + " B/T: " + mc::show(header_text(m.files['B'].h, "chapter")));
        }
        std::set<int> vs;
        for (auto& f : m.files) if (f.second.version) vs.insert(f.second.version);
        if (vs.size() > 1) x.nontrivial();
    }
    // the attribute: a number, a full stop, one or two digits
    void attribute(std::string const& c, mc::Ctx& x)
    {
        std::string src;
        for (char k : c.substr(1)) src += qtoks[k - 'a'];
        size_t b = 0, e = src.size();
        while (b < e && src[b] == ' ') ++b;
        while (e > b && src[e - 1] == ' ') --e;
        std::string t = src.substr(b, e - b);
        size_t dot = t.find('.');
        bool ok = dot != std::string::npos && dot > 0 && t.size() - dot - 1 >= 1 && t.size() - dot - 1 <= 2;
        for (size_t i = 0; i < t.size(); ++i) if (i != dot && !isdigit((unsigned char)t[i])) ok = false;
        int v = ok ? atoi(t.c_str()) * 100 + atoi(t.c_str() + dot + 1) : 0;
        if (v < 100 || v > 107) ok = false;
        std::string doc = "[article R\n[quickbook " + src + "]\n[id d]\n]\n\n[template t2[p q]([p];[q])]\n\n{p " + PROBE + "}\n";
        x.step();
        qbk::Result q = qbk::convert(doc);
        if (!ok) {
            if (!q.rc) x.fail("accepted version " + mc::show(src));
            return;
        }
        if (q.rc) return x.fail("rejected version " + mc::show(src) + ": " + q.err);
        if (q.text.find("{p " + probe(v, false) + "}") == std::string::npos) return x.fail("not read by version " + mc::show(src) + ": " + q.text);
        x.nontrivial();
    }
};
MC_MAIN(H)
