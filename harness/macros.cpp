// Macros and conditionals: the definitions in force at each point decide the text.
// Case: <version><d with -D on the command line, n without><items as letters>
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

typedef std::map<std::string, std::string> Env;

static const char* items[] = {
    "[def M a]", "[def M b]", "[def MN c]", "M MN M1 Mx M_ M- xM MM", "[?M y]w[?!M n]", "[?M [def M z]]w", "[?MN [def P p]]w[?P q]", "[def P [?M u]M]", "[t]M",
    "[?MN [?M both]]M", "[note\nM[def M o]\n]\nM", "[u M]M[?MN [u MN]]", "[note [include F.qbk]]M", "`M xM M1`M", "w *M* P", "[?!M [?!P [def M r]]]M",
    "[h4 M]P", "  M\n\nM", "[def M-b d]", "[v [def M k]M]M", "[?M [include F.qbk]]P", "* M[def M l]\n  * M\n\nM", "\\M M-b M-", "[def P]", "[table [[M[def M e]] [M]] [[M]]]", "[?P [h4 hh][#an][footnote ff][link x yy] *bb*]w", "[include N.qbk]"};
static const char letters[] = "abcdefghijklmnopqrstuvwxyz{";
static const char* FILE_TEXT = "M[def M f][def P g]M";
static const char* NEST_TEXT = "[def P h]\n\n[include F.qbk]\n\n[def M n]\n\nM P\n";

struct Ref {
    bool fresh; // redefinitions take effect, from 1.6
    bool v7;
    Env e;
    std::string out;
    static bool word(int c) { return isalpha(c) || c == '_'; }
    // macros in plain text
    std::string text(std::string const& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size();) {
            size_t best = 0;
            for (auto& m : e) if (m.first.size() > best && s.compare(i, m.first.size(), m.first) == 0) best = m.first.size();
            if (best && !(i + best < s.size() && word((unsigned char)s[i + best]))) { r += e[s.substr(i, best)]; i += best; }
            else r += s[i++];
        }
        return r;
    }
    void def(const char* n, std::string const& v) { if (fresh || !e.count(n)) e[n] = v; }
    void put(std::string const& s) { out += s + " "; }
    void file()
    {
        Env save = e;
        put(text("M"));
        def("M", "f");
        def("P", "g");
        put(text("M"));
        e = save;
    }
    void item(int t)
    {
        bool m = e.count("M"), n = e.count("MN");
        switch (t) {
        case 0: def("M", "a"); break;
        case 1: def("M", "b"); break;
        case 2: def("MN", "c"); break;
        case 3: put(text("M MN M1 Mx M_ M- xM MM")); break;
        case 4: put(m ? "yw" : "wn"); break;
        case 5: if (m) def("M", "z"); put("w"); break;
        case 6: if (n) def("P", "p"); put(std::string("w") + (e.count("P") ? "q" : "")); break;
        case 7: def("P", (m ? "u" : "") + text("M")); break;
        case 8: { Env s = e; put(text("M")); def("M", "t"); put(text("M")); e = s; put(text("M")); break; }
        case 9: put((m && n ? "both" : "") + text("M")); break;
        case 10: put(text("M")); def("M", "o"); put(text("M")); break;
        case 11: put(text("M")); put(text("M")); if (n) put(text("MN")); break;
        case 12: file(); put(text("M")); break;
        case 13: put(code("M xM M1")); put(text("M")); break;
        case 14: put("w"); put(text("M")); put(text("P")); break;
        case 15: if (!m && !e.count("P")) def("M", "r"); put(text("M")); break;
        case 16: put(text("M")); put(text("P")); break;
        case 17: put(code("M")); put(text("M")); break;
        case 18: def("M-b", "d"); break;
        // the argument is expanded once, where it is used, in a scope of its own
        case 19: { Env s = e; def("M", "k"); put(text("M")); e = s; put(text("M")); break; }
        case 20: if (m) file(); put(text("P")); break;
        case 21: put(text("M")); def("M", "l"); put(text("M")); put(text("M")); break;
        case 22: put("\\" + text("M M-b M-")); break;
        case 23: def("P", ""); break;
        case 24: put(text("M")); def("M", "e"); put(text("M")); put(text("M")); break;
        case 26: { Env s = e; def("P", "h"); file(); def("M", "n"); put(text("M P")); e = s; break; }
        case 25: put(e.count("P") ? "hhffyybbw" : "w"); break;
        }
    }
    std::string code(std::string const& s)
    {
        std::string r, w;
        std::istringstream is(s);
        while (is >> w) r += (e.count(w) && w != "P" ? e[w] : w == "M1" && e.count("M") ? e["M"] + "1" : w);
        return r;
    }
};

struct H : mc::Harness {
    H() { rule = "every sequence of up to N definitions, redefinitions, uses and conditionals in text, code, lists, tables, nested blocks, template bodies and arguments and included files; text compared with a reference expansion; non-trivial when a macro is defined and used"; case_timeout = 15; }
    void enumerate(mc::Sink& s)
    {
        int all = sizeof items / sizeof *items;
        for (char v : {'7', '6', '5'})
            mc::pump(all, v == '7' ? 2 : 1, {3, 7}, [&](std::vector<size_t> const& ix) { std::string c{v, 'n'}; for (size_t i : ix) c += letters[i]; s.emit(c); });
        for (char v : {'7', '6', '5'}) for (char m : {'n', 'd'})
            for (int k = 0; k <= (v == '7' && m == 'n' || thorough ? 3 : 2); ++k)
                mc::tuples(k == 3 && !thorough ? 16 : all, k, [&](std::vector<size_t> const& ix) {
                    std::string c{v, m};
                    for (size_t i : ix) c += letters[i];
                    s.emit(c);
                });
    }
    static bool allowed(char v, int t)
    {
        if (v == '7') return true;
        // conditionals with !, blocks in nested blocks, and table cells work differently there
        return t != 4 && t != 10 && t != 12 && t != 15 && t != 21 && t != 24 && t != 8 && t != 19 && t != 11 && t != 20 && (v == '6' || (t != 5 && t != 6));
    }
    static std::string squash(std::string const& s)
    {
        std::string r;
        for (char c : s) if (!isspace((unsigned char)c)) r += c;
        return r;
    }
    static void put(html::Node* n, std::string& out)
    {
        if (n->name.empty()) { out += n->text; return; }
        for (auto& k : n->kids) if (!(k->name == "title" && n->name == "article")) put(k.get(), out);
    }
    std::string conv(std::string const& doc, char v, bool d, std::string& err)
    {
        static std::string inc;
        if (inc.empty() || inc.compare(0, qbk::dir().size(), qbk::dir())) { inc = qbk::dir() + "/F.qbk"; qbk::spit(inc, FILE_TEXT); qbk::spit(qbk::dir() + "/N.qbk", NEST_TEXT); }
        std::vector<std::string> args;
        if (d) args.push_back("-DM=D");
        qbk::Result q = qbk::convert(std::string("[article D\n[quickbook 1.") + v + "]\n[source-mode c++]\n]\n[template t[]\nM[def M t]M\n]\n[template u[x]\n[x]\n]\n[template v[x] [x]]\n\n" + doc, args);
        err.clear();
        if (q.rc) { err = q.err; return ""; }
        auto tree = html::parse(q.text, err, false);
        if (!tree) return "";
        html::Node* art = 0;
        tree->walk([&](html::Node* n) { if (n->name == "article") art = n; });
        std::string t;
        put(art, t);
        return squash(t);
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        char v = c[0];
        bool d = c[1] == 'd';
        std::string pre = c.substr(2);
        int all = sizeof items / sizeof *items;
        // each way of adding two more items is a note of its own... definitions outlive blocks, so each is run alone
        for (char t : pre) if (!allowed(v, t - 'a')) { x.step(); return; }
        for (int a = 0; a < all; ++a) {
            if (!allowed(v, a)) continue;
            std::string seq = pre + letters[a], doc;
            Ref r;
            r.fresh = v >= '6';
            r.v7 = v == '7';
            if (d) r.e["M"] = "D";
            for (char t : seq) { doc += std::string(items[t - 'a']) + "\n\n"; r.item(t - 'a'); }
            // the file of every sequence is closed by the same uses
            doc += "M MN P M-b\n";
            r.put(r.text("M MN P M-b"));
            std::string err, got = conv(doc, v, d, err);
            x.step();
            if (err.size()) return x.fail("rejected or ill-formed: " + err + " for " + mc::show(doc));
            std::string want = squash(r.out);
            if (got != want) return x.fail(mc::show(doc) + ": got " + got + " want " + want);
            if (r.e.size()) x.nontrivial();
            x.state(want);
        }
    }
};
MC_MAIN(H)
