// Compatibility mode: identifiers as an older version would generate them.
// Case: p<tokens>  the document itself, written for every version and in compatibility with every older one
//       f<tokens>  the same text in an included file with a version of its own and no document information
//       n<tokens>  the same text in a nested document with its own version and compatibility
//       t<tokens>  the same text in templates of a file of another version
// Nothing is predicted: two conversions have to give the same identifiers in the same order.
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"
#include <set>

#define LONG "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2bbbb"
static const char* toks[] = {
    "[section a]", "[endsect]", "[heading a]", "[h3 A *b*  `c`]", "[table a\n[[x]]\n]", "w[footnote n] v", "[#a]w", "[section:a T]", "[link a l] w", "[heading a0]",
    "[section A ''b'']", "[heading " LONG "]", "[heading mm]", "[section " LONG " mm]", "[h1 d]", "[#d.a]w", "[table\n[[x]]\n]", "[note w]\n\n* i [footnote k]\n", "[heading [#z]q]", "[section d.a]", "[heading a & < b]", "[variablelist a [[x][y]]]", "[heading __a__ b]", "[h2 [@http://x/ u v]]"};
static const int N = sizeof toks / sizeof *toks;

struct H : mc::Harness {
    H() { rule = "every sequence of up to N sections, headings, tables, anchors and notes, converted by every version in compatibility with every older one, in the document, an included file, a nested document and templates; non-trivial when the old identifiers differ from the new ones"; case_timeout = 20; }
    static bool closed(std::string const& t, bool sections)
    {
        int d = 0;
        for (char k : t) {
            bool sec = strchr("ahknt", k) && strncmp(toks[k - 'a'], "[section", 8) == 0, end = k == 'b';
            if ((sec || end) && !sections) return false;
            if (sec) ++d;
            if (end && --d < 0) return false;
        }
        return true;
    }
    void enumerate(mc::Sink& s)
    {
        auto all = [&](int n, int lim, const char* kinds) {
            mc::tuples(lim, n, [&](std::vector<size_t> const& ix) {
                std::string t;
                for (size_t i : ix) t += char('a' + i);
                if (!closed(t, true)) return;
                for (const char* k = kinds; *k; ++k) s.emit(std::string(1, *k) + t);
            });
        };
        all(1, N, "pfnti");
        all(2, N, "pfnti");
        all(3, thorough ? N : 12, "p");
        all(3, thorough ? 14 : 5, thorough ? "fnti" : "fn");
        all(4, thorough ? 10 : 4, "p");
        mc::pump(N, 2, {4, 12}, [&](std::vector<size_t> const& ix) {
            std::string t;
            for (size_t i : ix) t += char('a' + i);
            if (closed(t, true) && (thorough || ix.size() < 9)) s.emit("p" + t);
        });
    }
    std::string body(std::string const& t)
    {
        std::string r;
        int d = 0;
        for (char k : t) {
            r += std::string(toks[k - 'a']) + "\n\n";
            if (strncmp(toks[k - 'a'], "[section", 8) == 0) ++d;
            if (k == 'b') --d;
        }
        while (d-- > 0) r += "[endsect]\n\n";
        return r;
    }
    struct Out { bool ok = false; std::string ids, err; };
    Out run(std::string const& doc, mc::Ctx& x, std::string const& drop = "")
    {
        Out o;
        qbk::Result q = qbk::convert(doc);
        if (q.rc) { o.err = q.err; return o; }
        auto tree = html::parse(q.text, o.err, false);
        if (!tree) { x.fail("ill-formed: " + o.err); return o; }
        o.ok = true;
        bool first = true;
        tree->walk([&](html::Node* n) {
            if (auto p = n->attr("id")) { if (first && drop.size()) { first = false; return; } o.ids += n->name + "#" + *p + " "; }
            if (auto p = n->attr("linkend")) o.ids += n->name + "->" + *p + " ";
        });
        x.step(o.ids.size());
        return o;
    }
    // loaded files are remembered by name: every text gets a name of its own
    std::vector<std::string> made;
    std::string put(std::string const& text)
    {
        std::string f = qbk::fresh(".qbk");
        qbk::spit(f, text);
        made.push_back(f);
        return f;
    }
    static std::string head(const char* title, char q, char c, const char* id = "")
    {
        return std::string("[article ") + title + "\n[quickbook 1." + q + "]\n" + (c ? std::string("[compatibility-mode 1.") + c + "]\n" : "") + id + "]\n\n[def mm Mac ro]\n\n";
    }
    bool same(std::string const& what, Out const& got, Out const& want, mc::Ctx& x)
    {
        if (x.failed) return false;
        if (!want.ok) return false;
        if (!got.ok) { x.fail(what + " is rejected: " + got.err); return false; }
        return x.eq(what.c_str(), got.ids, want.ids);
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        judge(c, x);
        for (auto& f : made) unlink(f.c_str());
        made.clear();
    }
    void judge(const std::string& c, mc::Ctx& x)
    {
        static const std::string versions = "134567";
        std::string text = body(c.substr(1)), file;
        std::map<char, Out> plain;
        const char* ids[][2] = {{"D e", ""}, {"D e", "[id d]\n"}, {"", ""}};
        for (auto& w : ids) {
            const char *title = w[0], *id = w[1];
            for (char v : versions) plain[v] = run(head(title, v, 0, id) + text, x);
            if (x.failed) return;
            for (char v : versions) if (plain[v].ok && plain['7'].ok && plain[v].ids != plain['7'].ids) x.nontrivial();
            for (char q : versions) for (char o : versions) {
                if (o > q) continue;
                std::string what = std::string("1.") + q + " in compatibility with 1." + o;
                switch (c[0]) {
                case 'p':
                    if (!same(what, run(head(title, q, o, id) + text, x), plain[o], x) && x.failed) return;
                    break;
                case 'f': { // no document information: the identifiers of the including document
                    for (char v : std::string("147")) {
                        if (q == '3' || q == '4' || (o == '4' && q != '7') || !plain[v].ok) continue;
                        file = put(text);
                        Out w = run(head(title, q, o, id) + "[include " + file + "]\n", x);
                        file = put(std::string("[quickbook 1.") + v + "]\n" + text);
                        Out g = run(head(title, q, o, id) + "[include " + file + "]\n", x);
                        if (!same(what + ", file of version 1." + v, g, w, x) && x.failed) return;
                    }
                    break;
                }
                case 'i': { // the document information of the file counts only for its title and identifier
                    if (q > '5') continue;
                    for (const char* inc : {"", ":in"}) for (const char* own : {"[article In\n]\n", "[article In f\n[id own]\n]\n", "[article\n[id o.w]\n]\n"}) {
                        file = put(own + ("\n" + text));
                        std::string use = std::string("[heading before]\n\n[include") + inc + " " + file + "]\n\n[heading after]\n\n";
                        Out w = run(head(title, o, 0, id) + use, x);
                        file = put(own + ("\n" + text));
                        use = std::string("[heading before]\n\n[include") + inc + " " + file + "]\n\n[heading after]\n\n";
                        Out g = run(head(title, q, o, id) + use, x);
                        if (!same(what + ", include" + inc + " with document information", g, w, x) && x.failed) return;
                        if (q == o) continue;
                        // the version of the file does not matter
                        if (!plain[o].ok) continue;
                        file = put(std::string("[quickbook 1.") + o + "]\n" + own + "\n" + text);
                        use = std::string("[heading before]\n\n[include") + inc + " " + file + "]\n\n[heading after]\n\n";
                        g = run(head(title, q, o, id) + use, x);
                        if (!same(what + ", include" + inc + " of a file of version 1." + o, g, w, x) && x.failed) return;
                    }
                    break;
                }
                case 'n': {
                    for (char v : std::string("67")) {
                        file = put(head(title, q, o, id) + text);
                        Out g = run(std::string("[article Outside\n[quickbook 1.") + v + "]\n[id outside]\n]\n\n[include " + file + "]\n", x, "x");
                        if (!same(what + ", nested in 1." + v, g, plain[o], x) && x.failed) return;
                    }
                    break;
                }
                case 't': {
                    if (o < '5' && o != '1') continue;
                    std::string defs, uses, direct;
                    size_t k = 0;
                    bool in_sec = false;
                    for (char t : c.substr(1)) {
                        std::string w = toks[t - 'a'];
                        if (w[0] == '[' && w.compare(0, 8, "[section") && w != "[endsect]") { defs += "[template k" + std::to_string(k) + "[]\n" + w + "\n]\n\n"; uses += "[k" + std::to_string(k) + "]\n\n"; ++k; }
                        else uses += w + "\n\n";
                        if (!w.compare(0, 8, "[section")) in_sec = true;
                    }
                    int d = 0;
                    for (char t : c.substr(1)) { if (strncmp(toks[t - 'a'], "[section", 8) == 0) ++d; if (t == 'b') --d; }
                    while (d-- > 0) uses += "[endsect]\n\n";
                    (void)in_sec;
                    if (q < '6') continue; // import
                    for (char v : std::string("157")) {
                        if (!plain[v].ok) continue; // not in the syntax of that version
                        file = put(std::string("[quickbook 1.") + v + "]\n" + "[def mm Mac ro]\n\n" + defs);
                        Out g = run(head(title, q, o, id) + "[import " + file + "]\n\n" + uses, x);
                        if (!same(what + ", templates of 1." + v, g, plain[o], x) && x.failed) return;
                    }
                    break;
                }
                }
            }
        }
        x.state(plain['5'].ids);
    }
};
MC_MAIN(H)
