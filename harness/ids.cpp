// Identifiers of sections, headings, anchors, tables and footnotes.
// Case: [t for no title]<version 1 3 5 6 7><tokens as letters, digits include a file>; unclosed sections are closed at the end.
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"
#include <set>

enum Kind { SEC, END, HEAD, ANCH, TAB, NOTE, LINK, UTAB };
struct Tok { const char* text; Kind k; const char* id; bool expl; };
#define LONG "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2bbbb"
static const Tok toks[] = {
    {"[section a]", SEC, "a", false},
    {"[section:a T]", SEC, "a", true},
    {"[endsect]", END, "", false},
    {"[heading a]", HEAD, "a", false},
    {"[heading:a T]", HEAD, "a", true},
    {"[#a]w", ANCH, "a", true},
    {"[#d.a]w", ANCH, "d.a", true},
    {"[table:a t\n[[x]]\n]", TAB, "a", true},
    {"[table a\n[[x]]\n]", TAB, "a", false},
    {"w[footnote n]", NOTE, "f", false},
    {"[link a l]", LINK, "a", true},
    {"[heading a0]", HEAD, "a0", false},
    {"[h3 A  1]", HEAD, "a__1", false},
    {"[heading " LONG "]", HEAD, LONG, false},
    {"[#d.a.a]w", ANCH, "d.a.a", true},
    {"[section D]", SEC, "d", false},
    {"[#d]w", ANCH, "d", true},
    {"[table\n[[x]]\n]", UTAB, "", false},
    {"[section " LONG "]", SEC, LONG, false},
    {"[#a0]w", ANCH, "a0", true},
    {"[heading f0]", HEAD, "f0", false},
};
static const int core = 12;
// included files: a fragment, two documents, a fragment including the first with an identifier, one of another version
static const struct { const char* name; const char* head; const char* id; const char* title; const char* body; } incs[] = {
    {"f1.qbk", "", "", "", "adcd"},
    {"f2.qbk", "[article G\n[quickbook 1.7]\n[id y]\n]\n\n", "y", "g", "dac"},
    {"f3.qbk", "[article A\n[quickbook 1.7]\n]\n\n", "", "a", "dadc"},
    {"f4.qbk", "", "", "", "d2a1dc"},
    {"f5.qbk", "[quickbook 1.4]\n", "", "", "adcd"},
};
static const struct { int file; const char* id; } uses[] = {{4, ""}, {0, ""}, {0, "x"}, {0, "a"}, {1, ""}, {1, "x"}, {2, ""}, {2, "x"}, {3, ""}, {3, "y"}};

static std::string normalize(std::string const& s, size_t size = 32)
{
    // runs of _ become one, none at either end, no longer than size before trimming runs
    std::string r;
    size_t i = 0;
    while (i < s.size() && s[i] == '_') ++i;
    if (i == s.size()) return "_";
    while (i < s.size() && r.size() < size) {
        if (s[i] != '_') { r += s[i++]; continue; }
        while (i < s.size() && s[i] == '_') ++i;
        if (i < s.size()) r += '_';
    }
    return r;
}

struct Ref {
    struct Ent { std::string id; int cat, parent; std::string final; long dots; };
    std::vector<Ent> e;
    std::vector<std::string> kinds; // what carries each id, in document order
    int add(std::string const& id, int cat, int parent)
    {
        long dots = std::count(id.begin(), id.end(), '.') + (parent >= 0 ? e[parent].dots + 1 : 0);
        e.push_back({id, cat, parent, "", dots});
        return (int)e.size() - 1;
    }
    void resolve()
    {
        long top = 0;
        for (auto& x : e) top = std::max(top, x.dots);
        for (long d = 0; d <= top; ++d) {
            std::vector<int> g;
            for (int pass = 0; pass < 2; ++pass)
                for (int i = 0; i < (int)e.size(); ++i)
                    if (e[i].dots == d && (e[i].cat >= 6) == (pass == 0)) g.push_back(i);
            std::map<std::string, int> owner;
            std::vector<std::string> full;
            for (int i : g) {
                std::string f = (e[i].parent >= 0 ? e[e[i].parent].final + "." : "") + e[i].id;
                full.push_back(f);
                if (e[i].cat <= 1) continue;
                auto p = owner.emplace(f, i).first;
                if (e[i].cat > e[p->second].cat) p->second = i;
            }
            for (size_t n = 0; n < g.size(); ++n) {
                Ent& x = e[g[n]];
                if (x.cat > 1 && owner[full[n]] == g[n]) { x.final = full[n]; continue; }
                size_t k = full[n].rfind('.');
                std::string par = k == std::string::npos ? "" : full[n].substr(0, k + 1);
                std::string base = normalize(k == std::string::npos ? full[n] : full[n].substr(k + 1), 31);
                if (isdigit((unsigned char)base.back())) {
                    if (base.size() < 31) base += '_';
                    else while (base.size() && isdigit((unsigned char)base.back())) base.pop_back();
                }
                for (unsigned c = 0;; ++c) {
                    std::string f = par + base + std::to_string(c);
                    if (owner.emplace(f, g[n]).second) { x.final = f; break; }
                }
            }
        }
    }
};

struct H : mc::Harness {
    H() { rule = "every sequence of up to N headings, sections, anchors, tables and notes whose natural identifiers collide, in five language versions; identifiers compared with a reference allocation; non-trivial when something had to be renamed"; }
    static void emit(mc::Sink& s, std::string c, std::vector<size_t> const& ix)
    {
        int depth = 0;
        for (size_t i : ix) {
            if (toks[i].k == SEC) ++depth;
            if (toks[i].k == END && --depth < 0) return;
        }
        if (c.back() < '6') for (size_t i : ix) if (i == 7) return;
        for (size_t i : ix) c += char('a' + i);
        s.emit(c);
    }
    void enumerate(mc::Sink& s)
    {
        int all = sizeof toks / sizeof *toks;
        for (char v : {'2', '4'}) mc::tuples(all, 3, [&](std::vector<size_t> const& ix) { emit(s, std::string(1, v), ix); });
        for (char v : {'7', '6', '5', '4', '3', '2', '1'}) for (int n = 0; n <= 3; ++n)
            mc::tuples(n < 3 ? all : core, n, [&](std::vector<size_t> const& ix) { emit(s, std::string("t") + v, ix); });
        for (char v : {'7', '6', '5', '3', '1'}) {
            bool main = v == '7' || v == '5';
            for (int n = 0; n <= 4 + (thorough ? 1 : 0); ++n) {
                int lim = n <= 3 ? all : main ? n <= 4 ? all : core : n <= 4 ? core : 8;
                if (n == 4 && !thorough) lim = v == '7' ? all : v == '1' ? 8 : core;
                mc::tuples(lim, n, [&](std::vector<size_t> const& ix) {
                    std::string c(1, v);
                    int depth = 0;
                    for (size_t i : ix) {
                        if (v < '6' && i == 7) return; // tables have no explicit identifiers there
                        if (toks[i].k == SEC) ++depth;
                        if (toks[i].k == END && --depth < 0) return;
                        c += char('a' + i);
                    }
                    s.emit(c);
                });
            }
            static const std::string parts = "abcdefhj0123456789"; // with included files
            if (v != '1' && v != '3') for (int n = 1; n <= (thorough ? 4 : 3); ++n)
                mc::tuples(parts.size(), n, [&](std::vector<size_t> const& ix) {
                    std::string c(1, v);
                    int depth = 0;
                    bool any = false;
                    for (size_t i : ix) {
                        char t = parts[i];
                        if (isdigit((unsigned char)t)) any = true;
                        else if (t == 'h' && v < '6') return;
                        else if (toks[t - 'a'].k == SEC) ++depth;
                        else if (toks[t - 'a'].k == END && --depth < 0) return;
                        c += t;
                    }
                    if (any) s.emit(c);
                });
            mc::pump(all, 2, {4, 12}, [&](std::vector<size_t> const& ix) {
                if (v == '1' || v == '3' || (ix.size() > 12 && (v != '7' || (ix[0] + ix[1]) % 3))) return;
                std::string c(1, v);
                int depth = 0;
                for (size_t i : ix) {
                    if (v < '6' && i == 7) return;
                    if (toks[i].k == SEC) ++depth;
                    if (toks[i].k == END && --depth < 0) return;
                    c += char('a' + i);
                }
                s.emit(c);
            });
            if (v == '7') // long runs of the same identifier, so that numbers get two digits
                for (int i = 0; i < all; ++i) for (int j = 0; j < all; ++j) if (toks[i].k != END && toks[j].k != END && toks[i].k != SEC)
                    s.emit(std::string("7") + std::string(1, char('a' + j)) + std::string(thorough ? 120 : 13, char('a' + i)));
        }
    }
    std::string dir;
    void init()
    {
        dir = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/ids" + std::to_string(getpid());
        mkdir(dir.c_str(), 0777);
        for (auto& f : incs) qbk::spit(dir + "/" + f.name, f.head + text(f.body));
    }
    std::string text(std::string const& seq)
    {
        std::string r;
        for (char t : seq) {
            if (isdigit((unsigned char)t)) { auto& u = uses[t - '0']; r += std::string("[include") + (*u.id ? ":" : "") + u.id + " " + dir + "/" + incs[u.file].name + "]\n\n"; }
            else r += std::string(toks[t - 'a'].text) + "\n\n";
        }
        return r;
    }
    // the reference: documents, files and sections being read
    struct S { int ent; std::string path; int depth; };
    std::string last_section;
    struct Doc { std::vector<S> st; std::string last_title; };
    struct File { std::string docid; int depth, over_depth, over; std::string over_id; };
    char v;
    Ref r;
    std::vector<int> ent;
    std::vector<Doc> docs;
    std::vector<File> files;
    int parent(S const& s)
    {
        File& f = files.back();
        if (s.depth >= f.over_depth) return s.ent;
        if (f.over < 0) { // an identifier given in an include comes to life with its first use
            f.over = r.add(f.over_id, 7, -1);
            for (auto& g : files) if (g.over_depth == f.over_depth && g.over_id == f.over_id) g.over = f.over;
        }
        return f.over;
    }
    int sub(std::string const& id, int cat)
    {
        S& s = docs.back().st.back();
        if (v >= '6') return r.add(cat < 6 ? normalize(id) : id, cat, parent(s));
        std::string pre = files.back().docid;
        if (pre.size() && s.path.size()) pre += '.';
        pre += s.path;
        return r.add(pre + (pre.empty() ? "" : ".") + id, cat, -1);
    }
    void walk(std::string const& seq)
    {
        for (char t : seq) {
            if (isdigit((unsigned char)t)) { include(t - '0'); continue; }
            Tok k = toks[t - 'a'];
            auto& st = docs.back().st;
            if (v < '6' && t == 'e') k.id = "_a_t", k.expl = false; // no explicit identifiers then
            switch (k.k) {
            case SEC: {
                std::string path = st.back().path + (st.back().path.empty() ? "" : ".") + k.id;
                // 1.1 and 1.2 forget the sections around it
                int i = v >= '6' ? sub(k.id, k.expl ? 7 : 4) : r.add(files.back().docid + "." + (v < '3' ? k.id : path), k.expl ? 7 : 4, -1);
                last_section = k.id;
                st.push_back({i, path, files.back().depth});
                ent.push_back(i);
                break;
            }
            case END: st.pop_back(); break;
            case HEAD:
                if (v < '3' && t == 'm') { ent.push_back(r.add(last_section + "." + k.id, 3, -1)); break; } // the section opened last, and no link to itself
                ent.push_back(sub("h", 1)); ent.push_back(sub(k.id, k.expl ? 6 : 3)); break;
            case ANCH: ent.push_back(r.add(k.id, 8, -1)); break;
            case TAB: if (v >= '5' || k.expl) ent.push_back(sub(k.id, k.expl ? 6 : 2)); else ent.push_back(sub("t", 1)); break;
            case NOTE: ent.push_back(sub("f", 1)); break;
            case LINK: case UTAB: break;
            }
        }
    }
    void include(int n)
    {
        auto& u = uses[n];
        auto& f = incs[u.file];
        File nf = files.back();
        bool doc = *f.title;
        if (doc && v >= '6') { // a document of its own
            std::string id = *u.id ? u.id : f.id;
            int i = r.add(id.size() ? id : f.title, id.size() ? 7 : 5, -1);
            ent.push_back(i);
            docs.push_back({{{i, "", 0}}, ""});
            files.push_back({"", 0, 0, -1, ""});
            walk(f.body);
            files.pop_back();
            docs.pop_back();
            return;
        }
        ++nf.depth;
        if (v >= '6') { if (*u.id) nf.over_depth = nf.depth, nf.over = -1, nf.over_id = u.id; }
        else {
            if (doc) docs.back().last_title = f.title;
            nf.docid = *f.id ? f.id : *u.id ? u.id : docs.back().last_title;
        }
        files.push_back(nf);
        walk(f.body);
        files.pop_back();
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        bool untitled = c[0] == 't';
        v = c[untitled];
        std::string seq = c.substr(1 + untitled);
        int depth = 0;
        for (char t : seq) if (t >= 'a') { if (toks[t - 'a'].k == SEC) ++depth; if (toks[t - 'a'].k == END) --depth; }
        for (; depth > 0; --depth) seq += 'c';
        std::string body = text(seq);
        r = Ref();
        int root = !untitled ? r.add("d", 5, -1) : v >= '6' ? r.add("doc", 1, -1) : r.add("", 5, -1);
        last_section.clear();
        ent.assign(1, root);
        docs.assign(1, {{{root, "", 0}}, untitled ? "" : "d"});
        files.assign(1, {untitled ? "" : "d", 0, 0, -1, ""});
        walk(seq);
        r.resolve();
        qbk::Result q = qbk::convert(std::string("[article") + (untitled ? "" : " D") + "\n[quickbook 1." + v + "]\n]\n\n" + body);
        if (q.rc) return x.fail("rejected: " + q.err);
        std::string err;
        auto tree = html::parse(q.text, err, false);
        if (!tree) return x.fail("ill-formed output: " + err);
        std::vector<std::string> got, links;
        tree->walk([&](html::Node* n) {
            if (auto p = n->attr("id")) got.push_back(*p);
            if (auto p = n->attr("linkend")) links.push_back(*p);
        });
        x.step(got.size());
        std::set<std::string> seen;
        if (!untitled || v >= '6') for (auto& g : got) if (g.empty() || (g[0] == '.' && v > '2') || g.back() == '.') return x.fail("malformed identifier \"" + g + "\"");
        // (a document without a title has no identifier in old versions)
        for (auto& g : got) if (!seen.insert(g).second) return x.fail("two elements have the identifier " + g);
        for (auto& l : links) if (!seen.count(l) && l != "a") return x.fail("link to " + l + ", which is nowhere");
        if (seq.find('a' + 10) != std::string::npos && std::find(links.begin(), links.end(), "a") == links.end()) return x.fail("the link's target was changed");
        if (seq.find('f') != std::string::npos && !seen.count("a")) return x.fail("an anchor's identifier was changed");
        std::string gs, ws;
        for (auto& g : got) gs += g + " ";
        bool ren = false;
        for (int i : ent) { ws += r.e[i].final + " "; if (r.e[i].cat > 1 && r.e[i].final.substr(r.e[i].final.rfind('.') + 1) != r.e[i].id.substr(r.e[i].id.rfind('.') + 1)) ren = true; }
        if (ren) x.nontrivial();
        if (gs != ws) return x.fail("identifiers " + gs + "instead of " + ws);
        x.state(ws);
    }
};
MC_MAIN(H)
