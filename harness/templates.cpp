// Template calls: splitting the arguments (A) and which definition a name means (B).
// Case: A<version><number of parameters><tokens>, each extended by every two tokens; B<version><items>, each extended by every item
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

static std::string squash(std::string const& s)
{
    std::string r;
    for (char c : s) if (!isspace((unsigned char)c)) r += c;
    return r;
}

// ---- arguments
static const char* toks[] = {"a", " ", "..", ".", "[*q..r]", "`k..k`", "\\.", "[u b]", "'''e..e'''", "[/c..c]", "\n", "[v]", "\\[", "\\]"};
static const int NT = sizeof toks / sizeof *toks;

struct Args {
    std::string s;
    std::vector<std::string> args;
    bool ok = true;
    static size_t unit(std::string const& s, size_t i)
    {
        for (int t = 3; t < NT; ++t) if (t != 10 && s.compare(i, strlen(toks[t]), toks[t]) == 0) return strlen(toks[t]);
        return 1;
    }
    static std::string text(std::string const& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size();) {
            size_t n = unit(s, i);
            std::string u = s.substr(i, n);
            i += n;
            if (u == "[*q..r]") r += "q..r";
            else if (u == "`k..k`") r += "k..k";
            else if (u == "\\." || u == "\\[" || u == "\\]") r += u.substr(1);
            else if (u == "[u b]") r += "Ub";
            else if (u == "[v]") r += "V";
            else if (u == "'''e..e'''") r += "e..e";
            else if (u == "[/c..c]") ;
            else if (!isspace((unsigned char)u[0])) r += u;
        }
        return r;
    }
    // before 1.5 the last argument is split at its spaces whenever there are too few
    Args(std::string const& raw, size_t params, bool old) : s(raw)
    {
        for (;;) {
            if (s.size() && isspace((unsigned char)s[0])) s.erase(0, 1);
            else if (s.compare(0, 7, "[/c..c]") == 0) s.erase(0, 7);
            else break;
        }
        if (s.size()) {
            args.push_back("");
            for (size_t i = 0; i < s.size();) {
                if (s.compare(i, 2, "..") == 0) { if (args.back().empty()) ok = false; args.push_back(""); i += 2; continue; }
                size_t n = unit(s, i);
                args.back() += s.substr(i, n);
                i += n;
            }
            if (args.back().empty()) ok = false;
        }
        if (!ok) return;
        if (args.size() == 1 || (old && args.size()))
            while (args.size() < params) {
                std::string l = args.back();
                size_t i = 0;
                int depth = 0;
                for (; i < l.size(); ++i) {
                    if (l[i] == '[') ++depth;
                    else if (l[i] == ']') { if (depth) --depth; }
                    else if (l[i] == '\\') ++i;
                    else if (isspace((unsigned char)l[i]) && !depth) break;
                }
                if (i >= l.size()) break;
                size_t j = i;
                while (j < l.size() && isspace((unsigned char)l[j])) ++j;
                if (j == l.size()) break;
                args.back() = l.substr(0, i);
                args.push_back(l.substr(j));
            }
    }
};

// ---- scopes
struct Def;
struct Scope { std::map<std::string, Def> defs; Scope* up; };
typedef std::vector<int> Body; // of pieces, see run()
struct Def { std::vector<std::string> params; std::string body; Scope* home; };

static const char* items[] = {
    "[template a[] 1]", "[a]", "[template b[] [a]]", "[b]", "[template c[a] [a][b]]", "[c x]", "[template d[] [template a[] 4][a][b]]", "[d]", "[c [a]]", "[c [c y]]",
    "[include G.qbk]", "[e]", "[template f[] [include G.qbk][e]]", "[f]", "[note [template a[] 5]]", "[template g[b] [template a[] 6][b]]", "[g [a]]", "[import I.qbk]", "[h]",
    "[template ab[] 7]", "[ab]", "[`a]", "[template i[] [template j[] [a]][template a[] 8][j]]", "[i]", "[a][template a[] 9]", "[template r[] [r][r]]", "[r]", "[template s[x] [x][s [x]]]", "[s y]", "[include K.qbk]",
    "[template k[x a] [x][a][b]]", "[k [a]..[b]]", "[template l[a] [k [b]..[a]]]", "[l [a]5]"};
static const int NI = sizeof items / sizeof *items;
static const char* GTEXT = "[template e[] E[a]]\n[template a[] 2]\n[a][e]\n";
static const char* KTEXT = "[include G.qbk]\n\n[a][e]K\n";
static const char* ITEXT = "[template h[] H[a]]\n[template a[] 3]\nno\n";

struct Ref {
    std::vector<std::unique_ptr<Scope>> own;
    Scope* cur;
    int errors = 0;
    bool dead = false; // endless recursion
    std::string out;
    Ref() { cur = 0; cur = open(0); }
    Scope* open(Scope* up) { own.emplace_back(new Scope{{}, up}); return own.back().get(); }
    Def* find(std::string const& n)
    {
        for (Scope* s = cur; s; s = s->up) if (s->defs.count(n)) return &s->defs[n];
        return 0;
    }
    // a small reading of the language: definitions, calls, includes and plain text
    static size_t match(std::string const& s, size_t i)
    {
        int d = 0;
        for (; i < s.size(); ++i) { if (s[i] == '[') ++d; if (s[i] == ']' && !--d) return i; }
        return s.size();
    }
    void add(std::string const& n, Def const& d) { if (!cur->defs.emplace(n, d).second) ++errors; }
    void run(std::string const& s, bool imported = false, int depth = 0)
    {
        for (size_t i = 0; i < s.size();) {
            if (s[i] != '[') { if (!imported) out += s[i]; ++i; continue; }
            size_t e = match(s, i);
            std::string in = s.substr(i + 1, e - i - 1);
            i = e + 1;
            if (in.compare(0, 9, "template ") == 0) {
                size_t b = in.find('['), c = in.find(']', b);
                Def d;
                std::istringstream names(in.substr(b + 1, c - b - 1));
                for (std::string w; names >> w;) d.params.push_back(w);
                d.body = in.substr(c + 1);
                d.home = cur;
                add(in.substr(9, b - 9), d);
                continue;
            }
            if (in.compare(0, 5, "note ") == 0) { run(in.substr(5), imported, depth); continue; }
            if (in == "include G.qbk") { if (imported) continue; Scope* k = cur; cur = open(cur); run(GTEXT, false, depth); cur = k; continue; }
            if (in == "include K.qbk") { if (imported) continue; Scope* k = cur; cur = open(cur); run(KTEXT, false, depth); cur = k; continue; }
            if (in == "import I.qbk") { run(ITEXT, true, depth); continue; }
            if (imported) continue;
            bool esc = in[0] == '`';
            if (esc) in.erase(0, 1);
            size_t sp = in.find(' ');
            std::string n = in.substr(0, sp), arg = sp == std::string::npos ? "" : in.substr(sp + 1);
            Def* d = find(n);
            if (!d) { out += "["; if (esc) out += "`"; out += n; if (arg.size()) { out += " "; run(arg, false, depth); } out += "]"; continue; }
            if (esc) { out += d->body; continue; }
            std::vector<std::string> args;
            if (arg.size()) args.push_back("");
            for (size_t k = 0, nest = 0; k < arg.size(); ++k) {
                nest += arg[k] == '[', nest -= arg[k] == ']';
                if (!nest && arg.compare(k, 2, "..") == 0) args.push_back(""), ++k;
                else args.back() += arg[k];
            }
            if (args.size() != d->params.size()) { ++errors; continue; }
            if (depth > 12) { ++errors; dead = true; }
            if (dead) return;
            Def copy = *d;
            Scope* k = cur;
            cur = open(copy.home);
            for (size_t j = 0; j < args.size(); ++j) cur->defs[copy.params[j]] = Def{{}, args[j], k};
            run(copy.body, false, depth + 1);
            cur = k;
        }
    }
};

struct H : mc::Harness {
    H() { rule = "every template call whose arguments are up to N tokens (separators, spaces, brackets, escapes, code, comments), for templates of up to three parameters, and every sequence of up to N definitions, calls, includes and imports; compared with a reference expansion; non-trivial with an expansion"; case_timeout = 15; }
    void enumerate(mc::Sink& s)
    {
        for (char v : {'7', '6', '5', '4'})
            for (int k = 0; k <= (v == '7' && thorough ? 3 : 2); ++k)
                for (char p : {'0', '1', '2', '3'})
                    mc::tuples(NT, k, [&](std::vector<size_t> const& ix) { std::string c{'A', v, p}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
        for (char v : {'7', '6', '5', '4'})
            for (char p : {'0', '1', '2', '3', '4', '9'})
                mc::pump(NT, 2, {2, 6}, [&](std::vector<size_t> const& ix) { std::string c{'A', v, p}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
        for (char v : {'7', '6'}) mc::pump(NI, 2, {3}, [&](std::vector<size_t> const& ix) { if (ix.size() > 3 && v == '6') return; std::string c{'B', v}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
        for (char v : {'7', '6'})
            for (int k = 0; k <= 3; ++k)
                if (k < 3 || thorough || v == '7') mc::tuples(k == 3 && !thorough ? 17 : NI, k, [&](std::vector<size_t> const& ix) { std::string c{'B', v}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
    }
    static void put(html::Node* n, std::string& out)
    {
        if (n->name.empty()) { out += n->text; return; }
        for (auto& k : n->kids) if (!(k->name == "title" && n->name == "article")) put(k.get(), out);
    }
    qbk::Result conv(std::string const& body, char v, std::string& text, std::string& err)
    {
        static std::string at;
        if (at != qbk::dir()) { at = qbk::dir(); qbk::spit(at + "/G.qbk", GTEXT); qbk::spit(at + "/I.qbk", ITEXT); qbk::spit(at + "/K.qbk", KTEXT); }
        qbk::Result q = qbk::convert(std::string("[article D\n[quickbook 1.") + v + "]\n[source-mode teletype]\n]\n" + body);
        text.clear();
        err.clear();
        if (q.rc) return q;
        auto tree = html::parse(q.text, err, false);
        if (!tree) return q;
        put(tree.get(), text);
        text = squash(text);
        return q;
    }
    static const char* defs() { return "[template u[x] U[x]]\n[template v[] V]\n[template t0[] 0]\n[template t1[x] 1[x];]\n[template t2[x y] 1[x]2[y];]\n[template t3[x y z] 1[x]2[y]3[z];]\n[template t4[x y z xx] 1[x]2[y]3[z]4[xx];]\n[template t9[x y z xx yy zz xy yx zx] 1[x]2[y]3[z]4[xx]5[yy]6[zz]7[xy]8[yx]9[zx];]\n\n"; }
    // one call; returns false when it has to be skipped
    bool call(std::string const& raw, int params, std::string& doc, std::string& want, bool& error, char v)
    {
        if (v < '6') for (size_t i = 0; i < raw.size(); ++i) if (strchr("[`\\'", raw[i]) && raw.compare(i, 3, "[v]") && (v == '4' || raw.compare(i, 5, "[u b]"))) return false;
        if (raw.find("\n ") != std::string::npos || raw.find("\n\n") != std::string::npos) return false; // code, paragraphs
        Args a(raw, params, v < '5');
        doc = "w[t" + std::to_string(params) + " " + raw + "]w";
        error = false;
        if (!a.ok) {
            want = "w[t" + std::to_string(params) + Args::text(raw) + "]w";
            return true;
        }
        if ((int)a.args.size() != params) { error = true; return true; }
        want = "w";
        if (!params) want += "0";
        for (int k = 0; k < params; ++k) want += std::to_string(k + 1) + Args::text(a.args[k]);
        want += params ? ";w" : "w";
        return true;
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        char v = c[1];
        std::string text, err;
        if (c[0] == 'A') {
            int params = c[2] - '0';
            std::string pre, good, bad, want;
            std::vector<std::string> all;
            std::vector<int> lines;
            int line = 5 + (int)std::count(defs(), defs() + strlen(defs()), '\n');
            for (size_t k = 3; k < c.size(); ++k) pre += toks[c[k] - 'a'];
            auto add = [&](std::string const& raw) {
                std::string d, w;
                bool e;
                if (!call(raw, params, d, w, e, v)) return;
                x.step();
                if (e) { lines.push_back(line); bad += d + "\n\n"; line += 2 + (int)std::count(d.begin(), d.end(), '\n'); }
                else { good += d + "\n\n"; want += w; all.push_back(raw); x.nontrivial(); }
            };
            if (c.size() == 3) { add(""); for (int a = 0; a < NT; ++a) add(toks[a]); }
            for (int a = 0; a < NT; ++a) for (int b = 0; b < NT; ++b) add(pre + toks[a] + toks[b]);
            qbk::Result q = conv(defs() + good, v, text, err);
            if (q.rc || err.size() || text != squash(want)) {
                for (auto& raw : all) {
                    std::string d, w;
                    bool e;
                    call(raw, params, d, w, e, v);
                    q = conv(defs() + d, v, text, err);
                    if (q.rc) return x.fail("rejected " + mc::show(d) + ": " + q.err);
                    if (text != squash(w)) return x.fail(mc::show(d) + " gives " + text + " instead of " + squash(w) + " " + err);
                }
                return x.fail("calls influence each other: " + q.err);
            }
            x.state(want);
            if (lines.size()) {
                q = conv(defs() + bad, v, text, err);
                if (qbk::error_lines(q.err) != lines) {
                    std::string d;
                    for (int l : qbk::error_lines(q.err)) d += std::to_string(l) + " ";
                    return x.fail("wrong numbers of arguments not all reported in " + mc::show(bad) + ", on lines " + d);
                }
            }
            return;
        }
        for (int a = 0; a < NI; ++a) {
            std::string seq = c.substr(2) + char('a' + a), doc;
            if (v == '6' && seq.find('o') != std::string::npos) continue; // no definitions in nested blocks there
            Ref r;
            for (char t : seq) {
                std::string it = "w" + std::string(items[(unsigned char)t - 'a']);
                r.run(it);
                if (v == '6') // definitions and includes only in block templates there
                    for (const char* m : {"] [template", "] [include"}) { size_t k = it.find(m); if (k != std::string::npos) it[k + 1] = '\n'; }
                doc += it + "\n\n";
            }
            doc += "[a][e][h]\n";
            r.run("[a][e][h]");
            x.step();
            qbk::Result q = conv(doc, v, text, err);
            if (err.size()) return x.fail("ill-formed: " + err);
            if ((q.rc != 0) != (r.errors != 0)) return x.fail(mc::show(doc) + (r.errors ? ": no error" : ": rejected: " + q.err));
            if (!q.rc && text != squash(r.out)) return x.fail(mc::show(doc) + ": got " + text + " instead of " + squash(r.out));
            if (!q.rc) x.nontrivial();
            x.state(q.rc ? "e" : text);
        }
    }
};
MC_MAIN(H)
