// Code snippets taken from C++ and Python files, with quickbook comments, hidden code and callouts.
// Case: <c|p><version><i import, n include><tokens>, extended by every token
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"
#include "unindent.hpp"
#include <set>

static const char* ctoks[] = {"k;\n", "  j;\n", "//[a\n", "//]\n", "//[b x\n", "//`q\n", "/*`z*/", "//<-\nh\n//->\n", "/*<-*/h/*->*/", "/*<- h ->*/", "//=p\n", "/*=o*/", "/*[a*/", "/*]*/",
                              "\n", "\t", "i", "/*< d >*/", "//`[b]\n", "  //`r\n", "/*<< f >>*/", "/*[b*/", "//==\n", "/*==*/", "g//<-\nh\n//->  \n"};
static const char* ptoks[] = {"k\n", "  j\n", "#[a\n", "#]\n", "#[b x\n", "#`q\n", "\"\"\"`z\"\"\"", "#<-\nh\n#->\n", "\"\"\"<-\"\"\"h\"\"\"->\"\"\"", "\"\"\"<- h ->\"\"\"", "#=p\n", "\"\"\"=o\"\"\"", " #[b\n", " #]\n",
                              "\n", "\t", "i", "#< d\n", "#`[b]\n", "  #`r\n", "#==l\n", "\"\"\"==n\"\"\""};
static const int NC = sizeof ctoks / sizeof *ctoks, NPY = sizeof ptoks / sizeof *ptoks;

static bool blank(char c) { return c == ' ' || c == '\t'; }
static bool at(std::string const& s, size_t i, std::string const& w) { return s.compare(i, w.size(), w) == 0; }
static size_t blanks(std::string const& s, size_t i) { while (i < s.size() && blank(s[i])) ++i; return i; }
static size_t eol(std::string const& s, size_t i) { size_t k = s.find('\n', i); return k == std::string::npos ? s.size() : k; }
static const char sep = 1;
// whether quickbook comments that follow each other make one paragraph or several is not looked at, but their words stay apart
static std::string joined(std::string const& s)
{
    std::string r;
    bool para = false;
    for (auto& k : mc::split(s, sep)) {
        if (k.empty()) continue;
        if (k[0] == 'P' && para) { r.pop_back(); r += ' ' + k.substr(1) + sep; continue; }
        para = k[0] == 'P';
        r += k + sep;
    }
    return r;
}
static const size_t no = std::string::npos;

struct Piece { char kind; std::string text; }; // code, quickbook, start, end
struct Ref {
    std::vector<Piece> ev;
    std::map<std::string, std::vector<Piece>> snip;
    std::vector<std::vector<Piece>> loose; // quickbook outside of snippets
    int errors = 0, redefined = 0;
    bool py;
    std::string open, quick, hide, show_, lq, lh; // one line marks

    static void code(std::vector<Piece>& v, std::string const& t)
    {
        if (t.empty()) return;
        if (v.size() && v.back().kind == 'k') v.back().text += t;
        else v.push_back({'k', t});
    }
    static std::string name(std::string const& s, size_t i) { size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j; return s.substr(i, j - i); }
    // a marker on a line: the newline before and the rest of the line belong to it
    static size_t line_mark(std::string const& s, size_t i, std::string const& m)
    {
        i = blanks(s, i);
        if (i < s.size() && s[i] == '\n') i = blanks(s, i + 1);
        return at(s, i, m) ? i + m.size() : no;
    }
    // a marker alone on a line
    static size_t own_line(std::string const& s, size_t i, std::string const& m)
    {
        i = blanks(s, i);
        if (i >= s.size() || s[i] != '\n') return no;
        i = blanks(s, i + 1);
        if (!at(s, i, m)) return no;
        i = blanks(s, i + m.size());
        return i < s.size() && s[i] == '\n' ? i : no;
    }
    static size_t between(std::string const& s, size_t i, std::string const& a, std::string const& b, std::string* t = 0)
    {
        if (!at(s, i, a)) return no;
        size_t k = s.find(b, i + a.size());
        if (k == no) return no;
        if (t) *t = s.substr(i + a.size(), k - i - a.size());
        return k + b.size();
    }
    Ref(std::string const& s, bool py_) : py(py_)
    {
        std::string c = py ? "#" : "//", o = py ? "\"\"\"" : "/*", e = py ? "\"\"\"" : "*/";
        for (size_t i = 0; i < s.size();) {
            size_t n;
            std::string id, t;
            // start
            n = line_mark(s, i, c + "[");
            if (n != no) { id = name(s, blanks(s, n)); if (id.size()) { ev.push_back({'[', id}); i = eol(s, n); continue; } }
            if (!py) {
                bool got = false;
                for (std::string k : {"a", "b"}) {
                    n = own_line(s, i, "/*[" + k + "*/");
                    if (n == no && at(s, i, "/*[" + k + "*/")) n = i + 6;
                    if (n != no) { ev.push_back({'[', k}); i = n; got = true; break; }
                }
                if (got) continue;
            }
            // end
            n = line_mark(s, i, c + "]");
            if (n != no) { ev.push_back({']', ""}); i = eol(s, n); continue; }
            if (!py) {
                n = own_line(s, i, "/*]*/");
                if (n == no && at(s, i, "/*]*/")) n = i + 5;
                if (n != no) { ev.push_back({']', ""}); i = n; continue; }
            }
            // quickbook
            size_t w = i;
            while (w < s.size() && isspace((unsigned char)s[w])) ++w;
            if (at(s, w, c + "`")) { n = eol(s, w); ev.push_back({'q', s.substr(w + c.size() + 1, n - w - c.size() - 1)}); i = std::min(s.size(), n + 1); continue; }
            n = between(s, w, o + "`", e, &t);
            if (n != no) { ev.push_back({'q', t}); i = n; continue; }
            // hidden
            n = between(s, blanks(s, i), c + "<-", c + "->");
            if (n != no) { n = blanks(s, n); if (n < s.size() && s[n] == '\n') { ev.push_back({'h', ""}); i = n + 1; continue; } if (py && n == s.size()) { ev.push_back({'h', ""}); i = n; continue; } }
            n = between(s, i, o + "<-" + e, o + "->" + e);
            if (n == no) n = between(s, i, o + "<-", "->" + e);
            if (n != no) { ev.push_back({'h', ""}); i = n; continue; }
            // shown
            if (at(s, i, c + "=") && !at(s, i, c + "==")) { n = std::min(s.size(), eol(s, i) + 1); ev.push_back({'s', s.substr(i + c.size() + 1, n - i - c.size() - 1)}); i = n; continue; }
            n = between(s, i, o + "=", e, &t);
            if (n != no && !at(s, i, o + "==")) { ev.push_back({'s', t}); i = n; continue; }
            ev.push_back({'k', s.substr(i, 1)});
            ++i;
        }
        // snippets
        struct Open { std::string id; std::vector<Piece> v; };
        std::vector<Open> st;
        auto done = [&]() {
            if (!snip.emplace(st.back().id, st.back().v).second) ++redefined;
            st.pop_back();
        };
        for (auto& p : ev) {
            if (p.kind == '[') st.push_back({p.text, {}});
            else if (p.kind == ']') { if (st.empty()) ++errors; else done(); }
            else if (p.kind == 'q' && st.empty()) { if (p.text.size()) loose.push_back({p}); }
            else for (auto& o2 : st) { if (p.kind == 'q') o2.v.push_back(p); else if (p.kind != 'h') code(o2.v, p.text); }
        }
        while (st.size()) { ++errors; done(); }
    }
    static std::string unindent(std::string const& t)
    {
        std::string r = ::unindent::ref(t);
        while (r.size() && isspace((unsigned char)r.back())) r.pop_back();
        return r;
    }
    // what calling the pieces writes
    void write(std::vector<Piece> const& v, std::string& out, std::string& calls, int depth)
    {
        if (depth > 5) { out += "!"; return; }
        for (auto& p : v) {
            if (p.kind == 'k') {
                std::string t, k = p.text;
                for (size_t i = 0; i < k.size();) { // callouts
                    std::string d;
                    size_t n = py ? no : between(k, i, "/*<<", ">>*/", &d);
                    if (n != no) { while (n < k.size() && isspace((unsigned char)k[n])) ++n; }
                    else if (!py) n = between(k, i, "/*<", ">*/", &d);
                    else if (at(k, i, "#<")) { n = eol(k, i); d = k.substr(i + 2, n - i - 2); }
                    if (n != no) { t += "@"; std::string w; for (char ch : d) if (!isspace((unsigned char)ch)) w += ch; calls += "L" + w + sep; i = n; }
                    else t += k[i++];
                }
                t = unindent(t);
                if (t.size()) out += "C" + t + sep;
                continue;
            }
            std::string t = p.text;
            size_t b = 0;
            while (b < t.size() && isspace((unsigned char)t[b])) ++b;
            t = t.substr(b);
            if (t == "[b]" && snip.count("b")) write(snip["b"], out, calls, depth + 1);
            else if (t.size()) out += "P" + t + sep;
        }
    }
};

struct H : mc::Harness {
    H() { rule = "every C++ and Python source file of up to N tokens (snippet marks, code, quickbook comments, hidden and shown comments, callouts), imported and included; code, text and callouts of every snippet compared with a reference reading; non-trivial with a snippet"; case_timeout = 15; }
    // code is highlighted as the language of the file, whatever the document's source mode
    static std::string lang_unit(bool py, char t)
    {
        switch (t) {
        case 'k': return "def int\n";
        case '=': return py ? "#=def int\n" : "//=def int\n";
        case 'b': return py ? "\"\"\"=def int\"\"\"\n" : "/*=def int*/\n";
        case '[': return py ? "#[a\n" : "//[a\n";
        case '{': return py ? "#[b\n" : "//[b\n";
        case ']': return py ? "#]\n" : "//]\n";
        case 'q': return py ? "#`q\n" : "//`q\n";
        case 'h': return py ? "#<-\ndef int\n#->\n" : "//<-\ndef int\n//->\n";
        case 'c': return py ? "int #< w\n" : "int /*< w >*/\n";
        case 'm': return py ? "#`[c++] `int``\n" : "//`[python]\n";
        }
        return "";
    }
    void lang(const std::string& c, mc::Ctx& x)
    {
        bool py = c[1] == 'p', inc = c[3] == 'n';
        static const std::map<char, std::string> modes{{'0', ""}, {'c', "[source-mode c++]\n"}, {'p', "[source-mode python]\n"}, {'t', "[source-mode teletype]\n"}};
        std::string f = qbk::fresh(py ? ".py" : ".cpp"), src, doc = std::string("[article D\n[quickbook 1.") + c[2] + "]\n[id d]\n" + modes.at(c[4]) + "]\n\n";
        int depth = 0, shown = 0;
        std::set<char> defined;
        std::vector<char> open;
        for (char t : c.substr(6)) {
            src += lang_unit(py, t);
            if (t == '[' || t == '{') { if (!defined.insert(t).second) return; open.push_back(t); }
            if (t == ']') { if (open.empty()) return; open.pop_back(); }
            if (strchr("k=bc", t)) shown += open.size();
        }
        (void)depth;
        if (open.size()) return;
        qbk::spit(f, src);
        if (inc) doc += "X\n\n[include " + f + "]\n\nY\n";
        else {
            doc += "[import " + f + "]\n\nX\n\n";
            for (char t : defined) doc += t == '[' ? "[a]\n\n" : "[b]\n\n";
            doc += "Y\n";
        }
        x.step();
        qbk::Result q = qbk::convert(doc);
        unlink(f.c_str());
        if (q.rc) return x.fail("rejected " + mc::show(src) + ": " + q.err);
        std::string err;
        auto tree = html::parse(q.text, err, false);
        if (!tree) return x.fail("ill-formed: " + err);
        int words = 0;
        tree->walk([&](html::Node* n) {
            if (x.failed || !n->name.empty()) return;
            bool listing = false;
            for (html::Node* u = n->up; u; u = u->up) if (u->name == "programlisting") listing = true;
            if (!listing) return;
            for (std::string w : {"def", "int"}) {
                size_t at = n->text.find(w);
                if (at == std::string::npos) continue;
                if (w == "int") ++words;
                std::string want = (w == "def") == py ? "keyword" : "identifier";
                if (n->text != w || n->up->get("role") != want) x.fail(w + " is " + n->up->name + " " + n->up->get("role") + " in " + (py ? "Python" : "C++") + " code, document " + modes.at(c[4]));
            }
        });
        if (x.failed) return;
        if (!inc && !x.eq("pieces of code", words, shown)) return;
        x.state(c);
        if (words) x.nontrivial();
    }
    void enumerate(mc::Sink& s)
    {
        for (char l : {'c', 'p'})
            for (char v : {'7', '6', '5'})
                for (char m : {'i', 'n'})
                    for (char d : {'0', 'c', 'p', 't'})
                        mc::strings({"k", "=", "b", "[", "{", "]", "q", "h", "c"}, 1, thorough ? 4 : 3, [&](std::string const& t) {
                            std::string w = m == 'i' ? "[" + t + "]" : t;
                            s.emit(std::string("S") + l + v + m + d + ":" + w);
                        });
        for (char l : {'c', 'p'})
            for (char v : {'7', '6'})
                for (char m : {'i', 'n'})
                    mc::pump(l == 'c' ? NC : NPY, 2, {3, 7}, [&](std::vector<size_t> const& ix) {
                        if (ix.size() > 7 && (v == '6' || m == 'n')) return;
                        std::string c{l, v, m};
                        for (size_t i : ix) c += char('a' + i);
                        s.emit(c);
                    });
        for (int n = 0; n <= (thorough ? 4 : 3); ++n)
            for (char l : {'c', 'p'})
                for (char v : {'7', '6'})
                    for (char m : {'i', 'n'})
                        mc::tuples(l == 'c' ? NC : NPY, n, [&](std::vector<size_t> const& ix) {
                            if (n == 3 && !thorough && (v == '6' || m == 'n') && ix[0] > 3) return;
                            if (n == 4 && ix[0] != 2 && (v == '6' || m == 'n' || (ix[0] != 4 && ix[0] != 12))) return; // those starting with a mark
                            std::string c{l, v, m};
                            for (size_t i : ix) c += char('a' + i);
                            s.emit(c);
                        });
    }
    static std::string words(std::string const& s) { std::string r, w; std::istringstream i(s); while (i >> w) r += (r.empty() ? "" : " ") + w; return r; }
    static std::string squash(std::string const& s) { std::string r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
    static void put(html::Node* n, std::string& out)
    {
        if (n->name.empty()) out += n->text;
        else if (n->name == "co") out += "@";
        for (auto& k : n->kids) put(k.get(), out);
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'S') return lang(c, x);
        bool py = c[0] == 'p', inc = c[2] == 'n';
        for (int a = 0; a < (py ? NPY : NC) && !x.failed; ++a) {
            std::string src;
            for (char k : c.substr(3) + char('a' + a)) src += (py ? ptoks : ctoks)[k - 'a'];
            one(src, c[1], py, inc, x);
        }
    }
    void one(std::string const& src, char v, bool py, bool inc, mc::Ctx& x)
    {
        std::string f = qbk::fresh(py ? ".py" : ".cpp");
        Ref r(src, py);
        qbk::spit(f, src);
        std::string doc = std::string("[article D\n[quickbook 1.") + v + "]\n[id d]\n]\n\n", want;
        bool endless = false;
        if (!inc) {
            doc += "[import " + f + "]\n\n";
            for (std::string id : {"a", "b"}) {
                doc += "X\n\n[" + id + "]\n\n";
                want += std::string("PX") + sep;
                if (!r.snip.count(id)) { want += "P[" + id + "]" + sep; continue; }
                std::string calls;
                r.write(r.snip[id], want, calls, 0);
                want += calls;
            }
            doc += "Y\n";
            want += std::string("PY") + sep;
        }
        else {
            doc += "X\n\n[include " + f + "]\n\nY\n";
            want += std::string("PX") + sep;
            for (auto& p : r.loose) { std::string calls; r.write(p, want, calls, 0); want += calls; }
            want += std::string("PY") + sep;
        }
        endless = want.find('!') != no;
        x.step();
        qbk::Result q = qbk::convert(doc);
        unlink(f.c_str());
        if (r.errors || r.redefined || endless) {
            if (!q.rc) x.fail("no error for " + mc::show(src));
            return;
        }
        if (q.rc) return x.fail("rejected " + mc::show(src) + ": " + q.err);
        std::string err, got;
        auto tree = html::parse(q.text, err, false);
        if (!tree) return x.fail("ill-formed: " + err);
        std::vector<std::pair<std::string, std::string>> cos, outs;
        std::vector<std::string> texts;
        tree->walk([&](html::Node* n) {
            if (n->name == "co") cos.push_back({n->get("id"), n->get("linkends")});
            if (n->name == "callout") { outs.push_back({n->get("arearefs"), n->get("id")}); got += "L" + squash(n->all()) + sep; }
            if (n->name == "para" && n->up->name != "callout") { std::string t = words(n->all()); if (t.size()) got += "P" + t + sep; }
            if (n->name == "programlisting") { std::string t; put(n, t); t = Ref::unindent(t); if (t.size()) got += "C" + t + sep; }
        });
        got = joined(got), want = joined(want);
        if (got != want) return x.fail(mc::show(src) + " gives " + mc::show(got) + " instead of " + mc::show(want));
        if (cos != outs) return x.fail("callouts and their marks in " + mc::show(src) + " do not belong together");
        x.state(got);
        if (r.snip.size() || r.loose.size()) x.nontrivial();
    }
};
MC_MAIN(H)
