// Paragraphs, lists and code blocks from indentation.
// Case: <t top level, n inside a block; upper case: core kinds only><lines>, a prefix of line kinds; every way of adding two more lines is one part of the document,
// the parts are separated by a paragraph at the margin.
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

// line kinds: @ is replaced by a number
static const char* kinds[] = {"", "w@", " w@", "  w@", "    w@", "* w@", " * w@", "  * w@", "   # w@", "# w@", "\tw@", "  # w@", "----", "[heading h@]", "    * w@", "[/c@]", "  [heading h@]", "w@ [/c\n\nc]", " [/c@] w@"};
static const char letters[] = "0123456789abcdefghijklmnop";

struct L { char mark; unsigned indent, indent2; };

struct Ref {
    std::string const& s;
    std::string out; // events
    std::vector<L> st;
    unsigned list_indent = 0;
    bool error = false;
    std::vector<int> lines; // of errors
    bool nested = false; // inside a block element, where nothing is code
    explicit Ref(std::string const& s_) : s(s_) {}
    bool bl(size_t i) { return i < s.size() && (s[i] == ' ' || s[i] == '\t'); }
    bool nl(size_t i) { return i < s.size() && s[i] == '\n'; }
    static unsigned width(std::string const& t)
    {
        unsigned n = 0;
        for (char c : t) n = c == '\t' ? n + 4 - n % 4 : n + 1;
        return n;
    }
    size_t comment(size_t i)
    {
        if (s.compare(i, 2, "[/")) return 0;
        size_t e = s.find(']', i);
        return e == std::string::npos ? 0 : e + 1;
    }
    size_t blank(size_t i) { for (;;) { if (bl(i)) ++i; else if (size_t e = comment(i)) i = e; else return i; } }
    size_t eols(size_t i) { for (;;) { size_t k = blank(i); if (!nl(k)) return i; i = k + 1; } }
    void close_item() { out += "/"; }
    void close_list() { out += ")"; st.pop_back(); }
    static std::string trim(std::string t)
    {
        std::string r;
        for (char c : t) { if (c == ' ' || c == '\n' || c == '\t') { if (r.size() && r.back() != ' ') r += ' '; } else r += c; }
        while (r.size() && r.back() == ' ') r.pop_back();
        return r;
    }
    void flush(std::string& t)
    {
        t = trim(t);
        if (t.size()) out += "P:" + t + ";";
        t.clear();
    }
    void run()
    {
        size_t i = eols(0);
        while (i < s.size()) {
            size_t k = i;
            while (bl(k)) ++k;
            size_t m = k, e = k;
            bool marked = k < s.size() && (s[k] == '*' || s[k] == '#');
            if (marked) { e = k + 1; while (bl(e)) ++e; }
            unsigned in = width(s.substr(i, k - i)), in2 = width(s.substr(i, e - i));
            unsigned base = st.empty() ? 0 : st.back().indent2;
            bool code = false;
            if (!marked) {
                if (in > base) code = !nested || st.size();
                else {
                    while (st.size() && in < st.back().indent) { close_item(); close_list(); list_indent = st.empty() ? 0 : st.back().indent; }
                    // beside the marker: part of the outer text if it is not further in than that
                    if (st.size() && in == st.back().indent) {
                        unsigned outer = st.size() > 1 ? st[st.size() - 2].indent2 : 0;
                        if (in <= outer) { close_item(); close_list(); list_indent = st.empty() ? 0 : st.back().indent; }
                    }
                }
            }
            else if (st.empty() && in > 0 && !nested) code = true;
            else {
                char mk = s[m];
                if (st.empty() || in > list_indent) { st.push_back({mk, in, in2}); out += std::string("L") + mk + "("; }
                else {
                    if (in < list_indent) while (st.size() && in < st.back().indent) { close_item(); close_list(); }
                    if (st.size()) close_item();
                    else { st.push_back({mk, in, in2}); out += std::string("L") + mk + "("; }
                }
                list_indent = in;
                if (mk != st.back().mark) { error = true; lines.push_back(1 + std::count(s.begin(), s.begin() + i, '\n')); }
                out += "I";
            }
            if (code) {
                std::vector<std::string> ls;
                size_t end = i;
                for (;;) {
                    size_t p = end;
                    std::vector<std::string> skipped;
                    for (;;) { size_t q = p; while (bl(q)) ++q; if (!nl(q)) break; if (ls.empty()) break; skipped.push_back(s.substr(p, q - p)); p = q + 1; }
                    size_t q = p;
                    while (bl(q)) ++q;
                    if (q >= s.size() || nl(q) || width(s.substr(p, q - p)) <= base) break;
                    for (auto& x : skipped) ls.push_back(x);
                    size_t z = s.find('\n', p);
                    if (z == std::string::npos) z = s.size();
                    ls.push_back(s.substr(p, z - p));
                    end = std::min(z + 1, s.size());
                    if (z >= s.size()) break;
                }
                out += "C:" + unindent(ls) + ";";
                i = eols(end);
                continue;
            }
            if (!marked && s.compare(i, 4, "----") == 0) {
                size_t z = s.find('\n', i);
                out += "R;";
                i = eols(z == std::string::npos ? s.size() : z);
                continue;
            }
            size_t p = marked ? e : i;
            std::string t;
            while (p < s.size()) {
                if (nl(p)) {
                    size_t q = p + 1;
                    while (bl(q)) ++q;
                    if (q >= s.size() || nl(q) || (st.size() && (s[q] == '*' || s[q] == '#'))) { p = eols(p + 1); break; }
                }
                if (s.compare(p, 9, "[heading ") == 0) {
                    flush(t);
                    size_t z = s.find(']', p);
                    out += "H:" + s.substr(p + 9, z - p - 9) + ";";
                    p = z + 1;
                    size_t q = blank(p);
                    if (nl(q)) { p = eols(q + 1); break; }
                    continue;
                }
                if (size_t z = comment(p)) { p = z; continue; }
                t += s[p++];
            }
            flush(t);
            i = p;
        }
        while (st.size()) { close_item(); close_list(); }
    }
    static std::string unindent(std::vector<std::string> const& lines)
    {
        auto ind = [](std::string const& l) { size_t k = 0; while (k < l.size() && (l[k] == ' ' || l[k] == '\t')) ++k; return k; };
        size_t id = 1 << 20, full = 1 << 20;
        for (auto& l : lines) if (ind(l) < l.size()) { id = std::min(id, ind(l)); full = std::min<size_t>(full, width(l.substr(0, ind(l)))); }
        bool mixed = false;
        for (auto& l : lines) if (ind(l) >= id && l.substr(0, id) != lines[0].substr(0, id)) mixed = true;
        std::string r;
        for (size_t k = 0; k < lines.size(); ++k) {
            auto& l = lines[k];
            if (k) r += '\n';
            if (mixed) { size_t w = width(l.substr(0, ind(l))); r += std::string(w > full ? w - full : 0, ' ') + l.substr(ind(l)); }
            else r += l.substr(std::min(id, ind(l)));
        }
        return r;
    }
};

static void events(html::Node* n, std::string& out, std::string& text)
{
    auto flush = [&] { text = Ref::trim(text); if (text.size()) out += "P:" + text + ";"; text.clear(); };
    for (auto& k : n->kids) {
        std::string const& e = k->name;
        if (e.empty()) text += k->text;
        else if (e == "para" || e == "simpara") {
            flush();
            if (k->kids.empty() && e == "para") out += "R;";
            events(k.get(), out, text);
            flush();
        }
        else if (e == "itemizedlist" || e == "orderedlist") { flush(); out += e == "itemizedlist" ? "L*(" : "L#("; events(k.get(), out, text); flush(); out += ")"; }
        else if (e == "listitem") { flush(); out += "I"; events(k.get(), out, text); flush(); out += "/"; }
        else if (e == "programlisting") { flush(); std::string t = k->all(); if (t.size() && t.back() == '\n') t.pop_back(); out += "C:" + t + ";"; }
        else if (e == "bridgehead") { flush(); out += "H:" + Ref::trim(k->all()) + ";"; }
        else events(k.get(), out, text);
    }
}

struct H : mc::Harness {
    H() { rule = "every document of up to N lines from a menu of line kinds (text, list items and code at several indentations, headings, rules, comments, blank lines), compared with a reference block parser; non-trivial when it has a list or code block"; case_timeout = 15; }
    void enumerate(mc::Sink& s)
    {
        size_t all = sizeof kinds / sizeof *kinds;
        for (char m : {'T', 'N'})
            mc::pump(12, 2, {3, 6}, [&](std::vector<size_t> const& ix) { if (m == 'N' && ix.size() > 6) return; std::string c(1, m); for (size_t i : ix) c += letters[i]; s.emit(c); });
        for (char m : {'t', 'n'}) {
            for (int n = 0; n <= (m == 't' ? 3 : 2); ++n)
                mc::tuples(all, n, [&](std::vector<size_t> const& ix) { std::string c(1, m); for (size_t i : ix) c += letters[i]; s.emit(c); });
            for (int n = 3; n <= (thorough ? 4 : 3); ++n) // one more line, from the core kinds
                if (n > (m == 't' ? 3 : 2)) mc::tuples(12, n, [&](std::vector<size_t> const& ix) { std::string c(1, char(m - 32)); for (size_t i : ix) c += letters[i]; s.emit(c); });
        }
    }
    bool nested = false;
    static std::string header(const char* v) { return std::string("[article T\n[quickbook ") + v + "]\n[source-mode teletype]\n]\n\n"; }
    static std::string text(std::string const& ks)
    {
        std::string r;
        int n = 0;
        for (char c : ks) {
            for (const char* p = kinds[strchr(letters, c) - letters]; *p; ++p) { if (*p == '@') r += std::to_string(n); else r += *p; }
            r += '\n';
            ++n;
        }
        return r;
    }
    std::string convert(std::string const& doc, qbk::Result& q, mc::Ctx& x)
    {
        q = qbk::convert(header("1.7") + (nested ? "[:\n" + doc + "]\n" : doc));
        if (q.rc) return "";
        std::string err;
        auto root = html::parse(q.text, err, false);
        if (!root) { x.fail("ill-formed output: " + err); return ""; }
        html::Node* art = 0;
        root->walk([&](html::Node* n) { if (n->name == "article") art = n; });
        if (!art) { x.fail("no document element"); return ""; }
        std::string out, t;
        for (size_t k = 0; k < art->kids.size(); ++k) if (art->kids[k]->name == "title") { art->kids.erase(art->kids.begin() + k); break; }
        if (nested) {
            html::Node* in = 0;
            for (auto& k : art->kids) if (k->name == "blockquote") in = k.get();
            if (!in) { x.fail("no block element"); return ""; }
            events(in, out, t);
        }
        else events(art, out, t);
        return out;
    }
    bool one(std::string const& ks, mc::Ctx& x)
    {
        std::string d = text(ks);
        Ref r(d);
        r.nested = nested;
        r.run();
        qbk::Result q;
        std::string got = convert(d, q, x);
        if (x.failed) return false;
        if (r.error) {
            if (!q.rc) x.fail("no error for " + mc::show(d));
            std::vector<int> el = qbk::error_lines(q.err), want;
            for (int l : r.lines) want.push_back(l + 5 + nested);
            if (el != want) x.fail("errors on other lines than expected for " + mc::show(d) + ": " + q.err);
            return !x.failed;
        }
        if (q.rc) { x.fail("rejected " + mc::show(d) + ": " + q.err); return false; }
        if (got != r.out) { x.fail(mc::show(d) + ": got " + got + " want " + r.out); return false; }
        return true;
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        std::string pre = c, doc, want;
        size_t n = sizeof kinds / sizeof *kinds;
        nested = tolower(pre[0]) == 'n';
        if (isupper(pre[0])) n = 12;
        pre.erase(0, 1);
        std::vector<std::string> parts, bad;
        auto add = [&](std::string const& ks) {
            std::string d = text(ks);
            Ref r(d);
            r.nested = nested;
        r.run();
            x.step();
            if (r.out.find("L") != std::string::npos || r.out.find("C:") != std::string::npos) x.nontrivial();
            if (r.error) { bad.push_back(ks); return; }
            parts.push_back(ks);
            doc += d + "\nsep\n\n";
            want += r.out + "P:sep;";
        };
        for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) add(pre + letters[a] + letters[b]);
        if (pre.empty()) for (size_t a = 0; a < n; ++a) add(std::string(1, letters[a]));
        qbk::Result q;
        std::string got = convert(doc, q, x);
        if (x.failed) return;
        if (q.rc || got != want) {
            for (auto& p : parts) if (!one(p, x)) return;
            return x.fail("parts of one document influence each other");
        }
        for (auto& p : bad) if (!one(p, x)) return;
        x.state(want);
    }
};
MC_MAIN(H)
