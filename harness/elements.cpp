// Block elements nested in each other: every tree of elements, written in several layouts and language versions.
// Case: <layout><version><tree>. A tree is a sequence of elements: p, P text; e heading; r preformatted;
// n(..) admonitions and the like; o{..} i{..} lists of cells (..); t u w z tables of rows {cells}; v y variable lists of entries {cells}
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"
#include <memory>

static const char* boxes[] = {"note", "tip", "warning", "caution", "important", "blurb", ":"};
static const char* boxes_out[] = {"note", "tip", "warning", "caution", "important", "sidebar", "blockquote"};

// writes a tree as quickbook text and as the expected output
struct Writer {
    std::string const& c;
    size_t i = 0;
    char layout;
    int version, words = 0, box, tables = 0;
    std::string in, out;
    Writer(std::string const& c_, char l, int v, int b) : c(c_), layout(l), version(v), box(b) {}
    std::string word() { return "w" + std::to_string(words++); }
    void gap() // where layout is free
    {
        switch (layout) {
        case 'l': in += "\n  "; break;
        case 'c': in += " [/ c]\n"; break;
        case 'b': in += " "; break;
        }
    }
    void text(bool rich)
    {
        std::string w = word();
        if (!rich) { in += w; out += w; return; }
        in += w + " < *" + w + "* \\] [^" + w + "]";
        out += w + " < <emphasis bold>" + w + "</emphasis> ] <literal>" + w + "</literal>";
    }
    void seq()
    {
        char last = 0;
        for (; i < c.size() && !strchr(")}]", c[i]); last = c[i - 1]) {
            char k = c[i++];
            if (last) in += layout == 'l' ? "\n\n" : layout == 'c' ? "\n\n[/ c]\n\n" : strchr("pP", k) && layout == 'b' ? "\n" : "";
            if (last && strchr("pP", last) && strchr("pP", k) && layout != 'l' && layout != 'c') in += "\n\n";
            block(k);
        }
    }
    void cell(const char* tag)
    {
        ++i; // (
        in += "[";
        if (layout != '0') gap();
        out += std::string("<") + tag + ">";
        seq();
        out += std::string("</") + tag + ">";
        ++i;
        if (layout == 'l') in += "\n";
        in += "]";
        gap();
    }
    void block(char k)
    {
        switch (k) {
        case 'p': case 'P':
            out += "<para>"; text(k == 'P'); out += "</para>";
            break;
        case 'e':
            in += "[h3 "; out += "<bridgehead>"; text(true); in += "]"; out += "</bridgehead>";
            break;
        case 'r': { std::string w = word(); in += "[pre " + w + "\n < " + w + "]"; out += "<programlisting>" + w + "\n < " + w + "</programlisting>"; break; }
        case 'n': {
            int b = (box + words) % 7;
            in += std::string("[") + boxes[b];
            in += layout == 'l' ? "\n" : " ";
            cell_body(boxes_out[b]);
            in += "]";
            break;
        }
        case 'o': case 'i':
            in += k == 'o' ? "[ordered_list" : "[itemized_list";
            in += layout == '0' ? "" : " ";
            out += k == 'o' ? "<orderedlist>" : "<itemizedlist>";
            ++i;
            while (c[i] == '(') cell("listitem");
            ++i;
            in += "]";
            out += k == 'o' ? "</orderedlist>" : "</itemizedlist>";
            break;
        case 't': case 'u': case 'w': case 'z': table(k); break;
        case 'v': case 'y': {
            in += "[variablelist";
            out += "<variablelist><title>";
            if (k == 'y') {
                std::string w = word();
                in += " " + w + " & ";
                out += w + " & ";
                if (version < 106) { in += w; out += w; }
                else { in += "*" + w + "*"; out += "<emphasis bold>" + w + "</emphasis>"; }
            }
            in += version < 106 || layout == 'l' ? "\n" : " ";
            out += "</title>";
            ++i;
            while (c[i] == '{') {
                ++i;
                in += "[";
                gap();
                in += "[";
                out += "<varlistentry><term>";
                if (layout == 'b') in += " ";
                text(true);
                in += "]";
                gap();
                out += "</term><listitem>";
                while (c[i] == '(') cell("");
                out += "</listitem></varlistentry>";
                ++i;
                in += "]";
                gap();
            }
            ++i;
            in += "]";
            out += "</variablelist>";
            break;
        }
        }
    }
    void cell_body(std::string const& tag)
    {
        ++i;
        out += "<" + tag + ">";
        seq();
        out += "</" + tag + ">";
        ++i;
    }
    void table(char k)
    {
        bool title = k == 'u' || k == 'w', id = k == 'w' || k == 'z';
        std::string n = std::to_string(tables++), w;
        in += "[table";
        out += title ? "<table" : "<informaltable";
        if (id) { in += ":i" + n; out += " d.i" + n; }
        if (title) {
            w = word();
            if (!id) out += " d." + w + (version < 106 ? "___" : "_") + w;
            in += " " + w + " & ";
            out += "><title>" + w + " & ";
            if (version < 106) { in += w; out += w; }
            else { in += "*" + w + "*"; out += "<emphasis bold>" + w + "</emphasis>"; }
            out += "</title>";
        }
        else out += ">";
        in += version < 106 || layout == 'l' ? "\n" : " ";
        ++i; // [
        std::vector<std::string> rows;
        size_t width = 0;
        while (c[i] == '{') {
            ++i;
            in += "[";
            gap();
            std::string keep;
            keep.swap(out);
            width = 0;
            while (c[i] == '(') { cell("entry"); ++width; }
            ++i;
            in += "]";
            gap();
            keep.swap(out);
            rows.push_back("<row>" + keep + "</row>");
        }
        ++i;
        in += "]";
        out += "<tgroup " + std::to_string(width) + ">";
        if (rows.size() > 1) { out += "<thead>" + rows[0] + "</thead>"; rows.erase(rows.begin()); }
        out += "<tbody>";
        for (auto& r : rows) out += r;
        out += title ? "</tbody></tgroup></table>" : "</tbody></tgroup></informaltable>";
    }
};

struct H : mc::Harness {
    H() { rule = "every tree of block elements up to N nodes (text, headings, preformatted text, admonitions, lists, tables, variable lists), in every layout and language version; the structure of the output compared with the tree; non-trivial with nested elements"; case_timeout = 15; }
    std::map<int, std::vector<std::string>> seqs_, cells_, rows_;
    // sequences of elements of exactly n nodes; a cell costs nothing when not empty, an empty one costs 1
    std::vector<std::string> const& seqs(int n)
    {
        if (seqs_.count(n)) return seqs_[n];
        std::vector<std::string> r;
        if (n == 0) r.push_back("");
        for (int k = 1; k <= n; ++k) {
            std::vector<std::string> first;
            if (k == 1) first = {"p", "P", "e", "r", "t[]"};
            for (auto& s : seqs(k - 1)) first.push_back("n(" + s + ")");
            if (k >= 2)
                for (auto& s : cells(k - 1)) { first.push_back("o{" + s + "}"); if (k < 4) first.push_back("i{" + s + "}"); }
            if (k >= 2)
                for (auto& s : rows(k - 1, true))
                    for (char t : std::string(k < 4 ? "tuwz" : "tu")) first.push_back(t + ("[" + s + "]"));
            if (k >= 2)
                for (auto& s : rows(k - 1, false))
                    for (char t : std::string(k < 4 ? "vy" : "v")) first.push_back(t + ("[" + s + "]"));
            for (auto& f : first) for (auto& s : seqs(n - k)) r.push_back(f + s);
        }
        return seqs_[n] = r;
    }
    std::vector<std::string> const& cells(int n) // one or more cells
    {
        if (cells_.count(n)) return cells_[n];
        std::vector<std::string> r;
        for (int k = 1; k <= n; ++k) {
            std::vector<std::string> first = seqs(k);
            if (k == 1) first.push_back("");
            for (auto& f : first) {
                if (k == n) r.push_back("(" + f + ")");
                else for (auto& s : cells(n - k)) r.push_back("(" + f + ")" + s);
            }
        }
        return cells_[n] = r;
    }
    std::vector<std::string> const& rows(int n, bool)
    {
        if (rows_.count(n)) return rows_[n];
        std::vector<std::string> r;
        for (int k = 1; k <= n; ++k)
            for (auto& f : cells(k)) {
                if (k == n) r.push_back("{" + f + "}");
                else for (auto& s : rows(n - k, true)) r.push_back("{" + f + "}" + s);
            }
        return rows_[n] = r;
    }
    static bool deep_heading(std::string const& t)
    {
        int d = 0;
        for (char c : t) {
            if (strchr("({[", c)) ++d;
            if (strchr(")}]", c)) --d;
            if (c == 'e' && d) return true;
        }
        return false;
    }
    void enumerate(mc::Sink& s)
    {
        auto put = [&](std::string const& t) { if (!deep_heading(t)) for (char l : std::string("0c")) for (char v : std::string("67")) s.emit(std::string{l, v} + t); };
        // many elements after one another, many cells, many rows, and deep ones
        for (int n = 1; n <= (thorough ? 3 : 2); ++n)
            for (auto& t : seqs(n)) for (int r : {5, 12}) {
                std::string all, cells;
                for (int i = 0; i < r; ++i) { all += t; cells += "(" + t + ")"; }
                put(all);
                if (n < 3 && r == 5) for (std::string o : {"o{" + cells + "}", "i{" + cells + "}", "t[{" + cells + "}]", "u[{" + cells + "}{" + cells + "}]"}) put(o);
            }
        static const char* wraps[][2] = {{"n(", ")"}, {"o{(", ")}"}, {"i{(p)(", ")}"}, {"u[{(", ")}]"}, {"t[{(p)(", ")}{(p)}]"}, {"v[{(r)(", ")}]"}};
        mc::pump(6, 2, {2, 5}, [&](std::vector<size_t> const& ix) {
            for (std::string mid : {"p", "pr"}) {
                std::string t = mid;
                for (size_t i : ix) t = wraps[i][0] + t + wraps[i][1];
                put(t);
            }
        });
        for (int n = 1; n <= (thorough ? 5 : 4); ++n)
            for (auto& t : seqs(n)) {
                if (deep_heading(t)) continue; // not allowed there
                for (char l : std::string("0lbc"))
                    for (char v : std::string("567")) {
                        if (n == 4 && !thorough && l != "0lbc"[mc::hash(t) % 4]) continue;
                        if (n == 5 && (l != "0lbc"[mc::hash(t) % 4] || v != '7')) continue;
                        if (v == '5' && t.find_first_of("oi") != std::string::npos) continue;
                        s.emit(std::string{l, v} + t);
                    }
            }
    }
    static void put(html::Node* n, std::string& out, bool keep)
    {
        if (n->name.empty()) {
            for (char c : n->text) {
                if (keep || !isspace((unsigned char)c)) out += c;
                else if (out.size() && out.back() != ' ') out += ' ';
            }
            return;
        }
        std::string name = n->name == "simpara" ? "para" : n->name;
        if (name == "anchor") return;
        if (name == "phrase" || name == "link") { for (auto& k : n->kids) put(k.get(), out, keep); return; }
        out += "<" + name;
        if (n->attr("id") && (name == "table" || name == "informaltable")) out += " " + n->get("id");
        if (name == "tgroup") out += " " + n->get("cols");
        if (name == "emphasis") out += " " + n->get("role");
        out += ">";
        for (auto& k : n->kids) put(k.get(), out, keep || name == "programlisting");
        out += "</" + name + ">";
    }
    // no blanks next to block tags
    static std::string tidy(std::string s)
    {
        static const char* inl[] = {"<emphasis", "</emphasis", "<literal", "</literal", "<link", "</link"};
        std::string r;
        for (size_t i = 0; i < s.size();) {
            if (s[i] == '<' && i + 1 < s.size() && (isalpha((unsigned char)s[i + 1]) || s[i + 1] == '/')) {
                bool in = false;
                for (auto t : inl) if (!s.compare(i, strlen(t), t)) in = true;
                size_t e = s.find('>', i);
                if (!in) {
                    while (r.size() && (r.back() == ' ' || r.back() == '\n')) r.pop_back();
                    r += s.substr(i, e + 1 - i);
                    i = e + 1;
                    while (i < s.size() && s[i] == ' ') ++i;
                    continue;
                }
            }
            r += s[i++];
        }
        for (std::string cut : {"<>", "</>"}) for (size_t k; (k = r.find(cut)) != std::string::npos;) r.erase(k, cut.size());
        return r;
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        int version = 100 + (c[1] - '0');
        std::string t = c.substr(2);
        int nb = t.find('n') != std::string::npos && t.size() < 9 ? 7 : 1;
        for (int b = 0; b < nb && !x.failed; ++b) {
            Writer w(t, c[0], version, nb == 1 ? (int)(mc::hash(t) % 7) : b);
            w.seq();
            std::string doc = std::string("[article D\n[quickbook 1.") + c[1] + "]\n[id d]\n]\n\n" + w.in + "\n\nEnd\n";
            x.step();
            qbk::Result q = qbk::convert(doc);
            if (q.rc) return x.fail("rejected " + mc::show(w.in) + ": " + q.err);
            std::string err, got;
            auto tree = html::parse(q.text, err, false);
            if (!tree) return x.fail("ill-formed: " + err);
            html::Node* root = 0;
            tree->walk([&](html::Node* n) { if (n->name == "article") root = n; });
            if (!root) return x.fail("no article");
            for (auto& k : root->kids) if (k->name != "title" && k->name != "articleinfo") put(k.get(), got, false);
            got = tidy(got);
            std::string want = tidy(w.out + "<para>End</para>");
            if (got != want) return x.fail(mc::show(w.in) + " gives " + mc::show(got) + " instead of " + mc::show(want));
            x.state(got);
            if (t.find_first_of("({[") != std::string::npos) x.nontrivial();
        }
    }
};
MC_MAIN(H)
