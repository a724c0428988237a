// Document information: attributes in every order, titles, copyrights, authors and nested documents.
// Cases: a<version><place of quickbook attribute><type a|l><attributes>; t<version><title tokens>; c<tokens> copyright;
// u<tokens> authors; n<version><type><type><attribute><attribute> nested document
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

static const char* types[] = {"book", "article", "library", "chapter", "part", "appendix", "preface", "qandadiv", "qandaset", "reference", "set"};
static const char* ttoks[] = {"A", "b1", " ", "*", "\\]", "<", "&", "__m__", "\xc3\xa9", "'''<i/>'''", "\\ ", "\""};
static const int NT = sizeof ttoks / sizeof *ttoks;
static const char* ctoks[] = {"2001", "1999", "2003", "-", ",", " ", "N", "12", "\\]", "\n", "N M", "2000-2002"};
static const int NC = sizeof ctoks / sizeof *ctoks;
static const char* utoks[] = {"[", "]", ",", "A", "b", " ", "\\]", "[S, F]", "\n"};
static const int NU = sizeof utoks / sizeof *utoks;
static const std::string menu = "abcdefgijklmnopqrstvw";

static std::string trim(std::string const& s)
{
    std::string r;
    for (char c : s) {
        bool sp = c == ' ' || c == '\n' || c == '\t';
        if (!sp) r += c;
        else if (r.size() && r.back() != ' ') r += ' ';
    }
    while (r.size() && r.back() == ' ') r.pop_back();
    return r;
}
typedef std::map<std::string, std::vector<std::string>> Fields; // element or attribute name to what it says
static std::string str(Fields const& f)
{
    std::string r;
    for (auto& k : f) { r += k.first + ":"; for (auto& v : k.second) r += " {" + v + "}"; r += "; "; }
    return r;
}

struct H : mc::Harness {
    H() { rule = "every document information block of up to N attributes in every order and place, every title, copyright and author list of up to M tokens, every pair of nested document types; the elements written compared with a reference reading; non-trivial with an attribute"; case_timeout = 15; }
    void enumerate(mc::Sink& s)
    {
        for (int n = 0; n <= (thorough ? 4 : 3); ++n)
            for (char v : std::string("765"))
                for (char p : std::string("flb"))
                    for (char t : std::string("al"))
                        mc::tuples(menu.size(), n, [&](std::vector<size_t> const& ix) {
                            if (n == 3 && !thorough && (v != '7') + (p != 'f') + (t != 'a') > 0 && (ix[0] + ix[1] + ix[2]) % 7) return;
                            if (n == 4 && (v != '7' || p != 'f' || t != 'a')) return;
                            std::string c{'a', v, p, t};
                            for (size_t i : ix) c += menu[i];
                            s.emit(c);
                        });
        for (int n = 0; n <= (thorough ? 5 : 4); ++n)
            for (char v : std::string("76"))
                mc::tuples(NT, n, [&](std::vector<size_t> const& ix) {
                    std::string c{'t', v};
                    for (size_t i : ix) c += char('a' + i);
                    s.emit(c);
                });
        for (int n = 0; n <= (thorough ? 6 : 5); ++n)
            mc::tuples(NC, n, [&](std::vector<size_t> const& ix) {
                if (n == 5 && !thorough && ix[0] != 0) return; // a copyright starts with a year
                if (n == 6 && ix[0] != 0) return;
                std::string c = "c";
                for (size_t i : ix) c += char('a' + i);
                s.emit(c);
            });
        for (int n = 0; n <= (thorough ? 7 : 6); ++n)
            mc::tuples(NU, n, [&](std::vector<size_t> const& ix) {
                if (n >= 5 && ix[0] != 0 && ix[0] != 7) return; // an author starts with a bracket
                std::string c = "u";
                for (size_t i : ix) c += char('a' + i);
                s.emit(c);
            });
        // long ones
        for (char v : std::string("765"))
            mc::pump(menu.size(), v == '7' ? 2 : 1, {2, 7}, [&](std::vector<size_t> const& ix) {
                std::string c{'a', v, 'f', 'a'};
                for (size_t i : ix) c += menu[i];
                s.emit(c);
            });
        for (char v : std::string("76"))
            mc::pump(NT, thorough ? 3 : 2, {4, 33}, [&](std::vector<size_t> const& ix) {
                std::string c{'t', v};
                for (size_t i : ix) c += char('a' + i);
                s.emit(c);
            });
        mc::pump(NC, thorough ? 4 : 3, {3, 17}, [&](std::vector<size_t> const& ix) {
            std::string c = "c";
            for (size_t i : ix) c += char('a' + i);
            s.emit(c);
        });
        mc::pump(NU, thorough ? 5 : 4, {3, 9}, [&](std::vector<size_t> const& ix) {
            if (ix[0] != 0 && ix[0] != 7) return;
            std::string c = "u";
            for (size_t i : ix) c += char('a' + i);
            s.emit(c);
        });
        for (char v : std::string("765"))
            for (int a = 0; a < 11; ++a)
                for (int b = 0; b < 11; ++b)
                    for (char x : menu + "-")
                        for (char y : menu + "-") {
                            if ((a + b) % 11 && x != '-' && y != '-' && !thorough) continue;
                            if (x == 'v' || y == 'v') continue;
                            s.emit(std::string{'n', v, char('a' + a), char('a' + b), x, y});
                        }
    }

    // one attribute: source text and what it adds
    static std::string attribute(char k, char v, std::string const& type, Fields& f, bool& error, bool& mode, bool& compat)
    {
        bool old = v == '5';
        auto set = [&](std::string const& n, std::string const& t) { f[n] = {t}; };
        auto add = [&](std::string const& n, std::string const& t) { f[n].push_back(t); };
        switch (k) {
        case 'a': set("@id", "i"); return "[id i]";
        case 'b': set("@id", "j.k"); return "[id j.k]";
        case 'c': set("version", old ? "1 + 2" : "1 & 2"); return old ? "[version 1 + 2]" : "[version 1 & 2]";
        case 'd': set("purpose", "P <emphasis>b</emphasis> & x"); return "[purpose P *b* & x]";
        case 'e': add("category", old ? "category:A" : "category:A & \"B"); return old ? "[category A]" : "[category A & \"B]";
        case 'f': add("category", "category:C"); return "[category C]";
        case 'g':
            add("author", old ? "F|S A" : "F ] x|S & A"), add("author", "F2|S2");
            return old ? "[authors [S A, F], [S2,F2]]" : "[authors [S & A, F \\] x], [S2,F2]]";
        case 'i': add("copyright", old ? "2001,2002,2003,2005|N" : "2001,2002,2003,2005|N & A"), add("copyright", "2006|B C"); return old ? "[copyright 2001-2003, 2005 N, 2006 B C]" : "[copyright 2001-2003, 2005 N & A, 2006 B C]";
        case 'j': add("copyright", "1999,2000|M"); return "[copyright 1999 2000 M]";
        case 'k': set("license", "L <emphasis>x</emphasis> &"); return "[license L *x* &]";
        case 'l': set("@lang", old ? "en" : "e\"&<n"); return old ? "[lang en]" : "[lang e\"&<n]";
        case 'm': set("@dirname", old ? "d/x" : "d\"x"); return old ? "[dirname d/x]" : "[dirname d\"x]";
        case 'n': set("@last-revision", old ? "r x" : "r<x"); return old ? "[last-revision r x]" : "[last-revision r<x]";
        case 'o': add("biblioid", old ? "isbn|12" : "isbn|12 & \""); return old ? "[biblioid isbn 12]" : "[biblioid isbn 12 & \"]";
        case 'p': add("biblioid", "doi|1.2"); return "[biblioid doi 1.2]";
        case 'q': add("escaped", "& x"); return "'''<subtitle>&amp; x</subtitle>'''";
        case 'r': set("@lang", "fr"); return "[lang fr]";
        case 's': mode = true; return "[source-mode teletype]";
        case 't': compat = true; return "[compatibility-mode 1.1]";
        case 'v': error = true; return "[foo bar]";
        case 'w': set("license", "M"); return "[license M]";
        }
        (void)type;
        return "";
    }
    // what the element of a document says about it; children other than the information go to rest
    static Fields read(html::Node* d)
    {
        Fields f;
        for (auto& a : d->attrs) if (a.first != "xmlns:xi") f["@" + a.first] = {a.second};
        std::string info = d->name + "info";
        int infos = 0;
        for (auto& k : d->kids) {
            if (k->name == "title") f["title"].push_back(trim(k->all()));
            if (k->name != info) continue;
            ++infos;
            if (k->kids.empty()) f["empty info"];
            for (auto& e : k->kids) {
                std::string n = e->name;
                auto text = [&](html::Node* p) { std::string r; flat(p, r); return trim(r); };
                if (n.empty()) { if (trim(e->text).size()) f["stray"].push_back(e->text); }
                else if (n == "authorgroup") {
                    for (auto& a : e->kids) if (a->name == "author") {
                        std::string fn, sn;
                        for (auto& q : a->kids) { if (q->name == "firstname") fn += trim(q->all()); if (q->name == "surname") sn += trim(q->all()); }
                        f["author"].push_back(fn + "|" + sn);
                    }
                }
                else if (n == "copyright") {
                    std::string y, h;
                    for (auto& q : e->kids) { if (q->name == "year") y += (y.size() ? "," : "") + trim(q->all()); if (q->name == "holder") h += trim(q->all()); }
                    f["copyright"].push_back(y + "|" + h);
                }
                else if (n == "legalnotice") f["license"].push_back(text(e.get()));
                else if (n == d->name + "purpose") f["purpose"].push_back(text(e.get()));
                else if (n == d->name + "category") f["category"].push_back(e->get("name"));
                else if (n == "biblioid") f["biblioid"].push_back(e->get("class") + "|" + trim(e->all()));
                else if (n == "subtitle") f["escaped"].push_back(trim(e->all()));
                else f["unknown"].push_back(n);
            }
        }
        if (infos > 1) f["several infos"];
        return f;
    }
    static void flat(html::Node* n, std::string& r)
    {
        if (n->name.empty()) { r += n->text; return; }
        if (n->name == "emphasis") r += "<emphasis>";
        for (auto& k : n->kids) flat(k.get(), r);
        if (n->name == "emphasis") r += "</emphasis>";
    }
    static void defaults(Fields& f, std::string const& type, std::string const& id, std::string const& title)
    {
        if (!f.count("@id")) f["@id"] = {id};
        if (!f.count("@last-revision")) f["@last-revision"] = {"D"};
        std::string t = title;
        if (f.count("version")) { t += " " + f["version"][0]; f.erase("version"); }
        f["title"] = {trim(t)};
        if (type == "library") {
            f["@name"] = {title};
            if (!f.count("@dirname")) f["@dirname"] = {f["@id"][0]};
        }
    }
    static html::Node* find(html::Node* t, std::string const& name)
    {
        html::Node* r = 0;
        t->walk([&](html::Node* n) { if (n->name == name && !r) r = n; });
        return r;
    }
    void compare(Fields got, Fields want, std::string const& src, mc::Ctx& x)
    {
        if (got.count("@last-revision") && got["@last-revision"][0].find("Date:") != std::string::npos) got["@last-revision"] = {"D"};
        std::string g = str(got), w = str(want);
        if (g != w) return x.fail(mc::show(src) + " gives " + g + " instead of " + w);
        x.state(g);
    }

    void check(const std::string& c, mc::Ctx& x)
    {
        switch (c[0]) {
        case 'a': return attributes(c, x);
        case 't': return title(c, x);
        case 'n': return nested(c, x);
        default: return list(c, x);
        }
    }
    void attributes(std::string const& c, mc::Ctx& x)
    {
        char v = c[1], place = c[2];
        std::string type = c[3] == 'a' ? "article" : "library", q = std::string("[quickbook 1.") + v + "]\n";
        Fields f;
        bool error = false, mode = false, compat = false;
        std::string body, list = c.substr(4);
        for (char k : list) {
            if (k == 'q' && v != '7') continue;
            body += attribute(k, v, type, f, error, mode, compat) + "\n";
        }
        std::string doc = (place == 'b' ? q : "") + "[" + type + " T x\n" + (place == 'f' ? q : "") + body + (place == 'l' ? q : "") + "]\n\n[section A b]\n[h3 C d]\n`int`\n[endsect]\n";
        x.step();
        qbk::Result r = qbk::convert(doc);
        if (error) { if (!r.rc) x.fail("no error for " + mc::show(doc)); return; }
        if (r.rc) return x.fail("rejected " + mc::show(doc) + ": " + r.err);
        std::string err;
        auto t = html::parse(r.text, err, false);
        if (!t) return x.fail("ill-formed: " + err + " from " + mc::show(doc));
        html::Node* d = find(t.get(), type);
        if (!d) return x.fail("no " + type);
        defaults(f, type, "t_x", "T x");
        compare(read(d), f, doc, x);
        std::string id = f["@id"][0];
        if (r.text.find("<!DOCTYPE " + type) == std::string::npos) return x.fail("document type of " + mc::show(doc));
        bool keyword = r.text.find("role=\"keyword\"") != std::string::npos;
        if (keyword == mode) return x.fail("source mode of " + mc::show(doc));
        bool old = r.text.find("\"a_b.c_d\"") != std::string::npos;
        if (old != compat) return x.fail("ids of headings of " + mc::show(doc));
        html::Node* sec = find(d, "section");
        if (!sec || sec->get("id") != id + ".a_b") return x.fail("section id of " + mc::show(doc));
        if (list.size()) x.nontrivial();
    }
    void title(std::string const& c, mc::Ctx& x)
    {
        std::string src, want;
        for (char k : c.substr(2)) {
            std::string t = ttoks[k - 'a'];
            src += t;
        }
        // escapes and macros; simple markup is not interpreted
        for (size_t i = 0; i < src.size();) {
            if (!src.compare(i, 5, "__m__") && !(i + 5 < src.size() && (isalpha((unsigned char)src[i + 5]) || src[i + 5] == '_'))) { want += "M"; i += 5; }
            else if (!src.compare(i, 3, "'''")) { size_t e = src.find("'''", i + 3); i = e + 3; }
            else if (src[i] == '\\' && src[i + 1] == ' ') i += 2;
            else if (src[i] == '\\') { want += src[i + 1]; i += 2; }
            else want += src[i++];
        }
        std::string doc = "[article " + src + "\n[quickbook 1." + c[1] + "]\n[id d]\n]\ntext\n";
        x.step();
        qbk::Result r = qbk::convert(doc, {"-D__m__=M"});
        if (r.rc) return x.fail("rejected " + mc::show(doc) + ": " + r.err);
        std::string err;
        auto t = html::parse(r.text, err, false);
        if (!t) return x.fail("ill-formed: " + err + " from " + mc::show(doc));
        html::Node* d = find(t.get(), "article");
        if (!d) return x.fail("no article");
        Fields f = read(d);
        std::string got = f.count("title") ? f["title"][0] : "";
        if (got != trim(want)) return x.fail("title of " + mc::show(doc) + " is " + mc::show(got) + ", not " + mc::show(trim(want)));
        if (f["title"].size() > 1) return x.fail("several titles");
        x.state(got);
        if (want.size()) x.nontrivial();
    }
    static bool year(std::string const& s, size_t i) { if (i + 4 > s.size()) return false; for (int k = 0; k < 4; ++k) if (!isdigit((unsigned char)s[i + k])) return false; return true; }
    static size_t space(std::string const& s, size_t i) { while (i < s.size() && isspace((unsigned char)s[i])) ++i; return i; }
    void list(std::string const& c, mc::Ctx& x)
    {
        bool copy = c[0] == 'c', error = false;
        std::string src;
        for (char k : c.substr(1)) src += (copy ? ctoks : utoks)[k - 'a'];
        Fields f;
        size_t i = space(src, 0);
        if (copy) {
            while (year(src, i)) {
                std::string ys, holder;
                while (year(src, i)) {
                    int a = atoi(src.substr(i, 4).c_str()), b = a;
                    i = space(src, i + 4);
                    if (i < src.size() && src[i] == '-') {
                        size_t j = space(src, i + 1);
                        if (year(src, j)) { b = atoi(src.substr(j, 4).c_str()); i = space(src, j + 4); }
                    }
                    if (b < a) error = true;
                    for (; a <= b; ++a) ys += (ys.size() ? "," : "") + std::to_string(a);
                    if (i < src.size() && src[i] == ',') ++i;
                    i = space(src, i);
                }
                while (i < src.size()) {
                    if (src[i] == ',' && year(src, space(src, i + 1))) break;
                    if (src[i] == '\\') ++i;
                    holder += src[i++];
                }
                f["copyright"].push_back(ys + "|" + trim(holder));
                if (i < src.size() && src[i] == ',') ++i;
                i = space(src, i);
            }
            if (i < src.size()) error = true;
        }
        else {
            // the attribute ends where an author could start and none does
            auto author = [&](size_t k, std::string& a) -> size_t {
                if (k >= src.size() || src[k] != '[') return std::string::npos;
                k = space(src, k + 1);
                std::string sn, fn;
                while (k < src.size() && src[k] != ',') { if (src[k] == '\\') ++k; sn += src[k++]; }
                if (k >= src.size()) return std::string::npos;
                k = space(src, k + 1);
                while (k < src.size() && src[k] != ']') { if (src[k] == '\\') ++k; fn += src[k++]; }
                if (k >= src.size()) return std::string::npos;
                a = trim(fn) + "|" + trim(sn);
                return k + 1;
            };
            for (;;) {
                std::string a;
                size_t e = author(i, a);
                if (e == std::string::npos) break;
                f["author"].push_back(a);
                i = space(src, e);
                if (i < src.size() && src[i] == ',') i = space(src, i + 1);
            }
            if (i < src.size()) error = true;
        }
        if (error && src.find(']') != std::string::npos) { x.step(0); return; } // closes the attribute and more
        if (!copy) for (size_t d = 0, k = 0; k < src.size(); ++k) { if (src[k] == '\\') ++k; else if (src[k] == '[') ++d; else if (src[k] == ']') { if (!d) return; --d; } }
        std::string doc = "[article T\n[quickbook 1.7]\n[id d]\n[" + std::string(copy ? "copyright " : "authors ") + src + "]\n]\ntext\n";
        x.step();
        qbk::Result r = qbk::convert(doc);
        if (error) { if (!r.rc) x.fail("no error for " + mc::show(doc)); return; }
        if (r.rc) return x.fail("rejected " + mc::show(doc) + ": " + r.err);
        std::string err;
        auto t = html::parse(r.text, err, false);
        if (!t) return x.fail("ill-formed: " + err);
        html::Node* d = find(t.get(), "article");
        if (!d) return x.fail("no article");
        defaults(f, "article", "d", "T");
        compare(read(d), f, doc, x);
        if (f.count("copyright") || f.count("author")) x.nontrivial();
    }
    void nested(std::string const& c, mc::Ctx& x)
    {
        char v = c[1];
        std::string t1 = types[c[2] - 'a'], t2 = types[c[3] - 'a'];
        Fields f1, f2;
        bool error = false, m1 = false, m2 = false, k1 = false, k2 = false;
        auto usable = [&](char k, char ver) { return k != '-' && !(k == 'q' && ver != '7'); };
        std::string a1 = usable(c[4], v) ? attribute(c[4], v, t1, f1, error, m1, k1) : "";
        std::string a2 = usable(c[5], '7') ? attribute(c[5], '7', t2, f2, error, m2, k2) : "";
        std::string in = qbk::fresh(".qbk");
        qbk::spit(in, "[" + t2 + " U\n[quickbook 1.7]\n" + a2 + "\n]\n\n[heading H]\n\n`int`\n");
        std::string doc = "[" + t1 + " T\n[quickbook 1." + v + "]\n" + a1 + "\n]\n\nbefore\n\n[include " + in + "]\n\n'''<x>'''`if`'''</x>'''\n";
        x.step();
        qbk::Result r = qbk::convert(doc);
        unlink(in.c_str());
        if (r.rc) return x.fail("rejected " + mc::show(doc) + ": " + r.err);
        std::string err;
        auto t = html::parse(r.text, err, false);
        if (!t) return x.fail("ill-formed: " + err);
        html::Node *d1 = find(t.get(), t1), *d2 = 0;
        if (!d1) return x.fail("no " + t1);
        for (auto& k : d1->kids) if (k->name == t2) d2 = k.get();
        defaults(f1, t1, "t", "T");
        compare(read(d1), f1, doc, x);
        if (x.failed) return;
        if (v == '5') { // has no nested documents
            if (d2) return x.fail("nested document in version 1.5");
            return;
        }
        if (!d2) return x.fail("no nested " + t2);
        defaults(f2, t2, "", "U");
        Fields g2 = read(d2);
        std::string id = g2["@id"][0];
        if (f2["@id"][0].empty()) { // generated, see the identifiers property
            if (id.empty()) return x.fail("no id for the nested document");
            f2["@id"] = {id};
            if (t2 == "library" && c[5] != 'm') f2["@dirname"] = g2["@dirname"];
        }
        else if (c[4] == c[5] && strchr("ab", c[4])) { // the same id again
            if (id == f2["@id"][0]) return x.fail("id used twice");
            if (g2.count("@dirname") && g2["@dirname"] == f2["@id"]) f2["@dirname"] = g2["@dirname"];
            f2["@id"] = {id};
        }
        compare(g2, f2, doc, x);
        if (x.failed) return;
        // the mode of the nested document is its own
        size_t cut = r.text.find("<x>"), k = r.text.find("role=\"keyword\"");
        bool kw2 = k < cut, kw1 = r.text.find("role=\"keyword\"", cut) != std::string::npos;
        if (cut == std::string::npos) return x.fail("text after the nested document is lost");
        if (kw2 == m2) return x.fail("source mode of the nested document of " + mc::show(doc));
        if (kw1 == m1) return x.fail("source mode after the nested document of " + mc::show(doc));
        x.nontrivial();
    }
};
MC_MAIN(H)
