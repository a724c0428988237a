// Error reports: which documents are rejected, at which lines, how the messages look and what the exit status says.
// Cases: h<header><body good/bad><attributes> document information; f<version><s strict, n not><fragments> with known errors; g<version><place><constructs>; t<version><tokens> any text, only the form of the reports
#include "mc.hpp"
#include "qbk.hpp"

// fragments, with the lines (relative to their own start) of the errors they contain when that does not depend on what came before
struct Frag { const char* text; std::vector<int> errors; char kind; };
static const std::vector<Frag> frags = {
    {"text\nmore\n\n", {}, 0},
    {"[endsect]\n\n", {}, 'e'},
    {"[section:s S]\n\n", {}, 's'},
    {"[endsect:s]\n\n", {}, 'e'},
    {"[endsect:r]\n\n", {0}, 'p'},
    {"p\n\n[include @/missing.qbk]\n\n", {2}, 0},
    {"[h3:a$b H]\n\n", {0}, 'i'},
    {"a ]\n\n", {0}, 0},
    {"* a\n# b\n\nt\n\n", {1}, 0},
    {"[include @/bad.qbk]\n\n", {}, 'b'},
    {"[template t[x]\n[x]\n\n[h4:q$ J]\n]\n\n", {}, 't'},
    {"[t a]\n\n", {}, 'c'},
    {"[t 1..2]\n\n", {}, 'n'},
    {"[import @/bad.cpp]\n\n", {}, 'm'},
    {"z\n\n[xinclude x*]\n\n", {2}, 'i'},
    {"[table:a$b T\n[[a]]\n]\n\n", {0}, 'i'},
    {"k\n[link a[x] t]\n\n", {1, 1}, 'i'},
    {"[template r[] [r]]\n\n", {}, 'd'},
    {"[r]\n\n", {}, 'l'},
    {"\n\n\n", {}, 0},
    {"[/ c\n\n c]\n\n", {}, 0},
    {"  int a;\n\n  b ``[^x]``\n\n", {}, 0},
    {"[note\n* \xc3\xa9\n\n\xe2\x98\x83\r\n]\r\n\r\n", {}, 0},
    {"x [role a b\nc ] [footnote d\ne]\n\n", {}, 0},
    {"u\\u0041\n v\\u0001 \\U0000d800\n\n", {1, 1}, 0},
    {"[note\n\n[table\n[[a]\n[b ]\n[[section x] ]\n]]]\n\n", {}, 'x'}};
static const int NF = 25; // the last one is not used
static const char* toks[] = {"x", "\n", "\n\n", "[", "]", "[*", "[h3:i$ ", "[section:s ", "[endsect]", "[note ", "[table ", "[[", "]]", "'''", "``", "`", "[template t[a] ", "[t ", "..", "* ", "# ", "  ", "[@", "[#", "[link ", "[include ", "[import ", "[xinclude ",
                             "[def __m__ ", "__m__", "[?m ", "\\", "[/", "[image ", "[c++]", "[$", "[role r ", "[variablelist ", "[footnote ", "[pre ", "[block ", "[template r[] [r]]", "[r]", "\\uffff"};
static const int NT = sizeof toks / sizeof *toks;

// constructs with their reports, by version: lines with e (error) or w (warning); flags: l not in a list, b only at the top level, x only last, X and nothing after it
struct Kind { const char* text; const char* want[3]; const char* flags; };
static const std::vector<Kind> kinds = {
    {"p\n[$a.png [width 1]\n[width 2]]\n\n", {"3w", "3w", "3w"}, ""},
    {"p\n[$a\\b.png]\n\n", {"2w", "2e 2e", "2e 2e"}, ""},
    {"p\n\n[role [empty@] x]\n\n", {"", "", "3e"}, ""},
    {"p [#]\n\n", {"1e", "1e", "1e"}, "xX"},
    {"[template dp@[a a] x]\n\n[dp@ 1..2]\n\n", {"3e", "3e", "3e"}, ""},
    {"[template lo@[] [lo@]]\n\np [lo@]\n\n", {"1e", "1e", "1e"}, "x"},
    {"[template mt@[]\n[endsect]\n]\n\nq\n\n[mt@]\n\n", {"2e", "2e", "2e"}, "ls"},
    {"[template ea@[a] x]\n\np\n[`ea@ b]\n\n", {"4e", "4e", "4e"}, ""},
    {"[template ba@[]\nx\n]\n\np [link\n[ba@] x]\n\n", {"", "6e 6e", "6e 6e"}, "l"},
    {"[section S]\n\n[endsect:q]\n\n", {"3e", "3e", "3e"}, "b"},
    {"[section:w@ S]\n\nt\n[h2 x]\n\n[endsect:q]\n\n", {"6e", "6e", "6e"}, "b"},
    {"p\n\n[include a\\b.qbk]\n\n", {"3w 3e", "3e 3e 3e", "3e 3e"}, ""},
    {"p\n\n[include zz?.qbk]\n\n", {"3e", "3e", ""}, ""},
    {"p\n\n[include [z.qbk]\n\n", {"3e", "3e", "3e 5e"}, "x"},
    {"p\n\n[xinclude a\\b]\n\n", {"3w", "3e 3e", "3e"}, ""},
    {"p\n\n\n[xinclude zz?.xml]\n\n", {"", "", "4e"}, ""},
    {"p\n\n[import\n missing.cpp]\n\n", {"3e", "3e", "3e"}, ""},
    {"[note\n\n[endsect]\n\nx\n]\n\n", {"", "", "3e"}, "b"},
    {"* a\n\n  b\n\n", {"", "3e", ""}, ""},
    {"a \\u0041\n\\Uffffffff\n\n", {"2e", "2e", "2e"}, ""},
    {"[template aa@[] x]\n[template aa@[] y]\n\n", {"2e", "2e", "2e"}, ""},
    {"p\n[#a$b]\n\n", {"", "", "2e"}, ""},
    {"p\n[link a$b x]\n\n", {"", "", "2e"}, ""},
    {"[heading:a$b x]\n\n", {"", "", "1e"}, "b"},
    {"[variablelist x\n[[y]\n[[link a$b z]]]]\n\n", {"", "", "3e"}, ""},
    {"[def __dm@__ [#a$b]]\n\n__dm@__\n__dm@__\n\n", {"", "", "1e"}, "l"},
    {"[template te@[]\n\nx [#a$b]\n]\n\n[te@]\n\n", {"", "", "3e"}, "l"},
    {"[template tf@[a] [a]]\n\n[tf@\n [#a$b]]\n\n", {"", "", "4e"}, "l"},
    {"*bold [#a$b]*\n\n", {"", "", "1e"}, "l"},
    {"p[footnote\nq [#a$b]]\n\n", {"", "", "2e"}, ""},
    {"[table\n[[a][\n\n[#a$b]\n]]]\n\n", {"", "", "4e"}, ""},
    {"* a\n  * [#a$b]\n* c\n\n", {"", "", "2e"}, "l"},
    {"[ordered_list\n[x]\n[[#a$b]]]\n\n", {"", "", "3e"}, ""},
    {"[note x\n\n[#a$b]\n]\n\n", {"", "", "3e"}, ""},
    {"[pre\n[#a$b]\n]\n\n", {"", "", "2e"}, ""},
    {"[!c++]\n``\n[#a$b]\n``\n\n", {"3w", "3w", "3w"}, "l"},
    {"[def __ya@__]\n[?__ya@__\n[#a$b]]\n\n", {"", "", "3e"}, "l"},
    {"[?__nope@__\n[#a$b]]\n\n", {"", "", ""}, ""},
    {"[template tm@[a] [a]]\n\n[tm@ 1..2..3]\n\n", {"3e", "3e", "3e"}, ""},
    {"[template tn@[a b] [a][b]]\n\np\n[tn@ 1]\n\n", {"4e", "4e", "4e"}, ""},
    {"p [foo bar\n\nq\n\n", {"", "1e", "1e"}, "x"},
    {"x\ny ] z\n\n", {"", "2e", "2e"}, "bi"},
    {"[table x\n[a b]\n]\n\n", {"2e 2e", "", ""}, ""},
    {"p ``x\n\n", {"1e", "1e", "1e"}, "x"},
    {"a b '''x\n\ny", {"3e", "3e", "3e"}, "xX"},
    {"[/ x\n\n", {"", "1e", "1e"}, "x"}};
static const int NK = kinds.size();
static const char* spots[] = {"", "\r\nfoo\r\n\r\n", "[section:zz Z]\n\n", "[note\n\n", "* i\n\n", "[table\n[[x][\n\n", "[template zz[]\n\n", "[include @]\n\n", "x\n\n[include @]\n[def __zz__ y]\n\n"};
static const char* after[] = {"", "z\n", "[endsect]\n", "]\n\nz\n", "* j\n", "]]]\n\n", "]\n\nu\n\n[zz]\n", "", "z\n"};
static const int NSP = sizeof spots / sizeof *spots;

// attributes of the document information with their reports: line e/w needle, a line of 0 for a report without one; p while parsing, d only reported for what is not a library
struct Attr { const char* text; const char* name; std::vector<std::string> want; char kind; };
static const std::vector<Attr> attrs = {
    {"[id d]\n", "id", {}, 0},
    {"[xmlbase none]\n", "xmlbase", {"1e none"}, 'x'},
    {"\n[xmlbase\n .]\n", "xmlbase", {}, 'x'},
    {"[copyright 2005-2001 Me]\n", "", {"1e 2005-2001"}, 'y'},
    {"[copyright 2001, 2009 - 2003 A, 2002\nB, 2004-2003\n  C]\n", "", {"1e 2009-2003", "3e 2004-2003"}, 'y'},
    {"[purpose x]\n", "purpose", {}, 'd'},
    {"[category c]\n", "", {}, 'd'},
    {"[dirname d]\n", "dirname", {}, 'd'},
    {"[/ c\n]\n[colour red]\n", "", {"3e colour"}, 'p'},
    {"[version 1]\n", "version", {}, 0},
    {"[quickbook 1.9]\n", "quickbook", {"0e 1.9"}, 'v'},
    {"[compatibility-mode 2.3]\n", "compatibility-mode", {"0e 2.3"}, 'c'},
    {"[lang\nde]\n", "lang", {}, 0},
    {"[license x\n\n y]\n", "license", {}, 0},
    {"[quickbook 1.5]\n", "quickbook", {}, 'v'},
    {"[last-revision z]\n", "last-revision", {}, 0},
    {"[copyright 2001 - 2003 A]\n[biblioid a b]\n", "", {}, 0},
    {"[source-mode\nteletype]\n", "", {}, 'm'},
};
static const int NA = attrs.size();

struct Report { std::string file; int line; bool error; std::string text; };

struct H : mc::Harness {
    H() { rule = "every sequence of up to N fragments with known errors and every text of up to M tokens; error lines, their form, the error count, the exit status, --expect-errors, --ms-errors and the presence of output compared with what the fragments contain; non-trivial with an error"; case_timeout = 15; }
    std::string d;
    void enumerate(mc::Sink& s)
    {
        for (char v : std::string("76")) mc::pump(NF, 2, {3, 8}, [&](std::vector<size_t> const& ix) { std::string c{'f', v, 'n'}; for (size_t i : ix) c += char('a' + i); s.emit(c); });
        mc::pump(NT, 2, {4, 8}, [&](std::vector<size_t> const& ix) { std::string c{'t', '7'}; for (size_t i : ix) c += char('0' + i); s.emit(c); });
        for (int n = 0; n <= (thorough ? 4 : 3); ++n)
            mc::tuples(NF, n, [&](std::vector<size_t> const& ix) {
                for (char v : std::string("76"))
                    for (char m : std::string("ns")) {
                        if (n == (thorough ? 4 : 3) && m == 's' && ix[0] > 2) continue;
                        if (n == 4 && v == '6') continue;
                        std::string c{'f', v, m};
                        for (size_t i : ix) c += char('a' + i);
                        s.emit(c);
                    }
            });
        for (int n = 1; n <= (thorough ? 3 : 2); ++n)
            mc::tuples(NK, n, [&](std::vector<size_t> const& ix) {
                for (char v : std::string("765"))
                    for (int sp = 0; sp < NSP; ++sp) {
                        if (n == 3 && (v != '7' || (ix[0] + ix[1] + ix[2]) % NSP != (size_t)sp)) continue;
                        bool use = v == '7' || sp < 3 || sp > 6;
                        for (size_t k = 0; k < ix.size(); ++k) {
                            std::string f = kinds[ix[k]].flags;
                            auto has = [&](char ch) { return f.find(ch) != f.npos; };
                            if ((has('X') && sp) || (has('x') && (k + 1 < ix.size() || sp > 1)) || (has('b') && sp > 2 && sp < 7) || (has('l') && sp == 4) || (has('s') && sp == 2)) use = false;
                        }
                        if (!use) continue;
                        std::string c{'g', v, char('0' + sp)};
                        for (size_t i : ix) c += char('0' + i);
                        s.emit(c);
                    }
            });
        for (int n = 0; n <= (thorough ? 4 : 3); ++n)
            mc::tuples(NA, n, [&](std::vector<size_t> const& ix) {
                for (char h : std::string("0123456"))
                    for (char b : std::string("gb")) {
                        if (n == 4 && ix[0] % 4) continue;
                        if (n == 3 && !thorough && (b == 'g') == (ix[0] % 2 == 0)) continue;
                        if ((h == '4' || h == '6') && std::any_of(ix.begin(), ix.end(), [](size_t i) { return attrs[i].kind != 'v' && attrs[i].kind != 'c' && attrs[i].kind != 'm'; })) continue;
                        std::string c{'h', h, b};
                        for (size_t i : ix) c += char('a' + i);
                        s.emit(c);
                    }
            });
        for (int n = 0; n <= (thorough ? 4 : 3); ++n)
            for (char v : std::string("765")) {
                if (n == 4 && v != '7') continue;
                if (n == 3 && v != '7' && !thorough) continue;
                mc::tuples(NT, n, [&](std::vector<size_t> const& ix) {
                    if (n == 4 && ix[0] % 4) return;
                    std::string c{'t', v};
                    for (size_t i : ix) c += char('0' + i);
                    s.emit(c);
                });
            }
    }
    // the reports in a text of messages; complains about lines of another form
    static bool reports(std::string const& err, bool ms, std::vector<Report>& v, int& count, std::string& why)
    {
        count = 0;
        bool dump = false, quoting = false;
        for (auto& l : mc::split(err, '\n')) {
            if (l.empty()) continue;
            if (l.find("------begin------") != std::string::npos) { dump = true; continue; }
            if (l.find("------end------") != std::string::npos) { dump = false; continue; }
            if (dump) continue;
            if (!l.compare(0, 20, "Error: Error count: ")) { if (count) { why = "two counts"; return false; } count = atoi(l.c_str() + 20); continue; }
            if (!l.compare(0, 7, "Error: ")) { v.push_back({"", -1, true, l.substr(7)}); continue; }
            if (l.find("Detected in line:") == 0) continue;
            size_t e = l.find(": error: "), w = l.find(": warning: ");
            bool error = e < w;
            size_t k = std::min(e, w);
            if (k == std::string::npos && quoting) continue; // text quoted from the document
            if (k != std::string::npos) quoting = l.find("Invalid id: ", k) != std::string::npos;
            if (k == std::string::npos) { why = "a line is no report: " + l; return false; }
            Report r{"", -1, error, l.substr(k + (error ? 9 : 11))};
            std::string place = l.substr(0, k);
            if (ms && place.back() == ')') {
                size_t o = place.rfind('(');
                if (o == std::string::npos) { why = "place: " + l; return false; }
                r.line = atoi(place.c_str() + o + 1);
                r.file = place.substr(0, o);
            }
            else if (!ms && place.rfind(':') != std::string::npos) {
                size_t o = place.rfind(':');
                r.line = atoi(place.c_str() + o + 1);
                r.file = place.substr(0, o);
            }
            else r.file = place;
            v.push_back(r);
        }
        return true;
    }
    static std::string str(std::vector<Report> const& v, bool all = false)
    {
        std::string r;
        for (auto& k : v) if (all || k.error) r += k.file.substr(k.file.rfind('/') + 1) + ":" + std::to_string(k.line) + (all ? (k.error ? " e " : " w ") + k.text : "") + " ";
        return r;
    }
    void files()
    {
        if (d == qbk::dir()) return;
        d = qbk::dir();
        qbk::spit(d + "/bad.qbk", "one\n\n[h3:a$b H]\n\ntwo\n[endsect]\n");
        qbk::spit(d + "/bad.cpp", "int a;\n\n  //]\nint b;\n//[c\nx\n");
    }
    qbk::Result run(std::string const& q, std::vector<std::string> args)
    {
        std::string o = q + ".xml";
        args.insert(args.end(), {"--debug", "--output-file=" + o, q});
        qbk::Result r = qbk::call(args);
        r.text = qbk::slurp(o, &r.written);
        unlink(o.c_str());
        return r;
    }
    void construct(const std::string& c, mc::Ctx& x)
    {
        char v = c[1];
        int sp = c[2] - '0', line = sp > 6 ? 1 : 6, at = 0;
        std::string q = qbk::fresh(".qbk"), part = qbk::fresh(".qbk"), head = std::string("[article D\n[quickbook 1.") + v + "]\n[id d]\n]\n\n", pre = spots[sp], body, want;
        if (sp > 6) pre.replace(pre.find('@'), 1, part);
        else for (char ch : pre) line += ch == '\n';
        std::string file = sp > 6 ? part : q, base = file.substr(file.rfind('/') + 1);
        for (char k : c.substr(3)) {
            Kind const& f = kinds[k - '0'];
            std::string text = f.text, w = f.want[v - '5'];
            for (size_t i; (i = text.find('@')) != text.npos;) text.replace(i, 1, 1, char('a' + at));
            ++at;
            if (w.size()) for (auto& m : mc::split(w, ' ')) want += base + ":" + std::to_string(line + atoi(m.c_str()) - 1) + (m.back() == 'e' ? " e " : " w ");
            for (char ch : text) line += ch == '\n';
            if (sp == 4) { std::string in; bool first = true; for (char ch : text) { if (first && ch != '\n') in += "  "; in += ch; first = ch == '\n'; } text = in; }
            body += text;
        }
        struct Gone { std::string f, g; ~Gone() { unlink(f.c_str()); unlink(g.c_str()); } } gone{q, part};
        std::string doc = head + pre + (sp > 6 ? "" : body) + after[sp];
        qbk::spit(q, doc);
        if (sp > 6) qbk::spit(part, body);
        x.step();
        qbk::Result r = run(q, {});
        std::vector<Report> got;
        int count, errors = 0;
        std::string why, have;
        if (!reports(r.err, false, got, count, why)) return x.fail(mc::show(doc) + ": " + why + "\n" + r.err);
        for (auto& k : got) { errors += k.error; have += k.file.substr(k.file.rfind('/') + 1) + ":" + std::to_string(k.line) + (k.error ? " e " : " w "); }
        if (have != want) return x.fail(mc::show(doc) + (sp > 6 ? " with " + mc::show(body) : "") + ": reports at " + have + "instead of " + want + "\n" + r.err);
        if (errors != count) return x.fail(mc::show(doc) + ": " + std::to_string(errors) + " errors shown, " + std::to_string(count) + " counted\n" + r.err);
        if ((r.rc != 0) != (errors != 0)) return x.fail(mc::show(doc) + ": exit status " + std::to_string(r.rc) + "\n" + r.err);
        if (r.written != !r.rc) return x.fail(mc::show(doc) + (r.written ? ": output in spite of errors" : ": no output"));
        if (errors) x.nontrivial();
        x.state(want);
    }
    void information(const std::string& c, mc::Ctx& x)
    {
        int h = c[1] - '0';
        static const char* heads[] = {"[article T\n[quickbook 1.7]\n", "[library T\n[quickbook 1.5]\n", "[article T\n", "\n[quickbook 1.6]\n[article T\n", "[quickbook 1.7]\n", "[article T\n[quickbook 1.7]\n", ""};
        std::string q = qbk::fresh(".qbk"), part = qbk::fresh(".qbk"), doc = heads[h], file = h >= 5 ? part : q;
        struct Want { int line; bool error; std::string needle; };
        std::vector<Want> parse, years, want;
        int version = h == 1 ? 105 : h == 2 ? 0 : h == 3 ? 106 : 107;
        bool compat = false;
        auto lines = [](std::string const& t) { return 1 + (int)std::count(t.begin(), t.end(), '\n'); };
        std::vector<Want> xmlwant;
        std::map<std::string, int> count;
        std::string bad_attrs[3];
        if (h != 2 && h != 6) count["quickbook"] = 1;
        for (char k : c.substr(3)) {
            Attr const& a = attrs[k - 'a'];
            if (*a.name) ++count[a.name];
            std::vector<Want> w;
            for (auto& m : a.want) w.push_back({m[0] == '0' ? -1 : lines(doc) + (m[0] - '1'), m[1] == 'e', m.substr(3)});
            if (a.kind == 'p') parse.insert(parse.end(), w.begin(), w.end());
            if (a.kind == 'y') years.insert(years.end(), w.begin(), w.end());
            if (a.kind == 'x') xmlwant = w;
            if (a.kind == 'v') version = w.size() ? 109 : 105;
            if (a.kind == 'c') compat = true;
            if (a.kind == 'd') bad_attrs[a.name[0] == 'p' ? 0 : a.name[0] ? 2 : 1] = a.name[0] ? a.name : "category";
            doc += a.text;
        }
        if (h != 4 && h != 6) doc += "]\n";
        doc += "\n";
        int body = lines(doc);
        doc += c[2] == 'b' ? "foo\n\n[endsect]\n" : "foo\n";
        if (parse.size()) want = parse;
        else {
            if (h == 4) want.push_back({body, true, "doc_info"});
            std::string dup;
            for (auto n : {"quickbook", "compatibility-mode", "id", "dirname", "last-revision", "purpose", "lang", "version", "license", "xmlbase"})
                if (count[n] > 1) dup += (dup.size() ? ", " : "") + std::string(n);
            if (dup.size()) want.push_back({-1, false, dup});
            if (version == 109) want.push_back({-1, true, "1.9"});
            if (!version) want.push_back({body, false, "ersion"});
            if (compat) want.push_back({-1, true, "2.3"});
            want.insert(want.end(), xmlwant.begin(), xmlwant.end());
            std::string inv;
            for (auto& b : bad_attrs) if (b.size()) inv += (inv.size() ? ", " : "") + b;
            if (inv.size() && h != 1) want.push_back({-1, false, inv});
            want.insert(want.end(), years.begin(), years.end());
            if (c[2] == 'b') want.push_back({body + 2, true, ""});
        }
        struct Gone { std::string f, g; ~Gone() { unlink(f.c_str()); unlink(g.c_str()); } } gone{q, part};
        qbk::spit(file, doc);
        if (h >= 5) qbk::spit(q, "[article D\n[quickbook 1.7]\n]\n\n[include " + part + "]\n");
        x.step();
        qbk::Result r = run(q, {});
        std::vector<Report> got;
        int counted, errors = 0;
        std::string why, have, exp;
        if (!reports(r.err, false, got, counted, why)) return x.fail(mc::show(doc) + ": " + why + "\n" + r.err);
        for (auto& w : want) exp += std::to_string(w.line) + (w.error ? " e " : " w ") + w.needle + "; ";
        bool ok = got.size() == want.size();
        for (size_t i = 0; i < got.size(); ++i) {
            errors += got[i].error;
            if (!ok) continue;
            ok = got[i].file == file && got[i].line == want[i].line && got[i].error == want[i].error && got[i].text.find(want[i].needle) != std::string::npos;
        }
        if (!ok) return x.fail(mc::show(doc) + (h >= 5 ? " (included)" : "") + ": reports\n" + r.err + "instead of " + exp);
        if (errors != counted) return x.fail(mc::show(doc) + ": " + std::to_string(errors) + " errors shown, " + std::to_string(counted) + " counted\n" + r.err);
        if ((r.rc != 0) != (errors != 0)) return x.fail(mc::show(doc) + ": exit status " + std::to_string(r.rc) + "\n" + r.err);
        if (r.written != !r.rc) return x.fail(mc::show(doc) + (r.written ? ": output in spite of errors" : ": no output"));
        if (errors) x.nontrivial();
        x.state(exp);
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        files();
        if (c[0] == 'h') return information(c, x);
        if (c[0] == 'g') return construct(c, x);
        bool known = c[0] == 'f', strict = known && c[2] == 's', seven = c[1] == '7';
        std::string head = std::string("[article D\n[quickbook 1.") + c[1] + "]\n[id d]\n]\n\n", doc = head, q = qbk::fresh(".qbk"), base = q.substr(q.rfind('/') + 1), want;
        auto bad = [&](int line) { want += base + ":" + std::to_string(line) + " "; };
        if (known) {
            int depth = 0, t = 0, r = 0, m = 0, line = 6;
            for (char k : c.substr(3)) {
                Frag const& f = frags[k - 'a'];
                std::string text = f.text;
                size_t at = text.find('@');
                if (at != std::string::npos) text.replace(at, 1, d);
                if (f.kind != 'i' || seven) for (int e : f.errors) bad(line + e);
                switch (f.kind) {
                case 'e': if (depth) --depth; else bad(line); break;
                case 'p': if (depth) --depth; break;
                case 's': ++depth; break;
                case 'b': // not read any more after an error
                    if (want.size()) break;
                    if (seven) want += "bad.qbk:3 ";
                    if (depth) --depth; else want += "bad.qbk:6 ";
                    break;
                case 'm': want += "bad.cpp:3 bad.cpp:-1 "; if (m++) want += "bad.cpp:5 "; break;
                case 't': if (t) bad(line); else t = line; break;
                case 'd': if (r) bad(line); else r = line; break;
                case 'c': if (t && seven) bad(t + 3); if (!t && strict) { bad(line); bad(line); } break;
                case 'n': if (t || strict) bad(line); if (!t && strict) bad(line); break;
                case 'l': if (r) bad(r); else if (strict) bad(line); break;
                }
                if (f.kind == 'i' && !seven && k == 'a' + 16) { bad(line + 1); if (strict) bad(line + 1); }
                doc += text;
                for (char ch : text) if (ch == '\n') ++line;
            }
            if (strict && depth) want += base + ":-1 ";
        }
        else for (char k : c.substr(2)) doc += toks[k - '0'];
        std::vector<std::string> args;
        if (strict) args.push_back("--strict");
        struct Gone { std::string f; ~Gone() { unlink(f.c_str()); } } gone{q};
        qbk::spit(q, doc);
        x.step();
        qbk::Result r = run(q, args);
        std::vector<Report> v;
        int count;
        std::string why;
        if (!reports(r.err, false, v, count, why)) return x.fail(mc::show(doc) + ": " + why + "\n" + r.err);
        int errors = 0, lines = 1;
        for (char ch : doc) if (ch == '\n') ++lines;
        for (auto& k : v) {
            errors += k.error;
            if (k.file.size() && k.file != q && k.file != d + "/bad.qbk" && k.file != d + "/bad.cpp") return x.fail(mc::show(doc) + ": report about " + k.file);
            if (k.file == q && k.line != -1 && (k.line < 1 || k.line > lines)) return x.fail(mc::show(doc) + ": line " + std::to_string(k.line));
            if (k.text.empty()) return x.fail(mc::show(doc) + ": empty report");
        }
        if (errors != count) return x.fail(mc::show(doc) + ": " + std::to_string(errors) + " errors shown, " + std::to_string(count) + " counted\n" + r.err);
        if ((r.rc != 0) != (errors != 0)) return x.fail(mc::show(doc) + ": exit status " + std::to_string(r.rc) + "\n" + r.err);
        if (r.written != !r.rc) return x.fail(mc::show(doc) + (r.written ? ": output in spite of errors" : ": no output"));
        if (known && str(v) != want) return x.fail(mc::show(doc) + " has errors at " + str(v) + "instead of " + want + "\n" + r.err);
        if (errors) x.nontrivial();
        x.state(str(v));
        if (c.size() > (known ? 5u : 4u)) return;
        // the same with other options
        std::vector<std::string> a2 = args;
        a2.push_back("--expect-errors");
        qbk::Result e = run(q, a2);
        x.step();
        if ((e.rc != 0) != !errors) return x.fail(mc::show(doc) + ": exit status " + std::to_string(e.rc) + " with --expect-errors");
        if (errors ? e.err != r.err : e.err.find("No errors detected") == std::string::npos) return x.fail(mc::show(doc) + ": reports change with --expect-errors");
        args.push_back("--ms-errors");
        e = run(q, args);
        run(q, {}); // ends the mode
        std::vector<Report> v2;
        int count2;
        if (!reports(e.err, true, v2, count2, why)) return x.fail(mc::show(doc) + ": " + why + "\n" + e.err);
        if (e.rc != r.rc || count2 != count || str(v, true) != str(v2, true)) return x.fail(mc::show(doc) + ": reports change with --ms-errors\n" + e.err);
    }
};
MC_MAIN(H)
