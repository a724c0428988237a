// No input makes the program misuse memory: the whole program under the address and undefined behaviour sanitizers.
// Case: <corpus text><version><edit>...: c<i> cut before byte i, t<i> only what follows byte i, x<i> byte i left out, r<i>.<b> byte i replaced by b,
//       n<i>.<k> piece k put in front of byte i, s<i>.<n> n bytes from i on written twice; or z<version><context> followed by raw pieces
#include "mc.hpp"
#include "qbk.hpp"

#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }
#endif

static const char* docs[] = {
    // A: phrases, blocks and document information
    "[article D[e] ''x''\n[quickbook 1.V]\n[id d]\n[version 1.0]\n[authors [A, B], [C, D]]\n[copyright 2001 2003-2004 E, 2005 F]\n[purpose p *q*]\n[license\nl [@http://a b]\n]\n"
    "[category c]\n[last-revision r]\n[source-mode teletype]\n[compatibility-mode 1.V]\n[biblioid isbn \"1\"]\n[lang de]\n]\n\n"
    "[section:s S *t*]\n\nw *b* /i/ _u_ =t= \"q\" `c` ``d`` '''<e/>''' \\* \\u00e9 \\U0001F600 \\ [/ c [/ d]] [*b] ['i] [_u] [^t] [\"q] [-s] [footnote n[footnote m]] [~x] [role r [*x]]\n"
    "[@http://u?a&b l] [link s] [link:t x y] [#a] [funcref f g] [$i.svg] [$i.png [width 1][alt a]] [br] [?M y] [:M z] [quote q] a..b M\n\n"
    "* l\n  * m\n    # n\n  text\n# k\n# j\n\n    code M\n      `` [*b] ``\n\n[h2 H][heading:i I]\n[table:t T [[a][b]]\n[[*c*][d [table u [[x]]]]]\n]\n[variablelist V [[t][d]]]\n"
    "[note n\n\no][blurb b][: q [/ r]\ns]\n[ordered_list [a][b]]\n[pre  p\n q]\n[!c++]``x``\n\n[if M]\ny\n[elseif N]z\n[else]\nz\n[endsect:s]\n",
    // B: templates, macros, source modes and code
    "[article T\n[quickbook 1.V]\n]\n[/ c]\n[def M [*m]]\n[def __n__ N]\n[template t[a b] [a]-[b]..[c a]]\n[template c[x] ([x])]\n[template `e[x] 'x']\n[template b[x]\n\n* [x]\n\n[x]\n]\n[template k[][k2]]\n[template k2 z]\n[template s `f`]\n\n"
    "[t x..y] [t x y] [t [c 1]..[e q]] [b p] [k][k2] [*[c [c [c z]]]]  [e\\]] [`s] [t a\n\nb..c] [t *]\n\nM __n__ [?M a] [c++] `int x = \"s\\n\"; // c` [python] `def f(): return 'a' # b` [teletype]`z`\n\n"
    "[c++]\n\n  #define A(x) \\\n    x /* [c 1] */\n  ``[c 2]`` ''''a'''' '\\0' 0x1fu \"a\\\"\n\n[python]\n``\n\"\"\"a\nb\"\"\" '''c''' 1e5 [d]\n``\n\n[block *x*] [!python]``i``[cpp]\n\n"
    "[import g.cpp]\n[s1] [s2]\n\n[import h.py]\n[s3]\n\n[include f.qbk]\n[include:i f.qbk]\n[include g.cpp]\n\n[xinclude z.xml]\n",
};
static const char* cpp = "/** a */ int x;\n//[s1 S\nint a; /*< c [*b] >*/\n//<-\nhidden\n//->\n  f(\"s\\\"\"); //= T *b*\n/*` text\n[note n]\n  ``c``\n*/\n  //[s2\n  g('c'); /*<< d >>*/\n  //]\n//]\n//` [h2 x]\n/*<-*/ q /*->*/ r /* =z */ //=// w\n";
static const char* py = "#[s3\ndef f(): #` u\n  \"\"\"` t [*b]\n  \"\"\"\n  return '''x''' #<- h\n  #->\n#= y\n\"\"\"a\"\"\"\n#]\n";
static const char* qb = "[quickbook 1.6]\n[article F\n[id f]\n]\n[def L l]\n[section U]\nL [t a..b]\n[endsect]\n";
static const char* svg = "<?xml version=\"1.0\"?>\n<!-- c --><svg xmlns='a' width=\"10px\" height='2.5in' >\n<g/></svg>\n";

static const char bytes[] = "[]\n`\xff";
static const int nbytes = sizeof bytes - 1;
static const char* pieces[] = {"[", "\n\n", "'''", "\\", "]", "..", "``", "[/", "\\u", "\\U", "[t ", "[endsect]", "[section x]", "    ", "\n", "* ", "\xef\xbb\xbf", "[#", "[if M]", "[template q[x] ", "[*", "//[", "/*", "\"\"\"", "\r"};
static const char* raw[] = {"[", "]", "\n", " ", "\\", "`", "'", "*", "#", "@", "$", "/", ":", "\"", "!", "?", "=", "_", "a", "1", "u", ".", "<", "\t", "\r", "-", "\xff", "\xc3", "t", "~", "^"};
static const char* contexts[] = {"", "x ", "[t ", "[table ", "[x", "* ", "    ", "``", "[template ", "[#", "[@", "[$", "[role ", "[heading:", "[section:", "[if ", "[endsect", "[footnote ", "\\", "'''", "[!", "[import ", "[link ", "/", "[variablelist a [", "[def "};

struct H : mc::Harness {
    H() { rule = "every cut, omission, replacement, insertion and repetition at every byte of texts that use the whole language (documents, source files, an included file, an image), and every short sequence of raw characters in every context; the whole program under AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial when the edit changes what is reported or written"; case_timeout = 20; }
    std::string text(char t)
    {
        return t == 'A' ? docs[0] : t == 'B' ? docs[1] : t == 'C' ? cpp : t == 'P' ? py : t == 'Q' ? qb : svg;
    }
    void enumerate(mc::Sink& s)
    {
        for (char t : {'A', 'B', 'C', 'P', 'Q', 'S'}) {
            size_t len = text(t).size();
            for (char v : {'7', '6', '5', '1'}) {
                if (v < '6' && strchr("QS", t)) continue;
                if (v == '6' && t != 'A' && t != 'B' && !thorough) continue;
                std::string h = std::string(1, t) + v;
                for (size_t i = 0; i <= len; ++i) {
                    std::string n = std::to_string(i);
                    s.emit(h + "c" + n);
                    if (v == '1' && !thorough) continue;
                    s.emit(h + "x" + n);
                    if (v == '6' && !thorough) continue;
                    s.emit(h + "t" + n);
                    if (v < '7' && !thorough) continue;
                    for (int b = 0; b < (thorough ? 256 : nbytes); ++b)
                        s.emit(h + "r" + n + "." + std::to_string(thorough ? b : (unsigned char)bytes[b]));
                    for (size_t p = 0; p < (thorough ? sizeof pieces / sizeof *pieces : 4); ++p)
                        s.emit(h + "n" + n + "." + std::to_string(p));
                    for (int k : {5, 1, 2, 20}) if (thorough || k == 5) s.emit(h + "s" + n + "." + std::to_string(k));
                }
            }
        }
        for (char v : {'7', '5', '1'})
            for (size_t c = 0; c < sizeof contexts / sizeof *contexts; ++c)
                for (int n = 1; n <= (thorough ? 3 : 2); ++n)
                    mc::tuples(sizeof raw / sizeof *raw, n, [&](std::vector<size_t> const& ix) {
                        if (v < '7' && n > 1 && !thorough) return;
                        std::string k = std::string("z") + v + char('A' + c);
                        for (size_t i : ix) k += char('!' + i);
                        s.emit(k);
                    });
    }
    static void edit(std::string& s, std::string const& e)
    {
        size_t i = strtoul(e.c_str() + 1, 0, 10), dot = e.find('.');
        unsigned k = dot == std::string::npos ? 0 : strtoul(e.c_str() + dot + 1, 0, 10);
        switch (e[0]) {
        case 'c': s.resize(std::min(i, s.size())); break;
        case 't': s.erase(0, i); break;
        case 'x': if (i < s.size()) s.erase(i, 1); break;
        case 'r': if (i < s.size()) s[i] = (char)k; break;
        case 'n': s.insert(i, pieces[k]); break;
        case 's': s.insert(i, s.substr(i, k)); break;
        }
    }
    static void subst(std::string& s, std::string const& a, std::string const& b)
    {
        for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b);
    }
    static std::string mask(std::string s, std::string const& name)
    {
        subst(s, name, "F");
        return s;
    }
    // one set of files: the program's reaction to it
    std::string run(char t, char v, std::string const& e, mc::Ctx& x)
    {
        std::string base = qbk::fresh(), cf = base + "c.cpp", pf = base + "p.py", qf = base + "q.qbk", sf = base + "i.svg";
        std::map<char, std::string> f = {{'C', cpp}, {'P', py}, {'Q', qb}, {'S', svg}};
        std::string doc = t == 'z' ? std::string("[article D\n[quickbook 1.V]\n]\n[template t[x] [x]]\n\n") + contexts[e[0] - 'A'] : t == 'A' || t == 'B' ? text(t) : std::string("[article D\n[quickbook 1.V]\n]\n\n") + (t == 'C' ? "[import g.cpp]\n[s1]\n[s2]\n[include g.cpp]\n" : t == 'P' ? "[import h.py]\n[s3]\n[include h.py]\n" : t == 'Q' ? "[template t[a b] [a][b]]\n[include f.qbk]\n[import f.qbk]\nL\n" : "a [$i.svg] b [$i.svg [alt x]]\n");
        subst(doc, "1.V", std::string("1.") + v);
        if (t == 'z') for (size_t i = 1; i < e.size(); ++i) doc += raw[e[i] - '!'];
        else if (e.size()) edit(t == 'A' || t == 'B' ? doc : f[t], e);
        std::string name = base.substr(base.rfind('/') + 1);
        subst(doc, "g.cpp", name + "c.cpp");
        subst(doc, "h.py", name + "p.py");
        subst(doc, "f.qbk", name + "q.qbk");
        subst(doc, "i.svg", name + "i.svg");
        bool files = t != 'z' && t != 'A';
        if (files) { qbk::spit(cf, f['C']); qbk::spit(pf, f['P']); qbk::spit(qf, f['Q']); }
        if (t == 'S' || t == 'A') qbk::spit(sf, f['S']);
        qbk::Result r = qbk::convert(doc, {"--image-location=" + qbk::dir()}, true), h = qbk::convert(doc, {"--output-format=onehtml", "--image-location=" + qbk::dir()});
        for (auto& p : {cf, pf, qf, sf}) unlink(p.c_str());
        x.step(2);
        bool raw = strchr("ABCP", t) || doc.find("'''") != std::string::npos;
        for (auto* o : {&r, &h}) {
            if (o->rc < 0) x.fail("an exception escaped: " + o->err);
            else if (o->rc > 1) x.fail("exit status " + std::to_string(o->rc));
            else if (!raw && o->written != (o->rc == 0)) x.fail(o->rc ? "output in spite of errors: " + o->err : "no output");
        }
        if (r.rc == 0 && h.rc && !raw) x.fail("rejected for HTML only: " + h.err);
        return std::to_string(r.rc) + r.text + std::to_string(r.err.size());
    }
    std::map<std::string, size_t> plain;
    void check(const std::string& c, mc::Ctx& x)
    {
        char t = c[0], v = c[1];
        std::string o = run(t, v, c.substr(2), x);
        if (t == 'z') x.nontrivial();
        else {
            auto p = plain.find(c.substr(0, 2));
            if (p == plain.end()) p = plain.emplace(c.substr(0, 2), mc::hash(run(t, v, "", x))).first;
            if (p->second != mc::hash(o)) x.nontrivial();
        }
        x.state(o);
    }
};
MC_MAIN(H)
