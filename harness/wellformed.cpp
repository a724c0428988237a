// Every document: accepted ones give well-formed BoostBook and HTML, rejected ones errors and no output.
// Case: <version><tokens as letters>
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

static const char* toks[] = {
    "w", " ", "\n", "\n\n", "]", "[", "[section s]\n", "[endsect]\n", "[heading:x h]", "[table t\n", "[[a]", "[[", "* ", "    ", "`c`", "``\nc\n``",
    "'''<b/>'''", "\\", "<&\">", "[/ ", "[template x[a] b [a]]", "[x c]", "[def M N]", "M", "[variablelist v\n", "[ordered_list ", "[@u&\" ", "[link x ", "[$i.svg]", "[#",
    "[footnote ", "[?M ", "[c++]", "[note ", "[: ", "[pre ", "[* ", "[\"", "*", "=", "\xc3\xa9", "[block ", "[xinclude f.xml]", "[import f]", "[classref a::b", "[br]", "[~ ", "[`x c]", "# ", "[h2 ",
    "..", "[!teletype]", "[if M]\n", "[warning\n", "[endsect:s]\n", "'''", "\"", "[role ", "[template y ", "[else]\n", "[$i.png [width \"1\"] [alt <]]", "\t", "[funcref f() ", "<!--quickbook-escape-prefix-->",
    "\\u003c", "\\u0001", "\\ud800", "[$\\U00110000]", "[$a [a ", "[link:x "};
static const char letters[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-+.,;:!_";

struct H : mc::Harness {
    H() { rule = "every document of up to N tokens of the whole language (brackets, elements, markup, escapes, special characters), balanced or not, converted to BoostBook and to HTML; non-trivial when accepted with an element in it"; case_timeout = 10; }
    void enumerate(mc::Sink& s)
    {
        int all = sizeof toks / sizeof *toks;
        for (int n = 0; n <= (thorough ? 4 : 3); ++n)
            mc::tuples(n <= 3 ? all : 41, n, [&](std::vector<size_t> const& ix) { std::string c("7"); for (size_t i : ix) c += letters[i]; s.emit(c); });
        for (char v : {'7', '6', '5'})
            mc::pump(all, v == '7' ? 2 : 1, {3, 7}, [&](std::vector<size_t> const& ix) { std::string c(1, v); for (size_t i : ix) c += letters[i]; s.emit(c); });
        for (char v : {'1', '5', '6'})
            for (int n = 0; n <= 3; ++n)
                mc::tuples(all, n, [&](std::vector<size_t> const& ix) { if (n == 3 && !thorough && v == '1') return; if (n == 3 && !thorough) for (size_t i : ix) if (i >= 41) return; std::string c(1, v); for (size_t i : ix) c += letters[i]; s.emit(c); });
    }
    bool good(std::string const& t, bool html, mc::Ctx& x)
    {
        std::string err;
        auto r = html::parse(t, err, html);
        if (!r) { x.fail(std::string(html ? "HTML" : "BoostBook") + " is ill-formed: " + err + "\n" + t); return false; }
        return true;
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        std::string d = std::string("[article D\n[quickbook 1.") + c[0] + "]\n]\n\n";
        bool raw = false;
        for (size_t i = 1; i < c.size(); ++i) {
            const char* t = toks[strchr(letters, c[i]) - letters];
            if (!strcmp(t, "'''")) raw = true;
            d += t;
        }
        qbk::Result b = qbk::convert(d);
        x.step();
        bool errs = b.err.find(": error:") != std::string::npos || b.err.find("Error") != std::string::npos;
        if (b.rc < 0) return x.fail("exception: " + b.err);
        if ((b.rc != 0) != errs) return x.fail("status " + std::to_string(b.rc) + " but diagnostics " + b.err);
        if (b.written != (b.rc == 0)) return x.fail(b.rc ? "output written in spite of errors" : "no output");
        if (b.rc) { x.state("rejected"); return; }
        if (!raw && !good(b.text, false, x)) return;
        qbk::Result p = qbk::convert(d, {}, true);
        if (!raw && p.rc) return x.fail("rejected with pretty printing: " + p.err);
        if (!raw && !good(p.text, false, x)) return;
        qbk::Result h = qbk::convert(d, {"--output-format=onehtml"}, true);
        x.step(2);
        if (h.rc < 0) return x.fail("exception: " + h.err);
        if (!raw) {
            if (h.rc) return x.fail("rejected for HTML only: " + h.err);
            if (!h.written) return x.fail("no HTML");
            if (!good(h.text, true, x)) return;
        }
        if (b.text.size() > 300) x.nontrivial();
        x.state(b.text.substr(b.text.find("<title>") == std::string::npos ? 0 : b.text.find("<title>")));
    }
};
MC_MAIN(H)
