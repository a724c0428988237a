// Images: file name, attributes, description, sizes of SVG files.
// Case: <version 4 5 6 7><svg file><separator><path tokens>|<attribute tokens, two letters each>
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

struct T { const char *text, *value; bool old; };
static const T path[] = {{"a", "a", true}, {"/", "/", true}, {".", ".", true}, {".svg", ".svg", true}, {" ", " ", true}, {"&", "&", true}, {"\"", "\"", true}, {"<", "<", true},
                         {"b.png", "b.png", true}, {"\xc3\xa9", "\xc3\xa9", true}, {"'", "'", true}, {"%20", "%20", true}, {"\\[", "[", false}, {"\\ ", "", false}, {"\\u00e9", "\xc3\xa9", false}, {"\\]", "]", false}, {"\\#", "#", false}};
static const char* names[] = {"width", "alt", "_x", "a1", "format", "contentwidth", "contentdepth", "fileref", "W"};
static const T values[] = {{"", "", true}, {" 1cm", "1cm", true}, {" a b", "a b", true}, {"&c", "&c", true}, {"  \"<", "\"<", true}, {" \\[x", "[x", false}, {" \\u0041", "A", false}, {" b\\ c", "bc", false}, {" d ", "d ", true}, {"\nn", "n", true}, {" \xc3\xa9'", "\xc3\xa9'", true}};
static const char* seps[] = {"", " ", "\n", "[/c]", " [/ [c] ] "};
struct Svg { const char *text, *w, *h; };
static const Svg svgs[] = {{0, 0, 0}, {"<svg width=\"10\" height=\"20\">", "10", "20"}, {"<?xml version=\"1.0\"?>\n<!-- s -->\n<svg height=\"2cm\"\n  width=\"1\"/>", "1", "2cm"}, {"<svg>", 0, 0},
                           {"<svg viewBox=\"0\"><rect width=\"5\" height=\"6\"/></svg>", 0, 0}, {"<svg width=\"10\"", "10", 0}, {"<svg width=\"10>", 0, 0}, {"<svg width=\"4\" height=\"1>", "4", 0}, {"", 0, 0},
                           {"<svg width=\"\">", "", 0}, {"width=\"3\" height=\"4\"", 0, 0}, {"<svg width=\"1\" height=\"2\"/><svg width=\"3\">", "1", "2"}, {"<svg width", 0, 0}, {"<svg height=>", 0, 0}, {"<svg width=\"", 0, 0}, {"<svg height=\"7\" width>", 0, "7"}};
template <class A, size_t N> static constexpr size_t len(A (&)[N]) { return N; }
static const size_t NP = len(path), NN = len(names), NV = len(values), NS = len(seps), NG = len(svgs);

struct H : mc::Harness {
    H() { rule = "every image with a path of up to N tokens, every list of up to M attributes from names x values, with every separator and every form of SVG file, in four versions; the element written is compared with the reference; non-trivial with a special character, attribute or SVG file"; }
    void enumerate(mc::Sink& s)
    {
        for (char v : {'7', '6', '5', '4'}) {
            for (int n = 1; n <= (thorough ? 5 : v == '7' ? 4 : 3); ++n)
                mc::tuples(NP, n, [&](std::vector<size_t> const& ix) {
                    std::string p;
                    for (size_t i : ix) { if (v < '6' && !path[i].old) return; p += char('a' + i); }
                    if (p[0] == 'e' || p.back() == 'e' || p.find("kkk") != p.npos) return; // spaces around the path, the boostbook escape
                    s.emit(std::string(1, v) + "aa" + p + "|");
                    if (v > '4' && n < 3) for (size_t k = 1; k < NS; ++k) s.emit(std::string(1, v) + "a" + char('a' + k) + p + "|");
                });
            mc::pump(NP, thorough ? 3 : 2, {5, 40}, [&](std::vector<size_t> const& ix) {
                std::string p;
                for (size_t i : ix) { if (v < '6' && !path[i].old) return; p += char('a' + i); }
                if (p[0] == 'e' || p.back() == 'e' || p.find("kkk") != p.npos) return;
                s.emit(std::string(1, v) + "aa" + p + "|");
            });
            if (v == '4') continue;
            mc::pump(NN * NV, 1, {3, 12}, [&](std::vector<size_t> const& ix) {
                std::string a;
                for (size_t i = 0; i < ix.size(); ++i) { size_t n = (ix[i] / NV + i) % NN; if (v < '6' && !values[ix[i] % NV].old) return; a += char('a' + n); a += char('a' + ix[i] % NV); }
                s.emit(std::string(1, v) + "aai|" + a);
            });
            for (std::string p : {"i", "abd"})
                for (int n = 1; n <= (thorough ? 3 : 2); ++n)
                    mc::tuples(NN * NV, n, [&](std::vector<size_t> const& ix) {
                        std::string a;
                        for (size_t i : ix) { if (v < '6' && !values[i % NV].old) return; if (n == 3 && i % NV > 5) return; a += char('a' + i / NV); a += char('a' + i % NV); }
                        for (char g : {'a', 'b'}) for (size_t k = 0; k < (n == 1 ? NS : n == 2 ? 2 : 1); ++k) if (g == 'a' || p != "i") s.emit(std::string(1, v) + g + char('a' + k) + p + "|" + a);
                    });
        }
        for (char v : {'7', '5', '4'})
            for (size_t g = 0; g < NG; ++g)
                for (std::string p : {"d", "ad", "id", "dd", "aba", "i"})
                    for (std::string a : {"", "eb", "fb", "gb", "fbgb", "ac", "bb", "fbeb"}) if (a.empty() || v > '4') s.emit(std::string(1, v) + char('a' + g) + "b" + p + "|" + a);
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        char v = c[0];
        const Svg& g = svgs[c[1] - 'a'];
        std::string sep = seps[c[2] - 'a'], src = "[$", file;
        size_t bar = c.find('|');
        for (size_t i = 3; i < bar; ++i) { src += path[c[i] - 'a'].text; file += path[c[i] - 'a'].value; }
        std::map<std::string, std::string> want;
        want["fileref"] = file;
        int dups = 0;
        for (size_t i = bar + 1; i < c.size(); i += 2) {
            std::string n = names[c[i] - 'a'];
            const T& w = values[c[i + 1] - 'a'];
            src += sep + "[" + n + w.text + "]";
            if (!want.insert({n, w.value}).second) ++dups;
        }
        src += (v > '4' ? sep : "") + "]";
        std::string stem = file.substr(file.rfind('/') + 1), ext;
        size_t dot = stem.rfind('.');
        if (dot != std::string::npos) { ext = stem.substr(dot + 1); stem = stem.substr(0, dot); }
        bool has_alt = want.count("alt");
        std::string alt = has_alt ? want["alt"] : stem;
        if (v < '6') has_alt = true;
        want.erase("alt");
        std::string made;
        if (ext == "svg") {
            if (g.text && file.find('/') == std::string::npos) mkdir((qbk::dir() + "/html").c_str(), 0777), qbk::spit(made = qbk::dir() + "/html/" + file, g.text);
            want.insert({"format", "SVG"});
            if (!made.empty() && g.w) want.insert({"contentwidth", g.w});
            if (!made.empty() && g.h) want.insert({"contentdepth", g.h});
        }
        x.step();
        qbk::Result r = qbk::convert(std::string("[article D\n[quickbook 1.") + v + "]\n[id d]\n]\n\nx" + src + "y\n");
        if (!made.empty()) unlink(made.c_str());
        if (r.rc) return x.fail(mc::show(src) + " rejected: " + r.err);
        std::string err, got, exp = "img";
        auto t = html::parse(r.text, err, false);
        if (!t) return x.fail(mc::show(src) + " gives ill-formed output: " + err);
        int images = 0;
        std::string para;
        t->walk([&](html::Node* n) {
            if (n->name == "para") { for (auto& k : n->kids) para += k->name.empty() ? k->text : "{" + k->name + "}"; }
            if (n->name != "inlinemediaobject") return;
            ++images;
            got += "img";
            int data = 0, text = 0;
            std::string at, al;
            n->walk([&](html::Node* k) {
                if (k->name == "imagedata") { ++data; std::map<std::string, std::string> m; for (auto& a : k->attrs) m[a.first] = a.second; for (auto& a : m) at += " " + a.first + "=" + a.second; if (k->up->name != "imageobject") ++data; }
                if (k->name == "phrase") { ++text; al = k->all(); if (k->up->name != "textobject") ++text; }
            });
            got += at + (text ? " (" + al + ")" : "");
            if (data != 1 || text > 1) got += "?";
        });
        for (auto& a : want) exp += " " + a.first + "=" + a.second;
        if (has_alt) exp += " (" + alt + ")";
        if (got != exp) return x.fail(mc::show(src) + " gives " + mc::show(got) + " instead of " + mc::show(exp));
        if (para.find("x{inlinemediaobject}y") == std::string::npos) return x.fail(mc::show(src) + ": the text around the image became " + mc::show(para));
        int warned = 0;
        for (size_t p = r.err.find("Duplicate image attribute"); p != std::string::npos; p = r.err.find("Duplicate image attribute", p + 1)) ++warned;
        if (warned != dups) return x.fail(mc::show(src) + ": " + std::to_string(warned) + " warnings of repeated attributes instead of " + std::to_string(dups));
        x.state(got);
        if (c.size() > bar + 1 || src.find_first_of("&\"<\\'") != std::string::npos || !made.empty()) x.nontrivial();
    }
};
MC_MAIN(H)
