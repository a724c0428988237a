// Section nesting, heading levels and the errors for unbalanced sections.
// Case: <version><s strict, n not><tokens as letters>
#include "mc.hpp"
#include "qbk.hpp"
#include "html.hpp"

// a..: see text()
static const char* toks[] = {"[section s]", "[section:i s]", "[endsect]", "[endsect:i]", "[endsect:j]", "[heading h]", "[h1 h]", "[h5 h]", "w", "[t]", "[u]", "[v]", "[note\nx\n", "]", "[section:j r]", "[section s]\n\n[section s]\n\n[section s]\n\n[section s]"};

// A..: sections in other files and in templates that include them
static const char* ftoks[] = {"[import open.qbk]", "[import close.qbk]", "[import bal.qbk]", "[include open.qbk]", "[include close.qbk]", "[include doc.qbk]", "[include docopen.qbk]", "[include docclose.qbk]", "[w]", "[x]", "[y]", "[import doc.qbk]", "[import docopen.qbk]", "[z]"};
static const struct { const char *name, *text; } files[] = {
    {"open.qbk", "[section o]\n"}, {"close.qbk", "[endsect]\n"}, {"bal.qbk", "[section b]\n[section c]\n[endsect]\n[endsect]\n"},
    {"doc.qbk", "[article X\n[quickbook 1.V]\n]\n[section x]\n[heading y]\n[endsect]\n"}, {"docopen.qbk", "[article X\n[quickbook 1.V]\n]\n[section x]\n[section y]\n[endsect]\n"},
    {"docclose.qbk", "[article X\n[quickbook 1.V]\n]\n[section x]\n[endsect]\n[endsect]\n"}};

struct H : mc::Harness {
    H() { rule = "every sequence of up to N section starts and ends with and without identifiers, headings, templates holding sections and nested blocks; structure and errors compared with a stack; non-trivial with a section or an error"; }
    void enumerate(mc::Sink& s)
    {
        enumerate_files(s);
        for (char v : {'7', '6', '5'}) for (char m : {'n', 's'}) {
            int n = v == '7' && m == 'n' ? 5 : 4;
            if (thorough && v == '7') ++n;
            mc::pump(16, 3, {3, 8}, [&](std::vector<size_t> const& ix) {
                if (ix.size() > 18 && (v != '7' || (!thorough && (ix[0] + ix[1] + ix[2]) % 4))) return;
                std::string c{v, m};
                int note = 0;
                for (size_t i : ix) {
                    if (i == 12 && (v != '7' || ++note > 2)) return;
                    if (i == 13 && --note < 0) return;
                    c += char('a' + i);
                }
                if (!note) s.emit(c);
            });
            for (int k = 0; k <= n; ++k)
                mc::tuples(k >= 5 ? 12 + (v == '7' && k == 5 && thorough ? 3 : 0) : 16, k, [&](std::vector<size_t> const& ix) {
                    std::string c{v, m};
                    int note = 0;
                    for (size_t i : ix) {
                        if (i == 12 && (v != '7' || ++note > 2)) return;
                        if (i == 13 && --note < 0) return;
                        c += char('a' + i);
                    }
                    if (!note) s.emit(c);
                });
        }
    }
    void enumerate_files(mc::Sink& s)
    {
        static const std::string all = "acfimnABCDEFGHIJKLMN", few = "acmnABDEFIJ";
        for (char v : {'7', '6'}) for (char m : {'n', 's'})
            for (int n = 1; n <= (v == '7' && m == 'n' ? 4 : 3) + (thorough && v == '7' ? 1 : 0); ++n)
                mc::tuples(n < 4 || thorough ? all.size() : few.size(), n, [&](std::vector<size_t> const& ix) {
                    std::string c{v, m};
                    int note = 0, other = 0;
                    for (size_t i : ix) {
                        char t = (n < 4 || thorough ? all : few)[i];
                        if (t == 'm' && (v != '7' || ++note > 2)) return;
                        if (t == 'n' && --note < 0) return;
                        if (t < 'a') ++other;
                        c += t;
                    }
                    if (!note && other) s.emit(c);
                });
    }
    void write_files(char v)
    {
        for (auto& f : files) {
            std::string t = f.text;
            size_t k = t.find("1.V");
            if (k != std::string::npos) t[k + 2] = v;
            std::string name = qbk::dir() + "/" + v + f.name;
            if (access(name.c_str(), R_OK)) qbk::spit(name, t);
        }
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        char v = c[0];
        bool strict = c[1] == 's';
        std::string d = std::string("[article D\n[quickbook 1.") + v + "]\n]\n[template t[]\n[section q]\nz\n[endsect]\n]\n[template u[]\n[section q]\nz\n]\n[template v[]\nz\n[endsect]\n]\n\n";
        if (c.find_first_of("ABCDEFGHIJKLMN") != std::string::npos) {
            write_files(v);
            d += "[template w[]\n[include doc.qbk]\n]\n[template x[]\n[include open.qbk]\n]\n[template y[]\n[include close.qbk]\n]\n[template z[]\n[include docopen.qbk]\n[import bal.qbk]\n]\n\n";
        }
        int line = 1 + std::count(d.begin(), d.end(), '\n');
        // reference
        struct S { std::string id; };
        std::vector<S> st;
        std::vector<std::pair<size_t, int>> note; // level at the start, line
        size_t lo = 0;
        std::string want;
        std::vector<int> errs;
        bool left_file = false;
        for (size_t k = 2; k < c.size(); ++k) {
            if (c[k] < 'a') {
                switch (c[k]) {
                case 'A': case 'M': left_file = true; if (strict) errs.push_back(-1); break;
                case 'B': errs.push_back(1); break;
                case 'C': case 'L': break;
                case 'D': st.push_back({""}); want += "S(o"; break;
                case 'E': if (st.size() <= lo) errs.push_back(1); else { st.pop_back(); want += ")"; } break;
                case 'F': case 'I': want += "A(S(xH3))"; break;
                case 'G': case 'N': want += "A(S(xS(y)))"; left_file = true; if (strict) errs.push_back(-1); break;
                case 'H': errs.push_back(6); break;
                case 'J': errs.push_back(line); st.push_back({""}); break;
                case 'K': errs.push_back(1); break;
                }
                d += ftoks[c[k] - 'A'];
                d += "\n\n";
                line += 2;
                continue;
            }
            int t = c[k] - 'a';
            switch (t) {
            case 0: st.push_back({""}); want += "S(s"; break;
            case 15: for (int n = 0; n < 4; ++n) { st.push_back({""}); want += "S(s"; } break;
            case 1: st.push_back({"i"}); want += "S(s"; break;
            case 14: st.push_back({"j"}); want += "S(r"; break;
            case 2: case 3: case 4: {
                if (st.size() <= lo) { errs.push_back(line); break; }
                std::string id = t == 2 ? "" : t == 3 ? "i" : "j";
                if (id.size() && id != st.back().id) errs.push_back(line);
                st.pop_back();
                want += ")";
                break;
            }
            case 5: want += "H" + std::to_string(std::min<size_t>(6, st.size() + 2)); break;
            case 6: want += "H1"; break;
            case 7: want += "H5"; break;
            case 8: want += "w"; break;
            case 9: want += "S(qz)"; break;
            case 10: errs.push_back(line); st.push_back({""}); break;
            case 11: errs.push_back(15); break;
            case 12: note.push_back({lo, line + 1}); lo = st.size(); want += "N(x"; break;
            case 13:
                if (st.size() != lo) errs.push_back(-1);
                lo = note.back().first;
                note.pop_back();
                want += ")";
                break;
            }
            d += toks[t];
            d += "\n\n";
            line += 2 + std::count(toks[t], toks[t] + strlen(toks[t]), '\n');
        }
        if (d.find(".qbk") != std::string::npos)
            for (auto& f : files)
                for (size_t k = 0; (k = d.find(std::string(" ") + f.name, k)) != std::string::npos; k += 3) d.insert(k + 1, 1, v);
        bool left = !st.empty();
        if (left && strict) errs.push_back(-1);
        for (; st.size(); st.pop_back()) want += ")";
        std::vector<std::string> args;
        if (strict) args.push_back("--strict");
        qbk::Result q = qbk::convert(d, args);
        x.step(c.size());
        if (want.find('S') != std::string::npos || errs.size()) x.nontrivial();
        std::vector<int> got;
        if ((q.rc != 0) != (errs.size() != 0)) return x.fail(errs.size() ? "no error for unbalanced sections" : "rejected: " + q.err);
        // (after an error, the files that follow are not read)
        bool has_files = left_file || d.find(".qbk") != std::string::npos;
        if (has_files && errs.size()) errs.resize(1);
        if ((left || left_file) && !(has_files && errs.size()) && q.err.find("issing [endsect]") == std::string::npos) return x.fail("nothing said about sections left open");
        if (errs.size()) {
            got = qbk::error_lines(q.err);
            // an error inside a template is reported on the template's line: -1 and 0 stand for lines not compared
            std::istringstream is(q.err);
            std::string l, dir = qbk::dir();
            std::vector<int> at;
            while (std::getline(is, l)) {
                size_t p = l.find(".qbk:");
                if (p != std::string::npos && l.find("error: ") != std::string::npos) at.push_back(atoi(l.c_str() + p + 5));
            }
            for (int e : errs) if (e > 0 && std::find(at.begin(), at.end(), e) == at.end())
                return x.fail("no error on line " + std::to_string(e) + ": " + q.err);
            if (q.written) return x.fail("output written");
            x.state("e" + want);
            return;
        }
        std::string err;
        auto tree = html::parse(q.text, err, false);
        if (!tree) return x.fail("ill-formed: " + err);
        std::string out;
        struct W {
            static void go(html::Node* n, std::string& out)
            {
                for (auto& k : n->kids) {
                    auto& e = k->name;
                    if (e == "title" && n->name == "article") continue;
                    if (e.empty()) { for (char ch : k->text) if (!isspace((unsigned char)ch)) out += ch; }
                    else if (e == "article") { out += "A("; go(k.get(), out); out += ")"; }
                    else if (e == "section") { out += "S("; go(k.get(), out); out += ")"; }
                    else if (e == "note") { out += "N("; go(k.get(), out); out += ")"; }
                    else if (e == "bridgehead") out += "H" + k->get("renderas").substr(4);
                    else go(k.get(), out);
                }
            }
        };
        html::Node* art = 0;
        tree->walk([&](html::Node* n) { if (!art && n->name == "article") art = n; });
        if (!art) return x.fail("no document element");
        W::go(art, out);
        if (out != want) return x.fail("structure " + out + " instead of " + want);
        x.state(want);
    }
};
MC_MAIN(H)
