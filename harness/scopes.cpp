// Template scopes.   Case: operations separated by spaces.
// ( scope  ) end scope  +x5 +y4 +xy5 define (name, language version of its file: 5 = 1.5, 4 = 1.4)   *x call (scope for its body)
#include "mc.hpp"
#include "template_stack.hpp"
#include "files.hpp"
#include "values.hpp"
#include "parsers.hpp"
using namespace quickbook;

struct Def { std::string name; bool lexical; int id; struct Frame* scope; };
struct Frame { std::map<std::string, Def> defs; Frame* parent = 0; bool skip = false; };

struct H : mc::Harness {
    file_ptr f4, f5;
    H() { rule = "every sequence of up to N operations (open and close scopes, define, redefine and call lexically or dynamically scoped templates), with every name looked up and parsed after each; non-trivial when a template is called"; }
    void init()
    {
        f4 = new file("f4", std::string("abc"), 104u);
        f5 = new file("f5", std::string("abc"), 105u);
    }
    std::vector<std::string> names = {"x", "y", "xy"};
    void enumerate(mc::Sink& s)
    {
        std::vector<std::string> ops = {"(", ")", "+x5", "+x4", "+y5", "*x", "*y"}, more = {"(", ")", "+x5", "+y4", "+xy5", "+xy4", "*x", "*xy", "+x4"};
        auto gen = [&](std::vector<std::string> const& al, size_t lo, size_t hi) {
            for (size_t n = lo; n <= hi; ++n) rec(al, n, "", 0, s);
        };
        gen(ops, 1, thorough ? 8 : 7);
        gen(more, 1, thorough ? 7 : 6);
        mc::pumped({" (", " )", " +x5", " +x4", " +y5", " *x", " *y", " +xy4"}, 4, {5, 12}, [&](std::string const& c) {
            int d = 0;
            std::string r = "+x5 +y4";
            for (auto& o : mc::split(c.substr(1), ' ')) {
                if (o == "(" || o[0] == '*') ++d;
                if (o == ")" && !d--) return;
                r += " " + o;
            }
            s.emit(r);
        });
    }
    void rec(std::vector<std::string> const& al, size_t n, std::string const& p, int depth, mc::Sink& s)
    {
        if (!n) { s.emit(p); return; }
        for (auto& o : al) {
            if (o == ")" && !depth) continue;
            if (o[0] == '*' && p.find("+" + o.substr(1)) == std::string::npos) continue;
            rec(al, n - 1, p.empty() ? o : p + " " + o, depth + (o == "(" || o[0] == '*') - (o == ")"), s);
        }
    }
    std::vector<Frame*> st;
    Def* find(const std::string& n) { for (Frame* f = st.back(); f; f = f->parent) if (f->defs.count(n)) return &f->defs[n]; return 0; }
    void check(const std::string& c, mc::Ctx& x)
    {
        std::vector<std::unique_ptr<Frame>> own;
        auto frame = [&] { own.emplace_back(new Frame); return own.back().get(); };
        st.assign(1, frame());
        template_stack t;
        int n = 0;
        std::string trace;
        for (auto& o : mc::split(c, ' ')) {
            ++n;
            x.step();
            std::string nm = o.size() > 1 ? (o[0] == '+' ? o.substr(1, o.size() - 2) : o.substr(1)) : "";
            if (o == "(" || o[0] == '*') {
                Def* d = o == "(" ? 0 : find(nm);
                template_symbol* sym = o == "(" ? 0 : t.find(nm);
                if (o != "(" && !d) return; // nothing to call (checked below)
                Frame* f = frame();
                f->parent = st.back();
                t.push();
                if (d) {
                    x.nontrivial();
                    if (d->lexical) { f->parent = d->scope; f->skip = true; }
                    else { // the innermost enclosing scope that is not the body of a lexically scoped template
                        size_t k = st.size();
                        while (k && st[k - 1]->skip) --k;
                        f->parent = k ? st[k - 1] : 0;
                    }
                    t.start_template(sym);
                }
                st.push_back(f);
            }
            else if (o == ")") { t.pop(); st.pop_back(); }
            else {
                bool lex = o.back() == '5';
                bool dup = st.back()->defs.count(nm);
                std::string id = std::to_string(n);
                bool ok = t.add(template_symbol(nm, std::vector<std::string>(1, id), qbk_value(lex ? f5 : f4, (lex ? f5 : f4)->source().begin(), (lex ? f5 : f4)->source().end(), template_tags::phrase), &t.top_scope()));
                if (ok == dup) return x.fail(dup ? "redefinition in the same scope accepted" : "definition refused");
                if (!dup) st.back()->defs[nm] = Def{nm, lex, n, st.back()};
            }
            for (auto& k : names) {
                Def* d = find(k);
                template_symbol* s = t.find(k);
                if (!d != !s) return x.fail("after " + o + ": " + k + (s ? " is visible" : " is not visible"));
                if (s && (s->identifier != k || s->params.size() != 1 || s->params[0] != std::to_string(d->id))) return x.fail("after " + o + ": " + k + " finds definition " + (s->params.empty() ? "?" : s->params[0]) + " not " + std::to_string(d->id));
                template_symbol* top = t.find_top_scope(k);
                if (!top != !st.back()->defs.count(k)) return x.fail("own scope: " + k);
                trace += d ? std::to_string(d->id) : "-";
            }
            // the longest visible name is taken from the text
            for (auto text : {"x", "xy", "xyz", "yx", "z", ""}) {
                std::string s = text;
                size_t want = 0;
                for (auto& k : names) if (find(k) && s.compare(0, k.size(), k) == 0) want = std::max(want, k.size());
                const char* b = s.data();
                auto r = boost::spirit::classic::parse(b, b + s.size(), t.scope);
                if (r.hit != (want > 0) || (want && r.length != want)) return x.fail("in '" + s + "' " + std::to_string(r.hit ? r.length : 0) + " characters name a template, should be " + std::to_string(want));
            }
            trace += "/";
        }
        x.state(trace);
    }
};
MC_MAIN(H)
