// Unindenting code: every text over a small alphabet against a line-by-line reference.
#include "mc.hpp"
#include "files.hpp"
#include "unindent.hpp"
using namespace quickbook;

struct H : mc::Harness {
    H() { rule = "every text over {x,y,space,tab,newline} up to the length bound, and every combination of up to four lines taken from a menu of indentations; non-trivial when the result differs from the input"; }
    void enumerate(mc::Sink& s)
    {
        mc::strings(mc::chars("x \n\t"), 0, thorough ? 11 : 9, [&](std::string const& c) { s.emit(c); });
        std::vector<std::string> menu = {"", "x", " x y", "  x", "   x", "    x", "     x", "\tx", "\t x", " \tx", "  \tx", "    \tx", "\t\tx", "\t    x", "  ", "\t", "      ", "\xc3\xa9 x", "        x"};
        // wide and many lines
        std::vector<std::string> wide;
        for (int i : {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100}) wide.push_back(std::string(i, ' '));
        for (int t : {1, 2, 3, 4, 8, 20}) for (int i : {0, 1, 3, 4, 5, 9}) { wide.push_back(std::string(t, '\t') + std::string(i, ' ')); if (i) wide.push_back(std::string(i, ' ') + std::string(t, '\t')); }
        for (auto& a : wide) for (auto& b : wide) { s.emit(a + "x\n" + b + "y\n"); s.emit("\n" + a + "x\n\n" + b + "y\n" + a + "z"); s.emit(a + std::string(70, 'x') + "\n" + b); }
        mc::pumped({"x\n", "\n", "  x\n", "    x\n", "\tx\n", "   \n", "  \tx\n"}, 4, {3, 11, 40}, [&](std::string const& c) { s.emit(c); });
        for (int n = 2; n <= (thorough ? 5 : 4); ++n)
            mc::tuples(menu.size(), n, [&](std::vector<size_t> const& ix) {
                if (!s.mine()) { s.skip(); return; }
                std::string r;
                for (size_t i : ix) r += menu[i] + "\n";
                s.emit(r);
            });
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        x.step(mc::split(c, '\n').size());
        file_ptr f = new file("f", c, 107u);
        mapped_file_builder b;
        b.start(f);
        b.unindent_and_add(f->source());
        file_ptr r = b.release();
        std::string w = unindent::ref(c);
        x.eq("unindented text", r->source().to_s(), w);
        x.state(w);
        if (w != c) x.nontrivial();
    }
};
MC_MAIN(H)
