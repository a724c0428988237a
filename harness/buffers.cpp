// Output buffers.   Case: operations, one letter each.
// a stream a char, b append a string, c stream a long text, n stream a number, ( push, ) pop,
// A leading D is a collector with a buffer of its own. w swap with what was taken (without clearing it).
// A leading S: three streams, two letters each: write, append, clear, swap, assign from, copy from another.
// s take (swap with an empty string), p put back what was taken, x clear, r read
#include "mc.hpp"
#include "collector.hpp"
#include <memory>
using namespace quickbook;

struct H : mc::Harness {
    H() { rule = "every sequence of up to N operations (stream, append, push, pop, take, put back, clear, read) on an output collector, compared with a stack of strings; non-trivial when a nested buffer is written"; }
    void enumerate(mc::Sink& s)
    {
        auto gen = [&](std::vector<std::string> const& al, size_t lo, size_t hi) {
            mc::strings(al, lo, hi, [&](std::string const& c) {
                int d = 0;
                for (char k : c) { if (k == '(') ++d; if (k == ')' && --d < 0) return; }
                s.emit(c);
                if (c.size() < hi) s.emit("D" + c);
            });
        };
        // streams that share their text after copying
        for (int n = 1; n <= (thorough ? 5 : 4); ++n)
            mc::tuples(17, n, [&](std::vector<size_t> const& ix) { std::string c("S"); for (size_t i : ix) c += char('a' + i); s.emit(c); });
        gen({"a", "b", "c", "n", "(", ")", "s", "p", "w", "x", "r"}, 0, thorough ? 7 : 6);
        mc::pumped({"a", "b", "c", "n", "(", ")", "s", "p", "x"}, 4, {4, 9, 20}, [&](std::string c) {
            int d = 0, low = 0;
            for (char k : c) { if (k == '(') ++d; if (k == ')') low = std::min(low, --d); }
            if (low < -60) return;
            c = std::string(-low, '(') + c;
            s.emit(c);
            s.emit("D" + c);
        });
        gen({"a", "b", "(", ")", "s", "x"}, 7, thorough ? 9 : 8);
    }
    void streams(const std::string& c, mc::Ctx& x)
    {
        std::vector<std::unique_ptr<string_stream>> s;
        std::vector<std::shared_ptr<std::string>> m;
        for (int i = 0; i < 3; ++i) { s.emplace_back(new string_stream); m.emplace_back(new std::string); }
        std::string other = "o", mother = other;
        int n = 0;
        for (char k : c.substr(1)) {
            int op = k - 'a', i = op < 8 ? op % 2 : 0, j = 0;
            std::string w = std::to_string(n++), big(200, 'A' + n);
            x.step();
            if (op < 2) { s[i]->get() << big; *m[i] += big; }
            else if (op < 4) { s[i]->append(w); *m[i] += w; }
            else if (op < 6) { s[i]->clear(); m[i]->clear(); }
            else if (op < 8) { s[i]->swap(other); std::swap(*m[i], mother); }
            else if (op < 14) { // assign
                static const int a[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
                i = a[op - 8][0], j = a[op - 8][1];
                *s[i] = *s[j];
                m[i] = m[j];
                x.nontrivial();
            }
            else { // copy
                i = op - 14, j = (i + 1) % 3;
                s[i].reset(new string_stream(*s[j]));
                m[i] = m[j];
                x.nontrivial();
            }
            for (int q = 0; q < 3; ++q) if (!x.eq("stream", s[q]->str(), *m[q])) return;
        }
        x.state(*m[0] + "|" + *m[1] + "|" + *m[2]);
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'S') return streams(c, x);
        bool own = c[0] == 'D';
        string_stream main;
        std::vector<std::string> model(1);
        std::string taken, mtaken;
        {
            std::unique_ptr<collector> owner(own ? new collector : new collector(main));
            collector& out = *owner;
            int n = 0, depth = 0;
            for (char k : c.substr(own)) {
                x.step();
                std::string w = std::to_string(n++), big(150, 'A' + n);
                switch (k) {
                case 'a': out << char('a' + n); model.back() += char('a' + n); if (depth) x.nontrivial(); break;
                case 'b': out << std::string("<" + w + ">"); model.back() += "<" + w + ">"; break;
                case 'c': out.get() << big; model.back() += big; break;
                case 'n': out << n; model.back() += std::to_string(n); break;
                case '(': out.push(); model.push_back(""); ++depth; break;
                case ')': out.pop(); model.pop_back(); --depth; break;
                case 's': taken.clear(); out.swap(taken); mtaken.clear(); std::swap(mtaken, model.back()); if (!x.eq("taken text", taken, mtaken)) goto end; break;
                case 'w': out.swap(taken); std::swap(mtaken, model.back()); if (!x.eq("text swapped", taken, mtaken)) goto end; break;
                case 'p': out << taken; model.back() += mtaken; break;
                case 'x': out.clear(); model.back().clear(); break;
                case 'r': if (!x.eq("text", out.str(), model.back())) goto end; break;
                }
            }
            for (; depth; --depth) { if (!x.eq("inner text", out.str(), model.back())) goto end; out.pop(); model.pop_back(); }
            if (!x.eq("outer text", out.str(), model.back())) goto end;
        end:
            for (; depth; --depth) out.pop();
        }
        if (x.failed) return;
        x.eq("final text", main.str(), own ? "" : model[0]);
        x.state(main.str());
    }
};
MC_MAIN(H)
