// Source positions in files assembled from pieces of another file.
// Case: <text index>;<op>;<op>...   ops:
//   a<b>,<e>   add(original[b,e))            g<p>  add_at_pos("G\nH", original+p)
//   u<b>,<e>   unindent_and_add(original[b,e))
//   n<i>  add a builder made of several pieces      p<i>,<b>,<e>  add pieces [b,e) of it
//   d<i>,<b>,<e>,<k>  add a builder, or a part of it, holding pieces [b,e) of another
#include "mc.hpp"
#include "files.hpp"

using namespace quickbook;

struct Cell { char c; long org; bool exact; }; // org: index in the original text

struct Model {
    std::vector<Cell> cells;
    long end = -1;      // original index the end position maps to (-1: nothing added)
    bool end_exact = true;
};

static const char* texts[] = {
    "ab\ncd",
    "a\n  b\n\n  c d\n",
    "\n\n   x\n     y\n   z",
    "  \n \n\t p\n\t\tq\n \n\t r\n",
    "fn{\n    if a\n      b;\n\n    }\n}\n",
    "\n  a\n \tb\n\tc\n    d",
    "   one\n   two\n",
};
static const int NT = sizeof texts / sizeof *texts;

// Nested builders: the pieces they are made of ("a"/"u" ranges, "g" generated).
struct Piece { char op; int b, e; };
static std::vector<std::vector<Piece>> nested(const std::string& t)
{
    int n = t.size();
    return {{{'a', 0, n}}, {{'u', 0, n}}, {{'a', n / 3, n}}, {{'u', n / 2, n}},
            {{'g', n / 2, 0}, {'a', 0, n / 2}, {'g', n / 2, 0}},
            {{'g', 0, 0}, {'u', 0, n}, {'a', n / 2, n}, {'g', n, 0}},
            {{'a', 0, n / 3}, {'u', n / 3, n}, {'a', 0, n}}};
}

static Model m_add(const std::string& t, int b, int e)
{
    Model m;
    for (int i = b; i < e; ++i) m.cells.push_back({t[i], i, true});
    m.end = e;
    return m;
}
static bool ws(char c) { return c == ' ' || c == '\t'; }

// What unindenting keeps: the characters, each tagged with where it came from.
static Model m_unindent(const std::string& t, int b, int e)
{
    Model m;
    std::vector<std::pair<int, int>> lines; // [from,to) excluding newline
    int i = b;
    while (true) {
        int j = i;
        while (j < e && t[j] != '\n') ++j;
        lines.push_back({i, j});
        if (j >= e) break;
        i = j + 1;
    }
    auto blank = [&](std::pair<int, int> l) { for (int k = l.first; k < l.second; ++k) if (!ws(t[k])) return false; return true; };
    size_t first = 0;
    while (first < lines.size() && blank(lines[first])) ++first;
    if (first == lines.size()) return m;
    auto ind = [&](std::pair<int, int> l) { int k = l.first; while (k < l.second && ws(t[k])) ++k; return k - l.first; };
    auto cols = [&](std::pair<int, int> l) { int c = 0; for (int k = l.first; k < l.first + ind(l); ++k) c = t[k] == ' ' ? c + 1 : c - c % 4 + 4; return c; };
    int indent = 1 << 30, full = 1 << 30;
    for (size_t k = first; k < lines.size(); ++k)
        if (!blank(lines[k])) { indent = std::min(indent, ind(lines[k])); full = std::min(full, cols(lines[k])); }
    bool mixed = false;
    std::string pre = t.substr(lines[first].first, indent);
    for (size_t k = first; k < lines.size(); ++k) {
        bool last_partial = k + 1 == lines.size() && blank(lines[k]);
        if (last_partial) continue;
        if (ind(lines[k]) >= indent && t.substr(lines[k].first, indent) != pre) mixed = true;
    }
    for (size_t k = first; k < lines.size(); ++k) {
        auto l = lines[k];
        int n = ind(l);
        if (mixed) {
            for (int x = full; x < cols(l); ++x) m.cells.push_back({' ', l.first, false});
        }
        else
            for (int x = std::min(indent, n); x < n; ++x) m.cells.push_back({t[l.first + x], l.first, false});
        for (int x = l.first + n; x < l.second; ++x) m.cells.push_back({t[x], x, !ws(t[x]) });
        if (k + 1 < lines.size()) m.cells.push_back({'\n', l.second, true});
        m.end = l.second;
        m.end_exact = false;
    }
    return m;
}

struct H : mc::Harness {
    H() { rule = "every program of up to N assembly operations over 7 source texts and every cut point; each character of the result is looked up and compared with where it came from; non-trivial when at least two pieces are combined"; }

    void enumerate(mc::Sink& s)
    {
        for (int ti = 0; ti < NT; ++ti) {
            std::string t = texts[ti];
            int n = t.size();
            std::vector<std::string> ops;
            for (int b = 0; b <= n; ++b)
                for (int e = b; e <= n; ++e) {
                    ops.push_back("a" + std::to_string(b) + "," + std::to_string(e));
                    if (e > b) ops.push_back("u" + std::to_string(b) + "," + std::to_string(e));
                }
            for (int p = 0; p <= n; ++p) ops.push_back("g" + std::to_string(p));
            auto nes = nested(t);
            for (size_t i = 0; i < nes.size(); ++i) {
                ops.push_back("n" + std::to_string(i));
                int len = nes[i].size();
                for (int b = 0; b <= len; ++b)
                    for (int e = b; e <= len; ++e)
                        ops.push_back("p" + std::to_string(i) + "," + std::to_string(b) + "," + std::to_string(e));
            }
            for (auto& o : ops) s.emit(std::to_string(ti) + ";" + o);
            // pairs / triples over a thinned set of operations
            std::vector<std::string> thin;
            size_t stepn = thorough ? 3 : ops.size() > 300 ? 7 : 4;
            for (size_t i = 0; i < ops.size(); i += stepn) thin.push_back(ops[i]);
            for (auto& o : thin)
                for (auto& p : thin) s.emit(std::to_string(ti) + ";" + o + ";" + p);
            std::vector<std::string> few;
            for (size_t i = 0; i < ops.size(); i += ops.size() / (thorough ? 60 : 30) + 1) few.push_back(ops[i]);
            for (auto& o : few)
                for (auto& p : few)
                    for (auto& q : few) s.emit(std::to_string(ti) + ";" + o + ";" + p + ";" + q);
            // pieces of pieces, and of many pieces
            for (size_t i = 0; i < nes.size() + 2; ++i) {
                int len = i < nes.size() ? nes[i].size() : 40;
                for (int b = 0; b <= len; ++b)
                    for (int e = b; e <= len; ++e) {
                        std::string r = std::to_string(i) + "," + std::to_string(b) + "," + std::to_string(e);
                        if (i >= nes.size()) {
                            if (!thorough && (b % 5 > 1 || e % 7 > 1)) continue;
                            s.emit(std::to_string(ti) + ";p" + r);
                            s.emit(std::to_string(ti) + ";a0," + std::to_string(n) + ";p" + r + ";g1");
                        }
                        for (int k = 0; k < 6; ++k) { s.emit(std::to_string(ti) + ";d" + r + "," + std::to_string(k)); s.emit(std::to_string(ti) + ";g1;d" + r + "," + std::to_string(k) + ";a1," + std::to_string(n)); }
                    }
            }
            // many pieces
            for (int len : {4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64})
                for (size_t start = 0; start < ops.size(); start += ops.size() / 12 + 1)
                    for (size_t stride : {0, 1, 2, 5, 11, 23, 47, 101}) {
                        std::string c = std::to_string(ti);
                        for (int k = 0; k < len; ++k) c += ";" + ops[(start + k * stride) % ops.size()];
                        s.emit(c);
                    }
        }
    }

    void check(const std::string& c, mc::Ctx& x)
    {
        auto parts = mc::split(c, ';');
        std::string t = texts[atoi(parts[0].c_str())];
        file_ptr orig = new file("orig", t, 107u);
        string_iterator ob = orig->source().begin();
        mapped_file_builder b;
        b.start(orig);
        Model m;
        auto append = [&](Model const& k) {
            m.cells.insert(m.cells.end(), k.cells.begin(), k.cells.end());
            if (k.end >= 0) { m.end = k.end; m.end_exact = k.end_exact; }
        };
        auto run1 = [&](mapped_file_builder& bb, char op, int p, int q) -> Model {
            if (op == 'g') {
                bb.add_at_pos("G\nH", ob + p);
                Model k;
                for (char ch : std::string("G\nH")) k.cells.push_back({ch, p, true});
                k.end = p;
                return k;
            }
            if (op == 'a') { bb.add(string_view(ob + p, q - p)); return m_add(t, p, q); }
            bb.unindent_and_add(string_view(ob + p, q - p));
            return m_unindent(t, p, q);
        };
        bool any = false;
        for (size_t i = 1; i < parts.size(); ++i) {
            x.step();
            std::string const& o = parts[i];
            int v[4] = {0, 0, 0, 0};
            sscanf(o.c_str() + 1, "%d,%d,%d,%d", v, v + 1, v + 2, v + 3);
            switch (o[0]) {
            case 'a': case 'u': { Model k = run1(b, o[0], v[0], v[1]); append(k); any = true; break; }
            case 'g': append(run1(b, 'g', v[0], 0)); any = true; break;
            case 'n': case 'p': case 'd': {
                auto all = nested(t);
                std::vector<Piece> ns;
                if (v[0] < (int)all.size()) ns = all[v[0]];
                else for (int k = 0, n = t.size(); k < 40; ++k) { // many pieces
                    int at = (k * 7 + v[0]) % n;
                    ns.push_back(k % 4 == 3 ? Piece{'g', at, 0} : k % 4 == 1 && v[0] > (int)all.size() ? Piece{'u', at, n} : Piece{'a', at, std::min(n, at + k % 3 + 1)});
                }
                mapped_file_builder b2;
                b2.start(orig);
                std::vector<Model> ks;
                std::vector<mapped_file_builder::pos_type> at(1, b2.get_pos());
                for (auto& q : ns) { ks.push_back(run1(b2, q.op, q.b, q.e)); at.push_back(b2.get_pos()); }
                int p = o[0] == 'n' ? 0 : v[1], q = o[0] == 'n' ? (int)ks.size() : v[2];
                if (o[0] == 'd') { // some of it in a third one, with something before and after, and a part of that
                    mapped_file_builder b3;
                    b3.start(orig);
                    Model before = run1(b3, 'g', v[3] % 2, 0);
                    auto from = b3.get_pos();
                    b3.add(b2, at[p], at[q]);
                    auto to = b3.get_pos();
                    Model after = run1(b3, 'a', 0, v[3] % 3);
                    if (v[3] < 2) { b.add(b3); append(before); }
                    else if (v[3] < 4) b.add(b3, from, b3.get_pos());
                    else b.add(b3, from, to);
                    for (int k = p; k < q; ++k) if (ks[k].cells.size()) { append(ks[k]); any = true; }
                    if (v[3] < 4 && after.cells.size()) { append(after); any = true; }
                    if (v[3] < 2) any = true;
                    break;
                }
                if (o[0] == 'n') b.add(b2); else b.add(b2, at[p], at[q]);
                for (int k = p; k < q; ++k) if (ks[k].cells.size()) { append(ks[k]); any = true; }
                break;
            }
            }
            if (b.get_pos() != m.cells.size()) { x.fail("size after " + o + ": got " + std::to_string(b.get_pos()) + " want " + std::to_string(m.cells.size())); return; }
            if (b.empty() != m.cells.empty()) { x.fail("empty() wrong"); return; }
        }
        file_ptr f = b.release();
        std::string want;
        for (auto& k : m.cells) want += k.c;
        if (!x.eq("assembled text", f->source().to_s(), want)) return;
        if (!any) return;
        auto pos = [&](long i) { long l = 1, col = 1; for (long k = 0; k < i; ++k) { if (t[k] == '\n') { ++l; col = 1; } else ++col; } return std::make_pair(l, col); };
        std::string st = want;
        for (size_t i = 0; i < m.cells.size(); ++i) {
            file_position p = f->position_of(f->source().begin() + i);
            auto w = pos(m.cells[i].org);
            bool ok = p.line == w.first && (!m.cells[i].exact || p.column == w.second);
            if (ok && !m.cells[i].exact && m.cells[i].c != ' ' && m.cells[i].c != '\t') ok = false;
            if (!ok) {
                x.fail("character " + std::to_string(i) + " '" + mc::show(std::string(1, m.cells[i].c)) + "' of \"" + mc::show(want) + "\" reported at " +
                       std::to_string(p.line) + ":" + std::to_string(p.column) + ", comes from " + std::to_string(w.first) + ":" + std::to_string(w.second));
                return;
            }
            st += std::to_string(p.line) + "." + std::to_string(p.column) + " ";
        }
        if (m.cells.size() && m.end_exact) {
            file_position p = f->position_of(f->source().end());
            auto w = pos(m.end);
            if (p.line != w.first || (m.end_exact && p.column != w.second)) {
                x.fail("end of \"" + mc::show(want) + "\" reported at " + std::to_string(p.line) + ":" + std::to_string(p.column) +
                       ", comes from " + std::to_string(w.first) + ":" + std::to_string(w.second));
                return;
            }
        }
        x.state(st);
        if (parts.size() > 2) x.nontrivial();
    }
};
MC_MAIN(H)
