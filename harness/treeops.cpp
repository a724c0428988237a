// Document trees: building and editing, against a plain nested-list model.
// Case: <builder program>;<edit>;<edit>...   program: a add, ( start children, ) end children
// edit: <op><moved><target>  op b before, a after, f first child, l last child, d delete; nodes are letters in creation order
#include "mc.hpp"
#include "tree.hpp"
#include <memory>
using namespace quickbook::detail;

static long live = 0;
struct N : tree_node<N> { int k; explicit N(int k_) : k(k_) { ++live; } ~N() { --live; } };
struct M { int k; M* up = 0; std::vector<M*> kids; };

struct H : mc::Harness {
    H() { rule = "every builder program and every sequence of moves and deletions up to the bounds; all four links of every node compared with the model after every step; non-trivial when a node with children or siblings is moved"; }
    void enumerate(mc::Sink& s)
    {
        for (int n : {7, 10, 16, 20}) { // deep, wide, both
            std::string deep = "a", wide(n, 'a'), zig, comb;
            for (int i = 1; i < n; ++i) deep += "(a";
            deep += std::string(n - 1, ')');
            for (int i = 0; i < n / 2; ++i) zig += "a(a)", comb += "a(";
            comb += "a"; comb = comb.substr(0, comb.size()) + std::string(n / 2, ')');
            std::string z2;
            for (int i = 0; i < n / 4; ++i) z2 += "a(a(aa";
            z2 += std::string(n / 4 * 2, ')');
            for (auto& p : {deep, wide, zig, z2}) {
                int made = std::count(p.begin(), p.end(), 'a');
                s.emit(p);
                edits(p, made, n > 10 ? 1 : thorough ? 2 : 1, s, p);
                for (int k = 0; k < made; ++k) { // long histories of moves
                    std::string c = p;
                    for (int i = 0; i < 24; ++i) c += std::string(";") + "bafl"[(i + k) % 4] + char('A' + (i * 3 + k) % made) + char('A' + (i * 5 + k + 1 + ((i * 3 + k) % made == (i * 5 + k + 1) % made)) % made), s.emit(c);
                }
            }
        }
        for (int n = 1; n <= (thorough ? 6 : 5); ++n) progs("", 0, n, [&](std::string const& p) {
            s.emit(p);
            for (size_t i = 0; i <= p.size(); ++i) { // moving the builder, taking out a node
                std::string k = p;
                k.insert(i, "m");
                s.emit(k);
                int made = std::count(p.begin(), p.begin() + i, 'a');
                for (int j = 0; j < made; ++j) {
                    k = p;
                    k.insert(i, std::string("x") + char('A' + j));
                    s.emit(k);
                    if (n < 5) s.emit(k.substr(0, i) + "m" + k.substr(i));
                }
            }
            edits(p, n, thorough ? (n <= 3 ? 4 : n <= 5 ? 3 : 2) : (n <= 4 ? 3 : n == 5 ? 2 : 1), s, p);
        });
    }
    void progs(std::string p, int open, int left, const std::function<void(std::string const&)>& f)
    {
        if (!left) { while (open--) p += ")"; f(p); return; }
        std::string q = p;
        for (int c = open;; --c) {
            progs(q + "a", c, left - 1, f);
            if (c == 0) break;
            q += ")";
        }
        if (!p.empty() && p.back() == 'a') progs(p + "(a", open + 1, left - 1, f);
    }
    void edits(std::string const& p, int n, int left, mc::Sink& s, std::string const& c)
    {
        if (!left) return;
        for (char op : {'b', 'a', 'f', 'l', 'd'}) for (int m = 0; m < n; ++m) for (int t = 0; t < (op == 'd' ? 1 : n); ++t) {
            if (op != 'd' && t == m) continue;
            std::string k = c + ";" + op + char('A' + m) + char('A' + t);
            s.emit(k);
            edits(p, n, left - 1, s, k);
        }
    }
    static bool same(N* n, M* m, N* parent, mc::Ctx& x)
    {
        N* prev = 0;
        size_t i = 0;
        for (; n; prev = n, n = n->next(), ++i) {
            if (i >= m->kids.size()) { x.fail("a node too many"); return false; }
            if (n->k != m->kids[i]->k) { x.fail("node " + std::to_string(n->k) + " where " + std::to_string(m->kids[i]->k) + " should be"); return false; }
            if (n->prev() != prev) { x.fail("wrong previous link of node " + std::to_string(n->k)); return false; }
            if (n->parent() != parent) { x.fail("wrong parent link of node " + std::to_string(n->k)); return false; }
            if (!same(n->children(), m->kids[i], n, x)) return false;
        }
        if (i != m->kids.size()) { x.fail("a node is lost"); return false; }
        return true;
    }
    static std::string dump(M* m) { std::string r; for (auto k : m->kids) r += char('A' + k->k) + (k->kids.empty() ? "" : "(" + dump(k) + ")"); return r; }
    static void drop(M* m, std::vector<M*>& all) { all[m->k] = 0; for (auto k : m->kids) drop(k, all); }
    void check(const std::string& c, mc::Ctx& x)
    {
        long before = live;
        {
            auto parts = mc::split(c, ';');
            std::vector<std::unique_ptr<M>> own;
            M root;
            std::vector<M*> model;
            std::vector<N*> real;
            std::vector<std::unique_ptr<tree_builder<N>>> builders;
            builders.emplace_back(new tree_builder<N>);
            M* cur = &root;
            std::vector<tree<N>> taken;
            for (size_t ki = 0; ki < parts[0].size(); ++ki) {
                char k = parts[0][ki];
                tree_builder<N>& b0 = *builders.back();
                if (k == 'm') {
                    builders.emplace_back(new tree_builder<N>(std::move(b0)));
                    if (b0.root() || b0.parent() || b0.current()) return x.fail("a builder keeps what was moved");
                    x.nontrivial();
                }
                else if (k == 'x') {
                    int m = parts[0][++ki] - 'A';
                    M* mm = model[m];
                    // the place where the next node goes must stay, and the first node is special
                    for (M* u = cur; u != &root; u = u->up) if (u == mm) return;
                    bool last = mm->up == cur && cur->kids.back() == mm;
                    if (last && !(cur == &root && cur->kids.size() == 1)) return;
                    if (mm->up == &root && root.kids.front() == mm && root.kids.size() > 1) return;
                    mm->up->kids.erase(std::find(mm->up->kids.begin(), mm->up->kids.end(), mm));
                    taken.push_back(b0.extract(real[m]));
                    M tmp;
                    tmp.kids.push_back(mm);
                    if (taken.back().root() != real[m] || !same(real[m], &tmp, 0, x)) return x.fail("extract gives another node");
                    x.nontrivial();
                }
                tree_builder<N>& b = *builders.back();
                if (k == 'a') {
                    real.push_back(new N(real.size()));
                    b.add_element(real.back());
                    own.emplace_back(new M);
                    own.back()->k = model.size();
                    own.back()->up = cur;
                    cur->kids.push_back(own.back().get());
                    model.push_back(own.back().get());
                }
                else if (k == 'm' || k == 'x') ;
                else if (k == '(') { if (cur->kids.empty()) return; b.start_children(); cur = cur->kids.back(); }
                else { b.end_children(); cur = cur->up; }
                x.step();
                if (!same(b.root(), &root, 0, x)) return;
                N* bp = b.parent();
                if ((bp ? bp->k : -1) != (cur == &root ? -1 : cur->k)) return x.fail("builder is at the wrong place");
            }
            tree_builder<N>& b = *builders.back();
            tree<N> t1 = b.release();
            if (b.root() || b.parent() || b.current()) return x.fail("builder keeps the released tree");
            if (parts.size() == 1) { // the builder can be used again, also moved
                b.add_element(new N(7));
                tree_builder<N> b2(std::move(b));
                b2.start_children();
                b2.add_element(new N(8));
                if (b2.root()->prev() || b2.root()->parent() || b2.root()->next() || b2.root()->children()->k != 8 || b2.root()->k != 7) return x.fail("a second tree is wrong");
                tree<N> t2 = b2.release();
                t2 = std::move(t1);
                if (t1.root()) return x.fail("a moved tree keeps its nodes");
                if (!same(t2.root(), &root, 0, x)) return;
                t1 = std::move(t2);
            }
            tree<N> t(std::move(t1));
            if (t1.root()) return x.fail("a moved tree keeps its nodes");
            for (size_t i = 1; i < parts.size(); ++i) {
                char op = parts[i][0];
                int m = parts[i][1] - 'A', to = parts[i][2] - 'A';
                if (!model[m] || (op != 'd' && !model[to])) return;
                for (M* u = model[to]; u && op != 'd'; u = u->up) if (u == model[m]) return; // into itself
                bool at_root = model[to]->up == &root;
                if (op == 'b' && at_root) return; // the tree's owner has the root pointer
                M* mm = model[m];
                if (mm->kids.size() || mm->up->kids.size() > 1) x.nontrivial();
                // model
                auto& sib = mm->up->kids;
                sib.erase(std::find(sib.begin(), sib.end(), mm));
                x.step();
                tree<N> cut = t.extract(real[m]);
                if (cut.root() != real[m]) return x.fail("extract gives another node");
                {
                    M tmp;
                    tmp.kids.push_back(mm);
                    if (!same(cut.root(), &tmp, 0, x) || !same(t.root(), &root, 0, x)) return;
                }
                if (op == 'd') { drop(mm, model); continue; }
                M* tt = model[to];
                if (op == 'f' || op == 'l') { mm->up = tt; tt->kids.insert(op == 'f' ? tt->kids.begin() : tt->kids.end(), mm); }
                else {
                    mm->up = tt->up;
                    auto it = std::find(tt->up->kids.begin(), tt->up->kids.end(), tt);
                    if (op == 'a') ++it;
                    tt->up->kids.insert(it, mm);
                }
                if (op == 'b') real[to]->add_before(std::move(cut));
                if (op == 'a') real[to]->add_after(std::move(cut));
                if (op == 'f') real[to]->add_first_child(std::move(cut));
                if (op == 'l') real[to]->add_last_child(std::move(cut));
                if (cut.root()) return x.fail("the moved tree still owns its nodes");
                if (!same(t.root(), &root, 0, x)) return;
            }
            x.state(dump(&root));
        }
        if (live != before) x.fail("nodes leaked or freed twice: " + std::to_string(live - before));
    }
};
MC_MAIN(H)
