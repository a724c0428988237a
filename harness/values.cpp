// Value lists: every sequence of builder operations, against a plain vector model.
#include "mc.hpp"
#include "files.hpp"
#include "values.hpp"
#include "fwd.hpp"
#include <memory>
#include <new>

static long live = 0;
void* operator new(std::size_t n) { ++live; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { ++live; return malloc(n ? n : 1); }
void operator delete(void* p, std::nothrow_t const&) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --live; free(p); } }

using namespace quickbook;

struct M {
    char kind; // i e q x n l
    int tag;
    int num;
    std::string enc, qbk;
    std::vector<M> kids;
    std::string key() const
    {
        std::string r(1, kind);
        r += std::to_string(tag);
        if (kind == 'i') r += ":" + std::to_string(num);
        if (kind == 'e' || kind == 'x') r += "'" + enc + "'";
        if (kind == 'q' || kind == 'x') r += "`" + qbk + "`";
        if (kind == 'l') { r += "["; for (auto& k : kids) r += k.key() + ","; r += "]"; }
        return r;
    }
};

// Equal by contents, tags apart; 2 where differently encoded texts are compared
static int same_value(M const& a, M const& b)
{
    if (a.kind == 'n' || b.kind == 'n' || a.kind == 'l' || b.kind == 'l') {
        if (a.kind != b.kind) return 0;
        if (a.kind == 'n') return 1;
        if (a.kids.size() != b.kids.size()) return 0;
        int r = 1;
        for (size_t i = 0; i < a.kids.size(); ++i) {
            int k = same_value(a.kids[i], b.kids[i]);
            if (!k) return r == 2 ? 2 : 0;
            if (k == 2) r = 2;
        }
        return r;
    }
    std::string two = {std::min(a.kind, b.kind), std::max(a.kind, b.kind)};
    if (two == "ex") return a.enc == b.enc;
    if (two == "qx") return a.qbk == b.qbk;
    if (two == "eq" || two == "iq") return 0;
    if (a.kind != b.kind) return 2; // a number and a text
    return a.kind == 'i' ? a.num == b.num : a.kind == 'e' ? a.enc == b.enc : a.qbk == b.qbk;
}

static std::vector<M> menu()
{
    std::vector<M> v = {{'i', 0, 1}, {'i', 1, 1}, {'i', 0, 2}, {'e', 0, 0, "a"}, {'e', 1, 0, "a"}, {'e', 0, 0, "1"}, {'e', 0, 0, ""}, {'q', 0, 1, "", "b"}, {'q', 1, 1, "", "bc"}, {'q', 0, 3, "", ""},
        {'x', 0, 1, "a", "b"}, {'x', 0, 1, "b", "b"}, {'x', 0, 2, "a", "c"}, {'n', 0}, {'n', 1}, {'l', 0}};
    size_t n = v.size();
    for (size_t i = 0; i < n; ++i) v.push_back({'l', int(i % 2), 0, "", "", {v[i]}});
    for (size_t i = 0; i < n; ++i) v.push_back({'l', 0, 0, "", "", {v[i], v[(i * 5 + 1) % n]}});
    for (size_t i = 0; i < n; ++i) v.push_back({'l', 0, 0, "", "", {{'l', 0, 0, "", "", {v[i]}}}});
    return v;
}

struct Frame { std::vector<M> v; int tag = 0; };

static file_ptr* the_file;

static std::string actual(detail::value_base const& v)
{
    std::string r;
    if (!v.check()) return (v.empty() && !v.is_list() && !v.is_encoded() ? "n" : "bad empty value ") + std::to_string(v.get_tag());
    if (v.is_list()) {
        if (v.empty() != (v.begin() == v.end())) return "bad empty() of a list";
        r = "l" + std::to_string(v.get_tag()) + "[";
        for (auto const& k : v) r += actual(k) + ",";
        return r + "]";
    }
    bool has_int = true, has_q = true, has_e = true;
    int n = 0;
    std::string e, q;
    try { n = v.get_int(); } catch (value_error&) { has_int = false; }
    try { e = v.get_encoded(); } catch (value_error&) { has_e = false; }
    try { q = v.get_quickbook().to_s(); } catch (value_error&) { has_q = false; }
    if (has_e != v.is_encoded()) return "inconsistent is_encoded";
    char kind = has_int ? 'i' : has_e && has_q ? 'x' : has_e ? 'e' : has_q ? 'q' : '?';
    if (has_q && v.get_position() != v.get_quickbook().begin()) return "bad position";
    if (has_q && v.get_file() != *the_file) return "bad file";
    r = std::string(1, kind) + std::to_string(v.get_tag());
    if (kind == 'i') { if (e != std::to_string(n)) return "int encoding"; r += ":" + std::to_string(n); }
    if (kind == 'e' || kind == 'x') r += "'" + e + "'";
    if (kind == 'q' || kind == 'x') r += "`" + q + "`";
    bool want_empty = kind == 'e' || kind == 'x' ? e.empty() : kind == 'q' ? q.empty() : false;
    if (v.empty() != want_empty) return "bad empty()";
    return r;
}

static value build(M const& m)
{
    string_iterator b = (*the_file)->source().begin();
    switch (m.kind) {
    case 'i': return int_value(m.num, m.tag);
    case 'e': return encoded_value(m.enc, m.tag);
    case 'q': return qbk_value(*the_file, b + m.num, b + m.num + m.qbk.size(), m.tag);
    case 'x': return encoded_qbk_value(*the_file, b + m.num, b + m.num + m.qbk.size(), m.enc, m.tag);
    case 'n': return empty_value(m.tag);
    default: {
        value_builder vb;
        vb.start_list(m.tag);
        for (auto& k : m.kids) vb.insert(build(k));
        return vb.release();
    }
    }
}

struct H : mc::Harness {
    H() { rule = "every sequence of value-builder operations up to the depth bound, compared after every operation "
                 "with a vector model; non-trivial when a list is released, re-inserted, extended or sorted"; }
    void init() { the_file = new file_ptr(new file("f", "abcdefghijklmnopqrstuvwxyz", 107u)); }

    void enumerate(mc::Sink& s)
    {
        std::string full = "abcepxnN" "VXWh" "()kSRsr";
        std::string core = "abV" "X()sr";
        std::string sortd = "0123";
        auto emit = [&](std::string const& alpha, size_t lo, size_t hi, std::string const& suf) {
            mc::strings(mc::chars(alpha), lo, hi, [&](std::string const& c) {
                // only sequences the interface allows
                int depth = 0;
                std::string kinds;
                for (char o : c) {
                    if (o == '(' || o == 'S') { ++depth; kinds += o; }
                    if (o == ')' || o == 'k' || o == 'R') {
                        if (!depth) return;
                        bool list = kinds.back() == '(';
                        kinds.pop_back();
                        --depth;
                        if (list != (o != 'R')) return;
                    }
                }
                s.emit(c + suf);
            });
        };
        emit(full, 0, thorough ? 5 : 4, "");
        emit(core, 0, thorough ? 8 : 6, "");
        // stable sorting of every tag sequence
        emit(sortd, 5, thorough ? 9 : 6, "sr");
        emit("012", 8, thorough ? 11 : 8, "sr");
        // sorting something that shares nodes with an earlier value, then growing again
        emit("012", 1, 4, "rXsa0rXsr");
        emit("012", 1, 4, "(ab)rXXsVr");
        auto legal = [&](std::string const& c) {
            int depth = 0;
            for (char o : c) { if (o == '(') ++depth; if (o == ')' && !depth--) return; }
            s.emit(c + std::string(std::max(depth, 0), ')') + "sr");
        };
        mc::pumped(mc::chars("ab0X()r"), 3, {3, 8, 17, 33}, legal);
        mc::pumped(mc::chars("abVXr"), 3, {3}, legal);
        size_t m = menu().size();
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) s.emit("=" + std::to_string(i) + "=" + std::to_string(j));
        for (int n = 10; n <= 40; ++n) {
            std::string a, b, c;
            for (int i = 0; i < n; ++i) { a += char('0' + (n - i) % 4); b += char('0' + i * 7 % 5); c += char('0' + i * i % 3); }
            s.emit(a + "sr"); s.emit(b + "sr"); s.emit(c + "srXsr"); s.emit("(" + a + ")V" + b + "s" + "r");
        }
    }

    void body(const std::string& c, mc::Ctx& x, std::string& st)
    {
        if (c[0] == '=') {
            std::vector<M> v = menu();
            M const &a = v[atoi(c.c_str() + 1)], &b = v[atoi(c.c_str() + 1 + c.substr(1).find('=') + 1)];
            value p = build(a), q = build(b);
            if (actual(p) != a.key()) { x.fail("built " + actual(p) + " expected " + a.key()); return; }
            int w = same_value(a, b);
            if (w < 2 && (p == q) != !!w) x.fail(a.key() + (w ? " differs from " : " equals ") + b.key());
            x.nontrivial();
            return;
        }
        value_builder b;
        std::vector<Frame> fs(1);
        std::vector<value> pool;
        std::vector<M> mpool;
        value held = int_value(777, 1);
        M mheld{'i', 1, 777};
        int n = 0;
        auto ins = [&](M m) { b.insert(build(m)); fs.back().v.push_back(m); };
        auto same = [&]() {
            if (b.empty() != fs.back().v.empty()) { x.fail("empty() disagrees after " + c); return false; }
            for (size_t i = 0; i < pool.size(); ++i) {
                std::string g = actual(pool[i]), w = mpool[i].key();
                if (g != w) { x.fail("released value " + std::to_string(i) + " is " + g + ", expected " + w); return false; }
            }
            return true;
        };
        auto release = [&]() {
            value v = b.release();
            M m{'l', fs.back().tag, 0, "", "", fs.back().v};
            fs.back().v.clear();
            pool.push_back(v);
            mpool.push_back(m);
        };
        for (char o : c) {
            x.step();
            ++n;
            if (o >= '0' && o <= '9') ins({'i', o - '0', n});
            switch (o) {
            case 'a': ins({'i', 0, n}); break;
            case 'b': ins({'i', 2, n}); break;
            case 'c': ins({'i', 1, -n}); break;
            case 'e': ins({'e', 1, 0, n % 3 ? "enc<" : ""}); break;
            case 'p': ins({'q', 2, n % 5, "", std::string("abcdefghi").substr(n % 5, n % 3)}); break;
            case 'x': ins({'x', 1, n % 5, n % 2 ? "E" : "", std::string("abcdefghi").substr(n % 5, 2)}); break;
            case 'n': ins({'n', 2, 0}); break;
            case 'N': ins({'n', 0, 0}); break;
            case 'h': b.insert(held); fs.back().v.push_back(mheld); break;
            case 'V': if (pool.size()) { b.insert(pool.back()); fs.back().v.push_back(mpool.back()); } break;
            case 'X': if (pool.size()) { b.extend(pool.back()); for (auto& k : mpool.back().kids) fs.back().v.push_back(k); } break;
            case 'W':
                if (pool.size() && mpool.back().kids.size()) {
                    value::iterator it = pool.back().begin();
                    for (size_t i = 1; i < mpool.back().kids.size(); ++i) ++it;
                    b.insert(*it);
                    fs.back().v.push_back(mpool.back().kids.back());
                }
                break;
            case '(': b.start_list(n % 3); fs.push_back(Frame()); fs.back().tag = n % 3; break;
            case ')': {
                b.finish_list();
                M m{'l', fs.back().tag, 0, "", "", fs.back().v};
                fs.pop_back();
                fs.back().v.push_back(m);
                break;
            }
            case 'k': b.clear_list(); fs.pop_back(); break;
            case 'S': b.save(); fs.push_back(Frame()); break;
            case 'R': b.restore(); fs.pop_back(); break;
            case 's':
                b.sort_list();
                std::stable_sort(fs.back().v.begin(), fs.back().v.end(), [](M const& p, M const& q) { return p.tag < q.tag; });
                break;
            case 'r': release(); break;
            }
            if (!same()) return;
        }
        // unwind every frame
        for (;;) {
            release();
            if (!same()) return;
            if (fs.size() == 1) break;
            b.restore();
            fs.pop_back();
        }
        if (actual(held) != mheld.key()) { x.fail("a value handle changed after being inserted"); return; }
        for (size_t i = 0; i < pool.size(); ++i) {
            st += mpool[i].key();
            // unpacking: order, tags, end-of-list and unread-value detection
            value_consumer vc(pool[i]);
            size_t k = 0;
            auto& kids = mpool[i].kids;
            while (vc.check()) {
                if (k >= kids.size()) { x.fail("consumer yields too many values"); return; }
                bool threw = false;
                try { vc.finish(); } catch (value_error&) { threw = true; }
                if (!threw) { x.fail("finish() accepted unread values"); return; }
                if (vc.check(kids[k].tag + 1)) { x.fail("check(tag) true for the wrong tag"); return; }
                if (!vc.check(kids[k].tag)) { x.fail("check(tag) false for the right tag"); return; }
                threw = false;
                try { vc.consume(kids[k].tag + 1); } catch (value_error&) { threw = true; }
                if (!threw) { x.fail("consume(tag) accepted the wrong tag"); return; }
                if (vc.optional_consume(kids[k].tag + 1).check()) { x.fail("optional_consume(wrong tag) returned a value"); return; }
                std::string g = k % 3 == 0 ? actual(vc.consume()) : k % 3 == 1 ? actual(vc.consume(kids[k].tag))
                                                                               : actual(vc.optional_consume(kids[k].tag));
                if (g != kids[k].key()) { x.fail("consumed " + g + " expected " + kids[k].key()); return; }
                ++k;
            }
            if (k != kids.size()) { x.fail("consumer stops early"); return; }
            bool threw = false;
            try { vc.consume(); } catch (value_error&) { threw = true; }
            if (!threw) { x.fail("consume() past the end succeeded"); return; }
            if (vc.optional_consume().check()) { x.fail("optional_consume past the end returned a value"); return; }
            try { vc.finish(); } catch (value_error&) { x.fail("finish() failed on a fully read list"); return; }
            // equality: equal to an independent rebuild, different from one with an element changed/dropped
            bool plain = true;
            for (auto& m : kids) if (m.kind != 'i') plain = false;
            if (plain) {
                if (!(pool[i] == build(mpool[i]))) { x.fail("list differs from an identical rebuild"); return; }
                if (kids.size()) {
                    M d = mpool[i];
                    d.kids.back().num += 1000;
                    if (pool[i] == build(d)) { x.fail("equal although the last element differs"); return; }
                    d = mpool[i];
                    d.kids.pop_back();
                    value dv = build(d);
                    if (pool[i] == dv || dv == pool[i]) { x.fail("equal although one list is longer"); return; }
                }
            }
        }
    }

    void check(const std::string& c, mc::Ctx& x)
    {
        std::string st;
        st.reserve(1 << 14);
        long before;
        {
            mc::Ctx y;
            before = live;
            {
                body(c, y, st);
            }
            bool grew = st.capacity() > (1 << 14);
            if (!y.failed && !grew && live != before)
                y.fail("memory not released: " + std::to_string(live - before) + " allocations left");
            x.trans += y.trans;
            if (y.failed) x.fail(y.msg);
        }
        x.state(st);
        if (c.find_first_of("rVXs)=") != std::string::npos) x.nontrivial();
    }
};
MC_MAIN(H)
