// Macro tables (cheap copies) and owned objects.   Case: operations, two or three characters each.
// a<t><k> add key k to table t    c<t><u> copy table t to table u     s<t><u> swap
#include "mc.hpp"
#include <boost/core/invoke_swap.hpp>
#include <boost/intrusive_ptr.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/spirit/include/classic_core.hpp>
#include <boost/spirit/include/classic_symbols.hpp>
#include "symbols.hpp"
#include "cleanup.hpp"
namespace cl = boost::spirit::classic;

static const char* keys[] = {"m", "a", "z", "ma", "mz", "am", "mam", "\xc3"};

struct H : mc::Harness {
    H() { rule = "every sequence of up to N additions, replacements and copies over three tables and eight keys, all lookups compared with maps; every order of owned objects; non-trivial when a copied table is changed"; }
    void enumerate(mc::Sink& s)
    {
        std::vector<std::string> ops, small;
        for (char t : {'0', '1'}) for (char k = '0'; k < '8'; ++k) ops.push_back(std::string("a") + t + k);
        for (auto o : {"c01", "c10", "c02", "c20"}) ops.push_back(o);
        small = {"a00", "a01", "a03", "a06", "a10", "a11", "a13", "a24", "c01", "c10", "c12", "c20"};
        mc::strings(ops, 0, thorough ? 5 : 4, [&](std::string const& c) { s.emit(c); });
        mc::strings(small, 1, thorough ? 6 : 5, [&](std::string const& c) { s.emit(c); });
        mc::pumped(ops, 2, {3, 10}, [&](std::string const& c) { s.emit(c); });
        mc::pumped(small, 4, {3}, [&](std::string const& c) { s.emit(c); });
        for (int n = 7; n < 26; ++n) s.emit("d" + std::string(n, 'x'));
        for (int n : {1, 5, 20, 60}) for (int seed = 0; seed < 24; ++seed) s.emit("m" + std::to_string(n) + "," + std::to_string(seed));
        for (int n = 0; n < 6; ++n) s.emit("d" + std::string(n, 'x'));
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'd' && c.size()) {
            static std::string log;
            log.clear();
            struct O { char k; ~O() { log += k; } };
            std::string want;
            {
                quickbook::cleanup o;
                for (size_t i = 1; i < c.size(); ++i) { O& r = o.add(new O{char('a' + i)}); want = char('a' + i) + want; if (r.k != char('a' + i)) x.fail("wrong object"); }
                if (!log.empty()) x.fail("destroyed early");
            }
            x.eq("order of destruction", log, want);
            if (c.size() > 2) x.nontrivial();
            return;
        }
        if (c[0] == 'm') { // many keys in a scrambled order, with a copy taken half way
            int n = 0, seed = 0;
            sscanf(c.c_str(), "m%d,%d", &n, &seed);
            quickbook::string_symbols a, b;
            std::map<std::string, std::string> ma, mb;
            auto key = [&](int i) {
                std::string k;
                for (int j = (i * (2 * seed + 1) + seed) % 97 + 1; j; j /= 4) k += char("am_z"[j % 4]);
                return seed % 3 == 2 ? std::string(40, 'q') + k : k;
            };
            auto put = [&](quickbook::string_symbols& t, std::map<std::string, std::string>& m, std::string const& k, std::string const& v) { t.add(k.data(), k.data() + k.size(), v); m[k] = v; };
            for (int i = 0; i < n; ++i) {
                put(a, ma, key(i), "a" + std::to_string(i));
                if (i == n / 2) b = a, mb = ma;
                if (i > n / 2) { if (i % 2) put(b, mb, key(i + 31), "b" + std::to_string(i)); }
                x.step();
            }
            for (int which = 0; which < 2; ++which)
                for (int i = 0; i < 100; ++i) {
                    std::string k = key(i), text = k + "zz";
                    auto& m = which ? mb : ma;
                    std::string* v = cl::find(which ? b : a, k.c_str());
                    auto w = m.find(k);
                    if (!v != (w == m.end()) || (v && *v != w->second)) return x.fail("key " + k + " among many");
                    size_t want = 0;
                    for (auto& e : m) if (text.compare(0, e.first.size(), e.first) == 0) want = std::max(want, e.first.size());
                    const char* q = text.data();
                    auto r = cl::parse(q, q + text.size(), which ? b : a);
                    if ((r.hit ? r.length : 0) != want) return x.fail("longest key in " + text);
                }
            if (n > 2) x.nontrivial();
            return;
        }
        quickbook::string_symbols t[3];
        std::map<std::string, std::string> m[3];
        bool copied[3] = {};
        int n = 0;
        std::string trace;
        for (size_t i = 0; i < c.size(); i += 3) {
            int a = c[i + 1] - '0', b = c[i + 2] - '0';
            x.step();
            if (c[i] == 'c') { t[b] = t[a]; m[b] = m[a]; copied[a] = copied[b] = true; }
            else {
                std::string v = "v" + std::to_string(n++);
                if (copied[a]) x.nontrivial();
                quickbook::string_symbols& q = t[a];
                q.add(keys[b], keys[b] + strlen(keys[b]), v);
                m[a][keys[b]] = v;
            }
            for (int k = 0; k < 3; ++k) {
                for (auto key : keys) {
                    std::string* v = cl::find(t[k], key);
                    auto w = m[k].find(key);
                    if (!v != (w == m[k].end())) return x.fail(std::string("table ") + char('0' + k) + ": key " + key + (v ? " present" : " missing"));
                    if (v && *v != w->second) return x.fail(std::string("table ") + char('0' + k) + ": key " + key + " is " + *v + " not " + w->second);
                    trace += v ? *v : "-";
                }
                for (std::string text : {"mamz", "mzm", "amma", "mm", "zz", "q"}) {
                    size_t want = 0;
                    for (auto& e : m[k]) if (text.compare(0, e.first.size(), e.first) == 0) want = std::max(want, e.first.size());
                    const char* p = text.data();
                    auto r = cl::parse(p, p + text.size(), t[k]);
                    if ((r.hit ? r.length : 0) != want) return x.fail("longest key in " + text + ": " + std::to_string(r.hit ? r.length : 0) + " not " + std::to_string(want));
                }
            }
            trace += "/";
        }
        x.state(trace);
    }
};
MC_MAIN(H)
