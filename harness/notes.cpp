// Footnotes and callouts in HTML.
// Case: f<ids><toc>:<tokens>  footnotes: n plain footnote, p paragraph footnote, N nested, t in the title, s new sub-section, c new page, l in a list
//       c:<tokens>            callouts: 1-3 a mark for callout k, L the list, 4 a mark for nothing; lower case a-c callouts in the list
#include "mc.hpp"
#include "html.hpp"
#include "bb2html.hpp"
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
using namespace quickbook;
namespace fs = boost::filesystem;

struct H : mc::Harness {
    std::string dir;
    H() { rule = "every arrangement of footnotes (plain, in paragraphs, lists, titles, nested, across sections and pages, with clashing ids) and of callout marks and lists up to the bound; non-trivial when there is a note"; }
    void init() { dir = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/notes"; mkdir(dir.c_str(), 0777); }
    void enumerate(mc::Sink& s)
    {
        mc::strings({"n", "p", "N", "l", "i", "s", "c", "t"}, 0, thorough ? 5 : 4, [&](std::string const& t) {
            for (char ids : {'0', '1', '2'}) for (char m : {'c', 's'}) { if (t.size() > 3 && ids != '1') continue; s.emit(std::string("f") + ids + m + ":" + t); }
        });
        // forests of nested footnotes: all shapes up to seven notes, deep chains and wide ones, in one page or two
        {
            std::function<void(std::string, int, int)> forest = [&](std::string t, int open, int left) {
                if (!open && !t.empty()) for (char m : {'0', '1', '2'}) s.emit(std::string("T") + m + ":" + t);
                if (left) forest(t + "(", open + 1, left - 1);
                if (open) forest(t + ")", open - 1, left);
            };
            forest("", 0, thorough ? 8 : 7);
            auto rep = [](std::string w, int k) { std::string r; while (k--) r += w; return r; };
            for (int k = 7; k < 20; ++k) for (char m : {'0', '1', '2'}) {
                s.emit(std::string("T") + m + ":" + std::string(k, '(') + std::string(k, ')'));
                s.emit(std::string("T") + m + ":" + rep("(())", k) + "()");
                s.emit(std::string("T") + m + ":(" + rep("()", k) + ")()");
            }
        }
        for (char m : {'s', 'i', 'c'}) for (int g = 1; g <= 4; ++g) for (int n : {1, 2, 3, 9, 10, 11}) for (int o = 0; o < 3; ++o) if (o < 2 || n % 7) s.emit(std::string("M") + m + ":" + std::to_string(g) + "," + std::to_string(n) + "," + std::to_string(o));
        for (int g = 1; g <= 4; ++g) for (int n = 1; n <= 30; ++n) for (int o = 0; o < 3; ++o) if (o < 2 || n % 7) s.emit("C:" + std::to_string(g) + "," + std::to_string(n) + "," + std::to_string(o));
        mc::pumped({"n", "p", "N", "l", "i", "s", "c", "t"}, 3, {4, 8}, [&](std::string const& t) { for (char ids : {'0', '1', '2'}) for (char m : {'c', 's'}) s.emit(std::string("f") + ids + m + ":" + t); });
        for (char ids : {'0', '1', '2', '3'}) for (int k = 5; k < 24; ++k) s.emit(std::string("f") + ids + "s:" + std::string(k, 'n'));
        mc::strings({"1", "2", "3", "4", "a", "b", "c", "d", "|"}, 1, thorough ? 6 : 5, [&](std::string const& t) {
            std::string l;
            for (char c : t) if (c != '|') l += c;
            std::sort(l.begin(), l.end());
            if (std::unique(l.begin(), l.end()) != l.end()) return; // ids are unique
            s.emit("c:" + t);
        });
    }
    // nested footnotes: every text once, marks and texts linked both ways, numbered as they stand in the block
    void nest(char mode, const std::string& t, mc::Ctx& x)
    {
        std::string src = "<book id=\"d\"><title>Doc</title><chapter id=\"c1\"><title>C</title>", f = dir + "/T" + std::to_string(getpid());
        int n = 0, depth = 0, half = 0;
        std::vector<int> page;
        int cur = 0;
        for (size_t i = 0; i < t.size(); ++i) {
            if (t[i] == '(') {
                if (!depth) src += "<para>x";
                src += "<footnote" + (mode == '1' && n % 2 ? " id=\"footnote-" + std::to_string(n) + "\"" : std::string()) + "><para>F" + std::to_string(n) + ".";
                ++n;
                ++depth;
                page.push_back(cur);
            }
            else {
                src += "</para></footnote>";
                if (!--depth) {
                    src += "</para>";
                    if (mode == '2' && !half++ && i + 1 < t.size()) { src += "</chapter><chapter id=\"c2\"><title>D</title>"; ++cur; }
                }
            }
        }
        src += "</chapter></book>";
        fs::remove_all(f);
        fs::create_directories(f);
        detail::html_options op;
        op.chunked_output = mode == '2';
        op.home_path = f + "/index.html";
        op.pretty_print = false;
        x.step(src.size());
        int rc = detail::boostbook_to_html(src, op);
        std::vector<std::string> pages;
        if (mode == '2') { pages.push_back(mc::Driver::readfile(f + "/c1.html")); if (cur) pages.push_back(mc::Driver::readfile(f + "/c2.html")); }
        else pages.push_back(mc::Driver::readfile(f + "/index.html"));
        fs::remove_all(f);
        if (rc) return x.fail("conversion failed");
        int next = -1;
        for (size_t p = 0; p < pages.size(); ++p) {
            std::string err;
            auto tree = html::parse(pages[p], err);
            if (!tree) return x.fail("malformed: " + err);
            std::map<std::string, html::Node*> ids;
            std::vector<html::Node*> bodies;
            std::map<std::string, std::vector<html::Node*>> hrefs;
            tree->walk([&](html::Node* k) {
                if (auto i = k->attr("id")) if (!ids.insert({*i, k}).second) x.fail("id twice: " + *i);
                if (k->name == "div" && k->get("class") == "footnote") bodies.push_back(k);
                if (k->name == "a") hrefs[k->get("href")].push_back(k);
            });
            size_t want = 0;
            std::string whole = tree->all();
            for (int k = 0; k < n; ++k) {
                std::string w = "F" + std::to_string(k) + ".";
                size_t cnt = 0;
                for (size_t i = whole.find(w); i != std::string::npos; i = whole.find(w, i + 1)) ++cnt;
                bool here = page[k] == (int)p;
                want += here;
                if (!x.eq(("occurrences of " + w).c_str(), cnt, (size_t)here)) return;
            }
            if (x.failed || !x.eq("footnotes", bodies.size(), want)) return;
            for (auto b : bodies) {
                auto m = hrefs.find("#" + b->get("id"));
                if (m == hrefs.end() || m->second.size() != 1) return x.fail("not one mark for the footnote " + b->get("id"));
                html::Node* mark = m->second[0];
                auto back = hrefs.find("#" + mark->get("id"));
                if (mark->get("id").empty() || back == hrefs.end() || back->second.size() != 1) return x.fail("no link back to the mark of " + b->get("id"));
                html::Node* u = back->second[0];
                while (u && u != b) u = u->up;
                if (!u) return x.fail("the link back is not in the footnote " + b->get("id"));
                std::string lab = mark->all();
                if (!x.eq("label", back->second[0]->all(), lab)) return;
                int v = atoi(lab.c_str() + 1);
                if (next >= 0 && v != next) return x.fail("footnote " + b->get("id") + " is labelled " + lab + ", not [" + std::to_string(next) + "]");
                next = v + 1;
            }
        }
        x.state(t);
        x.nontrivial();
    }
    // groups of callouts in sections and chapters, on one page or several
    void places(char mode, const std::string& c, mc::Ctx& x)
    {
        int groups, n, order;
        sscanf(c.c_str(), "%d,%d,%d", &groups, &n, &order);
        auto place = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n; };
        std::string src, f = dir + "/M" + std::to_string(getpid());
        for (int g = 0; g < groups; ++g) {
            std::string code, list, el = mode == 'c' ? "chapter" : "section";
            for (int i = 0; i < n; ++i) {
                std::string m = std::to_string(g) + "-" + std::to_string(place(i)), k = std::to_string(g) + "-" + std::to_string(i);
                code += "z <co id=\"m" + m + "\" linkends=\"k" + m + "\"/>\n";
                list += "<callout arearefs=\"m" + k + "\" id=\"k" + k + "\"><para>K" + k + "</para></callout>";
            }
            src += "<" + el + " id=\"g" + std::to_string(g) + "\"><title>G</title><programlisting>" + code + "</programlisting><calloutlist>" + list + "</calloutlist></" + el + ">";
        }
        fs::remove_all(f);
        fs::create_directories(f);
        detail::html_options op;
        op.chunked_output = mode != 's';
        op.home_path = f + "/index.html";
        op.pretty_print = false;
        x.step(src.size());
        int rc = detail::boostbook_to_html("<book id=\"d\"><title>T</title>" + src + "</book>", op);
        std::vector<std::string> pages;
        if (mode == 'c') for (int g = 0; g < groups; ++g) pages.push_back(mc::Driver::readfile(f + "/g" + std::to_string(g) + ".html"));
        else pages.push_back(mc::Driver::readfile(f + "/index.html"));
        fs::remove_all(f);
        if (rc) return x.fail("conversion failed");
        for (size_t p = 0; p < pages.size(); ++p) {
            std::string err;
            auto tree = html::parse(pages[p], err);
            if (!tree) return x.fail("malformed: " + err);
            std::map<std::string, html::Node*> ids;
            std::vector<html::Node*> pres;
            tree->walk([&](html::Node* k) {
                if (auto i = k->attr("id")) ids.insert({*i, k});
                if (k->name == "pre") pres.push_back(k);
            });
            int first = mode == 'c' ? p : 0, last = mode == 'c' ? p + 1 : groups;
            if (!x.eq("listings", (int)pres.size(), last - first)) return;
            for (int g = first; g < last; ++g) {
                std::string want, have;
                for (int i = 0; i < n; ++i) want += "z (" + std::to_string(place(i) + 1) + ")#k" + std::to_string(g) + "-" + std::to_string(place(i)) + "\n";
                for (auto& k : pres[g - first]->kids) { have += k->all(); if (k->name == "a") have += k->get("href"); }
                if (!x.eq("marks", have, want)) return;
                for (int i = 0; i < n; ++i) {
                    std::string k = std::to_string(g) + "-" + std::to_string(i);
                    if (!ids.count("k" + k)) return x.fail("callout " + k + " is missing");
                    if (!x.eq("callout", ids["k" + k]->all(), "(" + std::to_string(i + 1) + ") K" + k)) return;
                }
            }
        }
        x.nontrivial();
    }
    // many callouts: groups of n, the marks in another order than the notes
    void many(const std::string& c, mc::Ctx& x)
    {
        int groups, n, order;
        sscanf(c.c_str(), "%d,%d,%d", &groups, &n, &order);
        std::string src, f = dir + "/C" + std::to_string(getpid());
        auto place = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n; };
        for (int g = 0; g < groups; ++g) {
            std::string code, list;
            for (int i = 0; i < n; ++i) {
                std::string m = std::to_string(g) + "." + std::to_string(place(i)), k = std::to_string(g) + "." + std::to_string(i);
                code += "z <co id=\"m" + m + "\" linkends=\"k" + m + "\"/>\n";
                list += "<callout arearefs=\"m" + k + "\" id=\"k" + k + "\"><para>K" + k + "</para></callout>";
            }
            src += "<programlisting>" + code + "</programlisting><calloutlist>" + list + "</calloutlist>";
        }
        detail::html_options op;
        op.chunked_output = false;
        op.home_path = f;
        op.pretty_print = false;
        x.step(src.size());
        int rc = detail::boostbook_to_html("<article id=\"d\"><title>T</title>" + src + "</article>", op);
        std::string got = mc::Driver::readfile(f), err;
        unlink(f.c_str());
        if (rc) return x.fail("conversion failed");
        auto tree = html::parse(got, err);
        if (!tree) return x.fail("malformed: " + err);
        std::map<std::string, html::Node*> ids;
        std::vector<html::Node*> pres;
        tree->walk([&](html::Node* k) {
            if (auto i = k->attr("id")) if (!ids.insert({*i, k}).second) x.fail("id twice: " + *i);
            if (k->name == "pre") pres.push_back(k);
        });
        if (x.failed || !x.eq("listings", pres.size(), (size_t)groups)) return;
        for (int g = 0; g < groups; ++g) {
            std::string want, have;
            for (int i = 0; i < n; ++i) want += "z (" + std::to_string(place(i) + 1) + ")#k" + std::to_string(g) + "." + std::to_string(place(i)) + "\n";
            for (auto& k : pres[g]->kids) { have += k->all(); if (k->name == "a") have += k->get("href"); }
            if (!x.eq("marks", have, want)) return;
            for (int i = 0; i < n; ++i) {
                std::string k = std::to_string(g) + "." + std::to_string(i);
                if (!ids.count("k" + k)) return x.fail("callout " + k + " is missing");
                if (!x.eq("callout", ids["k" + k]->all(), "(" + std::to_string(i + 1) + ") K" + k)) return;
                html::Node* a = 0;
                ids["k" + k]->walk([&](html::Node* q) { if (q->name == "a") a = q; });
                if (!a || !x.eq("back link", a->get("href"), "#m" + k)) return x.fail("back link of " + k);
            }
        }
        x.nontrivial();
    }
    struct Note { int k, page; bool nested; };
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'T') return nest(c[1], c.substr(3), x);
        if (c[0] == 'M') return places(c[1], c.substr(3), x);
        if (c[0] == 'C') return many(c.substr(2), x);
        if (c[0] == 'c') return callouts(c.substr(2), x);
        char idm = c[1], mode = c[2];
        std::string t = c.substr(4), src = "<book id=\"d\">", body, title = "Doc";
        std::vector<Note> notes;
        std::vector<Note> nested;
        int page = 0, pages = 1, n = 0;
        // tokens before the first section go to the root
        std::string open;
        auto id = [&](int k) {
            if (idm == '1' && k % 2) return " id=\"footnote-" + std::to_string(k) + "\"";
            if (idm == '2') return std::string(" id=\"fn.") + std::to_string(k) + "\"";
            if (idm == '3') return " id=\"footnote-" + std::to_string(10 + k) + "\"";
            return std::string();
        };
        std::string head, cur;
        int depth = 0;
        bool in_page = false;
        std::vector<std::pair<int, Note>> order;
        std::string tail;
        auto note = [&](std::string const& inner) { std::string w = std::to_string(n); std::string r = "<footnote" + id(n) + ">" + inner + "</footnote>"; notes.push_back({n, page, false}); ++n; return r; };
        (void)head; (void)tail; (void)order; (void)nested; (void)open;
        std::string secs;
        bool open_sec = false;
        std::string* dst = &body;
        std::string pagesrc;
        for (char k : t) {
            std::string w = std::to_string(n);
            switch (k) {
            case 'n': *dst += "<para>a " + note("F" + w) + " b</para>"; break;
            case 'p': *dst += "<para>a " + note("\n <para>F" + w + " <emphasis>e</emphasis></para>") + " b</para>"; break;
            case 'i': *dst += note("<emphasis>F" + w + "</emphasis>"); break;
            case 'l': *dst += "<itemizedlist><listitem><simpara>" + note("F" + w) + "</simpara></listitem></itemizedlist>"; break;
            case 'N': {
                int o = n;
                notes.push_back({o, page, false});
                ++n;
                *dst += "<para>x<footnote" + id(o) + "><para>F" + w + " and <footnote" + id(n) + ">F" + std::to_string(n) + "</footnote></para></footnote></para>";
                nested.push_back({n, page, true});
                ++n;
                break;
            }
            case 's':
                if (open_sec) *dst += "</section>";
                *dst += "<section id=\"s" + w + "_" + std::to_string(dst->size()) + "\"><title>S</title>";
                open_sec = true;
                break;
            case 't': // a section with a note in its title
                if (open_sec) *dst += "</section>";
                *dst += "<section id=\"s" + w + "_" + std::to_string(dst->size()) + "\"><title>S " + note("F" + w) + "</title>";
                open_sec = true;
                break;
            case 'c':
                if (open_sec) { *dst += "</section>"; open_sec = false; }
                if (in_page) *dst += "</chapter>";
                in_page = true;
                ++depth;
                if (mode == 'c') page = pages++;
                *dst += "<chapter id=\"c" + std::to_string(depth) + "\"><title>C " + note("F" + w) + "</title>";
                break;
            }
        }
        if (open_sec) body += "</section>";
        if (in_page) body += "</chapter>";
        src += "<title>" + title + "</title>" + body + "</book>";
        std::string root = dir + "/w" + std::to_string(getpid());
        fs::remove_all(root);
        fs::create_directories(root);
        detail::html_options op;
        op.chunked_output = mode == 'c';
        op.home_path = root + "/index.html";
        op.pretty_print = false;
        x.step(src.size());
        if (detail::boostbook_to_html(src, op)) return x.fail("conversion failed");
        std::map<std::string, std::string> files;
        for (fs::recursive_directory_iterator i(root), e; i != e; ++i)
            if (fs::is_regular_file(i->status())) files[i->path().filename().string()] = mc::Driver::readfile(i->path().string());
        fs::remove_all(root);
        if (!x.eq("pages", (int)files.size(), pages)) return;
        std::vector<Note> all = notes;
        all.insert(all.end(), nested.begin(), nested.end());
        int seen = 0;
        int base = -1;
        for (int p = 0; p < pages; ++p) {
            std::string f = p == 0 ? "index.html" : "c" + std::to_string(p) + ".html", err;
            // page p is the p-th chapter in chunked output
            auto tree = html::parse(files[f], err);
            if (!tree) return x.fail(f + " is malformed: " + err);
            std::map<std::string, html::Node*> ids;
            std::vector<html::Node*> bodies, marks;
            html::Node* block = 0;
            tree->walk([&](html::Node* k) {
                if (auto i = k->attr("id")) { bool dup = !ids.insert({*i, k}).second; if (dup && (i->compare(0, 8, "footnote") == 0 || i->compare(0, 2, "fn") == 0)) x.fail("id " + *i + " twice on " + f); }
                if (k->name == "div" && k->get("class") == "footnote") bodies.push_back(k);
                if (k->name == "div" && k->get("class") == "footnotes") { if (block) x.fail("two footnote blocks"); block = k; }
                if (k->name == "sup" && k->get("class") == "footnote") marks.push_back(k->up);
            });
            if (x.failed) return;
            std::vector<Note> want, later;
            for (auto& q : notes) if (q.page == p) want.push_back(q);
            for (auto& q : nested) if (q.page == p) want.push_back(q);
            if (!x.eq("footnotes on the page", bodies.size(), want.size()) || !x.eq("footnote marks", marks.size(), want.size())) return;
            if (!want.empty() && !block) return x.fail("no footnote block");
            for (size_t k = 0; k < want.size(); ++k) {
                std::string token = "F" + std::to_string(want[k].k);
                html::Node* b = bodies[k];
                std::string text = " " + b->all() + " ";
                size_t at = text.find(token);
                if (at == std::string::npos) return x.fail("footnote " + std::to_string(k) + " should be " + token + ": " + text);
                // its mark
                html::Node* m = 0;
                for (auto q : marks) if (q->get("href") == "#" + b->get("id")) { if (m) return x.fail("two marks for one footnote"); m = q; }
                if (!m) return x.fail("no mark for the footnote " + token);
                html::Node* back = 0;
                b->walk([&](html::Node* q) { if (q->name == "a" && q->get("href") == "#" + m->get("id") && !back) back = q; });
                if (!back || m->get("id").empty()) return x.fail("the footnote " + token + " does not link back to its mark");
                if (!x.eq("footnote label", back->all(), m->all())) return;
                std::string lab = m->all();
                if (text.find(lab) > at) return x.fail("label after the text of " + token);
                int num = atoi(lab.c_str() + 1);
                if (base < 0) base = num;
                if (lab != "[" + std::to_string(base + seen) + "]") return x.fail("label of " + token + " is " + lab + " expected [" + std::to_string(base + seen) + "]");
                ++seen;
                // the text appears nowhere else
                for (html::Node* u = m; u; u = u->up) if (u == block && !want[k].nested) return x.fail("mark of " + token + " is not in the text");
                if (idm == '2' && m->get("id") != "fn." + std::to_string(want[k].k)) return x.fail("id of the mark is " + m->get("id"));
            }
            std::string whole = tree->all();
            for (auto& q : want) {
                std::string token = "F" + std::to_string(q.k);
                size_t cnt = 0;
                for (size_t i = whole.find(token); i != std::string::npos; i = whole.find(token, i + 1)) if (!isdigit((unsigned char)whole[i + token.size()])) ++cnt;
                if (!x.eq(("occurrences of " + token).c_str(), cnt, (size_t)1)) return;
            }
        }
        x.state(c);
        if (!all.empty()) x.nontrivial();
    }
    void callouts(const std::string& t, mc::Ctx& x)
    {
        // '|' separates groups: each group is a listing followed by its callout list
        std::string src, f = dir + "/c" + std::to_string(getpid());
        std::map<char, int> num; // callout -> number
        std::vector<char> marks;
        auto groups = mc::split(t, '|');
        for (auto& g : groups) {
            std::string code, list;
            int k = 0;
            for (char c : g) {
                if (isdigit((unsigned char)c)) { code += std::string("z <co id=\"m") + c + "\" linkends=\"k" + char('a' + c - '1') + "\"/>\n"; marks.push_back(c); }
                else if (c == 'd') { list += "<callout arearefs=\"none\"><para>Kd</para></callout>"; }
                else { list += std::string("<callout arearefs=\"m") + char('1' + c - 'a') + "\" id=\"k" + c + "\"><para>K" + c + "</para></callout>"; num[c] = ++k; }
            }
            src += "<programlisting>" + code + "</programlisting><calloutlist>" + list + "</calloutlist>";
        }
        std::string doc = "<article id=\"d\"><title>T</title>" + src + "</article>";
        detail::html_options op;
        op.chunked_output = false;
        op.home_path = f;
        op.pretty_print = false;
        x.step(doc.size());
        int rc = detail::boostbook_to_html(doc, op);
        std::string got = mc::Driver::readfile(f), err;
        unlink(f.c_str());
        if (rc) return x.fail("conversion failed");
        auto tree = html::parse(got, err);
        if (!tree) return x.fail("malformed: " + err);
        std::map<std::string, html::Node*> ids;
        std::vector<html::Node*> pres, divs;
        tree->walk([&](html::Node* k) {
            if (auto i = k->attr("id")) if (!ids.insert({*i, k}).second) x.fail("id twice: " + *i);
            if (k->name == "pre") pres.push_back(k);
            if (k->name == "div" && k->all().find(" K") != std::string::npos && k->all().find("(") == 0 && k->up->name == "div") divs.push_back(k);
        });
        if (x.failed) return;
        std::string want, have;
        for (auto& g : groups) {
            for (char c : g) if (isdigit((unsigned char)c)) {
                char k = 'a' + c - '1';
                want += "z " + (num.count(k) ? std::string("(") + std::to_string(num[k]) + ")->k" + k : std::string("(0)")) + "\n";
            }
            want += "/";
        }
        for (auto p : pres) {
            for (auto& k : p->kids) { have += k->all(); if (k->name == "a") { std::string h = k->get("href"); have += "->" + (h.empty() ? "" : h.substr(1)); if (h.empty() || h[0] != '#' || !ids.count(h.substr(1))) x.fail("mark goes to a missing callout " + h); } }
            have += "/";
        }
        if (!x.eq("marks", have, want)) return;
        for (auto& g : groups) for (char c : g) {
            if (isdigit((unsigned char)c) || c == 'd') continue;
            auto i = ids.find(std::string("k") + c);
            if (i == ids.end()) return x.fail(std::string("callout ") + c + " is missing");
            if (!x.eq("callout", i->second->all(), "(" + std::to_string(num[c]) + ") K" + c)) return;
            char mk = '1' + c - 'a';
            html::Node* a = 0;
            i->second->walk([&](html::Node* q) { if (q->name == "a") a = q; });
            bool has = std::count(marks.begin(), marks.end(), mk) > 0;
            if (has != (a != 0)) return x.fail(std::string("callout ") + c + (has ? " does not link to its mark" : " links to nothing"));
            if (a && !x.eq("back link", a->get("href"), std::string("#m") + mk)) return;
        }
        std::string all = tree->all();
        if (std::count(t.begin(), t.end(), 'd') && all.find("Kd") == std::string::npos) return x.fail("text of a callout is lost");
        x.state(have);
        if (!marks.empty() && !num.empty()) x.nontrivial();
    }
};
MC_MAIN(H)
