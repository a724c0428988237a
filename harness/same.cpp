// The same input gives the same output in fresh processes with other
// memory contents, environment, current directory, order of files and earlier output.
// Case: <format><version><fragments>
#include "mc.hpp"
#include "qbk.hpp"
#include <alloca.h>

static const char* frags[] = {
    "text *b* /i/ _u_ =t= [~x] \"q\" & < \xc3\xa9\n\n", "[section A b]\nx\n[endsect]\n\n", "[section:i T *b*]\n", "[h3 H]\n\n", "[heading:j K]\n\n", "* a\n  # b\n* c\n\n", "  int main() { return 0; } // c\n\n",
    "[c++]\n", "[python]\n\n  def f(): pass # c\n\n", "[!teletype]\n``\nx\n``\n\n", "[table T\n[[a][b]]\n[[c][d]]\n]\n\n", "[variablelist V\n[[a][b][c]]\n]\n\n", "[note a\n\nb [tip c]]\n\n", "[: quote [^x]]\n\n", "[pre\na\n b]\n\n",
    "[template f[x y] [x]-[y]]\n", "[f 1..2] [f a b]\n\n", "[template g[]\n* [note p]\n\nq\n]\n\n[g]\n\n", "[def __m__ v *w*]\n", "__m__ [?__m__ yes] [?no no]\n\n", "[import code.cpp]\n", "[a]\n\n[b]\n\n", "[import code.py]\n\n[p]\n\n",
    "[include *.inc]\n\n", "[include sub.qbk]\n\n", "[include:z sub.qbk]\n\n", "[xinclude f.xml]\n\n", "[$a.svg]\n\n", "[$a.png [width 10][alt t]]\n\n", "[@http://x.y/z?a&b u] [link i v] [#k] [funcref f g] [classref c]\n\n", "[footnote n *m*] [footnote o]\n\n", "[role r x] [br] '''<e/>''' \\[ \\u0041\n\n",
    "[endsect]\n\n", "[include no.qbk]\n\n", "[h3:a$b c]\n\n", "a ]\n\n", "[f 1..2..3]\n\n", "[import bad.cpp]\n\n", "[section:i U]\n[endsect:l]\n\n", "[if __m__]\nx\n[else]\ny\n[endif]\n\n", "[block [*x]]\n\n", "[ordered_list [a][b]]\n\n", "[template e[] [^x]]\n[`e]\n\n", "[/ c]\n----\n\n", "[@boost:/libs/x.html y]\n\n", "[library]\n\n"};
static const int NF = sizeof frags / sizeof *frags;

extern char** environ;
static void fill(int v)
{
    volatile char* p = (volatile char*)alloca(600000);
    for (int i = 0; i < 600000; ++i) p[i] = (char)v;
}

struct H : mc::Harness {
    H() { rule = "every sequence of up to N fragments covering all of the language, in two formats and two versions, converted in two fresh processes with different memory contents, locale, time zone, directory, file order and earlier output; files, messages and status compared; the single fragments also under memcheck; non-trivial when accepted"; case_timeout = 30; }
    void enumerate(mc::Sink& s)
    {
        for (int n = 0; n <= (thorough ? 3 : 2); ++n)
            for (char f : std::string("bp"))
                for (char v : std::string("75"))
                    mc::tuples(NF, n, [&](std::vector<size_t> const& ix) {
                        if (n == 2 && !thorough && (f == 'p') + (v == '5') && (ix[0] + ix[1]) % 4) return;
                        if (n == 3 && (v == '5' || f == 'p')) return;
                        if (n == 3 && ix[2] % 3) return;
                        std::string c{f, v};
                        for (size_t i : ix) c += char('0' + i);
                        s.emit(c);
                        if (n > (thorough ? 2 : 1) || (f == 'p' && v == '5') || (n == 2 && (f == 'p' || v == '5' || (ix[0] + ix[1]) % 3))) return;
                        c[0] = f == 'b' ? 'B' : 'P';
                        s.emit(c);
                    });
    }
    typedef std::map<std::string, std::string> Files;
    static void list(std::string const& d, std::string const& pre, Files& f)
    {
        DIR* h = opendir(d.c_str());
        if (!h) return;
        std::vector<std::string> n;
        while (dirent* e = readdir(h)) n.push_back(e->d_name);
        closedir(h);
        for (auto& k : n) {
            if (k == "." || k == "..") continue;
            struct stat s;
            if (stat((d + "/" + k).c_str(), &s)) continue;
            if (S_ISDIR(s.st_mode)) list(d + "/" + k, pre + k + "/", f);
            else f[pre + k] = qbk::slurp(d + "/" + k);
        }
    }
    static void scrub(std::string const& d)
    {
        DIR* h = opendir(d.c_str());
        if (!h) return;
        std::vector<std::string> n;
        while (dirent* e = readdir(h)) n.push_back(e->d_name);
        closedir(h);
        for (auto& k : n) {
            if (k == "." || k == "..") continue;
            std::string p = d + "/" + k;
            struct stat s;
            if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) scrub(p);
            else unlink(p.c_str());
        }
        rmdir(d.c_str());
    }
    static std::string replace(std::string s, std::string const& a, std::string const& b)
    {
        for (size_t k = 0; (k = s.find(a, k)) != std::string::npos; k += b.size()) s.replace(k, a.size(), b);
        return s;
    }
    static std::string make(std::string const& doc, bool reverse, char garbage)
    {
        std::string d = qbk::fresh("d");
        mkdir(d.c_str(), 0777);
        std::vector<std::pair<std::string, std::string>> f = {
            {"in.qbk", doc}, {"a.inc", "1"}, {"b.inc", "2"}, {"c.inc", "3"}, {"sub.qbk", "[article S\n[quickbook 1.6]\n[id s]\n]\n\nsub [c++] `int`\n\n[h2 L]\n"}, {"f.xml", "<x/>"}, {"html/a.svg", "<svg width=\"5\" height=\"6\"/>"},
            {"code.cpp", "//[a\nint x; /*< c >*/\n//[b\n/*` q */\n//]\nchar y;\n//]\n"}, {"code.py", "#[p\nx = 'a' #< d\n#]\n"}, {"bad.cpp", "int a;\n//]\n"}};
        mkdir((d + "/html").c_str(), 0777);
        if (reverse) std::reverse(f.begin(), f.end());
        for (auto& k : f) qbk::spit(d + "/" + k.first, k.second);
        if (garbage) {
            if (garbage == 'p') mkdir((d + "/pages").c_str(), 0777);
            for (std::string k : {garbage == 'p' ? "pages/index.html" : "out", "deps"}) qbk::spit(d + "/" + k, std::string(20000, '#'));
        }
        return d;
    }
    // a directory with files of the same names and other contents, to run in
    static std::string decoys(std::string const& d)
    {
        std::string e = qbk::fresh("y");
        mkdir(e.c_str(), 0777), mkdir((e + "/html").c_str(), 0777);
        for (std::string k : {"in.qbk", "a.inc", "b.inc", "z.inc", "sub.qbk", "f.xml", "code.cpp", "code.py", "bad.cpp", "no.qbk"}) qbk::spit(e + "/" + k, "decoy\n");
        for (std::string k : {"a.svg", "html/a.svg", "a.png", "html/a.png"}) qbk::spit(e + "/" + k, "<svg width=\"77\" height=\"78\"/>");
        for (std::string k : {"index.html", "out", "deps"}) qbk::spit(e + "/" + k, "decoy\n");
        return e;
    }
    static Files gather(std::string const& d)
    {
        Files f, r;
        list(d, "", f);
        for (auto& k : f) if (k.first == "out" || k.first == "deps" || !k.first.compare(0, 6, "pages/")) r[k.first] = replace(replace(k.second, d + "/", ""), d, ".");
        return r;
    }
    static std::vector<std::string> options(std::string const& d, char format)
    {
        std::string p = d.empty() ? "" : d + "/";
        std::vector<std::string> a = {"--debug", "--output-deps=" + p + "deps"};
        if (format == 'b') a.push_back("--output-file=" + p + "out");
        else a.insert(a.end(), {"--output-format=html", "--output-dir=" + p + "pages"});
        a.push_back(p + "in.qbk");
        return a;
    }
    static std::string tidy(std::string const& err, std::string const& d) { return replace(replace(err, d + "/", ""), d, "."); }
    static std::string self()
    {
        char b[4096];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b);
        return n > 0 ? std::string(b, n) : "";
    }
    // a fresh process
    static int spawn(std::string const& d, std::vector<std::string> a, std::vector<std::string> env, std::string const& cwd, std::string& err, std::vector<std::string> tool = {})
    {
        std::string ef = qbk::fresh("e");
        std::vector<char*> av, ev;
        a.insert(a.begin(), {"quickbook", "--as-program"});
        if (tool.size()) a[0] = self(), a.insert(a.begin(), tool.begin(), tool.end());
        for (auto& k : a) av.push_back(&k[0]);
        for (auto& k : env) ev.push_back(&k[0]);
        av.push_back(0), ev.push_back(0);
        pid_t p = fork();
        if (!p) {
            if (!cwd.empty() && chdir(cwd.c_str())) _exit(99);
            int o = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666), n = open("/dev/null", O_WRONLY);
            dup2(n, 1), dup2(o, 2);
            execve(tool.size() ? tool[0].c_str() : "/proc/self/exe", &av[0], &ev[0]);
            _exit(98);
        }
        int st = 0;
        waitpid(p, &st, 0);
        err = tidy(qbk::slurp(ef), d);
        unlink(ef.c_str());
        return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }
    static std::string diff(Files const& a, Files const& b)
    {
        for (auto& k : a) {
            auto i = b.find(k.first);
            if (i == b.end()) return k.first + " is missing";
            if (i->second == k.second) continue;
            size_t p = 0;
            while (p < i->second.size() && p < k.second.size() && i->second[p] == k.second[p]) ++p;
            p = p > 60 ? p - 60 : 0;
            return k.first + ": " + mc::show(k.second.substr(p, 200)) + " and " + mc::show(i->second.substr(p, 200));
        }
        for (auto& k : b) if (!a.count(k.first)) return k.first + " is new";
        return "";
    }
    // under memcheck: no branch, address or output depends on memory never written
    static void memory(std::string const& c, std::string const& doc, std::string const& d, std::string const& y, mc::Ctx& x)
    {
        std::string e;
        int r = spawn(d, options(d, c[0] == 'B' ? 'b' : 'p'), {"LANG=C", "TZ=UTC0"}, y, e, {"/usr/bin/valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "--read-var-info=no", "--num-callers=20"});
        x.step(1);
        scrub(d), scrub(y);
        if (r == 77) return x.fail("reads memory that was never written or is not its own for " + mc::show(doc) + ":\n" + e.substr(0, 3000));
        if (!r) x.nontrivial();
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        std::string doc = std::string("[article D\n[quickbook 1.") + c[1] + "]\n]\n\n";
        for (char k : c.substr(2)) doc += frags[k - '0'];
        std::string d1 = make(doc, false, 0), d2 = make(doc, true, c[0]), y = decoys(d1), e1, e2;
        if (c[0] == 'B' || c[0] == 'P') return memory(c, doc, d1, y, x);
        int r1 = spawn(d1, options(d1, c[0]), {"LANG=C", "TZ=UTC0", "MALLOC_PERTURB_=1", "VERIF_FILL=0"}, y, e1);
        int r2 = spawn(d2, options("", c[0]), {"LANG=xx_YY.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=KIR-14", "MALLOC_PERTURB_=170", "VERIF_FILL=165", "HOME=/nowhere", "COLUMNS=7"}, d2, e2);
        x.step(2);
        Files f1 = gather(d1), f2 = gather(d2);
        scrub(d1), scrub(d2), scrub(y);
        if (r2) { // a failed run leaves the earlier document alone
            std::string out = c[0] == 'b' ? "out" : "pages/index.html";
            if (f2[out] != std::string(20000, '#')) return x.fail("rejected " + mc::show(doc) + " and changed the earlier output");
            f2.erase(out);
            // (dependencies are written all the same)
        }
        if (r1 != r2) return x.fail("exit status " + std::to_string(r1) + " and " + std::to_string(r2) + " in different surroundings for " + mc::show(doc) + "\n" + e1 + e2);
        if (e1 != e2) return x.fail("messages differ in different surroundings for " + mc::show(doc) + ":\n" + e1 + e2);
        std::string m = diff(f1, f2);
        if (m.size()) return x.fail("output differs in different surroundings for " + mc::show(doc) + ": " + m);
        if (!r1) x.nontrivial();
        std::string all;
        for (auto& k : f1) all += k.second;
        x.state(std::to_string(mc::hash(all)));
    }
};
int main(int argc, char** argv)
{
    if (argc > 1 && !strcmp(argv[1], "--as-program")) {
        const char* f = getenv("VERIF_FILL");
        fill(f ? atoi(f) : 0);
        return quickbook_main(argc - 1, argv + 1);
    }
    H h;
    return mc::main_(argc, argv, h);
}
