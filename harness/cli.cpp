// The command line: which outputs are written, and what happens when a system call fails.
// Cases: o<options, one digit each> every combination of options; f<document><options> every failing call of one conversion
#include "mc.hpp"
#include "qbk.hpp"
#include <dirent.h>
#include <set>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>

// fault injection: the calls the C++ library and Boost.Filesystem make go through these
namespace fault {
enum Kind { open_read, open_write, do_read, do_write, do_close_write, do_mkdir, do_stat, do_opendir, do_readdir };
static const char* names[] = {"open for reading", "open for writing", "read", "write", "close after writing", "mkdir", "stat", "opendir", "readdir"};
struct Op { Kind kind; std::string path; };
static bool armed = false;
static int next = 0, at = -1, err = 0;
static bool stay = false, brief = false;
static std::vector<Op> ops;
static std::map<int, std::string> wfd, rfd;
static const char* dir = 0; // only calls about files below it
static bool mine(const char* p) { return armed && dir && p && !strncmp(p, dir, strlen(dir)); }
static bool hit(Kind k, std::string const& p)
{
    ops.push_back({k, p});
    int i = next++;
    return at >= 0 && (i == at || (stay && i > at && k == ops[at].kind));
}
}
template <class F> static F real(F, const char* n)
{
    return (F)dlsym(RTLD_NEXT, n);
}
#define REAL(f) static auto r = real((decltype(&f))0, #f)
extern "C" {
static FILE* my_fopen(const char* p, const char* m, FILE* (*r)(const char*, const char*))
{
    if (!fault::mine(p)) return r(p, m);
    bool w = strpbrk(m, "wa+");
    if (fault::hit(w ? fault::open_write : fault::open_read, p)) { errno = fault::err; return 0; }
    FILE* f = r(p, m);
    if (f) (w ? fault::wfd : fault::rfd)[fileno(f)] = p;
    return f;
}
FILE* fopen(const char* p, const char* m) { REAL(fopen); return my_fopen(p, m, r); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); return my_fopen(p, m, r); }
int fclose(FILE* f)
{
    REAL(fclose);
    if (!fault::armed) return r(f);
    int fd = fileno(f);
    bool bad = fault::wfd.count(fd) && fault::hit(fault::do_close_write, fault::wfd[fd]);
    fault::wfd.erase(fd), fault::rfd.erase(fd);
    int x = r(f);
    if (bad) { errno = fault::err; return EOF; }
    return x;
}
ssize_t read(int fd, void* b, size_t n)
{
    REAL(read);
    if (fault::armed && fault::rfd.count(fd) && fault::hit(fault::do_read, fault::rfd[fd])) { errno = fault::err; return -1; }
    return r(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
    REAL(write);
    if (fault::armed && fault::wfd.count(fd) && fault::hit(fault::do_write, fault::wfd[fd])) {
        if (fault::brief && n > 1) return r(fd, b, n / 2); // a short write, not an error
        errno = fault::err;
        return -1;
    }
    return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n);
int mkdir(const char* p, mode_t m)
{
    REAL(mkdir);
    if (fault::mine(p) && fault::hit(fault::do_mkdir, p)) { errno = fault::err; return -1; }
    return r(p, m);
}
int statx(int d, const char* p, int f, unsigned m, struct statx* s)
{
    REAL(statx);
    if (fault::mine(p) && fault::hit(fault::do_stat, p)) { errno = fault::err; return -1; }
    return r(d, p, f, m, s);
}
struct dirent64* readdir64(DIR* d)
{
    REAL(readdir64);
    if (fault::armed && fault::hit(fault::do_readdir, "directory")) { errno = fault::err; return 0; }
    return r(d);
}
}
#include <sys/uio.h>
extern "C" ssize_t writev(int fd, const struct iovec* v, int n)
{
    REAL(writev);
    if (fault::armed && fault::wfd.count(fd) && fault::hit(fault::do_write, fault::wfd[fd])) {
        if (fault::brief && n && v[0].iov_len > 1) { struct iovec h = v[0]; h.iov_len /= 2; return r(fd, &h, 1); }
        errno = fault::err;
        return -1;
    }
    return r(fd, v, n);
}

typedef std::map<std::string, std::string> Files;
static void list(std::string const& d, std::string const& pre, Files& f)
{
    DIR* h = opendir(d.c_str());
    if (!h) return;
    std::vector<std::string> n;
    while (dirent* e = readdir(h)) n.push_back(e->d_name);
    closedir(h);
    for (auto& k : n) {
        if (k == "." || k == "..") continue;
        struct stat s;
        if (stat((d + "/" + k).c_str(), &s)) continue;
        if (S_ISDIR(s.st_mode)) { f[pre + k + "/"]; list(d + "/" + k, pre + k + "/", f); }
        else f[pre + k] = qbk::slurp(d + "/" + k);
    }
}
static void scrub(std::string const& d)
{
    DIR* h = opendir(d.c_str());
    if (!h) return;
    std::vector<std::string> n;
    while (dirent* e = readdir(h)) n.push_back(e->d_name);
    closedir(h);
    for (auto& k : n) {
        if (k == "." || k == "..") continue;
        std::string p = d + "/" + k;
        struct stat s;
        if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) scrub(p);
        else unlink(p.c_str());
    }
    rmdir(d.c_str());
}
static std::string replace(std::string s, std::string const& a, std::string const& b)
{
    for (size_t k = 0; (k = s.find(a, k)) != std::string::npos; k += b.size()) s.replace(k, a.size(), b);
    return s;
}

// documents of the fault cases; @ is the directory
static const char* docs[] = {
    "[article D\n[quickbook 1.7]\n]\ntext\n",
    "[book D\n[quickbook 1.7]\n]\n[section A]\na\n[section B]\nb\n[endsect]\n[endsect]\n[section C]\nc\n[endsect]\n",
    "[article D\n[quickbook 1.7]\n]\nt\n[include inc.qbk]\n[import code.cpp]\n[a]\n[include *.inc]\nend\n",
    "[article D\n[quickbook 1.7]\n[xmlbase .]\n]\nt\n[xinclude inc.qbk]\n[import none.inc]\nend\n",
};
static const int ND = sizeof docs / sizeof *docs;

struct Run { int rc; std::string err; Files out; };

struct H : mc::Harness {
    H() { rule = "every combination of the output options with good, bad and missing inputs, the files written compared with a reference; and for every conversion of the fault list every system call failing once, for good or half done: success is only reported with complete output; non-trivial with output or a fault"; case_timeout = 60; }
    void enumerate(mc::Sink& s)
    {
        static const int sizes[] = {5, 3, 3, 2, 3, 5, 2, 4, 2, 2, 2};
        std::string c = "o";
        std::function<void(int)> rec = [&](int k) {
            if (k == 11) { s.emit(c); return; }
            for (int i = 0; i < sizes[k]; ++i) { c += char('0' + i); rec(k + 1); c.pop_back(); }
        };
        rec(0);
        for (int n = 1; n <= (thorough ? 6 : 4); ++n)
            mc::tuples(6, n, [&](std::vector<size_t> const& ix) { std::string k("g"); for (size_t i : ix) k += char('0' + i); s.emit(k); });
        for (int d = 0; d < ND; ++d)
            for (char f : std::string("bph"))
                for (char o : std::string("-dcx"))
                    for (char p : std::string("+-"))
                        s.emit(std::string{'f', char('0' + d), f, o, p});
    }
    static std::string fresh_dir()
    {
        std::string d = qbk::fresh("d");
        mkdir(d.c_str(), 0777);
        return d;
    }
    // converts in a new directory
    static Run go(std::string const& doc, std::vector<std::string> const& args, bool input, mc::Ctx& x)
    {
        std::string d = fresh_dir();
        std::vector<std::string> a = {"--debug"};
        if (input) qbk::spit(d + "/in.qbk", doc);
        qbk::spit(d + "/inc.qbk", "included\n");
        qbk::spit(d + "/one.inc", "text");
        qbk::spit(d + "/none.inc", "text");
        qbk::spit(d + "/a\tb.inq", "text");
        qbk::spit(d + "/t\t1.inq", "text");
        mkdir((d + "/i").c_str(), 0777);
        qbk::spit(d + "/i/sub.inq", "text");
        qbk::spit(d + "/code.cpp", "//[a\nint x;\n//]\n");
        for (auto& k : args) a.push_back(replace(k, "@", d));
        Files before, after;
        list(d, "", before);
        x.step();
        fault::ops.clear();
        fault::next = 0;
        fault::wfd.clear(), fault::rfd.clear();
        fault::dir = d.c_str();
        fault::armed = true;
        qbk::Result q = qbk::call(a);
        fault::armed = false;
        Run r{q.rc, replace(q.err, d, "@"), {}};
        list(d, "", after);
        for (auto& k : after) if (!before.count(k.first) || before[k.first] != k.second) r.out[k.first] = replace(k.second, d, "@");
        for (auto& k : before) if (!after.count(k.first)) r.out[k.first] = "(removed)";
        scrub(d);
        return r;
    }
    static std::string names(Files const& f) { std::string r; for (auto& k : f) r += k.first + " "; return r; }
    static std::string diff(Files const& a, Files const& b)
    {
        if (names(a) != names(b)) return "files " + names(a) + "instead of " + names(b);
        for (auto& k : a) if (k.second != b.at(k.first)) return k.first + " is " + mc::show(k.second, 400) + " instead of " + mc::show(b.at(k.first), 400);
        return "";
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        if (c[0] == 'o') options(c, x);
        else if (c[0] == 'g') flags(c, x);
        else faults(c, x);
    }
    // output of a single format, taken from a run that asks for nothing else
    std::map<std::string, Files> plain_;
    Files& plain(std::string const& how, std::string const& doc, std::vector<std::string> args, mc::Ctx& x)
    {
        std::string key = how + doc;
        if (!plain_.count(key)) plain_[key] = go(doc, args, true, x).out;
        return plain_[key];
    }
    void options(std::string const& c, mc::Ctx& x)
    {
        auto v = [&](int i) { return c[i + 1] - '0'; };
        static const char* formats[] = {"", "boostbook", "html", "onehtml", "pdf"};
        int format = v(0), file = v(1), dir = v(2), deps = v(4), flags = v(5), input = v(7);
        bool none = v(3), loc = v(6), expect = v(8), strict = v(9), raw = v(10);
        std::string doc = "[article D\n[quickbook 1.7]\n]\n[section A]\nx [foo]\n\n[include *.inc]\n\n[include none.inc]\n[endsect]\n";
        if (input == 1) doc += "[endsect]\n";
        std::vector<std::string> a;
        if (format) a.push_back(std::string("--output-format=") + formats[format]);
        if (file) a.push_back(file == 1 ? "--output-file=@/out" : "--output-file=@/no/out");
        if (dir) a.push_back(dir == 1 ? "--output-dir=@/pages" : "--output-dir=@/no/pages");
        if (none) a.push_back("--no-output");
        if (deps) a.push_back(deps == 1 ? "--output-deps=@/deps" : "--output-deps=@/no/deps");
        static const char* fl[] = {"", "checked", "escaped", "checked,escaped", "blue"};
        if (flags) a.push_back(std::string("--output-deps-format=") + fl[flags]);
        if (loc) a.push_back("--output-checked-locations=@/loc");
        if (expect) a.push_back("--expect-errors");
        if (strict) a.push_back("--strict");
        if (raw) a.push_back("--no-pretty-print");
        if (input == 3) a.push_back("--define=__x");
        else a.push_back("@/in.qbk");
        Run r = go(doc, a, input != 2, x);

        // what should happen
        bool chunked = format == 2, failed = false;
        bool usage = format == 4 || (flags == 4) || (file && (none || chunked)) || (file == 2) || (dir && (none || !chunked)) || dir == 2 || input == 2;
        Files want;
        std::string show = "arguments";
        for (auto& k : a) show += " " + k;
        if (input == 3) {
            if (!r.rc) return x.fail(show + ": succeeded without a file");
            if (r.out.size()) return x.fail(show + ": wrote " + names(r.out));
            if (r.err.find("No filename given") == std::string::npos) return x.fail(show + ": no message");
            return;
        }
        bool writes = !none && !((deps || loc) && !format && !file && !dir);
        if (usage) failed = true;
        else {
            failed = input == 1 || strict || deps == 2;
            std::vector<std::string> o = strict ? std::vector<std::string>{"--strict"} : std::vector<std::string>();
            auto with = [&](std::vector<std::string> const& more) { std::vector<std::string> p = o; p.insert(p.end(), more.begin(), more.end()); p.push_back("@/in.qbk"); return p; };
            if (deps == 1) { std::string f = flags ? fl[flags] : ""; want["deps"] = plain("deps" + f + (strict ? "s" : ""), doc, with(flags ? std::vector<std::string>{"--output-deps=@/deps", "--output-deps-format=" + f} : std::vector<std::string>{"--output-deps=@/deps"}), x)["deps"]; }
            if (loc && deps != 2) want["loc"] = plain(strict ? "locs" : "loc", doc, with({"--output-deps=@/deps", "--output-deps-format=checked"}), x)["deps"];
            if (writes && !failed) {
                std::string how = std::string(format == 2 ? "html" : format == 3 ? "onehtml" : "boostbook");
                std::vector<std::string> p = {"--output-format=" + how};
                if (raw) p.push_back("--no-pretty-print");
                Files f = plain(how + (raw ? "raw" : ""), doc, with(p), x);
                if (f.empty()) return x.fail("no output for " + how);
                if (chunked) for (auto& k : f) want[(dir ? "pages/" : "html/") + (k.first == "html/" ? "" : k.first.substr(5))] = k.second;
                else want[file ? "out" : format == 3 ? "in.html" : "in.xml"] = f.begin()->second;
            }
        }
        if ((r.rc != 0) != (failed != expect)) return x.fail(show + ": exit status " + std::to_string(r.rc) + "\n" + r.err);
        if (failed && r.err.find("rror") == std::string::npos) return x.fail(show + ": no message");
        std::string e = diff(r.out, want);
        if (e.size()) return x.fail(show + ": " + e);
        x.state(names(r.out));
        if (r.out.size()) x.nontrivial();
    }
    // the flags of the dependency format, and what each does to the list
    void flags(std::string const& c, mc::Ctx& x)
    {
        static const char* tok[] = {"checked", "escaped", ",", " ", "x", "Checked"};
        std::string f, word;
        for (char k : c.substr(1)) f += tok[k - '0'];
        bool checked = false, escaped = false, bad = false;
        for (char k : f + ",")
            if (k != ',' && k != ' ') word += k;
            else { if (word == "checked") checked = true; else if (word == "escaped") escaped = true; else if (word.size()) bad = true; word.clear(); }
        Run r = go("[article D\n[quickbook 1.7]\n]\n\n[include a\\u0009b.inq]\n\n[include t*.inq]\n\n[include sub.inq]\n", {"--include-path=@/i", "--output-deps=@/deps", "--output-deps-format=" + f, "@/in.qbk"}, true, x);
        if ((r.rc != 0) != bad) return x.fail("--output-deps-format='" + f + "' gives status " + std::to_string(r.rc) + " " + r.err);
        if (bad) { if (r.out.size()) x.fail("output in spite of an unknown flag '" + f + "'"); return; }
        std::string tab = escaped ? "\\t" : "\t";
        std::multiset<std::string> want, got;
        if (checked) for (auto& k : {"+ @/in.qbk", "+ @/a_b.inq", "- @/sub.inq", "+ @/i/sub.inq", "g @/t*.inq", "g @/i/t*.inq", "+ @/t_1.inq"}) want.insert(replace(k, "_", tab));
        else for (auto& k : {"@/in.qbk", "@/a_b.inq", "@/i/sub.inq", "@/t_1.inq"}) want.insert(replace(k, "_", tab));
        std::string d = r.out["deps"], list;
        for (auto& l : mc::split(d, '\n')) if (l.size()) got.insert(l);
        for (auto& l : got) list += l + "; ";
        if (got != want) return x.fail("--output-deps-format='" + f + "' lists " + list);
        if (r.out.size() != 1) return x.fail("files " + names(r.out) + "written");
        x.state(list);
        x.nontrivial();
    }
    void faults(std::string const& c, mc::Ctx& x)
    {
        std::string doc = docs[c[1] - '0'];
        std::vector<std::string> a;
        if (c[2] == 'b') a.push_back("--output-file=@/out");
        if (c[2] == 'p') a.push_back("--output-format=html"), a.push_back("--output-dir=@/pages");
        if (c[2] == 'h') a.push_back("--output-format=onehtml"), a.push_back("--output-file=@/out");
        if (c[3] == 'd' || c[3] == 'x') a.push_back("--output-deps=@/deps");
        if (c[3] == 'c' || c[3] == 'x') a.push_back("--output-checked-locations=@/loc");
        if (c[4] == '-') a.push_back("--no-pretty-print");
        a.push_back("@/in.qbk");
        fault::at = -1;
        Run base = go(doc, a, true, x);
        if (base.rc) return x.fail("rejected " + mc::show(doc) + ": " + base.err);
        std::vector<fault::Op> ops = fault::ops;
        bool wrote = false, read = false;
        for (auto& o : ops) { wrote |= o.kind == fault::do_write; read |= o.kind == fault::do_read; }
        if (!wrote || !read) return x.fail("the calls of the program are not seen");
        static const int errs[] = {EIO, ENOSPC, EACCES, EMFILE};
        for (size_t k = 0; k < ops.size() && !x.failed; ++k)
            for (int way = 0; way < 3; ++way) {
                fault::Kind kind = ops[k].kind;
                if (way == 2 && kind != fault::do_write) continue;
                if (way == 1 && kind == fault::do_stat) continue;
                fault::at = k;
                fault::stay = way == 1;
                fault::brief = way == 2;
                fault::err = kind == fault::do_write || kind == fault::do_close_write ? errs[1] : kind == fault::open_read || kind == fault::do_stat || kind == fault::open_write || kind == fault::do_mkdir ? errs[2] : errs[0];
                Run r = go(doc, a, true, x);
                fault::at = -1;
                fault::stay = fault::brief = false;
                std::string what = std::string(fault::names[kind]) + " of " + ops[k].path.substr(ops[k].path.rfind('/') + 1) + " (call " + std::to_string(k) + (way == 1 ? " and later ones" : way == 2 ? ", half written" : "") + ") fails while converting " + mc::show(doc) + " to " + c.substr(2);
                if (way == 2 && r.rc) { x.fail(what + ": a short write is not continued: " + r.err); break; }
                if (!r.rc) {
                    std::string e = diff(r.out, base.out);
                    if (e.size()) { x.fail(what + ", but success is reported with " + e); break; }
                }
                else if (r.err.empty()) { x.fail(what + ", without a message"); break; }
                // input that cannot be read gives no output
                if (r.rc && (kind == fault::do_read || kind == fault::open_read) && (r.out.count("out") || r.out.count("pages/"))) { x.fail(what + ", and output is written"); break; }
                x.state(fault::names[kind] + std::to_string(r.rc));
            }
        x.nontrivial();
    }
};
MC_MAIN(H)
