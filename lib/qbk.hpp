// Running the whole program in process: quickbook_main is quickbook.cpp's main, renamed when compiled.
// Files live in a scratch directory of the worker; every run uses fresh file names because loaded files are cached.
#ifndef VERIF_QBK_HPP
#define VERIF_QBK_HPP
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>

int quickbook_main(int argc, char* argv[]);

namespace qbk {

inline std::string slurp(std::string const& p, bool* ok = 0)
{
    std::string r;
    FILE* f = fopen(p.c_str(), "rb");
    if (ok) *ok = f != 0;
    if (!f) return r;
    char b[16384];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
inline void spit(std::string const& p, std::string const& s)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) { perror(p.c_str()); _exit(77); }
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}

// scratch directory of this process
inline std::string const& dir()
{
    static std::string d;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        const char* s = getenv("VERIF_SCRATCH");
        d = std::string(s ? s : "/tmp") + "/q" + std::to_string(owner);
        mkdir(d.c_str(), 0777);
    }
    return d;
}
// a fresh name in the scratch directory
inline std::string fresh(std::string const& suffix = "")
{
    static unsigned n = 0;
    return dir() + "/" + std::to_string(n++) + suffix;
}

struct Result {
    int rc = 0;
    std::string err, out; // diagnostics, standard output
    std::string text;     // the output file
    bool written = false; // the output file exists
};

// run the program with these arguments, in process
inline Result call(std::vector<std::string> args)
{
    Result r;
    args.insert(args.begin(), "quickbook");
    std::vector<char*> av;
    for (auto& a : args) av.push_back(&a[0]);
    av.push_back(0);
    std::ostringstream e, o;
    std::streambuf *c1 = std::clog.rdbuf(e.rdbuf()), *c2 = std::cout.rdbuf(o.rdbuf()), *c3 = std::cerr.rdbuf(e.rdbuf());
    try {
        r.rc = quickbook_main((int)args.size(), &av[0]);
    } catch (...) {
        r.rc = -1;
        e << "exception escaped\n";
    }
    std::clog.rdbuf(c1);
    std::cout.rdbuf(c2);
    std::cerr.rdbuf(c3);
    r.err = e.str();
    r.out = o.str();
    return r;
}

// convert one source text
inline Result convert(std::string const& text, std::vector<std::string> args = {}, bool pretty = false)
{
    std::string q = fresh(".qbk"), x = q + ".out";
    spit(q, text);
    args.push_back("--debug");
    if (!pretty) args.push_back("--no-pretty-print");
    args.push_back("--output-file=" + x);
    args.push_back(q);
    Result r = call(args);
    r.text = slurp(x, &r.written);
    unlink(q.c_str());
    unlink(x.c_str());
    return r;
}

// lines of the form file:LINE: error
inline std::vector<int> error_lines(std::string const& err, const char* what = ": error: ")
{
    std::vector<int> v;
    std::istringstream s(err);
    std::string l;
    while (std::getline(s, l)) {
        size_t k = l.find(what);
        if (k == std::string::npos) continue;
        size_t c = l.rfind(':', k - 1);
        v.push_back(c == std::string::npos ? -1 : atoi(l.c_str() + c + 1));
    }
    return v;
}
} // namespace qbk
#endif
