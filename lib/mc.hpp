// Bounded-exhaustive exploration driver shared by every harness.
//
// A harness supplies (1) an enumerator that emits every case of a finite
// space, simplest first, and (2) a check that runs one case against the real
// code and an oracle.  The driver shards the space over worker processes,
// isolates crashes and hangs, replays every failure alone in a fresh process
// before it is believed, and writes the measured coverage as JSON.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace mc {

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

inline std::string show(const std::string& s, size_t max = 4000)
{
    std::string r;
    for (unsigned char c : s) {
        if (r.size() > max) { r += "..."; break; }
        if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c == '\r') r += "\\r";
        else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

inline std::string json(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

struct Ctx {
    bool failed = false;
    std::string msg;
    bool is_nontrivial = false;
    uint64_t trans = 0;
    std::vector<uint64_t> st;

    void fail(const std::string& m) { if (!failed) { failed = true; msg = m; } }
    void nontrivial() { is_nontrivial = true; }
    void step(uint64_t n = 1) { trans += n; }
    void state(const std::string& s) { st.push_back(hash(s)); }
    template <class A, class B>
    bool eq(const char* what, const A& got, const B& want)
    {
        if (got == want) return true;
        fail(std::string(what) + ": got [" + str(got) + "] want [" + str(want) + "]");
        return false;
    }
    static std::string str(const std::string& s) { return show(s); }
    static std::string str(const char* s) { return show(s); }
    static std::string str(bool b) { return b ? "true" : "false"; }
    template <class T> static std::string str(const T& t) { return std::to_string(t); }
};

struct Sink {
    std::function<void(const std::string&)> f;
    uint64_t idx = 0;
    unsigned w = 0, nw = 1;
    uint64_t resume = 0; // skip indices < resume
    bool stopped = false;
    void emit(const std::string& c)
    {
        uint64_t i = idx++;
        if (stopped || i % nw != w || i < resume) return;
        f(c);
    }
    // For spaces where building a case is expensive: ask first, then emit.
    bool mine() const { return !stopped && idx % nw == w && idx >= resume; }
    void skip() { ++idx; }
};

struct Harness {
    std::string rule = "";
    bool thorough = false;
    double case_timeout = 8;
    virtual ~Harness() {}
    virtual void init() {}
    virtual void enumerate(Sink&) = 0;
    virtual void check(const std::string& c, Ctx& x) = 0;
};

struct Slot {
    volatile int active;
    volatile double start;
    volatile uint64_t index;
    volatile uint32_t len;
    char data[1 << 16];
};

struct Violation { std::string c, msg, kind; };

struct WorkerOut {
    uint64_t evals = 0, nontriv = 0, trans = 0;
    std::unordered_set<uint64_t> states, distinct;
    std::vector<std::string> samples;
    std::vector<Violation> v;
    bool capped = false, done = false;
};

inline void put(FILE* f, const std::string& s)
{
    uint32_t n = s.size();
    fwrite(&n, 4, 1, f);
    fwrite(s.data(), 1, n, f);
}
inline bool get(FILE* f, std::string& s)
{
    uint32_t n;
    if (fread(&n, 4, 1, f) != 1) return false;
    s.resize(n);
    return n == 0 || fread(&s[0], 1, n, f) == n;
}

struct Driver {
    Harness& h;
    std::string scratch;
    std::string out;
    double budget = 1e9;
    unsigned nw = 8;
    size_t max_viol = 10;
    size_t max_states = 3000000;

    explicit Driver(Harness& h_) : h(h_) {}

    // Run one case alone in a fresh process. 0 = pass, 1 = fail, 2 = crash, 3 = hang
    int replay(const std::string& c, std::string& msg, double limit)
    {
        std::string f = scratch + "/replay.out";
        unlink(f.c_str());
        fflush(0);
        pid_t p = fork();
        if (p == 0) {
            quiet();
            Ctx x;
            h.check(c, x);
            FILE* o = fopen(f.c_str(), "wb");
            if (o) { std::string m = x.failed ? "F" + x.msg : "P"; put(o, m); fclose(o); }
            _exit(0);
        }
        double t0 = now();
        int st;
        for (;;) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            if (now() - t0 > limit) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                msg = "no result within " + std::to_string((int)limit) + " s";
                return 3;
            }
            usleep(now() - t0 < 0.05 ? 200 : 5000);
        }
        FILE* o = fopen(f.c_str(), "rb");
        std::string m;
        if (o) { get(o, m); fclose(o); }
        if (m.empty()) {
            msg = WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st))
                                  : "process exited with status " + std::to_string(WEXITSTATUS(st)) +
                                        " in the middle of the case";
            std::string log = readfile(scratch + "/stderr.log");
            size_t a = log.rfind("ERROR: AddressSanitizer");
            size_t b = log.rfind("Assertion ");
            size_t k = a != std::string::npos ? a : b != std::string::npos ? b : std::string::npos;
            if (k != std::string::npos) msg += ": " + log.substr(k, 300);
            return 2;
        }
        if (m[0] == 'P') return 0;
        msg = m.substr(1);
        return 1;
    }

    static std::string readfile(const std::string& f)
    {
        std::string r;
        FILE* o = fopen(f.c_str(), "rb");
        if (!o) return r;
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, o)) > 0) r.append(b, n);
        fclose(o);
        return r;
    }

    void quiet()
    {
        std::string f = scratch + "/stderr.log";
        int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(fd, 2);
        setbuf(stderr, 0);
    }

    void work(unsigned w, uint64_t resume, Slot* slot, double deadline)
    {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        WorkerOut o;
        Sink s;
        s.w = w;
        s.nw = nw;
        s.resume = resume;
        s.f = [&](const std::string& c) {
            slot->len = c.size() < sizeof(slot->data) ? c.size() : sizeof(slot->data);
            memcpy(slot->data, c.data(), slot->len);
            slot->index = s.idx - 1;
            slot->start = now();
            slot->active = 1;
            Ctx x;
            h.check(c, x);
            slot->active = 0;
            ++o.evals;
            o.trans += x.trans;
            if (o.states.size() < max_states)
                for (uint64_t k : x.st) o.states.insert(k);
            if (x.is_nontrivial) {
                if (o.distinct.size() < max_states) { if (o.distinct.insert(hash(c)).second) ++o.nontriv; }
                if (o.samples.size() < 3 || (o.samples.size() < 6 && hash(c) % 997 == 0))
                    o.samples.push_back(c);
            }
            if (x.failed) {
                o.v.push_back({c, x.msg, "mismatch"});
                if (o.v.size() >= max_viol) { s.stopped = true; o.capped = true; }
            }
            if ((o.evals & 63) == 0 && now() > deadline) { s.stopped = true; o.capped = true; }
        };
        h.enumerate(s);
        o.done = true;
        std::string f = scratch + "/w" + std::to_string(w) + "." + std::to_string(resume);
        FILE* fp = fopen(f.c_str(), "wb");
        fwrite(&o.evals, 8, 1, fp);
        fwrite(&o.nontriv, 8, 1, fp);
        fwrite(&o.trans, 8, 1, fp);
        uint64_t n = s.idx;
        fwrite(&n, 8, 1, fp);
        uint64_t cap = o.capped;
        fwrite(&cap, 8, 1, fp);
        n = o.states.size();
        fwrite(&n, 8, 1, fp);
        for (uint64_t k : o.states) fwrite(&k, 8, 1, fp);
        n = o.samples.size();
        fwrite(&n, 8, 1, fp);
        for (auto& k : o.samples) put(fp, k);
        n = o.v.size();
        fwrite(&n, 8, 1, fp);
        for (auto& k : o.v) { put(fp, k.c); put(fp, k.msg); put(fp, k.kind); }
        fclose(fp);
        _exit(0);
    }

    int run()
    {
        double t0 = now();
        double deadline = t0 + budget;
        std::vector<Slot*> slots;
        for (unsigned i = 0; i < nw; ++i)
            slots.push_back((Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::vector<pid_t> pid(nw, 0);
        std::vector<uint64_t> resume(nw, 0);
        std::vector<Violation> cand;
        std::vector<int> crashes(nw, 0);
        uint64_t evals = 0, nontriv = 0, trans = 0, total = 0, lost = 0;
        bool capped = false;
        std::unordered_set<uint64_t> states;
        std::vector<std::string> samples;
        unsigned running = 0;
        auto spawn = [&](unsigned w) {
            slots[w]->active = 0;
            fflush(0);
            pid[w] = fork();
            if (pid[w] == 0) work(w, resume[w], slots[w], deadline);
            ++running;
        };
        for (unsigned w = 0; w < nw; ++w) spawn(w);
        while (running) {
            bool any = false;
            for (unsigned w = 0; w < nw; ++w) {
                if (!pid[w]) continue;
                int st;
                pid_t r = waitpid(pid[w], &st, WNOHANG);
                bool hang = false;
                if (r == 0 && slots[w]->active && now() - slots[w]->start > h.case_timeout) {
                    hang = true;
                    kill(pid[w], SIGKILL);
                    r = waitpid(pid[w], &st, 0);
                }
                if (r == 0) continue;
                any = true;
                pid[w] = 0;
                --running;
                if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && !slots[w]->active) {
                    std::string f = scratch + "/w" + std::to_string(w) + "." + std::to_string(resume[w]);
                    FILE* fp = fopen(f.c_str(), "rb");
                    if (!fp) { fprintf(stderr, "worker %u left no result\n", w); return 3; }
                    uint64_t a[5], n;
                    if (fread(a, 8, 5, fp) != 5) return 3;
                    evals += a[0]; nontriv += a[1]; trans += a[2];
                    if (a[3] > total) total = a[3];
                    if (a[4]) capped = true;
                    if (fread(&n, 8, 1, fp) != 1) return 3;
                    for (; n; --n) { uint64_t k; if (fread(&k, 8, 1, fp) != 1) return 3; states.insert(k); }
                    if (fread(&n, 8, 1, fp) != 1) return 3;
                    for (; n; --n) { std::string k; get(fp, k); if (samples.size() < 12) samples.push_back(k); }
                    if (fread(&n, 8, 1, fp) != 1) return 3;
                    for (; n; --n) { Violation v; get(fp, v.c); get(fp, v.msg); get(fp, v.kind); cand.push_back(v); }
                    fclose(fp);
                    unlink(f.c_str());
                    continue;
                }
                if (!hang && !slots[w]->active) {
                    fprintf(stderr, "worker %u ended outside a case (status %d)\n", w, st);
                    return 3;
                }
                // crashed or hung inside a case
                cand.push_back({std::string(slots[w]->data, slots[w]->len), "", hang ? "hang" : "crash"});
                resume[w] = slots[w]->index + 1;
                ++lost;
                if (++crashes[w] < 5 && now() < deadline) spawn(w);
                else capped = true;
            }
            if (!any) usleep(2000);
        }
        // replay before report
        std::vector<Violation> conf;
        uint64_t unconfirmed = 0;
        double vdl = now() + 40;
        std::stable_sort(cand.begin(), cand.end(), [](const Violation& a, const Violation& b) { return a.c.size() < b.c.size(); });
        for (auto& v : cand) {
            if (conf.size() >= 25 || (conf.size() && now() > vdl)) break;
            std::string m, m2;
            int r = replay(v.c, m, h.case_timeout * 3);
            if (r == 0) { ++unconfirmed; fprintf(stderr, "note: not reproduced alone: %s (%s)\n", show(v.c, 300).c_str(), show(v.msg, 300).c_str()); continue; }
            int r2 = replay(v.c, m2, h.case_timeout * 3);
            if (r2 != r) { ++unconfirmed; continue; }
            conf.push_back({v.c, m, r == 1 ? "mismatch" : r == 2 ? "crash" : "hang"});
        }
        FILE* o = fopen(out.c_str(), "wb");
        fprintf(o, "{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"transitions\":%llu,\"states\":%llu,",
                (unsigned long long)(evals + lost), (unsigned long long)nontriv, (unsigned long long)trans,
                (unsigned long long)states.size());
        fprintf(o, "\"space\":%llu,\"exhaustive\":%s,\"unconfirmed\":%llu,\"wall_s\":%.3f,\"rule\":%s,",
                (unsigned long long)total, (!capped && !lost) ? "true" : "false", (unsigned long long)unconfirmed,
                now() - t0, json(h.rule).c_str());
        fprintf(o, "\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s%s", i ? "," : "", json(show(samples[i], 400)).c_str());
        fprintf(o, "],\"violations\":[");
        for (size_t i = 0; i < conf.size(); ++i)
            fprintf(o, "%s{\"case\":%s,\"msg\":%s,\"kind\":%s}", i ? "," : "", json(conf[i].c).c_str(),
                    json(conf[i].msg).c_str(), json(conf[i].kind).c_str());
        fprintf(o, "]}\n");
        fclose(o);
        return 0;
    }
};

inline int main_(int argc, char** argv, Harness& h)
{
    Driver d(h);
    std::string replay;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") h.thorough = true;
        else if (a == "--out") d.out = argv[++i];
        else if (a == "--scratch") d.scratch = argv[++i];
        else if (a == "--budget") d.budget = atof(argv[++i]);
        else if (a == "--jobs") d.nw = atoi(argv[++i]);
        else if (a == "--replay") replay = argv[++i];
    }
    h.init();
    if (!replay.empty()) {
        std::string c = Driver::readfile(replay);
        Ctx x;
        h.check(c, x);
        printf("case: %s\n%s\n", show(c).c_str(), x.failed ? ("FAIL " + x.msg).c_str() : "PASS");
        return x.failed ? 1 : 0;
    }
    return d.run();
}

// All strings over an alphabet, by increasing length.
template <class F>
void strings(const std::vector<std::string>& alpha, size_t lo, size_t hi, F f)
{
    for (size_t n = lo; n <= hi; ++n) {
        std::vector<size_t> ix(n, 0);
        for (;;) {
            std::string s;
            for (size_t i : ix) s += alpha[i];
            f(s);
            size_t k = n;
            while (k && ++ix[k - 1] == alpha.size()) ix[--k] = 0;
            if (!k) break;
        }
    }
}

// Long index tuples: every word of up to a length, repeated.
template <class F>
void pump(size_t base, size_t period, const std::vector<int>& reps, F f)
{
    for (size_t n = 1; n <= period; ++n)
        for (int r : reps) {
            std::vector<size_t> ix(n, 0);
            for (;;) {
                std::vector<size_t> v;
                for (int i = 0; i < r; ++i) v.insert(v.end(), ix.begin(), ix.end());
                f(v);
                size_t k = n;
                while (k && ++ix[k - 1] == base) ix[--k] = 0;
                if (!k) break;
            }
        }
}

// Long cases: every word over an alphabet up to a length, repeated.
template <class F>
void pumped(const std::vector<std::string>& alpha, size_t period, const std::vector<int>& reps, F f)
{
    strings(alpha, 1, period, [&](std::string const& w) {
        for (int n : reps) {
            std::string s;
            for (int i = 0; i < n; ++i) s += w;
            f(s);
        }
    });
}

// All index tuples of length n over [0,base).
template <class F> void tuples(size_t base, size_t n, F f)
{
    std::vector<size_t> ix(n, 0);
    if (n && !base) return;
    for (;;) {
        f(ix);
        size_t k = n;
        while (k && ++ix[k - 1] == base) ix[--k] = 0;
        if (!k) break;
    }
}

inline std::vector<std::string> chars(const std::string& s)
{
    std::vector<std::string> r;
    for (char c : s) r.push_back(std::string(1, c));
    return r;
}

inline std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    size_t a = 0;
    if (s.empty()) return r;
    for (;;) {
        size_t b = s.find(c, a);
        if (b == std::string::npos) { r.push_back(s.substr(a)); return r; }
        r.push_back(s.substr(a, b - a));
        a = b + 1;
    }
}
} // namespace mc

#define MC_MAIN(H) \
    int main(int argc, char** argv) { H h; return mc::main_(argc, argv, h); }
#endif
