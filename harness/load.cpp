// Reading source files: byte order marks and line endings.
#include "mc.hpp"
#include "files.hpp"
#include <boost/filesystem/path.hpp>
using namespace quickbook;
struct H : mc::Harness {
    H() { rule = "every file content over the alphabet of BOM bytes, CR, LF, NUL and a letter up to the length bound; non-trivial when it has a BOM prefix or a CR"; }
    long n = 0;
    void enumerate(mc::Sink& s)
    {
        std::vector<std::string> a = {"a", "\n", "\r", "\xef", "\xbb", "\xbf", "\xff", "\xfe", std::string(1, '\0')};
        mc::strings(a, 0, thorough ? 6 : 5, [&](std::string const& c) { s.emit(c); });
        std::vector<std::string> pre = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", std::string("\0\0\xfe\xff", 4), std::string("\xff\xfe\0\0", 4), "\xef\xbb", ""};
        for (auto& p : pre) mc::strings({"a", "\n", "\r", "\r\n", "\n\r", "\xef\xbb\xbf", "\xc3\xa9", " "}, 0, 4, [&](std::string const& c) { s.emit(p + c); });
        mc::pumped({"a", "\n", "\r", "\xef\xbb\xbf", "b "}, 4, {5, 100, 3000}, [&](std::string const& c) { s.emit(c); });
        for (size_t k : {4095, 4096, 8190, 8191, 8192, 16384})
            for (auto& e : {"\r\n", "\r", "\n", "\n\r"}) { s.emit(std::string(k, 'x') + e + "y"); s.emit(std::string("\xef\xbb\xbf") + std::string(k, 'x') + e + e + "y"); }
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        x.step(c.size());
        auto starts = [&](std::string const& p) { return c.compare(0, p.size(), p) == 0; };
        bool bad = starts("\xff\xfe") || starts("\xfe\xff") || starts(std::string("\0\0\xfe\xff", 4));
        std::string w, t = starts("\xef\xbb\xbf") ? c.substr(3) : c;
        for (size_t i = 0; i < t.size(); ++i) {
            if (t[i] == '\r') { w += '\n'; if (i + 1 < t.size() && t[i + 1] == '\n') ++i; }
            else w += t[i];
        }
        std::string name = std::string(getenv("VERIF_SCRATCH")) + "/l" + std::to_string(getpid()) + "-" + std::to_string(n++);
        FILE* f = fopen(name.c_str(), "wb");
        fwrite(c.data(), 1, c.size(), f);
        fclose(f);
        bool threw = false;
        std::string got;
        try {
            file_ptr p = load(name, 107u);
            got = p->source().to_s();
            file_ptr q = load(name, 107u);
            if (q->source() != p->source()) x.fail("loading the same file again gives different text");
            if (p->path != boost::filesystem::path(name)) x.fail("wrong path recorded");
        } catch (load_error&) { threw = true; }
        unlink(name.c_str());
        if (threw != bad) x.fail(threw ? "rejected a readable file" : "accepted an unsupported encoding");
        else if (!bad) x.eq("loaded text", got, w);
        x.state(bad ? "bad" : w);
        if (bad || c != t || t.find('\r') != std::string::npos) x.nontrivial();
        // a missing file is reported, not treated as empty
        if (c.size() < 2) {
            threw = false;
            try { load(name + ".missing", 107u); } catch (load_error&) { threw = true; }
            if (!threw) x.fail("missing file loaded");
        }
    }
};
MC_MAIN(H)
