// Escaping: XML text, URIs and identifiers.   Case: <kind>:<bytes>
#include "mc.hpp"
#include "utils.hpp"
#include <memory>
#include <sstream>
using namespace quickbook;
typedef unsigned char uc;

static std::string enc(std::string const& s)
{
    std::string r;
    for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else r += c; }
    return r;
}
static std::string utf8(unsigned long c)
{
    std::string r;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x110000) { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else r = "\xEF\xBF\xBD";
    return r;
}
static std::string dec(std::string const& s)
{
    std::string r;
    static const char* n[] = {"amp;", "apos;", "gt;", "lt;", "quot;"};
    static const char v[] = "&'><\"";
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '&') {
            bool done = false;
            if (i + 1 < s.size() && s[i + 1] == '#') {
                bool hex = i + 2 < s.size() && s[i + 2] == 'x';
                size_t k = i + (hex ? 3 : 2), b = k;
                unsigned long c = 0;
                while (k < s.size() && (hex ? isxdigit((uc)s[k]) : isdigit((uc)s[k]))) { c = c * (hex ? 16 : 10) + (isdigit((uc)s[k]) ? s[k] - '0' : (s[k] | 32) - 'a' + 10); ++k; }
                if (k > b && c < 0x100000000ul) { r += utf8(c); if (k < s.size() && s[k] == ';') ++k; i = k; done = true; }
            }
            for (int j = 0; j < 5 && !done; ++j)
                if (s.compare(i + 1, strlen(n[j]), n[j]) == 0) { r += v[j]; i += 1 + strlen(n[j]); done = true; }
            if (done) continue;
        }
        r += s[i++];
    }
    return r;
}
static std::string uri(std::string const& s, std::string const& keep)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        uc c = s[i];
        bool ok = c < 128 && (isalnum(c) || keep.find((char)c) != std::string::npos);
        if (c == '%' && ok && !(i + 2 < s.size() && isxdigit((uc)s[i + 1]) && isxdigit((uc)s[i + 2]))) ok = false;
        if (ok) r += (char)c;
        else { char b[8]; snprintf(b, 8, "%%%02x", c); r += b; }
    }
    return r;
}
static std::string unpct(std::string const& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit((uc)s[i + 1]) && isxdigit((uc)s[i + 2])) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
        else r += s[i];
    return r;
}

struct H : mc::Harness {
    H() { rule = "every byte, and every string over byte and entity alphabets up to the length bound, through each escaping function; non-trivial when escaping changes the text"; }
    void enumerate(mc::Sink& s)
    {
        for (char k : std::string("eudi")) {
            std::string p = std::string(1, k) + ":";
            std::vector<std::string> all;
            for (int b = 0; b < 256; ++b) all.push_back(std::string(1, (char)b));
            mc::strings(all, 0, 2, [&](std::string const& c) { s.emit(p + c); });
        }
        for (int n : {7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096})
            for (char k : std::string("eudi"))
                for (auto w : {"<", "&", "\"", "'", "&amp;", "&#65;", "%41", "%", " ", "\xc3\xa9", "a", "<a", "a&lt;", "[/", "\n"}) {
                    std::string p = std::string(1, k) + ":", many;
                    for (int i = 0; i < n; ++i) many += w;
                    s.emit(p + many);
                    s.emit(p + std::string(n, 'a') + w);
                    s.emit(p + std::string(n, 'a') + w + "z");
                }
        mc::strings(mc::chars("a<>&\"';"), 3, thorough ? 7 : 5, [&](std::string const& c) { s.emit("e:" + c); });
        mc::strings({"a", "&", "#", "x", "4", ";", "amp;", "lt;", "gt;", "quot;", "apos;", "<"}, 3, thorough ? 5 : 4, [&](std::string const& c) { s.emit("d:" + c); });
        for (unsigned long c : {0ul, 9ul, 0x41ul, 0x7ful, 0x80ul, 0x7fful, 0x800ul, 0x20acul, 0xfffful, 0x10000ul, 0x1f600ul, 0x10fffful, 0x110000ul, 0xfffffffful, 0x100000000ul})
            for (auto post : {";", "", "z", ";;"}) {
                char b[40];
                snprintf(b, 40, "d:x&#%lu%s", c, post); s.emit(b);
                snprintf(b, 40, "d:&#x%lx%s", c, post); s.emit(b);
                snprintf(b, 40, "d:&#x%lX%s", c, post); s.emit(b);
            }
        mc::strings({"a", "Z", "%", "4", "f", "G", "/", " ", "\xc3\xa9", "\x80", "?", "+", "["}, 3, thorough ? 6 : 5, [&](std::string const& c) { s.emit("u:" + c); });
        mc::strings({"a", "Z", "_", "-", "9", " ", "\xc3\xa9", "."}, 3, thorough ? 6 : 5, [&](std::string const& c) { s.emit("i:" + c); });
    }
    void check(const std::string& c, mc::Ctx& x)
    {
        std::string t = c.substr(2), w;
        std::unique_ptr<char[]> buf(new char[t.size()]);
        memcpy(buf.get(), t.data(), t.size());
        string_view v(buf.get(), t.size());
        x.step(t.size());
        switch (c[0]) {
        case 'e': {
            w = enc(t);
            std::string g = detail::encode_string(v);
            if (!x.eq("encoded text", g, w)) return;
            std::ostringstream o, o2;
            detail::print_string(v, o);
            for (char ch : t) detail::print_char(ch, o2);
            if (!x.eq("printed text", o.str(), w) || !x.eq("printed characters", o2.str(), w)) return;
            if (t.find('\0') == std::string::npos && !x.eq("decoding what was encoded", detail::decode_string(g), t)) return;
            break;
        }
        case 'd': w = dec(t); if (!x.eq("decoded text", detail::decode_string(v), w)) return; break;
        case 'u': {
            w = uri(t, "-_.!~*'()?\\/");
            if (!x.eq("escaped URI", detail::escape_uri(v), w)) return;
            if (!x.eq("unescaping an escaped URI", unpct(detail::escape_uri(v)), t)) return;
            std::string p = detail::partially_escape_uri(v);
            if (!x.eq("partially escaped URI", p, uri(t, "-_.!~*'()?\\/:&=#%+"))) return;
            if (!x.eq("escaping a partially escaped URI again", detail::partially_escape_uri(p), p)) return;
            w += p;
            break;
        }
        case 'i': {
            for (uc ch : t) w += ch < 128 && isalnum(ch) ? (char)tolower(ch) : '_';
            if (!x.eq("identifier", detail::make_identifier(v), w)) return;
            break;
        }
        }
        x.state(c[0] + w);
        if (w != t) x.nontrivial();
    }
};
MC_MAIN(H)
