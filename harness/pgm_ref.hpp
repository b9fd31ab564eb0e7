// Independent reading of the plain PGM grammar, and generators of texts.
#ifndef VERIF_PGM_REF_HPP
#define VERIF_PGM_REF_HPP

#include <locale>
#include <ostream>
#include <string>
#include <vector>

#include "gen.hpp"

namespace pgm
{

using ref::ul;

enum Verdict { ACCEPT, REJECT, EITHER };

struct Parsed
{
    Verdict verdict = REJECT;
    std::string why;
    ul w = 0, h = 0, max = 0;
    std::vector<ul> data;
};

// Stream settings for other uses of numbers, which a PGM text must not get.
struct Grouping : std::numpunct<char>
{
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
};

inline std::string unusual(gen::Rng& r, std::ostream& o)
{
    std::string what;
    auto flag = [&](std::ios_base::fmtflags f, const char* n) {
        o.setf(f);
        what += n;
    };
    if (r.chance(2, 3))
    {
        if (r.chance(1, 3))
        {
            o.unsetf(std::ios_base::basefield);
            if (r.chance(1, 2)) flag(std::ios_base::hex, " hex");
            else flag(std::ios_base::oct, " oct");
        }
        if (r.chance(1, 3)) flag(std::ios_base::showbase, " showbase");
        if (r.chance(1, 3)) flag(std::ios_base::showpos, " showpos");
        if (r.chance(1, 3)) flag(std::ios_base::uppercase, " uppercase");
        if (r.chance(1, 3)) flag(std::ios_base::left, " left");
        if (r.chance(1, 3)) o.fill('#'), what += " fill";
        if (r.chance(1, 3)) o.precision(1), what += " precision";
    }
    if (r.chance(1, 2))
    {
        o.imbue(std::locale(std::locale::classic(), new Grouping));
        what += " grouping";
    }
    return what;
}

inline bool space(unsigned char c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}

// Number that fits: 1, not a number: 0, too big: -1.
inline int number(const std::string& s, ul& v)
{
    if (s.empty()) return 0;
    v = 0;
    bool big = false;
    for (unsigned char c : s)
    {
        if (c < '0' || c > '9') return 0;
        ul d = c - '0';
        if (v > (~0ul - d) / 10) big = true;
        v = v * 10 + d;
    }
    return big ? -1 : 1;
}

// What the grammar says about the text. EITHER marks texts for which the
// property makes no claim.
inline Parsed parse(const std::string& t)
{
    Parsed r;
    std::vector<std::string> tok;
    std::string cur;
    bool doubtful = false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        unsigned char c = t[i];
        if (c == '#')
        {
            // Ends the token, too.
            if (!cur.empty()) tok.push_back(cur);
            cur.clear();
            while (i < t.size() && t[i] != '\n')
            {
                if (t[i] == '\r' && (i + 1 >= t.size() || t[i + 1] != '\n'))
                    doubtful = true;  // other notions of a line
                ++i;
            }
        }
        else if (space(c))
        {
            if (!cur.empty()) tok.push_back(cur);
            cur.clear();
        }
        else
        {
            if (c >= 128 || c == 0) doubtful = false;
            cur += (char)c;
        }
    }
    if (!cur.empty()) tok.push_back(cur);
    auto reject = [&](const std::string& why) {
        r.verdict = doubtful ? EITHER : REJECT;
        r.why = why;
        return r;
    };
    if (tok.empty() || tok[0] != "P2") return reject("magic");
    ul h[3];
    for (int i = 0; i < 3; ++i)
    {
        if (tok.size() < (size_t)i + 2) return reject("header is not complete");
        int n = number(tok[i + 1], h[i]);
        if (n == 0) return reject("malformed number");
        if (n < 0) return reject("too big number");
    }
    r.w = h[0];
    r.h = h[1];
    r.max = h[2];
    if (r.max > 65536) return reject("maximal value");
    bool zero = r.w == 0 || r.h == 0;
    for (size_t i = 4; i < tok.size(); ++i)
    {
        ul v;
        int n = number(tok[i], v);
        // Beyond the announced data, any token is redundant anyway.
        if (n == 0) return reject("malformed number");
        if (n < 0) return reject("too big number");
        r.data.push_back(v);
    }
    if (zero)
    {
        r.verdict = EITHER;
        r.why = "zero size";
        return r;
    }
    // w * h without overflow
    ul need = r.w > ~0ul / r.h ? ~0ul : r.w * r.h;
    if (r.data.size() < need) return reject("missing numbers");
    if (r.data.size() > need) return reject("redundant numbers");
    r.verdict = doubtful ? EITHER : ACCEPT;
    for (ul v : r.data)
        if (v > r.max) r.verdict = EITHER, r.why = "intensity above maximum";
    if (r.max == 0) r.verdict = EITHER, r.why = "zero maximum";
    return r;
}

inline size_t length(gen::Rng& r)
{
    static const ul n[] = {64, 70, 80, 100, 128, 256, 512, 1000, 1024, 4096,
                           8192, 32768, 65536, 100000};
    ul k = n[r.chance(1, 4) ? r.in(0, 13) : r.in(0, 8)];
    return k + r.in(0, 8) - 4;
}

inline std::string comment(gen::Rng& r)
{
    static const char* c[] = {"#", "# comment", "#P2 3 3", "##", "#1 2 3",
                              "# a # b", "#\t", "# -1", "#CREATOR: GIMP"};
    std::string s = c[r.in(0, 8)];
    // Lengths at which a reader might have a limit.
    if (r.chance(1, 20)) s += std::string(length(r), " x7#"[r.in(0, 3)]);
    return s + "\n";
}

inline std::string separator(gen::Rng& r, bool comments)
{
    std::string s;
    ul n = r.chance(2, 3) ? 1 : r.in(1, 5);
    if (r.chance(1, 400)) n = length(r);
    for (ul i = 0; i < n; ++i)
        s += " \n\t\r\v\f \n"[r.in(0, 7)];
    if (comments && r.chance(1, 6))
    {
        ul k = r.in(1, 2);
        for (ul i = 0; i < k; ++i)
        {
            s += comment(r);
            if (r.chance(1, 2)) s += " \n\t"[r.in(0, 2)];
        }
    }
    return s;
}

struct Tokens
{
    std::vector<std::string> t;  // P2 w h max values
    std::vector<ul> values;
    ul w, h, max;
};

inline Tokens tokens(gen::Rng& r)
{
    Tokens k;
    switch (r.in(0, 9))
    {
        case 0: k.w = k.h = 1; break;
        case 1: k.w = r.in(1, 90); k.h = 1; break;
        case 2: k.w = 1; k.h = r.in(1, 90); break;
        case 3: k.w = r.in(8, 40); k.h = r.in(1, 12); break;
        default: k.w = r.in(1, 8); k.h = r.in(1, 6);
    }
    if (r.chance(1, 10000))
    {
        // More than 65536 intensities.
        ul kind = r.in(0, 2);
        k.w = kind == 0 ? r.in(65536, 70000) : kind == 1 ? r.in(1, 2) : r.in(256, 300);
        k.h = kind == 0 ? 1 : kind == 1 ? r.in(65536, 70000) : r.in(256, 300);
    }
    switch (r.in(0, 6))
    {
        case 0: k.max = 1; break;
        case 1: k.max = 255; break;
        case 2: k.max = 65535; break;
        case 3: k.max = 65536; break;
        default: k.max = r.in(1, 65536);
    }
    k.t = {"P2", std::to_string(k.w), std::to_string(k.h),
           std::to_string(k.max)};
    for (ul i = 0; i < k.w * k.h; ++i)
    {
        ul v = r.chance(1, 6) ? k.max : r.chance(1, 6) ? 0 : r.in(0, k.max);
        k.values.push_back(v);
        std::string s = std::to_string(v);
        if (r.chance(1, 60))
            s = std::string(r.chance(1, 8) ? length(r) : r.in(1, 3), '0') + s;
        k.t.push_back(s);
    }
    return k;
}

inline std::string join(gen::Rng& r, const std::vector<std::string>& t)
{
    std::string s;
    bool comments = r.chance(1, 2);
    if (comments && r.chance(1, 4)) s += comment(r);
    if (r.chance(1, 12)) s += separator(r, comments);
    for (size_t i = 0; i < t.size(); ++i)
    {
        s += t[i];
        if (i + 1 == t.size()) break;
        // A comment may stick to the token before it.
        if (comments && r.chance(1, 12)) s += comment(r);
        else s += separator(r, comments);
    }
    switch (r.in(0, 5))
    {
        case 0: break;
        case 1: s += "\n# end"; break;
        case 2: s += comment(r); s.pop_back(); break;
        case 3: s += separator(r, comments); break;
        default: s += "\n";
    }
    return s;
}

// A token list with one defect that the grammar refuses.
inline std::vector<std::string> damage(gen::Rng& r, std::vector<std::string> t,
                                       std::string& what)
{
    static const char* bad[] = {"-1", "+1", "1a", "a1", "x", "1.5", "0x10",
                                "1e3", "--5", "1-", ",", "1,", "P2", "-0",
                                "99999999999999999999", "18446744073709551616",
                                "340282366920938463463374607431768211456",
                                "-18446744073709551615", "\"3\"", "1_0", "\\",
                                "5;", "NaN", "inf", ".", "0b1", "1'000"};
    static const char* magic[] = {"P5", "P1", "P3", "p2", "P", "2", "P2.",
                                  "PP2", "P22", "P02", "PGM", "P2P2", "BM"};
    size_t n = t.size();
    switch (r.in(0, 9))
    {
        case 0:
            t[0] = magic[r.in(0, 12)];
            what = "magic " + t[0];
            break;
        case 1:
            what = "last number is missing";
            t.pop_back();
            break;
        case 2:
        {
            ul keep = r.in(0, n - 2);
            what = "only " + std::to_string(keep) + " tokens";
            t.resize(keep);
            break;
        }
        case 3:
        {
            ul more = r.in(1, 3);
            for (ul i = 0; i < more; ++i)
                t.push_back(r.chance(1, 2) ? "0" : bad[r.in(0, 26)]);
            what = "redundant tokens";
            break;
        }
        case 4: case 5: case 6:
        {
            ul at = r.chance(1, 3) ? r.in(1, 3) : r.chance(1, 3) ? n - 1
                                                                 : r.in(1, n - 1);
            t[at] = bad[r.in(0, 26)];
            what = "token " + std::to_string(at) + " is " + t[at];
            break;
        }
        case 7:
            t[3] = r.chance(1, 2) ? "65537" : std::to_string(r.in(65537, 1ul << 40));
            what = "maximal value " + t[3];
            break;
        case 8:
            t.erase(t.begin() + (long)r.in(1, n - 1));
            what = "a number is missing";
            break;
        default:
        {
            ul at = r.in(1, 3);
            t[at] += "0";
            if (at == 3) t[3] = "655360";
            what = "header token " + std::to_string(at) + " is " + t[at];
        }
    }
    return t;
}

inline std::string show(const std::string& s, size_t limit = 400)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < limit; ++i)
    {
        unsigned char c = s[i];
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else if (c == '\\' || c == '"') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else r += (char)c;
    }
    return r + (s.size() > limit ? "\"..." : "\"");
}

}

#endif
