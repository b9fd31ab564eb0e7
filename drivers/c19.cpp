// C19: the program applies its options; refuses the wrong ones.
#include "cli.hpp"
void drv::setup(drv::Ctx&) {}
void drv::teardown(drv::Ctx&) {}
using namespace cli;
using gen::Rng;

namespace
{

struct Weight
{
    double value;
    const char* text;
};

const Weight WEIGHTS[] = {
    {1, "1"}, {0.125, "0.125"}, {0.5, "0.5"}, {0.5, ".5"}, {2, "2"},
    {2, "2."}, {1.5, "1.5"}, {0.25, "25e-2"}, {1024, "1024"}, {3, "3.0"},
    {0.375, "0.375"}, {100, "1e2"}, {7, "7"}, {0.875, "0.875"}, {10, "10"},
    {1.75, "175e-2"}, {64, "064"}, {0, "0"}, {0, "0.0"}, {12.5, "12.5"}};

struct Opt
{
    const char* name;
    char letter;
    std::string value;
};

std::vector<std::string> arguments(Rng& r, std::vector<Opt> o)
{
    for (size_t i = o.size(); i-- > 1;) std::swap(o[i], o[r.in(0, i)]);
    std::vector<std::string> a;
    for (auto& x : o)
    {
        bool glue = !x.value.empty();
        switch (r.in(0, 3))
        {
            case 0:
                a.push_back(drv::cat("--", x.name));
                a.push_back(x.value);
                break;
            case 1:
                if (glue) a.push_back(drv::cat("--", x.name, "=", x.value));
                else
                {
                    a.push_back(drv::cat("--", x.name));
                    a.push_back(x.value);
                }
                break;
            case 2:
                a.push_back(drv::cat("-", x.letter));
                a.push_back(x.value);
                break;
            default:
                if (glue) a.push_back(drv::cat("-", x.letter, x.value));
                else
                {
                    a.push_back(drv::cat("-", x.letter));
                    a.push_back(x.value);
                }
        }
    }
    return a;
}

void o_set(std::vector<Opt>& o, char l, const char* v)
{
    for (auto& x : o)
        if (x.letter == l) x.value = v;
}

std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v) s += (s.empty() ? "" : " ") + x;
    return s;
}

Instance problem(Rng& r)
{
    gen::Limits l;
    if (r.chance(1, 20)) return gen::dead_end(r);
    if (r.chance(1, 10))
    {
        l.maxW = 16; l.maxH = 8; l.maxD = 10; l.cells = 600;
    }
    return gen::instance(r, l);
}

std::string pick(Rng& r, const std::vector<std::string>& v)
{
    return v[r.in(0, v.size() - 1)];
}

}

// Wide images: levels left out are as many as columns, more than 256 of them.
static void wide(drv::Ctx& c, Rng& r, const std::string& exe,
                 const std::string& dir)
{
    ul w = r.in(257, 300), k = r.in(2, 5);
    std::vector<ul> L(w, 0), R(w, 0);
    for (ul i = 0; i < k; ++i) L[w - k + i] = R[i] = r.in(1, 9);
    put(dir + "/l.pgm", cli::text(r, w, 1, 9, L));
    put(dir + "/r.pgm", cli::text(r, w, 1, 9, R));
    std::string s = r.chance(1, 2) ? "0" : "0.0009765625";
    std::vector<std::string> a = {"-l", "l.pgm", "-r", "r.pgm", "-s", s, "-o"};
    std::vector<std::string> b = a;
    a.push_back("a");
    b.push_back("b");
    b.push_back("-d");
    b.push_back(std::to_string(w));
    Outcome x = run(exe, a, dir), y = run(exe, b, dir);
    std::string ctx = drv::cat(" for W=", w, " s=", s, ": ", x.show(), "; ",
                          y.show());
    if (x.timeout || y.timeout) return c.viol("hang", "no end" + ctx);
    if (!x.exited || x.code || !y.exited || y.code)
        return c.viol("failed", "failure on right arguments" + ctx);
    if (look(dir + "/a").content != look(dir + "/b").content)
        return c.viol("default-levels", "without -d the map differs from the "
                      "one with as many levels as columns" + ctx);
    pgm::Parsed p = pgm::parse(look(dir + "/a").content);
    if (p.verdict == pgm::REJECT || p.w != w || p.h != 1 || p.max != w)
        return c.viol("wide-map", drv::cat("no map with ", w, " levels", ctx));
    c.count("wide-images");
    c.distinct(drv::hash(ctx));
}

void drv::run_case(Ctx& c, Rng& r)
{
    std::string exe = aux(c, "cli"), dir = fresh(c);
    // A device: OpenCL or CUDA.
    bool cl = aux(c, "cl") == "1" || aux(c, "cl") == "cuda";
    if (aux(c, "wide") == "1" && r.chance(1, 250)) return wide(c, r, exe, dir);
    Instance in = problem(r);
    if (cl)
    {
        // Penalties have to fit into single precision.
        if (in.maxv > 255)
        {
            in.maxv = 255;
            for (auto& v : in.L) v %= 256;
            for (auto& v : in.R) v %= 256;
        }
        // The kernels are looked for in the current directory.
        std::string root = aux(c, "root");
        if (!root.empty()) for (const char* n : {"lib", "include"})
            if (symlink((root + "/" + n).c_str(), (dir + "/" + n).c_str()))
                _exit(78);
    }
    std::vector<Opt> o;
    std::string set;
    // Weights that differ in far digits; penalties stay exact.
    bool fine = !cl && r.chance(1, 6);
    if (fine)
    {
        in.maxv = 3;
        for (auto* p : {&in.L, &in.R})
            for (auto& v : *p) v = r.in(0, 3);
        in.D = std::min<ul>(3, in.W);
    }
    bool has_d = r.chance(3, 4), has_c = r.chance(2, 3), has_s = r.chance(2, 3);
    if (!has_d)
    {
        in.D = in.W;
        set += "no-levels ";
    }
    else o.push_back({"disparity-levels", 'd', std::to_string(in.D)});
    in.c = in.s = 1;
    if (has_c)
    {
        const Weight& w = WEIGHTS[r.in(0, 19)];
        in.c = w.value;
        o.push_back({"cleanness", 'c', w.text});
    }
    else set += "no-cleanness ";
    if (has_s)
    {
        const Weight& w = WEIGHTS[r.in(0, 19)];
        in.s = w.value;
        o.push_back({"smoothness", 's', w.text});
    }
    else set += "no-smoothness ";
    if (fine)
    {
        double e = std::ldexp(1.0, -(int)r.in(26, 44));
        in.c = r.chance(1, 2) ? 1 : 4;
        in.s = (r.chance(2, 3) ? 1 : 4) + (r.chance(1, 2) ? e : -e);
        char text[2][60];
        std::snprintf(text[0], 60, r.chance(1, 2) ? "%g" : "%.1f", in.c);
        std::snprintf(text[1], 60, r.chance(1, 3) ? "%.17g"
                                   : r.chance(1, 2) ? "%.50g" : "%.17e", in.s);
        if (r.chance(1, 3))
        {
            std::swap(in.c, in.s);
            std::swap(text[0], text[1]);
        }
        o.erase(std::remove_if(o.begin(), o.end(), [](const Opt& x) {
                    return x.letter == 'c' || x.letter == 's';
                }), o.end());
        o.push_back({"cleanness", 'c', text[0]});
        o.push_back({"smoothness", 's', text[1]});
        set.clear();
        if (!has_d) set = "no-levels ";
    }
    bool refuse = in.c == 0 && in.s == 0;
    // Both weights scaled by a power of two; penalties stay exact.
    bool scaled = !cl && !fine && !refuse && has_c && has_s && r.chance(1, 6);
    if (scaled)
    {
        double e = std::ldexp(1.0, (int)r.in(0, 240) - 120);
        in.c *= e;
        in.s *= e;
        char text[2][60];
        const char* f = r.chance(1, 2) ? "%.17g" : "%.17e";
        std::snprintf(text[0], 60, f, in.c);
        std::snprintf(text[1], 60, f, in.s);
        o_set(o, 'c', text[0]);
        o_set(o, 's', text[1]);
    }
    std::string why = refuse ? "both weights are zero" : "";
    bool asked = cl;
    if (cl)
    {
        if (in.c > 16) in.c = 16, o_set(o, 'c', "16");
        if (in.s > 16) in.s = 16, o_set(o, 's', "16");
        if (r.chance(1, 8))
        {
            // A program which is able to use the device, but not asked to.
            asked = false;
            if (r.chance(1, 2))
                o.push_back({"parallel", 'p',
                             pick(r, {"omp", "OpenMP", "cpu", "CPU"})});
            set += "cpu ";
        }
        else if (aux(c, "cl") == "cuda")
        {
            o.push_back({"parallel", 'p', pick(r, {"cuda", "CUDA", "Cuda"})});
            set += "cuda ";
        }
        else
        {
            o.push_back({"parallel", 'p',
                         pick(r, {"cl", "CL", "opencl", "OpenCL", "Cl"})});
            set += "opencl ";
        }
    }
    else if (r.chance(1, 2))
    {
        std::string p = pick(r, {"omp", "OMP", "OpenMP", "openmp", "cpu", "CPU",
                                 "Omp"});
        o.push_back({"parallel", 'p', p});
        set += "parallel ";
    }
    std::string ln = pick(r, {"left.pgm", "l", "left image.pgm", "a=b.pgm",
                              "./left.pgm"});
    std::string rn = pick(r, {"right.pgm", "r", "right image.pgm", "c=d.pgm"});
    if (r.chance(1, 25))
    {
        // One file for both images.
        rn = ln;
        in.R = in.L;
        c.count("one-file-for-both-images");
    }
    std::string on = pick(r, {"out.pgm", "o", "the map.pgm", "e=f.pgm"});
    o.push_back({"left-image", 'l', ln});
    o.push_back({"right-image", 'r', rn});
    o.push_back({"output-image", 'o', on});
    std::vector<std::string> extra;
    if (!refuse && r.chance(1, 3))
    {
        // One thing the program has to refuse.
        refuse = true;
        auto put_opt = [&](const char* n, char l, const std::string& v) {
            for (auto& x : o)
                if (x.letter == l)
                {
                    x.value = v;
                    return;
                }
            o.push_back({n, l, v});
        };
        switch (r.in(0, 7))
        {
            case 0:
                extra = {pick(r, {"--foo", "-x", "--foo=1", "-z1",
                                  "--disparity", "--level", "-D"})};
                // A unique prefix of an option is no claim.
                if (extra[0] == "--disparity") extra = {"--disparities"};
                if (r.chance(1, 3))
                {
                    // The name of an option and something behind it.
                    std::string n = "--" + pick(r, {
                        "cleanness", "smoothness", "parallel", "left-image",
                        "disparity-levels", "output-image", "right-image"});
                    n += pick(r, {"s", "-", "_", "1", "-image", "e"});
                    extra = {r.chance(1, 2) ? n : n + "=1"};
                }
                why = "unknown option " + extra[0];
                break;
            case 1:
            {
                std::vector<std::string> v = {"cuda1", "gpu", "c", "ompp",
                                              "none", "0", "open mp",
                                              "openmp,cl", "vulkan"};
                if (!cl)
                {
                    v.push_back("cl");
                    v.push_back("opencl");
                    v.push_back("OpenCL");
                    v.push_back("cuda");
                }
                std::string p = pick(r, v);
                if (r.chance(1, 2))
                {
                    // A damaged name of a technology.
                    p = pick(r, {"cpu", "omp", "openmp", "OpenMP", "CPU", "cl",
                                 "opencl", "cuda"});
                    ul at = r.in(0, p.size());
                    std::string x = pick(r, {"s", " ", "1", "-", "x", "p", ",",
                                             "\t", "."});
                    switch (r.in(0, 4))
                    {
                        case 0: p += x; break;
                        case 1: p = x + p; break;
                        case 2: p.insert(at, x); break;
                        case 3: p.erase(at < p.size() ? at : at - 1, 1); break;
                        default: p += p;
                    }
                    std::string low = p;
                    for (char& ch : low) ch = (char)std::tolower(ch);
                    for (const char* n : {"cpu", "omp", "openmp", "cl",
                                          "opencl", "cuda"})
                        if (low == n) p = "none";
                    if (p[0] == '-') p = "none";
                }
                put_opt("parallel", 'p', p);
                why = "technology " + p;
                break;
            }
            case 2:
            {
                std::string v = pick(r, {"0", "1", "-1", "-2", "abc", "x3",
                                         "-", "99999999999999999999999",
                                         std::to_string(in.W + 1),
                                         "18446744073709551615", "two",
                                         "4294967296",
                                         std::to_string((1ul << 32) + in.D),
                                         std::to_string((1ul << 63) + in.D),
                                         "65538", "258", "18446744073709551618",
                                         std::to_string(0ul - in.D),
                                         "2abc", "2.5", "2e0", "2,", "2 3",
                                         "2 ", "2-", "0x2", "2u",
                                         std::to_string(in.D) + ".0",
                                         std::to_string(in.D) + "x",
                                         "-" + std::to_string(0ul - in.D)});
                if (r.chance(1, 3))
                    v = std::to_string(in.D)
                        + pick(r, {"x", " ", "u", "L", "%", ".", ",", "/2",
                                   "-", "+", "e", "\t", " 1", "_", "e0"});
                // Fewer columns than any of these.
                if (in.W >= 258) v = "0";
                put_opt("disparity-levels", 'd', v);
                why = "levels " + v;
                break;
            }
            case 3: case 4:
            {
                std::string v = pick(r, {"-1", "-0.5", "-1e-3", "abc", "x1",
                                         "one", "nan", "inf", "-inf", "1e999",
                                         "1x", "1,5", "0.5.5", "1 2", "1e"});
                if (r.chance(1, 3))
                {
                    // A weight and something behind it.
                    v = WEIGHTS[r.in(0, 19)].text;
                    v += pick(r, {"x", " ", "f", "L", "%", "d", ",", "/2", "-",
                                  "+", "e", "\t", " 1", "_", "..", "e+"});
                }
                bool clean_ = r.chance(1, 2);
                put_opt(clean_ ? "cleanness" : "smoothness", clean_ ? 'c' : 's',
                        v);
                why = cat(clean_ ? "cleanness " : "smoothness ", v);
                break;
            }
            case 5:
            {
                Opt d = o[r.in(0, o.size() - 1)];
                o.push_back(d);
                why = cat("option ", d.name, " given twice");
                break;
            }
            case 6:
                // An option at the end without a value.
                extra = {pick(r, {"-d", "--cleanness", "-s", "-p"})};
                for (size_t i = 0; i < o.size();)
                {
                    bool same = (extra[0] == "-d" && o[i].letter == 'd')
                        || (extra[0] == "--cleanness" && o[i].letter == 'c')
                        || (extra[0] == "-s" && o[i].letter == 's')
                        || (extra[0] == "-p" && o[i].letter == 'p');
                    if (same) o.erase(o.begin() + i);
                    else ++i;
                }
                why = "no value of " + extra[0];
                break;
            default:
            {
                put_opt("cleanness", 'c', "0");
                put_opt("smoothness", 's', "0");
                why = "both weights are zero";
            }
        }
    }
    std::vector<std::string> a = arguments(r, o);
    a.insert(a.end(), extra.begin(), extra.end());
    put(dir + "/" + ln, cli::text(r, in.W, in.H, in.maxv, in.L));
    put(dir + "/" + rn, cli::text(r, in.W, in.H, in.maxv, in.R));
    Options opt;
    int threads = (int)r.in(1, 6);
    opt.env.push_back(cat("OMP_NUM_THREADS=", threads));
    opt.env.push_back(cat("MOCKCL_SEED=", r.in(0, 1000000)));
    if (cl) opt.env.push_back("MOCKCUDA_SEED=" + opt.env.back().substr(12));
    std::string stats = dir + ".launches";
    unlink(stats.c_str());
    if (cl)
        for (const char* n : {"MOCKCL_STATS=", "MOCKCUDA_STATS="})
            opt.env.push_back(n + stats);
    Outcome res = run(exe, a, dir, opt);
    if (cl && res.exited && res.code == 78)
    {
        std::fprintf(stderr, "%s\n", res.err.c_str());
        _exit(78);
    }
    if (cl && (res.err.find("MOCKCL-ERROR") != std::string::npos
               || res.err.find("MOCKCUDA-ERROR") != std::string::npos))
        return c.viol("misuse-of-device", res.err + join(a) + " " + in.str());
    File f = look(dir + "/" + on);
    std::string ctx = cat(" arguments: ", join(a), " (", threads,
                          " threads) of ", in.str(), "; ", res.show());
    if (res.timeout) return c.viol("hang", "no end of the program," + ctx);
    if (!res.exited) return c.viol("crash", "the program crashed," + ctx);
    if (res.code == 99 || res.err.find("Sanitizer") != std::string::npos
        || res.err.find("runtime error") != std::string::npos)
        return c.viol("sanitizer", "sanitizer report," + ctx);
    if (refuse)
    {
        if (res.code == 0)
            return c.viol("not-refused", why + " was not refused," + ctx);
        if (f.exists)
            return c.viol("output-of-refused",
                          "output was created in spite of " + why + "," + ctx);
        c.count("refused");
        c.count("refused-" + why.substr(0, why.find(' ')));
        c.distinct(hash(ctx));
        return;
    }
    if (res.code != 0)
        return c.viol("failed", "the program failed on right arguments," + ctx);
    if (!f.exists) return c.viol("no-output", "no output file," + ctx);
    std::string bad = compare(f.content, in, expected(in));
    if (!bad.empty()) return c.viol("map", bad + "," + ctx);
    c.count("maps-compared");
    if (cl)
    {
        File t = look(stats);
        bool used = t.exists && t.content.find("launches=") == 0
            && t.content.find("launches=0 ") != 0;
        unlink(stats.c_str());
        if (asked && !used)
            return c.viol("device-not-used",
                          "no kernel was launched though asked for," + ctx);
        if (!asked && used)
            return c.viol("device-not-asked-for",
                          "kernels were launched without asking," + ctx);
        c.count(asked ? "device-used" : "device-not-asked-for");
    }
    if (fine) c.count("weights-of-many-digits");
    if (scaled) c.count("weights-of-other-magnitudes");
    if (in.c != in.s) c.count("different-weights");
    std::string w;
    for (auto& x : o)
        if (x.letter == 'c' || x.letter == 's')
            if (x.value.find('.') != std::string::npos) w = "fractional";
    if (!w.empty()) c.count("fractional-weights");
    if (!set.empty()) c.count("omitted: " + set);
    c.distinct(hash(ctx));
    c.sample(join(a));
}
