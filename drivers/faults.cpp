// C20, C25: calls of OpenCL or CUDA fail one by one; the program never reports
// success without the right map.
#include "cli.hpp"
void drv::setup(drv::Ctx&) {}
void drv::teardown(drv::Ctx&) {}
using namespace cli;
using gen::Rng;

void drv::run_case(Ctx& c, Rng& r)
{
    std::string exe = aux(c, "cli"), dir = fresh(c);
    gen::Limits l;
    l.maxW = 5, l.maxH = 3, l.maxD = 3;
    Instance in = gen::instance(r, l);
    in.maxv = std::min<ul>(in.maxv, 255);
    for (auto* p : {&in.L, &in.R})
        for (auto& v : *p) v %= in.maxv + 1;
    in.c = in.s = 1;
    put(dir + "/l", cli::text(r, in.W, in.H, in.maxv, in.L));
    put(dir + "/r", cli::text(r, in.W, in.H, in.maxv, in.R));
    // Half of them while the problem is prepared.
    ul k = r.chance(1, 2) ? r.in(1, 25) : r.in(1, 120);
    Options opt;
    std::string tech = aux(c, "tech"), mock = tech == "cl" ? "CL" : "CUDA";
    opt.env.push_back(cat("MOCK", mock, "_SEED=", r.in(0, 1000000)));
    opt.env.push_back(cat("MOCK", mock, "_FAIL=", k));
    // Kernels are looked for in the current directory.
    if (tech == "cl")
        for (const char* n : {"lib", "include"})
            if (symlink((aux(c, "root") + "/" + n).c_str(),
                        (dir + "/" + n).c_str()))
                _exit(78);
    Outcome res = run(exe, {"-l", "l", "-r", "r", "-o", "o", "-p", tech, "-d",
                            std::to_string(in.D)}, dir, opt);
    bool reached = res.err.find("MOCK" + mock + "-FAULT") != std::string::npos;
    std::string ctx = cat(" when call ", k, " of ", mock, " fails, of ", in.str(),
                          "; ", res.show());
    if (res.exited && res.code == 78)
    {
        std::fprintf(stderr, "%s\n", res.err.c_str());
        _exit(78);
    }
    if (res.timeout) return c.viol("hang", "no end of the program" + ctx);
    if (res.exited && res.code == 77)
        return c.viol("misuse-of-device", "wrong access" + ctx);
    if (res.exited && res.code == 0)
    {
        File f = look(dir + "/o");
        if (!f.exists)
            return c.viol("success-without-map",
                          "success without the output" + ctx);
        std::string bad = compare(f.content, in, expected(in));
        if (!bad.empty())
            return c.viol("success-with-wrong-map",
                          "success with a wrong map: " + bad + ctx);
        c.count(reached ? "failures-survived" : "failures-not-reached");
    }
    else
    {
        if (!reached)
            return c.viol("failed", "failure of the program without a failure "
                                    "of the device" + ctx);
        c.count("failures-reported");
    }
    if (reached) c.distinct(hash(ctx));
    c.sample(ctx.substr(0, 200));
}
