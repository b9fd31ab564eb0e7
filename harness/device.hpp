// Labelings of a device against the ones of the CPU and of the reference.
#ifndef VERIF_DEVICE_HPP
#define VERIF_DEVICE_HPP

#include "pipe.hpp"

namespace device
{

using namespace pipe_;
using drv::Ctx;
using drv::Rng;
using drv::cat;

// Penalties that fit into single precision exactly.
inline void shrink(Rng& r, Instance& in)
{
    if (in.unit > 0x1p31 || in.unit < 0x1p-31)
    {
        in.c /= in.unit;
        in.s /= in.unit;
        in.unit = 1;
    }
    if (in.maxv > 255 && r.chance(1, 3))
    {
        // A few distant intensities, up to the greatest one; squares of their
        // differences are exact.
        in.maxv = r.chance(2, 3) ? 65536 : r.in(5, 16) * 4096;
        ul q = r.chance(1, 2) ? 4096 : in.maxv;
        for (auto* p : {&in.L, &in.R})
            for (auto& v : *p)
                v = r.chance(1, 2) ? v % 2 * in.maxv
                                   : std::min(in.maxv, v % 17 * q);
    }
    if (in.maxv > 255 && in.maxv % 4096)
    {
        in.maxv = 255;
        for (auto& v : in.L) v %= 256;
        for (auto& v : in.R) v %= 256;
    }
    auto fix = [&](double& w) {
        if (w > 16 * in.unit) w = (double)r.in(1, 16) * in.unit;
    };
    fix(in.c);
    fix(in.s);
    if (in.c == 0 && in.s == 0) in.s = in.unit;
}

// name: of the technology; f: finds a labeling with it.
inline void compare(Ctx& c, Rng& r, const std::string& name,
                    void (*reseed)(unsigned long),
                    ConstraintGraph* (*f)(ConstraintGraph*),
                    bool tall = false)
{
    bool dead = r.chance(1, 12);
    Instance in;
    bool chained = r.chance(1, 12);
    if (chained) in = gen::chain(r, false, 7, 7), dead = false;
    else if (dead) in = gen::dead_end(r);
    else
    {
        gen::Limits l;
        ul k = r.in(0, 9);
        if (k < 5) l.maxW = 5, l.maxH = 4, l.maxD = 5;
        else if (k < 9) l.maxW = 8, l.maxH = 6, l.maxD = 6;
        else l.maxW = 14, l.maxH = 9, l.maxD = 8, l.cells = 350;
        in = gen::instance(r, l);
    }
    if (tall)
    {
        // More rows than threads of a block.
        dead = chained = false;
        in = Instance();
        in.W = in.D = 2;
        in.H = r.in(1025, 1040);
        in.maxv = 3;
        in.L.resize(in.W * in.H);
        in.R.resize(in.W * in.H);
        for (auto* p : {&in.L, &in.R})
            for (auto& v : *p) v = r.in(0, 3);
    }
    if (!chained) shrink(r, in);
    bool phi = !dead && !chained && in.maxv <= 255 && !tall && r.chance(1, 3);
    if (phi) gen::add_phi(r, in);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    bool never = least < 0;
    if (never) least = cand.back();
    double t = r.chance(2, 3) ? least
                              : std::max(least, threshold(r, m, cand, least));
    if (chained) t = in.unit;
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    ConstraintGraph cpu{&g, &lp, t};
    std::string what = cat(" threshold=", t);
    if (r.chance(1, 6))
    {
        ul n = r.in(1, 5);
        for (ul j = 0; j < n; ++j)
        {
            ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
            make_node_unavailable(&cpu, node(x, y, r.in(0, in.nd(x) - 1)));
        }
        what += " some nodes removed";
    }
    if (r.chance(1, 8))
    {
        set_avail(in, cpu, random_avail(r, in));
        what += " random nodes";
    }
    bool solve = r.chance(3, 4);
    if (solve) solve_csp(&cpu);
    else what += " not solved before";
    ref::Avail before = avail(in, cpu);
    ConstraintGraph cl = cpu;
    unsigned long seed = r.in(0, 1000000000);
    reseed(seed);
    what += cat(" schedule=", seed, " of ", in.str());
    ref::Avail want = before;
    ul retries = 0;
    bool possible = ref::greedy(m, t, want, &retries);
    auto* rc = find::find_labeling(&cpu);
    auto* rg = f(&cl);
    if ((rc != nullptr) != (rg != nullptr))
        return c.viol("answer", cat(name, " ", rg ? "finds" : "does not find",
                                    " a labeling, CPU ", rc ? "does" : "does not",
                                    what));
    if (rg && rg != &cl)
        return c.viol("answer", name + " returns another graph" + what);
    if (!rc)
    {
        if (possible)
            return c.viol("no-labeling", "no labeling is found" + what);
        c.count("without-labeling");
        return;
    }
    ref::Avail ac = avail(in, cpu), ag = avail(in, cl);
    if (ac != ag)
        return c.viol("nodes", diff(in, ag, ac) + " after " + name + ", unlike CPU,"
                                   + what);
    if (possible && ag != want)
        return c.viol("reference", diff(in, ag, want)
                                       + " after both, unlike the reference,"
                                       + what);
    c.count("labelings-compared");
    if (retries) c.count("labelings-with-dead-ends");
    if (tall) c.count("labelings-of-tall-images");
    if (in.maxv > 255) c.count("labelings-of-great-intensities");
    if (phi) c.count("labelings-with-reparametrization");
    // Nontrivial: something was chosen.
    if (before != ag)
    {
        c.distinct(drv::hash(what));
        c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " t=", t,
                     " schedule=", seed));
    }
}

}

#endif
