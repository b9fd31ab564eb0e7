// C06: finding a labeling and choosing the best node.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

static void choose(drv::Ctx& c, drv::Rng& r)
{
    Instance in = r.chance(1, 40) ? gen::deep(r) : gen::mixed(r, r.chance(1, 5));
    if (r.chance(2, 3)) gen::add_phi(r, in, true);
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    ConstraintGraph cg{&g, &lp, 0};
    ref::Avail a = random_avail(r, in);
    if (r.chance(1, 3))
        for (auto& v : a) if (r.chance(3, 4)) v = 0;
    set_avail(in, cg, a);
    std::vector<std::pair<ul, ul>> px;
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
            if (in.W * in.H < 40 || r.chance(40, in.W * in.H))
                px.push_back({x, y});
    for (auto& p : px)
    {
        ul x = p.first, y = p.second;
        long best = -1;
        ul options = 0;
        for (ul d = 0; d < in.nd(x); ++d)
            if (a[ref::at(in, x, y, d)])
            {
                ++options;
                if (best < 0 || in.node_pen(x, y, d) < in.node_pen(x, y, best))
                    best = (long)d;
            }
        ref::Avail want = a;
        for (ul d = 0; d < in.nd(x); ++d)
            want[ref::at(in, x, y, d)] = (long)d == best;
        auto* res = find::choose_best_node(&cg, {x, y});
        a = avail(in, cg);
        std::string ctx = drv::cat(" at pixel (", x, ",", y, ") with ",
                                   options, " available nodes of ", in.str());
        if ((res != nullptr) != (best >= 0) || (res && res != &cg))
            return c.viol("choose-answer",
                          drv::cat("choose_best_node returned ",
                                   res ? "a graph" : "null", ctx));
        if (a != want)
            return c.viol("choose-node", diff(in, a, want) + ctx);
        c.count("chosen-pixels");
        if (options > 1) c.count("chosen-among-several");
        if (best < 0) c.count("pixels-without-nodes");
        if (options > 1)
            c.distinct(drv::hash(drv::cat(in.str(), x, ".", y, options)));
    }
}

static void label(drv::Ctx& c, drv::Rng& r)
{
    bool dead = r.chance(1, 5);
    bool chained = !dead && r.chance(1, 40);
    Instance in = chained ? gen::chain(r, false, 9, 9)
        : dead ? gen::dead_end(r) : gen::mixed(r);
#ifndef __SANITIZE_ADDRESS__
    if (!dead && !chained && r.chance(1, 2000)) in = gen::large_or_tiles(r);
#endif
    bool phi = chained || (!dead && r.chance(1, 6));
    if (phi && !chained) gen::add_phi(r, in, true);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    if (least < 0) return;
    double t = least;
    if (r.chance(1, 3))
        for (int q = 0; q < 3 && t == least; ++q)
            t = std::max(least, threshold(r, m, cand, least));
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    ConstraintGraph cg{&g, &lp, t};
    std::string what = "solved graph";
    // A graph which is not solved, or has less nodes than the threshold lets.
    bool solve_first = r.chance(2, 3);
    ul drop = r.chance(1, 3) ? r.in(1, 5) : 0;
    for (ul j = 0; j < drop; ++j)
    {
        ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
        make_node_unavailable(&cg, node(x, y, r.in(0, in.nd(x) - 1)));
        what = "graph with removed nodes";
    }
    if (r.chance(1, 8))
    {
        // Nodes far above the threshold of nodes are available, too.
        set_avail(in, cg, random_avail(r, in));
        what = "graph with random nodes";
    }
    ref::Avail before = avail(in, cg);
    if (solve_first) solve_csp(&cg);
    else what += ", not solved before";
    ref::Avail want = before;
    ul retries = 0;
    bool possible = ref::greedy(m, t, want, &retries);
    bool consistent = ref::any(ref::closure(m, t, before));
    if (!phi && consistent && !possible)
    {
        std::fprintf(stderr, "reference finds no labeling of %s t=%g\n",
                     in.str().c_str(), t);
        _exit(78);
    }
    std::string ctx = drv::cat(" (", what, ", threshold ", t, ") of ",
                               in.str());
    auto* res = find::find_labeling(&cg);
    if (!possible)
    {
        if (!phi && res)
            return c.viol("labels-nothing", "found a labeling of an "
                          "inconsistent problem" + ctx);
        c.count("without-labeling");
        return;
    }
    if (res != &cg)
        return c.viol("no-labeling", "find_labeling failed" + ctx);
    ref::Avail now = avail(in, cg);
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
        {
            ul n = 0;
            for (ul d = 0; d < in.nd(x); ++d) n += now[ref::at(in, x, y, d)];
            if (n != 1)
                return c.viol("not-one-label",
                              drv::cat(n, " labels at (", x, ",", y, ")",
                                       ctx));
        }
    for (ul q = 0; q < now.size(); ++q)
        if (now[q] && !before[q])
            return c.viol("new-node", "a node became available" + ctx);
    ref::Labeling k = ref::labeling_of(in, now);
    if (ref::closure(m, t, now) != now)
        return c.viol("not-consistent", "labeling " + show(k)
                      + " exceeds the threshold" + ctx);
    if (now != want)
        return c.viol("not-best-labels",
                      "labeling " + show(k) + " instead of "
                          + show(ref::labeling_of(in, want)) + ctx);
    c.count("labelings");
    c.count("dead-ends-avoided", retries);
    if (retries) c.count("labelings-with-dead-ends");
    c.distinct(drv::hash(drv::cat(in.str(), t, what)));
    c.sample(drv::cat("W=", in.W, " H=", in.H, " D=", in.D, " t=", t, " ",
                      what, ": ", show(k), ", refused choices: ", retries));
}

void drv::run_case(Ctx& c, Rng& r)
{
    if (r.chance(1, 4)) choose(c, r);
    else label(c, r);
}
