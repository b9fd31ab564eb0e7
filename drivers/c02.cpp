// C02: solve_csp leaves the greatest arc-consistent subset, along histories of
// solutions, removals, additions and changes of the threshold.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

// Problems of more than 65536 pixels.
static void huge(drv::Ctx& c, drv::Rng& r)
{
    Instance in = gen::huge(r);
    ref::Model m(in);
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    // Nodes are removed for order only: paths along which they are removed
    // one after another stay short.
    double t = 1e9;
    ConstraintGraph cg{&g, &lp, t};
    ref::Avail cur = avail(in, cg);
    if (cur != ref::initial(m, t))
        return c.viol("nodes", "not all nodes are available at first of "
                      + in.str());
    for (int s = 0; s < 2; ++s)
    {
        cur = huge_avail(r, in);
        set_avail(in, cg, cur);
        ref::Avail want = ref::closure(m, t, cur);
        bool any = ref::any(want), got = solve_csp(&cg);
        ref::Avail now = avail(in, cg);
        std::string ctx = drv::cat(" with ", size_of(cur), " nodes of ", in.str());
        if (got != any)
            return c.viol("answer", drv::cat("solve_csp answered ", got,
                                             " instead of ", any, ctx));
        if (now != want)
            return c.viol("nodes", diff(in, now, want)
                                       + " from the greatest consistent set"
                                       + ctx);
        if (got != check_nodes_left(&cg))
            return c.viol("answer", "check_nodes_left disagrees" + ctx);
        c.count("solutions-of-huge-problems");
        if (any) c.count("huge-problems-solvable");
        c.maximum("pixels", in.W * in.H);
    }
}

void drv::run_case(Ctx& c, Rng& r)
{
    if (r.chance(1, 5000)) return huge(c, r);
    bool chained = r.chance(1, 30);
    Instance in = chained ? gen::chain(r, r.chance(1, 3)) : r.chance(1, 25) ? gen::dead_end(r) : r.chance(1, 300) ? gen::large_or_tiles(r) : gen::mixed(r);
    if (!chained && r.chance(1, 2)) gen::add_phi(r, in, true);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    if (least < 0) least = cand.back();
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    double t = threshold(r, m, cand, least);
    if (chained && r.chance(4, 5)) t = in.unit;
    ConstraintGraph cg{&g, &lp, t};
    std::string hist = cat(" threshold=", t);
    ref::Avail cur = avail(in, cg);
    ul start = r.in(chained ? 2 : 0, 3);
    if (start == 0)
    {
        cur = random_avail(r, in);
        hist += cat(" random availability of ", size_of(cur), " nodes");
        set_avail(in, cg, cur);
    }
    else if (start == 1)
    {
        cur = random_avail(r, in);
        for (ul q = 0; q < cur.size(); ++q)
            if (r.chance(19, 20)) cur[q] = 1;
        for (ul x = 0; x < in.W; ++x)
            for (ul y = 0; y < in.H; ++y)
                for (ul d = in.nd(x); d < in.D; ++d)
                    cur[ref::at(in, x, y, d)] = 0;
        hist += " most nodes available";
        set_avail(in, cg, cur);
    }
    ul steps = r.in(1, 4);
    for (ul s = 0; s < steps; ++s)
    {
        cur = avail(in, cg);
        ul removed = 0;
        ref::Avail want = ref::closure(m, t, cur, &removed);
        bool any = ref::any(want);
        bool got = solve_csp(&cg);
        ref::Avail now = avail(in, cg);
        std::string ctx = cat(" step ", s, hist, " of ", in.str());
        if (got != any)
            return c.viol("answer", cat("solve_csp answered ", got,
                                        " instead of ", any, ctx));
        if (now != want)
            return c.viol("nodes", diff(in, now, want)
                                       + " from the greatest consistent set"
                                       + ctx);
        if (got != check_nodes_left(&cg))
            return c.viol("answer", "check_nodes_left disagrees" + ctx);
        c.count("solutions");
        if (chained) c.maximum("removals-along-a-path", removed);
        c.count("removals", removed);
        c.maximum("removals-of-a-solution", removed);
        if (any) c.count("solvable");
        if (any && removed)
        {
            c.count("partially-pruned");
            c.distinct(hash(cat(in.str(), hist, s)));
            c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, hist, ": ",
                         size_of(cur), " nodes, ", removed, " removed"));
        }
        // Next state of the history.
        switch (r.in(0, 3))
        {
            case 0:
            {
                ul n = r.in(1, 4);
                for (ul j = 0; j < n; ++j)
                {
                    ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
                    ul d = r.in(0, in.nd(x) - 1);
                    make_node_unavailable(&cg, node(x, y, d));
                    hist += cat(" remove(", x, ",", y, ",", d, ")");
                }
                break;
            }
            case 1:
            {
                t = threshold(r, m, cand, least);
                cg.threshold = t;
                hist += cat(" threshold=", t);
                break;
            }
            case 2:
            {
                ref::Avail a = random_avail(r, in);
                for (ul x = 0; x < in.W; ++x)
                    for (ul y = 0; y < in.H; ++y)
                        for (ul d = 0; d < in.nd(x); ++d)
                            if (a[ref::at(in, x, y, d)])
                                make_node_available(&cg, node(x, y, d));
                hist += " add-random";
                break;
            }
            default:
                hist += " solve-again";
        }
    }
}
