// C23: availability of nodes and edges by the threshold; removal predicate.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    bool huge = r.chance(1, 5000);
    Instance in = huge ? gen::huge(r) : r.chance(1, 1000) ? gen::large_or_tiles(r) : gen::mixed(r);
    if (huge) c.count("huge-problems");
    if (!huge && r.chance(1, 2)) gen::add_phi(r, in, true);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    if (least < 0) least = cand.back();
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    // The lowest penalties given count, whatever the current ones are.
    if (!huge && r.chance(1, 8))
    {
        gen::add_phi(r, in, true);
        g = graph(in);
        c.count("lowest-penalties-of-earlier-reparametrizations");
    }
    double t = r.chance(1, 2) ? cand[r.in(0, cand.size() - 1)]
                              : threshold(r, m, cand, least);
    bool close = r.chance(1, 4);
    if (close) t = near(r, in, t), c.count("thresholds-next-to-a-penalty");
    ConstraintGraph cg{&g, &lp, t};
    std::string ctx = cat(" threshold=", t, " of ", in.str());
    ref::Avail a = avail(in, cg), want = ref::initial(m, t);
    if (a != want)
        return c.viol("initial", diff(in, a, want) + " initially" + ctx);
    ul on_bound = 0;
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
            for (ul d = 0; d < in.nd(x); ++d)
                on_bound += m.node_dev(x, y, d) == t;
    c.count("nodes-exactly-at-the-threshold", on_bound);
    c.count("initial-nodes", size_of(a));
    // Solutions of huge problems can take long.
    ul kind = r.in(0, huge ? 1 : 2);
    if (kind == 1)
    {
        a = random_avail(r, in);
        set_avail(in, cg, a);
    }
    else if (kind == 2)
    {
        solve_csp(&cg);
        a = avail(in, cg);
        ul n = r.in(0, 4);
        for (ul j = 0; j < n; ++j)
        {
            ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
            ul d = r.in(0, in.nd(x) - 1);
            make_node_unavailable(&cg, node(x, y, d));
            a[ref::at(in, x, y, d)] = 0;
        }
    }
    if (r.chance(1, 3))
    {
        t = cand[r.in(0, cand.size() - 1)];
        if (close) t = near(r, in, t);
        cg.threshold = t;
        ctx = cat(" threshold changed to ", t, " of ", in.str());
    }
    // Whatever is asked, nothing changes.
    const ConstraintGraph& k = cg;
    ul edges = 0, absent = 0, removable = 0, bound = 0;
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
        {
            if (in.W * in.H > 80 && !r.chance(80, in.W * in.H)) continue;
            for (ul d = 0; d < in.D; ++d)
            {
                bool exists = in.node(x, y, d);
                bool here = exists && a[ref::at(in, x, y, d)];
                bool rem = false;
                for (int n = 0; n < 4; ++n)
                {
                    long X = (long)x + ref::DX[n], Y = (long)y + ref::DY[n];
                    bool pixel = in.pixel(X, Y);
                    bool some = false;
                    for (ul e = 0; e < in.D; ++e)
                    {
                        bool edge = in.edge(x, y, d, n, e);
                        bool w = edge && here && a[ref::at(in, X, Y, e)]
                            && m.edge_dev(x, y, d, n, e) <= t;
                        if (edge && m.edge_dev(x, y, d, n, e) == t) ++bound;
                        some = some || w;
                        Edge q{node(x, y, d), node((ul)X, (ul)Y, e)};
                        bool got = is_edge_available(&k, q);
                        ++(edge ? edges : absent);
                        if (got != w)
                            return c.viol(
                                "edge",
                                cat("edge (", x, ",", y, ",", d, ")-(", X,
                                    ",", Y, ",", e, ") is ",
                                    got ? "" : "not ", "available", ctx));
                    }
                    if (pixel && !some) rem = true;
                }
                if (!exists) continue;
                if (is_node_available(&k, node(x, y, d)) != here)
                    return c.viol("node", cat("availability of (", x, ",", y,
                                              ",", d, ")", ctx));
                bool got = should_remove_node(&k, node(x, y, d));
                if (got != (here && rem))
                    return c.viol("should-remove",
                                  cat("node (", x, ",", y, ",", d,
                                      ") should ", got ? "" : "not ",
                                      "be removed", ctx));
                removable += got;
            }
        }
    // Edges between pixels which are not neighbours.
    for (int j = 0; j < 60; ++j)
    {
        Edge q{node(r.in(0, in.W), r.in(0, in.H), r.in(0, in.D)),
               node(r.in(0, in.W), r.in(0, in.H), r.in(0, in.D))};
        if (r.chance(1, 8)) q.neighbor.pixel.x = ~0ul;
        if (r.chance(1, 8)) q.node.pixel.y = ~0ul;
        if (r.chance(1, 8)) q.node.disparity = ~0ul - r.in(0, 1);
        if (r.chance(1, 8)) q.neighbor = q.node;
        long x = (long)q.node.pixel.x, y = (long)q.node.pixel.y;
        bool w = false;
        for (int n = 0; n < 4; ++n)
            if ((ul)(x + ref::DX[n]) == q.neighbor.pixel.x
                && (ul)(y + ref::DY[n]) == q.neighbor.pixel.y
                && in.edge(x, y, q.node.disparity, n, q.neighbor.disparity))
                w = a[ref::at(in, x, y, q.node.disparity)]
                    && a[ref::at(in, q.neighbor.pixel.x, q.neighbor.pixel.y,
                                 q.neighbor.disparity)]
                    && m.edge_dev(x, y, q.node.disparity, n,
                                  q.neighbor.disparity) <= t;
        if (is_edge_available(&k, q) != w)
            return c.viol("edge", cat("edge (", x, ",", y, ",",
                                      q.node.disparity, ")-(",
                                      q.neighbor.pixel.x, ",",
                                      q.neighbor.pixel.y, ",",
                                      q.neighbor.disparity, ")", ctx));
        ++absent;
    }
    if (avail(in, cg) != a)
        return c.viol("query-changes", "asking changed nodes" + ctx);
    c.count("edges", edges);
    c.count("absent-edges", absent);
    c.count("edges-exactly-at-the-threshold", bound);
    c.count("removable-nodes", removable);
    c.distinct(hash(cat(in.str(), t, kind)));
    c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " t=", t, ": ", edges,
                 " edges, ", removable, " removable nodes"));
}
