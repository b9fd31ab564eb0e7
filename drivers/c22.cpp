// C22: idempotence and monotonicity of solving; pairs of executions.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    bool chained = r.chance(1, 30);
    Instance in = chained ? gen::chain(r, r.chance(1, 3)) : r.chance(1, 800) ? gen::large_or_tiles(r) : gen::mixed(r);
    if (!chained && r.chance(1, 3)) gen::add_phi(r, in, true);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    if (least < 0) least = cand.back();
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    double t = threshold(r, m, cand, least);
    if (chained) t = in.unit;
    ConstraintGraph a{&g, &lp, t};
    bool random = !chained && r.chance(1, 2);
    if (random)
    {
        ref::Avail v = random_avail(r, in);
        if (r.chance(1, 2))
        {
            // Only a few nodes are missing.
            ref::Avail w = avail(in, a);
            for (ul q = 0; q < v.size(); ++q) v[q] = w[q] && (v[q] || r.chance(9, 10));
        }
        set_avail(in, a, v);
    }
    ref::Avail start = avail(in, a);
    std::string ctx = cat(" threshold=", t, random ? " random nodes" : "",
                          " of ", in.str());
    bool ra = solve_csp(&a);
    ref::Avail sa = avail(in, a);
    // Idempotence.
    ConstraintGraph b = a;
    bool rb = solve_csp(&b);
    if (rb != ra || avail(in, b) != sa)
        return c.viol("not-idempotent", cat("solving twice: ", ra, " then ",
                                            rb, ", ",
                                            diff(in, avail(in, b), sa), ctx));
    c.count("idempotent");
    auto subset = [](const ref::Avail& x, const ref::Avail& y) {
        for (ul q = 0; q < x.size(); ++q)
            if (x[q] && !y[q]) return false;
        return true;
    };
    // A higher threshold with the same nodes.
    for (int q = 0; q < 2; ++q)
    {
        double t2 = q ? t + gen::dyadic(r, 0, 200, 4) * in.unit
                      : std::max(t, cand[r.in(0, cand.size() - 1)]);
        ConstraintGraph h{&g, &lp, t2};
        if (random || q) set_avail(in, h, start);
        bool rh = solve_csp(&h);
        if ((ra && !rh) || !subset(sa, avail(in, h)))
            return c.viol("threshold",
                          cat("threshold ", t2, " instead of ", t,
                              " loses nodes", ctx));
        c.count("thresholds-raised");
        if (t2 > t && rh && !ra) c.count("became-solvable");
    }
    // More nodes.
    {
        ConstraintGraph h{&g, &lp, t};
        ref::Avail v = start, e = random_avail(r, in);
        for (ul q = 0; q < v.size(); ++q) v[q] = v[q] || e[q];
        set_avail(in, h, v);
        bool rh = solve_csp(&h);
        if ((ra && !rh) || !subset(sa, avail(in, h)))
            return c.viol("availability", "more nodes lose nodes" + ctx);
        c.count("nodes-added");
    }
    // Removal before or after the solution.
    {
        ConstraintGraph p{&g, &lp, t}, q = a;
        ref::Avail v = start, w = sa;
        ul n = r.in(1, 3);
        std::string rem;
        for (ul j = 0; j < n; ++j)
        {
            ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
            ul d = r.in(0, in.nd(x) - 1);
            // Prefer nodes that survived.
            for (ul z = 0; z < 6 && !sa[ref::at(in, x, y, d)]; ++z)
            {
                x = r.in(0, in.W - 1);
                y = r.in(0, in.H - 1);
                d = r.in(0, in.nd(x) - 1);
            }
            v[ref::at(in, x, y, d)] = 0;
            make_node_unavailable(&q, node(x, y, d));
            rem += cat("(", x, ",", y, ",", d, ")");
        }
        set_avail(in, p, v);
        bool rp = solve_csp(&p), rq = solve_csp(&q);
        if (rp != rq || avail(in, p) != avail(in, q))
            return c.viol("order",
                          cat("removal of ", rem, " before: ", rp,
                              ", after: ", rq, ", ",
                              diff(in, avail(in, p), avail(in, q)), ctx));
        c.count("removals-before-and-after");
        if (rp && avail(in, p) != sa) c.count("removals-with-effect");
    }
    if (sa != start)
    {
        c.distinct(hash(cat(in.str(), t, random)));
        c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " t=", t,
                     ": nodes ", size_of(start), " -> ", size_of(sa)));
    }
}
