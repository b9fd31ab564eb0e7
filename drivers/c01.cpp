// C01: the map is admissible and its worst deviation is the least possible.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    Instance in;
    bool exact = true;
    ul kind = r.in(0, 19);
    bool big = r.chance(1, 2000);
#ifdef __SANITIZE_ADDRESS__
    big = false;  // would take too long
#endif
    if (big) in = gen::large_or_tiles(r), c.count("maps-of-more-than-1000-nodes");
    else if (kind == 0) in = gen::dead_end(r);
    else if (kind < 9)
    {
        gen::Limits l;
        l.maxW = 5; l.maxH = 3; l.maxD = 5; l.cells = 40;
        in = gen::instance(r, l);
    }
    else in = gen::mixed(r);
    if (r.chance(1, 6))
    {
        gen::add_random_weights(r, in);
        exact = false;
    }
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double best = ref::min_threshold(m, cand);
    if (in.W * in.H <= 15 && in.W * in.H * in.D <= 48)
    {
        ul visited = 0;
        double brute = ref::brute_minimax(m, &visited);
        c.count("optima-by-exhaustive-search");
        c.count("labelings-compared", visited);
        if (exact ? brute != best
                  : std::fabs(brute - best) > 1e-7 * (1 + brute))
        {
            std::fprintf(stderr, "oracles disagree: %s brute=%g best=%g\n",
                         in.str().c_str(), brute, best);
            _exit(78);
        }
    }
    Result res = run(in);
    double tol = exact ? 0 : 1e-9 * std::fabs(best)
        + 1e-14 * (in.c * (double)in.maxv * (double)in.maxv
                   + in.s * (double)in.D * (double)in.D);
    std::string ctx = in.str() + " result: " + show(res);
    if (!res.solved || !res.labeled)
        return c.viol("no-map", "no map for a valid problem: " + ctx);
    if (res.width != in.W || res.height != in.H
        || res.map.size() != in.W * in.H)
        return c.viol("map-size", "wrong size of the map: " + ctx);
    double w = ref::worst(m, res.map);
    if (!(w < std::numeric_limits<double>::infinity()))
        return c.viol("not-admissible", "labeling breaks existence: " + ctx);
    if (w > best + tol)
        return c.viol("not-optimal",
                      cat("worst deviation ", w, ", but ", best,
                          " is reachable: ", ctx));
    if (w < best - tol)
    {
        std::fprintf(stderr, "reference is not optimal: %s\n", ctx.c_str());
        _exit(78);
    }
    c.count("maps-checked");
    if (!exact) c.count("weights-not-exact");
    if (best > 0 && in.H > 1)
    {
        c.distinct(hash(in.str()));
        c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " optimum=", best,
                     " map=", show(res.map)));
    }
    c.maximum("nodes", in.W * in.H * in.D);
}
