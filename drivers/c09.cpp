// C09: lowest penalties.
#include "pipe.hpp"
using namespace pipe_;
using namespace sp::graph::lowest_penalties;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    bool huge = r.chance(1, 8000);
    Instance in = huge ? gen::huge(r) : r.chance(1, 1000) ? gen::large_or_tiles(r) : gen::mixed(r);
    if (huge) c.count("huge-problems");
    if (!huge && r.chance(1, 12))
    {
        // Squares up to 2^44: small weights and quarters stay exact.
        in.maxv = 1ul << r.in(17, 22);
        in.c = in.unit;
        in.s = (double)r.in(1, 4) * in.unit;
        for (auto& v : in.L) v = r.in(in.maxv / 2, in.maxv);
        for (auto& v : in.R) v = r.in(0, in.maxv / 2);
    }
    if (!huge && r.chance(2, 3)) gen::add_phi(r, in, true);
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    ref::Model m(in);
    std::string ctx = " of " + in.str();
    double sum = 0;
    ul pixels = 0, pairs = 0;
    for (int round = 0; round < 2; ++round)
    {
        for (ul x = 0; x < in.W; ++x)
            for (ul y = 0; y < in.H; ++y)
            {
                double want = m.mn[x * in.H + y];
                double got = lowest_pixel_penalty(&lp, {x, y});
                double calc = round ? want
                                    : calculate_lowest_pixel_penalty(&g, {x, y});
                if (got != want || calc != want)
                    return c.viol(round ? "not-as-constructed" : "pixel",
                                  cat("lowest penalty of pixel (", x, ",", y,
                                      ") is ", got, " (calculated ", calc,
                                      ") instead of ", want, ctx));
                if (!round) sum += got, ++pixels;
                for (int n = 0; n < 4; ++n)
                {
                    ul X = x + ref::DX[n], Y = y + ref::DY[n];
                    if (!in.pixel((long)X, (long)Y)) continue;
                    double w = m.me[(x * in.H + y) * 4 + n];
                    // Any existing edge names the pair.
                    ul d = r.in(0, in.nd(x) - 1), e = r.in(0, in.nd(X) - 1);
                    if (!in.edge(x, y, d, n, e)) d = e = 0;
                    double v[6] = {
                        lowest_neighborhood_penalty_fast(&lp, {x, y}, {X, Y}),
                        lowest_neighborhood_penalty_fast(&lp, {X, Y}, {x, y}),
                        lowest_neighborhood_penalty(
                            &lp, Edge{node(x, y, d), node(X, Y, e)}),
                        w, w, w};
                    if (!round)
                    {
                        v[3] = calculate_lowest_neighborhood_penalty(
                            &g, {x, y}, {X, Y});
                        v[4] = calculate_lowest_neighborhood_penalty_slow(
                            &g, {x, y}, (ul)n);
                        v[5] = calculate_lowest_neighborhood_penalty_fast(
                            &g, Edge{node(x, y, 0), node(X, Y, 0)});
                        if (n % 2 == 0) sum += v[0], ++pairs;
                    }
                    for (int q = 0; q < 6; ++q)
                        if (v[q] != w)
                            return c.viol(
                                round ? "not-as-constructed" : "pair",
                                cat("lowest penalty of pixels (", x, ",", y,
                                    ")-(", X, ",", Y, ") by way ", q, " is ",
                                    v[q], " instead of ", w, ctx));
                    c.count("pair-lookups");
                }
            }
        if (round == 0)
        {
            for (int j = 0; j < 3; ++j)
            {
                ref::Labeling k(in.W * in.H);
                for (ul y = 0; y < in.H; ++y)
                    for (ul x = in.W; x-- > 0;)
                    {
                        ul hi = in.nd(x) - 1;
                        if (x + 1 < in.W)
                            hi = std::min(hi, k[y * in.W + x + 1] + 1);
                        k[y * in.W + x] = r.in(0, hi);
                    }
                double e = 0;
                for (ul x = 0; x < in.W; ++x)
                    for (ul y = 0; y < in.H; ++y)
                    {
                        Node a = node(x, y, k[y * in.W + x]);
                        e += node_penalty(&g, a);
                        for (int n = 0; n < 4; n += 2)
                        {
                            ul X = x + ref::DX[n], Y = y + ref::DY[n];
                            if (!in.pixel((long)X, (long)Y)) continue;
                            e += edge_penalty(
                                &g, Edge{a, node(X, Y, k[Y * in.W + X])});
                        }
                    }
                if (sum > e + (std::fabs(e) < 1e12 * in.unit ? 0 : 1e-12 * std::fabs(e)))
                    return c.viol("bound",
                                  cat("sum of lowest penalties ", sum,
                                      " exceeds energy ", e, " of ", show(k),
                                      ctx));
                c.count("energies-bounded");
            }
            // Change the problem: what is stored must stay.
            Instance other = in;
            gen::add_phi(r, other, true);
            DisparityGraph changed = graph(other);
            g.reparametrization = changed.reparametrization;
            g.cleanness *= 2;
            g.smoothness += 1;
        }
    }
    c.count("pixels", pixels);
    c.count("pairs", pairs);
    c.distinct(hash(in.str()));
    c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D,
                 in.has_phi() ? " with" : " without", " phi, bound ", sum));
}
