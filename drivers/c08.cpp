// C08: penalties of nodes and edges; energy is kept by a reparametrization.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    bool huge = r.chance(1, 8000);
    Instance in = huge ? gen::huge(r) : r.chance(1, 1000) ? gen::large_or_tiles(r) : gen::mixed(r);
    if (huge) c.count("huge-problems");
    if (!huge && r.chance(1, 12))
    {
        // Intensities beyond those of PGM files.
        in.maxv = 1ul << r.in(17, 22);
        for (auto& v : in.L) v = r.in(0, in.maxv);
        for (auto& v : in.R) v = r.in(0, in.maxv);
        in.c = (double)r.in(1, 8) * in.unit;
    }
    Instance plain = in;
    if (!huge && r.chance(5, 6)) gen::add_phi(r, in, true);
    DisparityGraph g = graph(in);
    DisparityGraph g0 = graph(plain);
    std::string ctx = " of " + in.str();
    ul nodes = 0, edges = 0;
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
            for (ul d = 0; d < in.nd(x); ++d)
            {
                double p = node_penalty(&g, node(x, y, d));
                if (p != in.node_pen(x, y, d))
                    return c.viol("node-penalty",
                                  cat("penalty of node (", x, ",", y, ",", d,
                                      ") is ", p, " instead of ",
                                      in.node_pen(x, y, d), ctx));
                ++nodes;
                for (int n = 0; n < 4; ++n)
                {
                    long X = (long)x + ref::DX[n], Y = (long)y + ref::DY[n];
                    for (ul e = 0; e < in.D; ++e)
                    {
                        if (!in.edge(x, y, d, n, e)) continue;
                        double q = edge_penalty(
                            &g, Edge{node(x, y, d), node(X, Y, e)});
                        double b = edge_penalty(
                            &g, Edge{node(X, Y, e), node(x, y, d)});
                        double w = in.edge_pen(x, y, d, n, e);
                        if (q != w || b != w)
                            return c.viol(
                                "edge-penalty",
                                cat("penalty of edge (", x, ",", y, ",", d,
                                    ")-(", X, ",", Y, ",", e, ") is ", q,
                                    ", ", b, " backwards, instead of ", w,
                                    ctx));
                        ++edges;
                    }
                }
            }
    // Energy of labelings, by the library's penalties only.
    ul labelings = in.W * in.H > 200 ? 1 : 3;
    for (ul j = 0; j < labelings; ++j)
    {
        std::vector<ul> k(in.W * in.H);
        for (ul y = 0; y < in.H; ++y)
            for (ul x = in.W; x-- > 0;)
            {
                ul hi = in.nd(x) - 1;
                // Admissible: at most the right neighbour plus one.
                if (x + 1 < in.W)
                    hi = std::min(hi, k[y * in.W + x + 1] + 1);
                k[y * in.W + x] = r.in(0, hi);
            }
        double e = 0, e0 = 0;
        for (ul x = 0; x < in.W; ++x)
            for (ul y = 0; y < in.H; ++y)
            {
                Node a = node(x, y, k[y * in.W + x]);
                e += node_penalty(&g, a);
                e0 += node_penalty(&g0, a);
                for (int n = 0; n < 4; n += 2)
                {
                    ul X = x + ref::DX[n], Y = y + ref::DY[n];
                    if (!in.pixel((long)X, (long)Y)) continue;
                    Node b = node(X, Y, k[Y * in.W + X]);
                    e += edge_penalty(&g, Edge{a, b});
                    e0 += edge_penalty(&g0, Edge{a, b});
                }
            }
        // Sums of big numbers are not exact.
        if (std::fabs(e - e0)
            > (std::fabs(e0) < 1e12 * in.unit ? 0 : 1e-12 * std::fabs(e0)))
            return c.viol("energy", cat("energy ", e, " with and ", e0,
                                        " without reparametrization", ctx));
        c.count("energies");
    }
    c.count("node-penalties", nodes);
    c.count("edge-penalties", edges);
    c.distinct(hash(in.str()));
    c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " cleanness=", in.c,
                 " smoothness=", in.s, in.has_phi() ? " with phi: " : ": ",
                 nodes, " nodes, ", edges, " edges"));
}
