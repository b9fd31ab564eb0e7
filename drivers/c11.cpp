// C11: existence of nodes, neighbourhoods and edges.
#include "pipe.hpp"
using namespace pipe_;
namespace ch = sp::indexing::checks;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    gen::Limits l;
    ul kind = r.in(0, 9);
    if (kind < 6) l.maxW = 6, l.maxH = 4, l.maxD = 6;
    else l.maxW = 30, l.maxH = 20, l.maxD = 20, l.cells = 3000;
    Instance in = gen::instance(r, l);
    DisparityGraph g = graph(in);
    if (kind > 7)
    {
        // Sizes of images nobody could store.
        in.W = r.in(2, 2ul << r.in(1, 45));
        in.H = r.in(1, 2ul << r.in(1, 45));
        in.D = r.in(2, r.chance(1, 2) ? in.W : std::min<ul>(in.W, 99));
        g.left.width = g.right.width = in.W;
        g.left.height = g.right.height = in.H;
        g.disparity_levels = in.D;
        c.count("huge-sizes");
    }
    std::string ctx = cat(" with W=", in.W, " H=", in.H, " D=", in.D);
    const ul M = ~0ul;
    auto coord = [&](ul n) -> ul {
        switch (r.in(0, 11))
        {
            case 0: return n;
            case 1: return n + 1;
            case 2: return M;
            case 3: return M - r.in(0, 3);
            case 4: return n - 1;
            case 5: return 0;
            case 6: return r.next();
            case 7: return M / 2 + r.in(0, 2);
            default: return r.in(0, n - 1);
        }
    };
    auto in_pixel = [&](ul x, ul y) { return x < in.W && y < in.H; };
    auto is_node = [&](ul x, ul y, ul d) {
        return in_pixel(x, y) && d < in.D && d < in.W - x;
    };
    auto dist1 = [&](ul x, ul y, ul X, ul Y) {
        ul dx = X > x ? X - x : x - X, dy = Y > y ? Y - y : y - Y;
        return in_pixel(x, y) && in_pixel(X, Y)
            && ((dx == 1 && dy == 0) || (dx == 0 && dy == 1));
    };
    auto is_edge = [&](ul x, ul y, ul d, ul X, ul Y, ul e) {
        if (!is_node(x, y, d) || !is_node(X, Y, e) || !dist1(x, y, X, Y))
            return false;
        if (y == Y)
        {
            if (x < X) return d <= e + 1;
            return e <= d + 1;
        }
        return true;
    };
    auto one_node = [&](ul x, ul y, ul d) {
        bool got = ch::node_exists(&g, node(x, y, d));
        bool want = is_node(x, y, d);
        c.count(want ? "nodes-existing" : "nodes-absent");
        if (got != want)
            c.viol("node", cat("node (", x, ",", y, ",", d, ") ",
                               got ? "exists" : "does not exist", ctx));
        return got == want;
    };
    auto one_pair = [&](ul x, ul y, ul X, ul Y) {
        bool want = dist1(x, y, X, Y);
        bool a = ch::neighborhood_exists(&g, {x, y}, {X, Y});
        bool b = ch::neighborhood_exists(&g, {X, Y}, {x, y});
        c.count(want ? "neighbours" : "not-neighbours");
        if (a != want || b != want)
            c.viol("neighborhood",
                   cat("pixels (", x, ",", y, ")-(", X, ",", Y, ") are ",
                       a ? "" : "not ", "neighbours, ", b ? "" : "not ",
                       "backwards", ctx));
        return a == want && b == want;
    };
    auto one_edge = [&](ul x, ul y, ul d, ul X, ul Y, ul e) {
        bool want = is_edge(x, y, d, X, Y, e);
        bool a = ch::edge_exists(&g, Edge{node(x, y, d), node(X, Y, e)});
        bool b = ch::edge_exists(&g, Edge{node(X, Y, e), node(x, y, d)});
        c.count(want ? "edges-existing" : "edges-absent");
        if (a != want || b != want)
            c.viol("edge", cat("edge (", x, ",", y, ",", d, ")-(", X, ",", Y,
                               ",", e, ") ", a ? "exists" : "does not exist",
                               ", backwards ",
                               b ? "exists" : "does not exist", ctx));
        return a == want && b == want;
    };
    auto by_index = [&](ul x, ul y, ul n) {
        bool want = in_pixel(x, y) && n < 4
            && in.pixel((long)x + ref::DX[n], (long)y + ref::DY[n]);
        bool got = ch::neighborhood_exists_fast(&g, {x, y}, n);
        c.count("neighbours-by-index");
        if (want != got)
            c.viol("neighborhood-index",
                   cat("neighbour ", n, " of pixel (", x, ",", y, ") ",
                       got ? "exists" : "does not exist", ctx));
        return want == got;
    };
    if (kind < 6)
    {
        // Everything around the image, one step beyond its borders.
        for (ul x = 0; x <= in.W; ++x)
            for (ul y = 0; y <= in.H; ++y)
            {
                for (ul n = 0; n < 6; ++n)
                    if (!by_index(x, y, n)) return;
                for (ul d = 0; d <= in.D + 1; ++d)
                {
                    if (!one_node(x, y, d)) return;
                    for (ul e = 0; e <= in.D; ++e)
                    {
                        if (!one_edge(x, y, d, x + 1, y, e)) return;
                        if (!one_edge(x, y, d, x, y + 1, e)) return;
                        if (!one_edge(x, y, d, x + 1, y + 1, e)) return;
                        if (!one_edge(x, y, d, x, y, e)) return;
                        if (!one_edge(x, y, d, x + 2, y, e)) return;
                        if (!one_edge(x, y, d, x - 1, y, e)) return;
                        if (!one_edge(x, y, d, x, y - 1, e)) return;
                    }
                }
                for (ul X = 0; X <= in.W; ++X)
                    for (ul Y = 0; Y <= in.H; ++Y)
                        if (!one_pair(x, y, X, Y)) return;
            }
    }
    for (int j = 0; j < 1500; ++j)
    {
        ul x = coord(in.W), y = coord(in.H), d = coord(in.D);
        if (!one_node(x, y, d)) return;
        ul n = r.chance(1, 3) ? r.next() : r.in(0, 5);
        if (!by_index(x, y, n)) return;
        ul X = x, Y = y;
        switch (r.in(0, kind > 7 ? 9 : 6))
        {
            case 0: ++X; break;
            case 1: --X; break;
            case 2: ++Y; break;
            case 3: --Y; break;
            case 4: X = coord(in.W); break;
            case 5: (r.chance(1, 2) ? X : Y) += r.in(0, 6) - 3; break;
            case 6: case 7:
            {
                // Far away by a power of two (a sum, product or square may
                // vanish), and a step aside.
                bool col = r.chance(1, 2);
                ul step = 1ul << (r.chance(1, 3) ? 32 : r.in(2, 48));
                ul n = col ? in.W : in.H;
                ul& a = col ? x : y;
                ul& A = col ? X : Y;
                if (step < n) a = r.in(0, n - step - 1);
                A = a + step;
                (col ? Y : X) += r.in(0, 2) - 1;
                if (r.chance(1, 2)) std::swap(x, X), std::swap(y, Y);
                if (dist1(x, y, X, Y)) break;
                c.count("pixels-far-from-each-other");
                break;
            }
            default: X = coord(in.W); Y = coord(in.H);
        }
        if (!one_pair(x, y, X, Y)) return;
        ul e = r.chance(1, 2) ? d + r.in(0, 4) - 2 : coord(in.D);
        if (!one_edge(x, y, d, X, Y, e)) return;
    }
    c.distinct(hash(cat(in.W, "x", in.H, "x", in.D)));
    c.sample("all checks" + ctx);
}
