// C10: indexing. Says nothing about the layout, only that it is injective, in
// bounds, that variants agree, and that writes do not leak to other items.
#include "pipe.hpp"
#include <array>
using namespace pipe_;
namespace ix = sp::indexing;
NO_SETUP
using drv::cat;
using drv::hash;
using gen::Rng;

namespace
{

void resize(DisparityGraph& g, ul W, ul H, ul D)
{
    g.left.width = g.right.width = W;
    g.left.height = g.right.height = H;
    g.disparity_levels = D;
}

// All indices of a problem, one kind after another.
std::vector<ul> all(const DisparityGraph& g, ul W, ul H, ul D)
{
    std::vector<ul> v;
    for (ul x = 0; x < W; ++x)
        for (ul y = 0; y < H; ++y)
        {
            v.push_back(ix::pixel_index(&g.right, Pixel{x, y}));
            for (ul n = 0; n < 4; ++n)
                v.push_back(ix::neighborhood_index_fast(&g, Pixel{x, y}, n));
            for (ul d = 0; d < std::min(D, W - x); ++d)
            {
                v.push_back(ix::node_index(&g, node(x, y, d)));
                for (ul n = 0; n < 4; ++n)
                    v.push_back(ix::reparametrization_index_fast(
                        &g, node(x, y, d), n));
            }
        }
    return v;
}

// Problems of sizes beyond the memory: indices depend on sizes only, which is
// checked first, so the arrays are not needed.
void huge(drv::Ctx& c, Rng& r)
{
    auto flat = [](ul W, ul H, ul D) {
        Instance i;
        i.W = W; i.H = H; i.D = D; i.maxv = 1;
        i.L.assign(W * H, 0);
        i.R = i.L;
        return i;
    };
    DisparityGraph a = graph(flat(7, 5, 4)), b = graph(flat(3, 2, 2));
    resize(b, 7, 5, 4);
    if (all(a, 7, 5, 4) != all(b, 7, 5, 4))
    {
        c.count("huge-sizes-not-possible");
        return;
    }
    ul W = r.in(1ul << 15, 1ul << 20), H = r.in(1ul << 15, 1ul << 20);
    ul D = r.in(256, 1ul << 14);
    resize(b, W, H, D);
    const ul N = 150000;
    for (int kind = 0; kind < 4; ++kind)
    {
        const char* names[] = {"pixels", "nodes", "(node, neighbour) pairs",
                               "(pixel, neighbour) pairs"};
        std::vector<std::array<ul, 5>> v;
        // Some corner, so that the indices are not all of similar size.
        ul sx = r.in(0, 2) ? W : r.in(2, W), sy = r.in(0, 2) ? H : r.in(2, H);
        for (ul k = 0; k < N; ++k)
        {
            ul x = r.in(0, sx - 1), y = r.in(0, sy - 1);
            ul d = r.in(0, std::min(D, W - x) - 1), n = r.in(0, 3);
            if (kind == 0 || kind == 3) d = 0;
            if (kind < 2) n = 0;
            if (n == 0 && x + 1 == W) continue;
            if (n == 1 && x == 0) continue;
            if (n == 2 && y + 1 == H) continue;
            if (n == 3 && y == 0) continue;
            Pixel p{x, y};
            ul i = kind == 0 ? ix::pixel_index(&b.right, p)
                : kind == 1 ? ix::node_index(&b, node(x, y, d))
                : kind == 2 ? ix::reparametrization_index_fast(
                                  &b, node(x, y, d), n)
                            : ix::neighborhood_index_fast(&b, p, n);
            Pixel q{x + ref::DX[n], y + ref::DY[n]};
            if (kind == 2)
            {
                ul i1 = ix::reparametrization_index(&b, node(x, y, d), q);
                ul i2 = ix::reparametrization_index_slow(
                    &b, Edge{node(x, y, d), node(q.x, q.y, 0)});
                if (i1 != i || i2 != i)
                    return c.viol("variants", cat("indices ", i, ", ", i1,
                                                  ", ", i2, " with W=", W,
                                                  " H=", H, " D=", D));
            }
            if (kind == 3)
            {
                ul i1 = ix::neighborhood_index(&b, p, q);
                ul i2 = ix::neighborhood_index_slow(
                    &b, Edge{node(x, y, 0), node(q.x, q.y, 0)});
                if (i1 != i || i2 != i)
                    return c.viol("variants", cat("indices ", i, ", ", i1,
                                                  ", ", i2, " with W=", W,
                                                  " H=", H, " D=", D));
            }
            v.push_back(std::array<ul, 5>{{i, x, y, d, n}});
        }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        for (ul k = 1; k < v.size(); ++k)
            if (v[k][0] == v[k - 1][0])
                return c.viol(
                    "not-injective",
                    cat("two ", names[kind], " (x, y, d, n) have index ",
                        v[k][0], ": (", v[k][1], ",", v[k][2], ",", v[k][3],
                        ",", v[k][4], ") and (", v[k - 1][1], ",",
                        v[k - 1][2], ",", v[k - 1][3], ",", v[k - 1][4],
                        ") with W=", W, " H=", H, " D=", D));
        c.count("indices-of-huge-problems", v.size());
    }
    c.distinct(hash(cat("huge ", W, "x", H, "x", D)));
}

}

void drv::run_case(Ctx& c, Rng& r)
{
    if (r.chance(1, 1000)) return huge(c, r);
    Instance in = gen::mixed(r);
    if (r.chance(1, 10)) in.H = r.in(1, 3) == 1 ? in.W : in.H;
    in.L.resize(in.W * in.H);
    in.R.resize(in.W * in.H);
    for (auto& v : in.L) v = r.in(0, in.maxv);
    for (auto& v : in.R) v = r.in(0, in.maxv);
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    ConstraintGraph cg{&g, &lp, 1e300};
    std::string ctx = cat(" with W=", in.W, " H=", in.H, " D=", in.D);
    std::vector<char> pix(g.right.data.size(), 0);
    std::vector<char> nod(cg.nodes_availability.size(), 0);
    std::vector<char> rep(g.reparametrization.size(), 0);
    std::vector<char> nei(lp.neighborhoods.size(), 0);
    auto take = [&](std::vector<char>& used, ul i, const std::string& what) {
        if (i >= used.size())
        {
            c.viol("out-of-bounds", cat("index ", i, " of ", what,
                                        " exceeds size ", used.size(), ctx));
            return false;
        }
        if (used[i]++)
        {
            c.viol("not-injective", cat("index ", i, " of ", what,
                                        " is used by another item", ctx));
            return false;
        }
        c.count("indices");
        return true;
    };
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
        {
            Pixel p{x, y};
            std::string at = cat("pixel (", x, ",", y, ")");
            ul pi = ix::pixel_index(&g.right, p);
            if (pi != ix::pixel_index(&g.left, p))
                return c.viol("images-differ", "indices of " + at + ctx);
            if (!take(pix, pi, at)) return;
            if (ix::pixel_value(&g.right, p) != in.R[y * in.W + x]
                || ix::pixel_value(&g.left, p) != in.L[y * in.W + x])
                return c.viol("pixel-value", "value of " + at + ctx);
            for (ul d = 0; d < in.nd(x); ++d)
                if (!take(nod, ix::node_index(&g, node(x, y, d)),
                          cat("node of ", at, " d=", d)))
                    return;
            for (int n = 0; n < 4; ++n)
            {
                long X = (long)x + ref::DX[n], Y = (long)y + ref::DY[n];
                if (!in.pixel(X, Y)) continue;
                Pixel q{(ul)X, (ul)Y};
                std::string pair = cat(at, "-(", X, ",", Y, ")");
                ul j = ix::neighbor_index(p, q);
                if (j >= 4)
                    return c.viol("neighbor-index",
                                  cat("neighbour index ", j, " of ", pair));
                Pixel b = ix::neighbor_by_index(p, j);
                if (b.x != q.x || b.y != q.y)
                    return c.viol("neighbor-index",
                                  cat("neighbour ", j, " of ", at, " is (",
                                      b.x, ",", b.y, ") instead of (", X, ",",
                                      Y, ")"));
                Pixel by = ix::neighbor_by_index(p, (ul)n);
                if (ix::neighbor_index(p, by) != (ul)n)
                    return c.viol("neighbor-index", cat("neighbour number ", n,
                                                        " of ", at));
                ul a = ix::neighborhood_index(&g, p, q);
                ul f = ix::neighborhood_index_fast(&g, p, j);
                ul d0 = r.in(0, in.nd(x) - 1);
                ul e0 = r.in(0, in.nd(X) - 1);
                ul s = ix::neighborhood_index_slow(
                    &g, Edge{node(x, y, d0), node(X, Y, e0)});
                if (a != f || a != s)
                    return c.viol("variants",
                                  cat("indices ", a, ", ", f, ", ", s,
                                      " of pair ", pair, ctx));
                if (!take(nei, a, "pair " + pair)) return;
                for (ul d = 0; d < in.nd(x); ++d)
                {
                    Node v = node(x, y, d);
                    ul i1 = ix::reparametrization_index(&g, v, q);
                    ul i2 = ix::reparametrization_index_fast(&g, v, j);
                    ul i3 = ix::reparametrization_index_slow(
                        &g, Edge{v, node(X, Y, e0)});
                    if (i1 != i2 || i1 != i3)
                        return c.viol("variants",
                                      cat("indices ", i1, ", ", i2, ", ", i3,
                                          " of (node, neighbour) ", pair,
                                          " d=", d, ctx));
                    if (!take(rep, i1, cat("(node, neighbour) ", pair, " d=",
                                           d)))
                        return;
                }
            }
            // Pixels which are not direct neighbours.
            for (int q = 0; q < 6; ++q)
            {
                Pixel o{r.in(0, in.W + 1), r.in(0, in.H + 1)};
                if (q == 0) o = p;
                if (q == 1) o = {x + 1, y + 1};
                if (q == 2 && x) o = {x - 1, y + 1};
                if (q == 3) o = {x + 2, y};
                if (q == 4) o = {x, y + 2};
                ul dist = (o.x > x ? o.x - x : x - o.x)
                    + (o.y > y ? o.y - y : y - o.y);
                ul j = ix::neighbor_index(p, o);
                if ((j < 4) != (dist == 1) || (dist != 1 && j != 4))
                    return c.viol("neighbor-index",
                                  cat("index ", j, " of (", o.x, ",", o.y,
                                      ") as a neighbour of ", at));
                c.count("pairs-of-any-pixels");
            }
            // Far from the origin, and close to each other.
            for (int q = 0; q < 4; ++q)
            {
                Pixel a{r.next() >> r.in(1, 60), r.next() >> r.in(1, 60)};
                a.x += 8, a.y += 8;
                Pixel b{a.x + r.in(0, 6) - 3, a.y + r.in(0, 6) - 3};
                if (q < 2) (r.chance(1, 2) ? b.x = a.x : b.y = a.y);
                ul dist = (a.x > b.x ? a.x - b.x : b.x - a.x)
                    + (a.y > b.y ? a.y - b.y : b.y - a.y);
                ul j = ix::neighbor_index(a, b);
                ul want = 4;
                for (ul n = 0; n < 4; ++n)
                    if (a.x + ref::DX[n] == b.x && a.y + ref::DY[n] == b.y)
                        want = n;
                Pixel back = ix::neighbor_by_index(a, want);
                if (j != want
                    || (dist == 1 && (back.x != b.x || back.y != b.y)))
                    return c.viol("neighbor-index",
                                  cat("index ", j, " of (", b.x, ",", b.y,
                                      ") as a neighbour of (", a.x, ",", a.y,
                                      ")"));
                c.count("pairs-far-from-the-origin");
            }
            // Far ones: in a huge image, both are pixels.
            for (int q = 0; q < 4; ++q)
            {
                ul big = q < 2 ? 1ul << r.in(8, 62) : r.in(1, 1ul << 62);
                Pixel a = p, b = p;
                if (q == 1) a.x += big / 2, b.x = a.x;
                (r.chance(1, 2) ? b.x : b.y) += big;
                if (r.chance(1, 2)) b.x += r.in(0, 1);
                if (r.chance(1, 2)) b.y += r.in(0, 1);
                if (r.chance(1, 2)) std::swap(a, b);
                ul dist = (a.x > b.x ? a.x - b.x : b.x - a.x)
                    + (a.y > b.y ? a.y - b.y : b.y - a.y);
                ul j = ix::neighbor_index(a, b);
                if ((j < 4) != (dist == 1) || (dist != 1 && j != 4))
                    return c.viol("neighbor-index",
                                  cat("index ", j, " of (", b.x, ",", b.y,
                                      ") as a neighbour of (", a.x, ",", a.y,
                                      ")"));
                c.count("far-pixels");
            }
        }
    // Writes: unique values everywhere, then everything is read back.
    double v = 1;
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
            for (int n = 0; n < 4; ++n)
            {
                Pixel q{x + ref::DX[n], y + ref::DY[n]};
                if (!in.pixel((long)q.x, (long)q.y)) continue;
                for (ul d = 0; d < in.nd(x); ++d)
                    g.reparametrization[ix::reparametrization_index(
                        &g, node(x, y, d), q)] = v++;
            }
    v = 1;
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
            for (int n = 0; n < 4; ++n)
            {
                Pixel q{x + ref::DX[n], y + ref::DY[n]};
                if (!in.pixel((long)q.x, (long)q.y)) continue;
                for (ul d = 0; d < in.nd(x); ++d, ++v)
                {
                    Node a = node(x, y, d);
                    double r1 = ix::reparametrization_value(&g, a, q);
                    double r2 = ix::reparametrization_value_fast(
                        &g, a, ix::neighbor_index(a.pixel, q));
                    double r3 = ix::reparametrization_value_slow(
                        &g, Edge{a, node(q.x, q.y, 0)});
                    if (r1 != v || r2 != v || r3 != v)
                        return c.viol("value",
                                      cat("values ", r1, ", ", r2, ", ", r3,
                                          " instead of ", v, " at (", x, ",",
                                          y, ",", d, ") towards ", n, ctx));
                }
            }
    ul some = in.W * in.H * in.D > 400 ? 400 : in.W * in.H * in.D;
    ref::Avail a = avail(in, cg);
    for (ul j = 0; j < some / 8 + 1; ++j)
    {
        ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
        ul d = r.in(0, in.nd(x) - 1);
        bool on = r.chance(1, 3);
        if (on) make_node_available(&cg, node(x, y, d));
        else make_node_unavailable(&cg, node(x, y, d));
        a[ref::at(in, x, y, d)] = on;
        if (avail(in, cg) != a)
            return c.viol("leak", cat("change of node (", x, ",", y, ",", d,
                                      "): ", diff(in, avail(in, cg), a), ctx));
        c.count("writes");
    }
    make_all_nodes_unavailable(&cg);
    if (ref::any(avail(in, cg)) || check_nodes_left(&cg))
        return c.viol("leak", "nodes are left" + ctx);
    c.distinct(hash(cat(in.W, "x", in.H, "x", in.D)));
    c.sample("sizes" + ctx);
}
