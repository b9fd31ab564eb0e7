// The documented sequence of calls from a problem to a disparity map.
#ifndef VERIF_PIPE_HPP
#define VERIF_PIPE_HPP

#include "driver.hpp"
#include "sut.hpp"

namespace pipe_
{

using namespace sut;
namespace find = sp::labeling::finder;
using sp::graph::constraint::solve_csp;

struct Result
{
    bool solved = false, labeled = false;
    double threshold = 0;
    ul width = 0, height = 0, max_value = 0;
    ref::Labeling map;
    bool operator==(const Result& o) const
    {
        return solved == o.solved && labeled == o.labeled
            && threshold == o.threshold && width == o.width
            && height == o.height && max_value == o.max_value && map == o.map;
    }
};

inline Result run(const DisparityGraph& g)
{
    Result r;
    LowestPenalties lp{&g};
    auto list = find::fetch_available_penalties(&lp);
    r.threshold = find::calculate_minimal_consistent_threshold(&lp, &g, list);
    ConstraintGraph cg{&g, &lp, r.threshold};
    r.solved = solve_csp(&cg);
    if (!r.solved) return r;
    ConstraintGraph* l = find::find_labeling(&cg);
    r.labeled = l != nullptr;
    if (!l) return r;
    Image map = find::build_disparity_map(l);
    r.width = map.width;
    r.height = map.height;
    r.max_value = map.max_value;
    r.map = map.data;
    return r;
}

inline Result run(const Instance& i)
{
    DisparityGraph g = graph(i);
    return run(g);
}

inline std::string show(const ref::Labeling& k)
{
    std::string s = "[";
    for (auto v : k) s += (s.size() > 1 ? " " : "") + std::to_string(v);
    return s + "]";
}

inline std::string show(const Result& r)
{
    return drv::cat("solved=", r.solved, " labeled=", r.labeled,
                    " threshold=", r.threshold, " size=", r.width, "x",
                    r.height, " map=", show(r.map));
}

// A threshold so close to the given one that only exact comparisons tell
// them apart; still all sums and differences with penalties are exact.
inline double near(gen::Rng& r, const Instance& i, double t)
{
    double top = std::fabs(t);
    if (!std::isfinite(t)) return t;
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (ul d = 0; d < i.nd(x); ++d)
            {
                top = std::max(top, std::fabs(i.node_pen(x, y, d)));
                for (int n = 0; n < 4; ++n)
                    for (ul e = 0; e < i.D; ++e)
                        if (i.edge(x, y, d, n, e))
                            top = std::max(top, std::fabs(
                                                    i.edge_pen(x, y, d, n, e)));
            }
    if (!(top > 0)) return t;
    double gap = std::ldexp(1.0, std::ilogb(top) - 48);
    return r.chance(1, 2) ? t - gap : t + gap;
}

// A threshold that makes the problem interesting.
inline double threshold(gen::Rng& r, const ref::Model& m,
                        const std::vector<double>& cand, double least)
{
    switch (r.in(0, 10))
    {
        case 10:
            return near(r, m.in, r.chance(1, 2)
                                     ? least
                                     : cand[r.in(0, cand.size() - 1)]);
        case 0: case 1: case 2: case 3: return least;
        case 4:
        {
            // The candidate just below: not solvable.
            auto it = std::lower_bound(cand.begin(), cand.end(), least);
            return it == cand.begin() ? least : *(it - 1);
        }
        case 5:
        {
            auto it = std::upper_bound(cand.begin(), cand.end(), least);
            return it == cand.end() ? least : *it;
        }
        case 6: return cand[r.in(0, cand.size() - 1)];
        case 7: return cand[r.in(0, cand.size() - 1)] + 0.03125 * m.in.unit;
        case 8:
            if (r.chance(1, 8))
                return std::numeric_limits<double>::infinity()
                    * (r.chance(1, 3) ? -1 : 1);
            return r.chance(1, 3) ? -0.25 * m.in.unit : 0;
        default: return r.chance(1, 2) ? cand.back() : least;
    }
}

// Some set of existing nodes; at least as many as none.
inline ref::Avail random_avail(gen::Rng& r, const Instance& i)
{
    ref::Avail a(i.W * i.H * i.D, 0);
    ul num = r.in(3, 20), den = 20;
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (ul d = 0; d < i.nd(x); ++d)
                a[ref::at(i, x, y, d)] = r.chance(num, den);
    // Columns, rows or labels without any nodes.
    if (r.chance(1, 8))
    {
        ul kind = r.in(0, 5);
        ul n = kind / 2 == 0 ? i.W : kind / 2 == 1 ? i.H : i.D;
        ul limit = r.chance(1, 3) ? n - 1 : r.in(0, n - 1);
        for (ul x = 0; x < i.W; ++x)
            for (ul y = 0; y < i.H; ++y)
                for (ul d = 0; d < i.nd(x); ++d)
                {
                    ul v = kind / 2 == 0 ? x : kind / 2 == 1 ? y : d;
                    if (kind % 2 ? v > n - 1 - limit : v < limit)
                        a[ref::at(i, x, y, d)] = 0;
                }
    }
    return a;
}

// Nodes of a huge problem that leave it solvable, or a few nodes that do not:
// each pixel has some nodes, except for one of them, or only one pixel has.
inline ref::Avail huge_avail(gen::Rng& r, const Instance& i)
{
    ref::Avail a(i.W * i.H * i.D, 0);
    ul kind = r.in(0, 2), x0, y0;
    switch (r.in(0, 3))
    {
        case 0: x0 = i.W - 1; y0 = i.H - 1; break;
        case 1: x0 = r.chance(1, 2) ? 0 : i.W - 1; y0 = x0 ? 0 : i.H - 1; break;
        default: x0 = r.in(0, i.W - 1); y0 = r.in(0, i.H - 1);
    }
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
        {
            bool special = x == x0 && y == y0;
            if (kind == 1 && special) continue;
            if (kind == 2 && !special) continue;
            for (ul d = 0; d < i.nd(x); ++d)
                a[ref::at(i, x, y, d)] = r.chance(1, 2);
            a[ref::at(i, x, y, r.in(0, std::min<ul>(i.nd(x), 2) - 1))] = 1;
        }
    return a;
}

inline ul size_of(const ref::Avail& a)
{
    return (ul)std::count(a.begin(), a.end(), (char)1);
}

// First node where two sets differ, as text.
inline std::string diff(const Instance& i, const ref::Avail& got,
                        const ref::Avail& want)
{
    ul n = 0;
    std::string first;
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (ul d = 0; d < i.nd(x); ++d)
                if (got[ref::at(i, x, y, d)] != want[ref::at(i, x, y, d)])
                {
                    if (!n++)
                        first = drv::cat("node (x=", x, ",y=", y, ",d=", d,
                                         ") is ",
                                         got[ref::at(i, x, y, d)]
                                             ? "available"
                                             : "unavailable");
                }
    return drv::cat(first, ", ", n, " nodes differ");
}

inline void nothing(drv::Ctx&) {}

}

#define NO_SETUP \
    void drv::setup(drv::Ctx&) {} \
    void drv::teardown(drv::Ctx&) {}

#endif
