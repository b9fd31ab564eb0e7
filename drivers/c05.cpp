// C05: lists of candidate thresholds and the search among them.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

static std::string list(const std::vector<double>& v)
{
    std::string s = "[";
    for (ul i = 0; i < v.size() && i < 40; ++i) s += drv::cat(i ? " " : "", v[i]);
    return s + (v.size() > 40 ? " ...]" : "]");
}

static std::string cmp(const std::vector<double>& got,
                       const std::vector<double>& want)
{
    for (ul i = 0; i + 1 < got.size(); ++i)
        if (!(got[i] < got[i + 1]))
            return drv::cat("not increasing at ", i, ": ", got[i], ", ",
                            got[i + 1]);
    for (double v : want)
        if (!std::binary_search(got.begin(), got.end(), v))
            return drv::cat("candidate ", v, " is missing");
    for (double v : got)
        if (!std::binary_search(want.begin(), want.end(), v))
            return drv::cat("value ", v, " is not a difference of penalties");
    return "";
}

// Weights which are not exact in binary: the chosen threshold is the least one
// up to rounding.
static void rounded(drv::Ctx& c, drv::Rng& r, Instance in)
{
    gen::add_random_weights(r, in);
    if (r.chance(1, 2)) in.s *= 1e4;
    ref::Model m(in);
    double least = ref::min_threshold(m, ref::candidates(m));
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    auto l = find::fetch_available_penalties(&lp);
    double t = find::calculate_minimal_consistent_threshold(&lp, &g, l);
    if (!(std::fabs(t - least) <= 1e-9 * std::fabs(least)
          + 1e-14 * (in.c * (double)in.maxv * (double)in.maxv
                     + in.s * (double)in.D * (double)in.D)))
        return c.viol("threshold", drv::cat("chosen ", t, " instead of ", least,
                                       ", weights are not exact, of ",
                                       in.str()));
    ConstraintGraph cg{&g, &lp, t};
    if (!solve_csp(&cg))
        return c.viol("threshold", drv::cat("chosen ", t, " is not solvable, "
                                       "weights are not exact, of ",
                                       in.str()));
    c.count("searches-with-rounding");
    c.distinct(drv::hash(in.str()));
}

void drv::run_case(Ctx& c, Rng& r)
{
    bool chained = r.chance(1, 40);
    Instance in = chained ? gen::chain(r, r.chance(3, 4)) : r.chance(1, 20) ? gen::dead_end(r) : gen::mixed(r);
    // Many pixels, but few candidates: collecting them takes long otherwise.
    bool big = !chained && r.chance(1, 2500);
#ifdef __SANITIZE_ADDRESS__
    big = false;
#endif
    if (big)
    {
        do in = gen::large_or_tiles(r); while (in.maxv > 300);
        c.count("problems-of-more-than-1000-nodes");
    }
    if (!chained && !big && r.chance(1, 5)) return rounded(c, r, in);
    if (!chained && !big && r.chance(1, 3)) gen::add_phi(r, in, true);
    ref::Model m(in);
    auto want = ref::candidates(m);
    double least = ref::min_threshold(m, want);
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    auto got = find::fetch_available_penalties(&lp);
    std::string e = cmp(got, want);
    if (!e.empty())
        return c.viol("candidates", e + " in " + list(got) + " of " + in.str());
    c.count("full-lists");
    c.maximum("candidates", got.size());

    // Lists of one pixel and one pair.
    ul checks = 0;
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
        {
            if (in.W * in.H > 60 && !r.chance(60, in.W * in.H)) continue;
            double min = in.min_node(x, y);
            std::vector<double> w;
            for (ul d = 0; d < in.nd(x); ++d)
                w.push_back(in.node_pen(x, y, d) - min);
            std::sort(w.begin(), w.end());
            w.erase(std::unique(w.begin(), w.end()), w.end());
            auto p = find::fetch_pixel_available_penalties(&g, {x, y}, min);
            e = cmp(p, w);
            if (!e.empty())
                return c.viol("pixel-list",
                              cat(e, " in the list of pixel (", x, ",", y,
                                  ") ", list(p), " of ", in.str()));
            ++checks;
            for (int n = 0; n < 4; ++n)
            {
                long X = (long)x + ref::DX[n], Y = (long)y + ref::DY[n];
                if (!in.pixel(X, Y)) continue;
                double me = in.min_edge(x, y, n);
                w.clear();
                for (ul d = 0; d < in.D; ++d)
                    for (ul f = 0; f < in.D; ++f)
                        if (in.edge(x, y, d, n, f))
                            w.push_back(in.edge_pen(x, y, d, n, f) - me);
                std::sort(w.begin(), w.end());
                w.erase(std::unique(w.begin(), w.end()), w.end());
                p = find::fetch_edge_available_penalties(
                    &g, Edge{node(x, y, 0), node(X, Y, 0)}, me);
                e = cmp(p, w);
                if (!e.empty())
                    return c.viol("edge-list",
                                  cat(e, " in the list of pixels (", x, ",",
                                      y, ")-(", X, ",", Y, ") ", list(p),
                                      " of ", in.str()));
                ++checks;
            }
        }
    c.count("pixel-and-edge-lists", checks);

    // The search, in the full list and in increasing lists that contain a
    // solvable threshold.
    auto solvable = [&](double t) {
        return ref::any(ref::closure(m, t, ref::initial(m, t)));
    };
    if (least < 0) return;
    bool longer = in.W * in.H * in.D <= 200 && r.chance(1, 30);
    for (int q = 0; q < 4 + longer; ++q)
    {
        std::vector<double> l;
        std::string what;
        if (q == 0) l = want, what = "full list";
        else if (q == 4)
        {
            // More than 65536 elements, most of them not penalties at all.
            what = "long list";
            double step = std::ldexp(in.unit, -24);
            ul below = r.in(0, 140000), above = r.in(1, 140000);
            if (below + above < 66000) below += 66000;
            for (ul j = below; j > 0; --j) l.push_back(least - j * step);
            for (ul j = 0; j < above; ++j) l.push_back(least + j * step);
            l.erase(std::unique(l.begin(), l.end()), l.end());
            c.maximum("elements-of-long-lists", l.size());
        }
        else
        {
            what = "sub-list";
            ul kind = r.in(0, 3);
            ul num = r.in(1, 9);
            for (double v : want)
            {
                if (r.chance(num, 10)) l.push_back(v);
                if (kind == 1 && r.chance(1, 4)) l.push_back(v + 0.0078125 * in.unit);
            }
            if (kind == 2) l.clear();
            if (kind == 3)
                l.erase(std::lower_bound(l.begin(), l.end(), least), l.end());
            l.push_back(r.chance(1, 2) ? least : want.back());
            std::sort(l.begin(), l.end());
            l.erase(std::unique(l.begin(), l.end()), l.end());
        }
        ul lo = 0, hi = l.size() - 1;
        while (lo < hi)
        {
            ul mid = (lo + hi) / 2;
            if (solvable(l[mid])) hi = mid;
            else lo = mid + 1;
        }
        double t = find::calculate_minimal_consistent_threshold(&lp, &g, l);
        if (t != l[lo])
            return c.viol("threshold",
                          cat("the search in a ", what, " returned ", t,
                              " instead of ", l[lo], ", list ", list(l),
                              " of ", in.str()));
        c.count(q ? "searches-in-sub-lists" : "searches-in-full-lists");
        if (l.size() > 1 && lo > 0) c.count("searches-with-refused-elements");
        if (q == 0 && lo > 0)
        {
            c.distinct(hash(in.str()));
            c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, ": ", l.size(),
                         " candidates, least solvable is number ", lo, " = ",
                         t));
        }
    }
}
