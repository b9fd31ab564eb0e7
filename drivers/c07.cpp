// C07: building the map.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    Instance in = r.chance(1, 100) ? gen::deep(r) : gen::mixed(r);
    bool wide = r.chance(1, 40);
    if (wide)
    {
        // Many labels.
        in = Instance();
        bool wider = r.chance(1, 50);
        in.W = wider ? r.in(257, 300) : r.in(60, 150);
        in.H = 1;
        in.D = r.chance(1, 3) ? in.W : r.in(wider ? 250 : 2, in.W);
        if (in.D > 255) c.count("graphs-of-more-than-255-levels");
        in.maxv = 9;
        in.L.assign(in.W * in.H, 0);
        in.R.assign(in.W * in.H, 0);
    }
    if (!wide && r.chance(1, 10000)) in = gen::huge(r), c.count("huge-graphs");
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    ConstraintGraph cg{&g, &lp, r.chance(1, 2) ? 0.0 : 1e9};
    ref::Avail a(in.W * in.H * in.D, 0);
    ref::Labeling k(in.W * in.H, 0);
    ul style = r.in(0, wide ? 5 : 3);
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
        {
            ul d = style == 0 ? in.nd(x) - 1 : style == 1 ? 0
                                             : r.in(0, in.nd(x) - 1);
            k[y * in.W + x] = d;
            a[ref::at(in, x, y, d)] = 1;
        }
    ul kind = r.in(0, 5);
    // Damage some pixels: first, last or any.
    ul bad = kind == 0 || kind == 3 ? 0 : r.chance(1, 4) ? r.in(1, 3) : 1;
    bool expect_throw = false;
    std::string what = "one label everywhere";
    for (ul j = 0; j < bad; ++j)
    {
        ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
        switch (r.in(0, 4))
        {
            case 0: x = 0; y = 0; break;
            case 1: x = in.W - 1; y = in.H - 1; break;
            case 2: x = in.W - 1; break;
            default: break;
        }
        if (r.chance(1, 2))
        {
            for (ul d = 0; d < in.nd(x); ++d) a[ref::at(in, x, y, d)] = 0;
            what = cat("no label at (", x, ",", y, ")");
        }
        else
        {
            ul more = wide && r.chance(2, 3) ? 1 : r.in(1, 3), n = 0;
            for (ul q = 0; q < more; ++q)
                a[ref::at(in, x, y, r.in(0, in.nd(x) - 1))] = 1;
            if (r.chance(1, 4))
                a[ref::at(in, x, y, in.nd(x) - 1)] = 1;
            for (ul d = 0; d < in.nd(x); ++d) n += a[ref::at(in, x, y, d)];
            if (n > 1) what = cat(n, " labels at (", x, ",", y, ")");
        }
    }
    for (ul x = 0; x < in.W; ++x)
        for (ul y = 0; y < in.H; ++y)
        {
            ul n = 0;
            for (ul d = 0; d < in.nd(x); ++d) n += a[ref::at(in, x, y, d)];
            if (n != 1) expect_throw = true;
        }
    if (!expect_throw)
        k = ref::labeling_of(in, a);
    set_avail(in, cg, a);
    double t = cg.threshold;
    std::string ctx = cat(" (", what, ") W=", in.W, " H=", in.H, " D=", in.D,
                          " labels=", k.size() < 20000 ? show(k) : cat(hash(show(k))));
    bool thrown = false;
    Image map{0, 0, 0, {}};
    try
    {
        map = find::build_disparity_map(&cg);
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    if (thrown != expect_throw)
        return c.viol(thrown ? "throws" : "does-not-throw",
                      cat(thrown ? "exception" : "no exception", ctx));
    if (avail(in, cg) != a || cg.threshold != t)
        return c.viol("changes-graph", "the graph was changed" + ctx);
    if (thrown)
    {
        c.count("refused");
    }
    else
    {
        if (map.width != in.W || map.height != in.H)
            return c.viol("size", cat("size ", map.width, "x", map.height,
                                      ctx));
        if (map.max_value != in.D)
            return c.viol("max-value", cat("maximal value ", map.max_value,
                                           ctx));
        if (map.data != k)
            return c.viol("labels", "map " + show(map.data).substr(0, 20000) + ctx);
        c.count("built");
    }
    if (wide) c.count("wide-graphs");
    c.distinct(hash(cat(ctx, kind)));
    c.sample(cat(thrown ? "refused" : "built", ctx).substr(0, 300));
}
