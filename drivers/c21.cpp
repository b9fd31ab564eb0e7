// C21: symmetries and determinism; pairs of executions, no reference model.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    Instance in = r.chance(1, 30) ? gen::dead_end(r) : gen::mixed(r);
    Result base = run(in);
    std::string ctx = " of " + in.str();
    c.distinct(hash(in.str()));
    auto same_map = [&](const char* what, const Instance& o) {
        Result res = run(o);
        c.count(what);
        if (res.map != base.map || res.labeled != base.labeled)
        {
            c.viol(what, cat("map changes from ", show(base), " to ",
                             show(res), ctx));
            return false;
        }
        return true;
    };
    auto same_threshold = [&](const char* what, const Instance& o, double f) {
        Result res = run(o);
        c.count(what);
        if (res.threshold != base.threshold * f)
        {
            c.viol(what, cat("threshold changes from ", base.threshold,
                             " to ", res.threshold, ctx));
            return false;
        }
        return true;
    };
    Result again = run(in);
    c.count("repeat");
    if (!(again == base))
        return c.viol("repeat", cat("first ", show(base), " then ",
                                    show(again), ctx));
    ul k = r.in(0, 7);
    Instance o = in;
    {
        ul lo = ~0ul;
        for (auto v : in.L) lo = std::min(lo, v);
        for (auto v : in.R) lo = std::min(lo, v);
        long add = r.chance(1, 3) ? -(long)lo : (long)r.in(1, 70000);
        o.maxv = in.maxv + (add > 0 ? (ul)add : 0);
        for (auto& v : o.L) v = (ul)((long)v + add);
        for (auto& v : o.R) v = (ul)((long)v + add);
        if (k < 2 && !same_map("constant-added", o)) return;
    }
    o = in;
    for (auto& v : o.L) v = in.maxv - v;
    for (auto& v : o.R) v = in.maxv - v;
    if (k >= 1 && k < 4 && !same_map("inverted", o)) return;
    o = in;
    o.maxv = in.maxv + r.in(1, 100000);
    if (k >= 3 && k < 6 && !same_map("max-raised", o)) return;
    o = in;
    double f = r.chance(1, 2) ? (double)(1ul << r.in(1, 8))
                              : 1.0 / (double)(1ul << r.in(1, 8));
    // Other orders of magnitude: thresholds, and so sums, are exact anyway.
    if (r.chance(1, 4)) f = std::ldexp(1.0, (int)r.in(0, 400) - 200);
    o.c *= f;
    o.s *= f;
    if (k >= 5)
    {
        if (!same_map("weights-scaled", o)) return;
        if (!same_threshold("threshold-scaled", o, f)) return;
    }
    o = in;
    for (ul y = 0; y < in.H; ++y)
        for (ul x = 0; x < in.W; ++x)
        {
            o.L[y * in.W + x] = in.L[(in.H - 1 - y) * in.W + x];
            o.R[y * in.W + x] = in.R[(in.H - 1 - y) * in.W + x];
        }
    if (k % 2 == 0 && in.H > 1 && !same_threshold("upside-down", o, 1)) return;
    o = in;
    ul y = r.in(0, in.H - 1);
    o.H = in.H + 1;
    o.L.insert(o.L.begin() + (y + 1) * in.W, in.L.begin() + y * in.W,
               in.L.begin() + (y + 1) * in.W);
    o.R.insert(o.R.begin() + (y + 1) * in.W, in.R.begin() + y * in.W,
               in.R.begin() + (y + 1) * in.W);
    if (k % 2 && !same_threshold("row-repeated", o, 1)) return;
    c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " ", show(base)));
}
