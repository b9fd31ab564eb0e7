// C04: partial passes, checked one by one against the definition.
#include "pipe.hpp"
using namespace pipe_;
NO_SETUP

// Problems of more than 65536 pixels, by shares of rows.
static void huge(drv::Ctx& c, drv::Rng& r)
{
    Instance in = gen::huge(r);
    ref::Model m(in);
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    double t = 1e9;
    ConstraintGraph cg{&g, &lp, t};
    ref::Avail cur = huge_avail(r, in);
    set_avail(in, cg, cur);
    ref::Avail goal = ref::closure(m, t, cur);
    ul jobs = r.chance(1, 2) ? 1 : r.in(1, std::min<ul>(in.H, 5));
    std::string ctx = drv::cat(" with ", size_of(cur), " nodes, jobs=", jobs,
                               " of ", in.str());
    ul limit = size_of(cur) + 3, rounds = 0;
    for (bool changed = true; changed;)
    {
        changed = false;
        for (ul j = 0; j < jobs; ++j)
        {
            bool answer = csp_solution_iteration(&cg, jobs, j);
            changed = changed || answer;
            ref::Avail now = avail(in, cg);
            for (ul q = 0; q < now.size(); ++q)
            {
                if (now[q] && !cur[q])
                    return c.viol("adds-node", "a pass made a node available"
                                  + ctx);
                if (!now[q] && goal[q])
                    return c.viol("removes-consistent-node",
                                  diff(in, now, goal) + ctx);
            }
            if (!answer && now != cur && ref::any(now))
                return c.viol("silent-change", "a pass removed nodes, but "
                              "reported no change" + ctx);
            cur = now;
            c.count("passes-over-huge-problems");
        }
        if (++rounds > limit)
            return c.viol("no-end", "passes still report changes" + ctx);
    }
    if (cur != goal)
        return c.viol("not-fixpoint", "no share reports a change, but "
                      + diff(in, cur, goal) + ctx);
}

void drv::run_case(Ctx& c, Rng& r)
{
    if (r.chance(1, 5000)) return huge(c, r);
    bool chained = r.chance(1, 40);
    Instance in = chained ? gen::chain(r, r.chance(1, 3), 12, 12) : r.chance(1, 800) ? gen::large_or_tiles(r) : gen::mixed(r, r.chance(1, 4));
    if (!chained && r.chance(1, 3)) gen::add_phi(r, in, true);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    if (least < 0) least = cand.back();
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    double t = threshold(r, m, cand, least);
    if (chained) t = in.unit;
    ConstraintGraph cg{&g, &lp, t};
    if (!chained && r.chance(1, 2)) set_avail(in, cg, random_avail(r, in));
    ref::Avail cur = avail(in, cg);
    ref::Avail goal = ref::closure(m, t, cur);
    ul jobs = r.chance(1, 6) ? r.in(in.H, in.H + 5)
                             : r.in(1, std::min<ul>(in.H, 8));
    std::string ctx = cat(" threshold=", t, " jobs=", jobs, " of ", in.str());
    ul removed_total = 0, passes = 0;

    auto check = [&](const char* what, bool answer) -> bool {
        ref::Avail now = avail(in, cg);
        ul removed = 0;
        for (ul q = 0; q < now.size(); ++q)
        {
            if (now[q] && !cur[q])
            {
                c.viol("adds-node", cat(what, " made a node available", ctx));
                return false;
            }
            if (!now[q] && goal[q])
            {
                c.viol("removes-consistent-node",
                       cat(what, ": ", diff(in, now, goal), ctx));
                return false;
            }
            removed += cur[q] && !now[q];
        }
        if (!answer && removed && ref::any(now))
        {
            c.viol("silent-change", cat(what, " removed ", removed,
                                        " nodes, but reported no change",
                                        ctx));
            return false;
        }
        removed_total += removed;
        ++passes;
        c.count("passes");
        cur = now;
        return true;
    };
    auto pixel_pass = [&](ul x, ul y) -> bool {
        ref::Avail want = cur;
        bool any = false;
        for (ul d = 0; d < in.nd(x); ++d)
        {
            if (!cur[ref::at(in, x, y, d)]) continue;
            for (int n = 0; n < 4; ++n)
                if (in.pixel((long)x + ref::DX[n], (long)y + ref::DY[n])
                    && !ref::supported(m, t, cur, x, y, d, n))
                {
                    want[ref::at(in, x, y, d)] = 0;
                    any = true;
                }
        }
        bool answer = csp_process_pixel(&cg, {x, y});
        ref::Avail now = avail(in, cg);
        if (now != want)
        {
            c.viol("pixel-pass", cat("pass over pixel (", x, ",", y, "): ",
                                     diff(in, now, want), ctx));
            return false;
        }
        if (answer != any)
        {
            c.viol("pixel-answer", cat("pass over pixel (", x, ",", y,
                                       ") reported ", answer, ctx));
            return false;
        }
        c.count("pixel-passes");
        if (any) c.count("pixel-passes-that-removed");
        return check("pixel pass", answer);
    };
    bool reported = false;  // by the last pass over rows
    auto row_pass = [&](ul j) -> bool {
        bool answer = csp_solution_iteration(&cg, jobs, j);
        if (answer) c.count("row-passes-with-change");
        c.count("row-passes");
        return check("row pass", answer) && (reported = answer, true);
    };

    // Some passes in arbitrary order, rows and pixels mixed.
    ul n = r.in(0, 12);
    for (ul q = 0; q < n; ++q)
    {
        if (r.chance(1, 2))
        {
            if (!pixel_pass(r.in(0, in.W - 1), r.in(0, in.H - 1))) return;
        }
        else if (!row_pass(r.in(0, jobs - 1))) return;
    }
    // Then all shares in random order until none of them reports a change.
    bool by_pixels = r.chance(1, 3);
    std::vector<std::pair<ul, ul>> order;
    if (by_pixels)
        for (ul x = 0; x < in.W; ++x)
            for (ul y = 0; y < in.H; ++y) order.push_back({x, y});
    else
        for (ul j = 0; j < jobs; ++j) order.push_back({j, 0});
    ul limit = size_of(cur) + 3, rounds = 0;
    for (bool changed = true; changed;)
    {
        changed = false;
        for (ul q = order.size(); q > 1; --q)
            std::swap(order[q - 1], order[r.in(0, q - 1)]);
        for (auto& p : order)
        {
            ref::Avail before = cur;
            if (by_pixels)
            {
                if (!pixel_pass(p.first, p.second)) return;
                if (cur != before) changed = true;
            }
            else
            {
                if (!row_pass(p.first)) return;
                if (reported) changed = true;
            }
        }
        if (++rounds > limit)
            return c.viol("no-end", cat("passes still report changes after ",
                                        rounds, " rounds", ctx));
    }
    if (cur != goal)
        return c.viol("not-fixpoint",
                      cat("no share reports a change, but ",
                          diff(in, cur, goal), ctx));
    c.maximum("rounds", rounds);
    c.count("removals", removed_total);
    if (removed_total && ref::any(goal)) c.count("solvable-and-pruned");
    if (removed_total)
    {
        c.distinct(hash(cat(in.str(), t, jobs, passes)));
        c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " jobs=", jobs,
                     " passes=", passes, " removed=", removed_total));
    }
}
