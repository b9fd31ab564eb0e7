// C26: bounded work, counted by instrumentation of function entries.
#include "pipe.hpp"
using namespace pipe_;

static uint64_t n_pixel, n_solve, n_iter, n_all;
static void *a_pixel, *a_solve, *a_iter;
#define NI __attribute__((no_instrument_function))
extern "C" NI void __cyg_profile_func_enter(void* f, void*)
{
    ++n_all;
    if (f == a_pixel) ++n_pixel;
    else if (f == a_solve) ++n_solve;
    else if (f == a_iter) ++n_iter;
}
extern "C" NI void __cyg_profile_func_exit(void*, void*) {}
static void reset() { n_pixel = n_solve = n_iter = n_all = 0; }

void drv::setup(Ctx&)
{
    a_pixel = (void*)&sp::graph::constraint::csp_process_pixel;
    a_solve = (void*)&sp::graph::constraint::solve_csp;
    a_iter = (void*)&sp::graph::constraint::csp_solution_iteration;
}
void drv::teardown(Ctx&) {}

void drv::run_case(Ctx& c, Rng& r)
{
    bool dead = r.chance(1, 10);
    bool chained = r.chance(1, 30);
    bool big = !dead && !chained && r.chance(1, 1000);
    Instance in = chained ? gen::chain(r, r.chance(1, 3), 14, 14) : dead ? gen::dead_end(r) : big ? gen::large_or_tiles(r) : gen::mixed(r, r.chance(1, 2), nullptr, false);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    double t = threshold(r, m, cand, least);
    if (chained) t = in.unit;
    std::string ctx = cat(" threshold=", t, " of ", in.str());
    {
        ConstraintGraph cg{&g, &lp, t};
        if (!chained && r.chance(1, 3)) set_avail(in, cg, random_avail(r, in));
        ul before = size_of(avail(in, cg));
        reset();
        bool ok = solve_csp(&cg);
        uint64_t pixel = n_pixel;
        ul after = size_of(avail(in, cg));
        ul removed = before - after;
        uint64_t bound = (removed + 2) * in.W * in.H;
        if (pixel > bound)
            return c.viol("solution",
                          cat("solving processed pixels ", pixel, " times; ",
                              removed, " nodes removed, bound ", bound, ctx));
        if (pixel == 0) c.count("solutions-not-observed");
        else
        {
            c.count("solutions");
            c.count("pixels-processed", pixel);
            c.maximum("pixels-processed", pixel);
        }
        if (removed && ok) c.distinct(hash(ctx));
    }
    {
        auto list = find::fetch_available_penalties(&lp);
        if (r.chance(1, 3))
        {
            // Another length, solvable at the end.
            std::vector<double> l;
            ul num = r.in(1, 9);
            for (double v : list)
                if (r.chance(num, 10)) l.push_back(v);
            l.push_back(list.back() + 1);
            list = l;
        }
        ul lg = 0;
        while ((1ul << lg) < list.size()) ++lg;
        reset();
        find::calculate_minimal_consistent_threshold(&lp, &g, list);
        // ceil(log2 n) + 1 covers searches that test the last element, too.
        if (n_solve > lg + 1)
            return c.viol("search", cat("the search among ", list.size(),
                                        " thresholds solved ", n_solve,
                                        " problems", ctx));
        if (n_solve == 0 && list.size() > 1) c.count("searches-not-observed");
        else c.count("searches");
        c.maximum("problems-solved-in-a-search", n_solve);
    }
    {
        // The others take long.
        if (big && !r.chance(1, 4)) return c.count("big-problems");
        double tt = std::max(t, least);
        ConstraintGraph cg{&g, &lp, tt};
        solve_csp(&cg);
        ref::Avail a = avail(in, cg);
        ul nodes = size_of(a), retries = 0;
        ref::Avail want = a;
        ref::greedy(m, tt, want, &retries);
        reset();
        find::find_labeling(&cg);
        uint64_t bound = in.W * in.H + retries;
        if (n_solve > nodes)
            return c.viol("labeling", cat("labeling solved ", n_solve,
                                          " problems, but there are ", nodes,
                                          " nodes", ctx));
        if (n_solve > bound)
            return c.viol("labeling", cat("labeling solved ", n_solve,
                                          " problems for ", in.W * in.H,
                                          " pixels and ", retries,
                                          " dead ends", ctx));
        if (n_solve == 0) c.count("labelings-not-observed");
        else c.count("labelings");
        if (retries) c.count("labelings-with-dead-ends");
        c.count("function-entries", n_all);
    }
    c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, " t=", t));
}
