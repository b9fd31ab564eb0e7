// C03: solving with OpenMP gives the sequential result for every number of
// threads and every interleaving. Races are found by ThreadSanitizer
// (gomp_pthread.cpp), interleavings are chosen by gomp_baton.cpp, and the real
// runtime is used in one of the builds.
#include "pipe.hpp"
#include "gomp_stats.hpp"
#include <sched.h>
#include <set>
using namespace pipe_;

void drv::setup(Ctx& c)
{
    if (c.aux.find("pin") == std::string::npos) return;
    // The baton moves faster on one processor.
    cpu_set_t have, one;
    CPU_ZERO(&have);
    if (sched_getaffinity(0, sizeof have, &have)) return;
    std::vector<int> cpus;
    for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &have)) cpus.push_back(i);
    if (cpus.empty()) return;
    CPU_ZERO(&one);
    CPU_SET(cpus[(unsigned)getpid() % cpus.size()], &one);
    sched_setaffinity(0, sizeof one, &one);
}

void drv::teardown(Ctx& c)
{
    if (!vf_gomp_stats) return;
    vf_gomp_stats_t& s = *vf_gomp_stats();
    c.count("parallel-regions", s.regions);
    c.count("threads-of-regions", s.threads);
    c.count("shared-accesses", s.accesses);
    c.count("moves-of-the-baton", s.switches);
    c.count("injected-delays", s.yields);
    c.maximum("threads", s.max_threads);
}

static void solving(drv::Ctx& c, drv::Rng& r, const std::string& how)
{
    using drv::cat;
    bool chained = r.chance(1, 30);
    Instance in = chained ? gen::chain(r, r.chance(1, 3), 12, 12) : r.chance(1, 25) ? gen::dead_end(r) : r.chance(1, 100) ? r.chance(1, 4) ? gen::tiles(r) : gen::large(r)
        : gen::mixed(r, true, nullptr, false);
    if (!chained && r.chance(1, 3)) gen::add_phi(r, in);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    if (least < 0) least = cand.back();
    DisparityGraph g = graph(in);
    LowestPenalties lp{&g};
    double t = threshold(r, m, cand, least);
    if (chained) t = in.unit;
    ConstraintGraph cg{&g, &lp, t};
    std::string hist = cat(" threshold=", t);
    ref::Avail start = avail(in, cg);
    switch (chained ? 4 : r.in(0, 4))
    {
        case 0:
            start = random_avail(r, in);
            set_avail(in, cg, start);
            hist += " random nodes";
            break;
        case 1:
            start = ref::initial(m, t);
            for (int q = 0; q < 3; ++q)
            {
                ul x = r.in(0, in.W - 1), y = r.in(0, in.H - 1);
                for (ul d = 0; d < in.nd(x); ++d)
                    if (!r.chance(1, 4)) start[ref::at(in, x, y, d)] = 0;
            }
            set_avail(in, cg, start);
            hist += " some nodes removed";
            break;
        default: break;
    }
    ul removed = 0;
    ref::Avail want = ref::closure(m, t, start, &removed);
    bool any = ref::any(want);
    std::string ctx = how + hist + " of " + in.str();
    if (r.chance(1, 8))
    {
        // From inside of a parallel region: several problems at once.
        int n = (int)r.in(1, 4);
        std::vector<ConstraintGraph> copies((size_t)n, cg);
        std::vector<char> got((size_t)n, 2);
        #pragma omp parallel for num_threads(n) schedule(static, 1)
        for (int i = 0; i < n; ++i)
            got[(size_t)i] = solve_csp(&copies[(size_t)i]) ? 1 : 0;
        for (int i = 0; i < n; ++i)
        {
            if (got[(size_t)i] != (any ? 1 : 0))
                return c.viol("answer", cat("solve_csp answered ",
                                            (int)got[(size_t)i],
                                            " inside of a parallel region",
                                            ctx));
            ref::Avail now = avail(in, copies[(size_t)i]);
            if (now != want)
                return c.viol("nodes", diff(in, now, want) + " from the "
                              "sequential result inside of a parallel region"
                              + ctx);
        }
        c.count("solutions-inside-of-parallel-regions", (ul)n);
    }
    bool got = solve_csp(&cg);
    ref::Avail now = avail(in, cg);
    if (got != any)
        return c.viol("answer", cat("solve_csp answered ", got, " instead of ",
                                    any, ctx));
    if (now != want)
        return c.viol("nodes", diff(in, now, want)
                                   + " from the sequential result" + ctx);
    c.count("solutions");
    if (chained) c.maximum("removals-along-a-path", removed);
    c.count("removals", removed);
    if (any) c.count("solvable");
    if (removed)
    {
        c.distinct(drv::hash(cat(in.str(), hist, how)));
        c.sample(cat("W=", in.W, " H=", in.H, " D=", in.D, hist, how, ": ",
                     removed, " removed"));
    }
}

static void whole(drv::Ctx& c, drv::Rng& r, const std::string& how)
{
    using drv::cat;
    Instance in = r.chance(1, 10) ? gen::dead_end(r)
                                  : gen::mixed(r, r.chance(1, 4), nullptr, false);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    double least = ref::min_threshold(m, cand);
    ref::Avail want = ref::initial(m, least);
    if (!ref::greedy(m, least, want)) _exit(78);
    Result res = run(in);
    std::string ctx = how + " of " + in.str();
    if (!res.solved || !res.labeled)
        return c.viol("no-map", "no map" + ctx);
    if (res.threshold != least)
        return c.viol("threshold", cat("threshold ", res.threshold,
                                       " instead of ", least, ctx));
    ref::Labeling k = ref::labeling_of(in, want);
    // Both lists are in row-major order of pixels.
    if (res.map != k)
        return c.viol("map", "map " + show(res) + " instead of " + show(k)
                                 + ctx);
    c.count("maps");
    c.distinct(drv::hash(cat(in.str(), how, "map")));
}

void drv::run_case(Ctx& c, Rng& r)
{
    int threads;
    switch (r.in(0, 5))
    {
        case 0: threads = 1; break;
        case 1: threads = 2; break;
        case 2: threads = 3; break;
        case 3: threads = (int)r.in(9, c.thorough ? 40 : 16); break;
        default: threads = (int)r.in(2, 8);
    }
    uint64_t seed = r.in(0, 1000000000);
    if (vf_gomp_seed) vf_gomp_seed(seed);
    omp_set_num_threads(threads);
    // Regions may get fewer threads than that.
    int fewer = r.chance(1, 4) ? (int)r.in(1, 1000000) : 0;
    omp_set_dynamic(fewer);
    if (fewer) c.count("runs-with-teams-of-changing-size");
    c.count(cat("runs-with-", threads > 8 ? ">8" : S(threads), "-threads"));
    std::string how = cat(" (", threads, fewer ? " threads or fewer" : " threads",
                          ", schedule ", seed, ")");
    if (r.chance(c.aux.find("pin") == std::string::npos ? 1 : 0, 5))
        whole(c, r, how);
    else if (r.chance(1, 12)) whole(c, r, how);
    else solving(c, r, how);
    // Interleavings: who ran, and for how many accesses, in this order.
    static std::set<uint64_t> schedules;
    static uint64_t moves = 0;
    if (vf_gomp_stats && vf_gomp_stats()->switches != moves)
    {
        moves = vf_gomp_stats()->switches;
        if (schedules.insert(vf_gomp_stats()->hash).second)
            c.count("distinct-interleavings");
    }
}
