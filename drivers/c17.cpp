// C17: the whole life of a problem, from the text of images to the text of the
// map, with the error paths, under sanitizers, checked containers, valgrind
// and a count of live memory blocks. The oracle is the instrumentation.
#include "pipe.hpp"
#include "pgm_ref.hpp"
#include <pgm_io.hpp>
#include <stdexcept>
using namespace pipe_;
using sp::image::PGM_IO;
namespace ix = sp::indexing;
using namespace sp::graph::lowest_penalties;
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
namespace blocks { extern thread_local long count, fail_at, seen; }

static long live()
{
#if defined(__SANITIZE_ADDRESS__)
    return (long)__sanitizer_get_current_allocated_bytes();
#else
    return blocks::count;
#endif
}

static bool light = false;

void drv::teardown(Ctx&) {}

static std::string text_of(const Image& i)
{
    PGM_IO io{std::make_shared<Image>(i)};
    std::ostringstream o;
    o << io;
    return o.str();
}

static ul sink = 0;

// Everything is freed when it returns.
static void life(const Instance& in, uint64_t seed, ul* steps)
{
    gen::Rng r(seed);
    ++*steps;
    PGM_IO a, b;
    {
        std::istringstream s1(text_of(left(in))), s2(text_of(right(in)));
        s1 >> a;
        s2 >> b;
    }
    if (!a.get_image() || !b.get_image())
        throw std::runtime_error("images were not read");
    DisparityGraph g{*a.get_image(), *b.get_image(), in.D, in.c, in.s};
    if (in.has_phi())
    {
        DisparityGraph h = graph(in);
        g.reparametrization = h.reparametrization;
    }
    LowestPenalties lp{&g};
    auto list = find::fetch_available_penalties(&lp);
    double t = find::calculate_minimal_consistent_threshold(&lp, &g, list);
    {
        // The whole list is not needed: one element, then the last ones.
        find::calculate_minimal_consistent_threshold(&lp, &g, {list.back()});
    }
    ConstraintGraph cg{&g, &lp, t};
    sink += solve_csp(&cg);
    ConstraintGraph copy = cg;
    if (find::find_labeling(&cg) && !in.has_phi())
    {
        auto map = std::make_shared<Image>(find::build_disparity_map(&cg));
        PGM_IO io{map};
        std::ostringstream o;
        o << io;
        PGM_IO back;
        std::istringstream i(o.str());
        i >> back;
        sink += back.get_image() ? back.get_image()->data.size() : 0;
        *steps += 3;
    }
    // Error paths.
    try
    {
        Image m = find::build_disparity_map(&copy);
        sink += m.data.size();
    }
    catch (const std::logic_error& e)
    {
        sink += std::string(e.what()).size();
        ++*steps;
    }
    make_all_nodes_unavailable(&copy);
    sink += solve_csp(&copy);
    sink += find::find_labeling(&copy) == nullptr;
    sink += find::choose_best_node(&copy, {in.W - 1, in.H - 1}) == nullptr;
    try
    {
        sink += find::build_disparity_map(&copy).width;
    }
    catch (const std::logic_error& e)
    {
        sink += std::string(e.what()).size();
        ++*steps;
    }
    ConstraintGraph low{&g, &lp, t - 1};
    sink += solve_csp(&low);
    sink += find::find_labeling(&low) == nullptr;
    for (int k = 0; k < 4; ++k)
    {
        try
        {
            Image l = left(in), rr = right(in);
            ul d = in.D;
            double c = in.c, s = in.s;
            if (k == 0) d = in.W + 1;
            if (k == 1) l.data.back() = l.max_value + 1;
            if (k == 2) c = -1;
            if (k == 3) rr.height += 1, rr.data.resize(rr.width * rr.height);
            DisparityGraph x{l, rr, d, c, s};
            sink += x.left.width;
        }
        catch (const std::invalid_argument& e)
        {
            sink += std::string(e.what()).size();
            ++*steps;
        }
    }
    // Images which do not match: refused, or else safe to work with.
    for (int k = 0; k < 4; ++k)
    {
        Image l = left(in), rr = right(in);
        Image& one = k & 1 ? l : rr;
        ul& size = k & 2 ? one.width : one.height;
        if (r.chance(1, 2) || size == 1) size += r.in(1, 3);
        else size -= r.in(1, size - 1);
        one.data.resize(one.width * one.height);
        try
        {
            DisparityGraph x{l, rr, std::min(in.D, l.width), in.c, in.s};
            LowestPenalties y{&x};
            auto v = find::fetch_available_penalties(&y);
            ConstraintGraph z{&x, &y, v.back()};
            sink += solve_csp(&z);
        }
        catch (const std::invalid_argument& e)
        {
            sink += std::string(e.what()).size();
            ++*steps;
        }
    }
    // Questions about things out of range.
    for (int q = 0; q < 40; ++q)
    {
        auto cc = [&](ul n) -> ul {
            return r.chance(1, 5) ? ~0ul - r.in(0, 1)
                 : r.chance(1, 5) ? n + r.in(0, 2) : r.in(0, n - 1);
        };
        Node v = node(cc(in.W), cc(in.H), cc(in.D));
        Node w = v;
        ul n = r.in(0, 4);
        w.pixel = ix::neighbor_by_index(v.pixel, n);
        if (r.chance(1, 2)) w.disparity = cc(in.D);
        sink += ix::checks::node_exists(&g, v);
        sink += ix::checks::edge_exists(&g, Edge{v, w});
        sink += ix::checks::neighborhood_exists(&g, v.pixel, w.pixel);
        sink += ix::checks::neighborhood_exists_fast(&g, v.pixel, r.next());
        sink += ix::neighbor_index(v.pixel, w.pixel);
        sink += is_edge_available(&cg, Edge{v, w});
        ++*steps;
    }
    // Partial passes, every number of jobs.
    ConstraintGraph part{&g, &lp, t};
    for (ul jobs = 1; jobs <= in.H + 2 && jobs < 9; ++jobs)
        for (ul j = 0; j < jobs; ++j)
            sink += csp_solution_iteration(&part, jobs, j);
    for (int q = 0; q < 10; ++q)
        sink += csp_process_pixel(&part, {r.in(0, in.W - 1),
                                          r.in(0, in.H - 1)});
    sink += check_nodes_left(&part);
    // Texts with defects.
    for (int q = 0; q < 4; ++q)
    {
        std::string what;
        pgm::Tokens tk = pgm::tokens(r);
        std::istringstream i(pgm::join(r, pgm::damage(r, tk.t, what)));
        i >> a;
        ++*steps;
    }
    {
        PGM_IO moved = std::move(a);
        PGM_IO assigned;
        assigned = b;
        assigned = std::move(moved);
        sink += assigned.get_image() != nullptr;
    }
}

// One allocation of a life fails. The exception which reports it, or what it
// turned into, ends the life; nothing else may happen, and nothing may be lost.
static bool exhausted(const Instance& in, uint64_t seed, long at)
{
    ul steps = 0;
    blocks::seen = 0;
    blocks::fail_at = at;
    bool ended = false;
    try
    {
        life(in, seed, &steps);
    }
    catch (const std::exception& e)
    {
        ended = true;
    }
    blocks::fail_at = 0;
    return ended;
}

static void exhaustion(drv::Ctx& c, gen::Rng& r, const Instance& in, uint64_t seed)
{
    exhausted(in, seed, 0);
    long all = blocks::seen;
    if (!all) return;  // valgrind has allocation functions of its own
    c.maximum("allocations-of-a-life", (uint64_t)all);
    for (int q = 0; q < (light ? 8 : 24); ++q)
    {
        // The first ones are reading, the many last ones are questions.
        long at = r.chance(1, 2) ? r.in(1, all) : 1 + r.next() % r.in(1, all);
        long before = live();
        bool ended = exhausted(in, seed, at);
        long after = live();
        c.count("failed-allocations");
        if (ended) c.count("failed-allocations-which-ended-a-life");
        if (after <= before) continue;
        exhausted(in, seed, at);
        long again = live();
        if (again > after)
            return c.viol("leak", drv::cat("live memory grows with every failure "
                                      "of allocation ", at, " of ", all, ": ",
                                      before, ", ", after, ", ", again,
                                      " for ", in.str()));
    }
}

static Instance make(gen::Rng& r)
{
    Instance in;
    if (light)
    {
        gen::Limits l;
        l.maxW = 5; l.maxH = 3; l.maxD = 4;
        in = gen::instance(r, l);
    }
    else if (r.chance(1, 25)) in = gen::dead_end(r);
    else in = gen::mixed(r, true, nullptr, false);
    if (r.chance(1, 6))
    {
        // Extreme values.
        in.maxv = 65536;
        for (auto& v : in.L) v = r.chance(1, 2) ? in.maxv : 0;
        in.c = r.chance(1, 2) ? 1e300 : 1e-300;
        in.s = r.chance(1, 2) ? 1e300 : 1e-15;
        if (in.c < 1e-15 && in.s < 1e-15) in.s = 1;
    }
    else if (r.chance(1, 3)) gen::add_phi(r, in);
    return in;
}

void drv::setup(Ctx& c)
{
    light = c.aux == "light";
    // What the runtime allocates once.
    gen::Rng r(7);
    gen::Limits l;
    l.maxW = 4; l.maxH = 3;
    ul steps = 0;
    life(gen::instance(r, l), 1, &steps);
}

void drv::run_case(Ctx& c, Rng& r)
{
    Instance in = make(r);
    uint64_t seed = r.next();
    ul steps = 0;
    life(in, seed, &steps);
    long before = live();
    life(in, seed, &steps);
    long after = live();
    long again = 0;
    if (after > before)
    {
        // One-time allocations do not repeat.
        life(in, seed, &steps);
        again = live();
        if (again > after)
            return c.viol("leak", cat("live memory grows with every repeat: ",
                                      before, ", ", after, ", ", again,
                                      " for ", in.str()));
    }
    if (r.chance(1, light ? 2 : 4)) exhaustion(c, r, in, seed);
    c.count("lives", 2);
    c.count("error-paths-and-questions", steps);
    c.distinct(hash(in.str()));
    c.sample(in.str().substr(0, 300));
}
