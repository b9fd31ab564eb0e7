// C24: independent problems in parallel threads; arguments given as constant.
#include "pipe.hpp"
#include "pgm_ref.hpp"
#include <atomic>
#include <pgm_io.hpp>
#include <thread>
using namespace pipe_;
using sp::image::PGM_IO;
NO_SETUP

static std::string bits(const std::vector<double>& v)
{
    return std::string((const char*)v.data(), v.size() * sizeof(double));
}
static std::string bits(const std::vector<ul>& v)
{
    return std::string((const char*)v.data(), v.size() * sizeof(ul));
}
static std::string bits(const Image& i)
{
    return drv::cat(i.width, " ", i.height, " ", i.max_value, " ")
        + bits(i.data);
}
static std::string bits(const DisparityGraph& g)
{
    return bits(g.left) + bits(g.right) + bits(g.reparametrization)
        + drv::cat(g.disparity_levels, " ", g.cleanness, " ", g.smoothness);
}
static std::string bits(const LowestPenalties& l)
{
    return bits(l.pixels) + bits(l.neighborhoods)
        + drv::cat((const void*)l.graph);
}

// From texts to the text of the map.
static std::string whole(const Instance& in, const std::string& l,
                         const std::string& r)
{
    PGM_IO a, b;
    std::istringstream s1(l), s2(r);
    s1 >> a;
    s2 >> b;
    if (!a.get_image() || !b.get_image()) return "not read";
    DisparityGraph g{*a.get_image(), *b.get_image(), in.D, in.c, in.s};
    Result res = run(g);
    if (!res.labeled) return "no labeling";
    auto m = std::make_shared<Image>(
        Image{res.width, res.height, res.max_value, res.map});
    PGM_IO io{m};
    std::ostringstream o;
    o << io;
    return o.str() + drv::S(res.threshold);
}

static std::string text(const Image& i)
{
    PGM_IO io{std::make_shared<Image>(i)};
    std::ostringstream o;
    o << io;
    return o.str();
}

struct Gate
{
    std::atomic<int> n{0};
    void wait(int all)
    {
        ++n;
        while (n.load() < all) std::this_thread::yield();
    }
};

void drv::run_case(Ctx& c, Rng& r)
{
    gen::Limits l;
    l.maxW = 8; l.maxH = 5; l.maxD = 6;
    int threads = (int)r.in(2, 6);
    if (r.chance(1, 2))
    {
        // Different problems.
        struct Job { Instance in; std::string l, r, seq, par; };
        std::vector<Job> jobs((size_t)threads);
        for (auto& j : jobs)
        {
            j.in = gen::instance(r, l);
            j.l = text(left(j.in));
            j.r = text(right(j.in));
        }
        bool before = r.chance(1, 2);
        if (before)
            for (auto& j : jobs) j.seq = whole(j.in, j.l, j.r);
        Gate gate;
        std::vector<std::thread> t;
        for (auto& j : jobs)
            t.emplace_back([&gate, &j, threads] {
                gate.wait(threads);
                j.par = whole(j.in, j.l, j.r);
            });
        for (auto& x : t) x.join();
        if (!before)
            for (auto& j : jobs) j.seq = whole(j.in, j.l, j.r);
        for (auto& j : jobs)
        {
            if (j.seq != j.par)
                return c.viol("differs", cat("in parallel: ",
                                             pgm::show(j.par), " alone: ",
                                             pgm::show(j.seq), " of ",
                                             j.in.str()));
            c.distinct(hash(j.in.str()));
        }
        c.count("independent-problems", (uint64_t)threads);
        return;
    }
    // One problem and its lowest penalties, shared.
    Instance in = gen::instance(r, l);
    if (r.chance(1, 2)) gen::add_phi(r, in);
    ref::Model m(in);
    auto cand = ref::candidates(m);
    const DisparityGraph g = graph(in);
    std::string gb = bits(g);
    const LowestPenalties lp{&g};
    std::string lb = bits(lp);
    std::string ctx = " of " + in.str();
    auto list = find::fetch_available_penalties(&lp);
    std::vector<double> ts;
    for (int i = 0; i < threads; ++i)
        ts.push_back(cand[r.in(0, cand.size() - 1)]);
    struct Seen { ref::Avail a; bool s; double t; ul n; };
    auto work = [&](int i) {
        Seen s;
        LowestPenalties own{&g};
        ConstraintGraph cg{&g, &lp, ts[(size_t)i]};
        s.s = solve_csp(&cg);
        s.a = avail(in, cg);
        s.n = find::fetch_available_penalties(&own).size();
        s.t = find::calculate_minimal_consistent_threshold(&lp, &g, list);
        const ConstraintGraph cc = cg;
        std::string kb((const char*)&cc.nodes_availability[0],
                       cc.nodes_availability.size());
        for (ul x = 0; x < in.W; ++x)
            for (ul d = 0; d < in.nd(x); ++d)
            {
                s.n += should_remove_node(&cc, node(x, 0, d));
                s.n += is_edge_available(&cc, Edge{node(x, 0, d),
                                                   node(x + 1, 0, d)});
            }
        try
        {
            s.n += find::build_disparity_map(&cc).width;
        }
        catch (const std::logic_error&)
        {
        }
        if (kb != std::string((const char*)&cc.nodes_availability[0],
                              cc.nodes_availability.size()))
            s.n = ~0ul;
        if (find::find_labeling(&cg)) s.a = avail(in, cg);
        return s;
    };
    std::vector<Seen> par((size_t)threads);
    {
        Gate gate;
        std::vector<std::thread> t;
        for (int i = 0; i < threads; ++i)
            t.emplace_back([&, i] {
                gate.wait(threads);
                par[(size_t)i] = work(i);
            });
        for (auto& x : t) x.join();
    }
    for (int i = 0; i < threads; ++i)
    {
        Seen s = work(i);
        Seen& p = par[(size_t)i];
        if (s.n == ~0ul || p.n == ~0ul)
            return c.viol("modifies-constant", "a constant constraint graph "
                          "was modified" + ctx);
        if (s.a != p.a || s.s != p.s || s.t != p.t || s.n != p.n)
            return c.viol("differs", cat("threads sharing a problem: thread ",
                                         i, " gets another result", ctx));
    }
    if (bits(g) != gb)
        return c.viol("modifies-constant", "the problem was modified" + ctx);
    if (bits(lp) != lb)
        return c.viol("modifies-constant", "lowest penalties were modified"
                      + ctx);
    c.count("shared-problems");
    c.count("threads-sharing-a-problem", (uint64_t)threads);
    c.distinct(hash(in.str()));
    c.sample(cat(threads, " threads share W=", in.W, " H=", in.H, " D=",
                 in.D));
}
