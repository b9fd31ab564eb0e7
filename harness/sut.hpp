// Adapters from the reference instance to the library under test.
#ifndef VERIF_SUT_HPP
#define VERIF_SUT_HPP

#include <constraint_graph.hpp>
#include <disparity_graph.hpp>
#include <image.hpp>
#include <indexing.hpp>
#include <indexing_checks.hpp>
#include <labeling_finder.hpp>
#include <lowest_penalties.hpp>
#include <types.hpp>

#include "gen.hpp"
#include "ref.hpp"

namespace sut
{

using ref::Avail;
using ref::Instance;
using ref::ul;
using sp::graph::constraint::ConstraintGraph;
using sp::graph::disparity::DisparityGraph;
using sp::graph::lowest_penalties::LowestPenalties;
using sp::image::Image;
using sp::types::Edge;
using sp::types::Node;
using sp::types::Pixel;

inline Node node(ul x, ul y, ul d) { return Node{Pixel{x, y}, d}; }

inline Image left(const Instance& i) { return Image{i.W, i.H, i.maxv, i.L}; }
inline Image right(const Instance& i) { return Image{i.W, i.H, i.maxv, i.R}; }

inline DisparityGraph graph(const Instance& i)
{
    DisparityGraph g{left(i), right(i), i.D, i.c, i.s};
    if (i.has_phi())
    {
        for (ul x = 0; x < i.W; ++x)
            for (ul y = 0; y < i.H; ++y)
                for (int n = 0; n < 4; ++n)
                {
                    long X = (long)x + ref::DX[n], Y = (long)y + ref::DY[n];
                    if (!i.pixel(X, Y)) continue;
                    for (ul d = 0; d < i.nd(x); ++d)
                        g.reparametrization.at(
                            sp::indexing::reparametrization_index(
                                &g, node(x, y, d), Pixel{(ul)X, (ul)Y}))
                            = i.ph(x, y, n, d);
                }
    }
    return g;
}

inline Avail avail(const Instance& i, const ConstraintGraph& c)
{
    Avail a(i.W * i.H * i.D, 0);
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (ul d = 0; d < i.nd(x); ++d)
                a[ref::at(i, x, y, d)]
                    = is_node_available(&c, node(x, y, d)) ? 1 : 0;
    return a;
}

inline void set_avail(const Instance& i, ConstraintGraph& c, const Avail& a)
{
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (ul d = 0; d < i.nd(x); ++d)
            {
                if (a[ref::at(i, x, y, d)])
                    make_node_available(&c, node(x, y, d));
                else
                    make_node_unavailable(&c, node(x, y, d));
            }
}

}

#endif
