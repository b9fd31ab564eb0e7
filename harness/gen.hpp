// Seeded workload generators.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP

#include <cmath>

#include "ref.hpp"

namespace gen
{

using ref::Instance;
using ref::ul;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull)
    {
        next();
        next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // Uniform in [a, b].
    ul in(ul a, ul b) { return a + next() % (b - a + 1); }
    bool chance(ul num, ul den) { return next() % den < num; }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 1000003ull + b);
    return r.next();
}

inline double dyadic(Rng& r, long lo, long hi, long den)
{
    return (double)(long)(lo + (long)(r.next() % (uint64_t)(hi - lo + 1)))
        / (double)den;
}

// Weights are multiples of 1/8: with bounded intensities every penalty is
// exact in binary floating point, so that the oracles can compare exactly
// and an algebraic rewrite of the library cannot change a result.
inline double weight(Rng& r)
{
    switch (r.in(0, 5))
    {
        case 0: return 1;
        case 1: return (double)r.in(1, 40);
        case 2: return dyadic(r, 1, 64, 8);
        case 3: return (double)(1ul << r.in(0, 12));
        case 4: return 0.125;
        default: return (double)r.in(1, 3);
    }
}

enum Style
{
    NOISE, FEW, SHIFT, BLACK, GRADIENT, STRIPES, EXTREME, STEREO, HOLES, STYLES
};
inline const char* style_name(int s)
{
    static const char* n[] = {"noise", "few-levels", "shifted", "black",
                              "gradient", "stripes", "extreme", "stereo-scene",
                              "holes"};
    return n[s];
}

inline void fill_images(Rng& r, Instance& i, int style)
{
    i.L.assign(i.W * i.H, 0);
    i.R.assign(i.W * i.H, 0);
    auto set = [&](std::vector<ul>& v, ul x, ul y, ul val) {
        v[y * i.W + x] = std::min(val, i.maxv);
    };
    switch (style)
    {
        case BLACK:
            for (auto& v : i.L) v = r.chance(1, 12) ? r.in(0, i.maxv) : 0;
            for (auto& v : i.R) v = r.chance(1, 20) ? r.in(0, i.maxv) : 0;
            break;
        case FEW:
        {
            ul k = r.in(1, 3);
            for (auto& v : i.L) v = std::min(i.maxv, r.in(0, k));
            for (auto& v : i.R) v = std::min(i.maxv, r.in(0, k));
            break;
        }
        case GRADIENT:
        {
            ul a = r.in(1, 7), b = r.in(0, 5);
            for (ul y = 0; y < i.H; ++y)
                for (ul x = 0; x < i.W; ++x)
                {
                    set(i.L, x, y, a * x + b * y);
                    set(i.R, x, y, a * (x + r.in(0, i.D - 1)) + b * y);
                }
            break;
        }
        case STRIPES:
        {
            ul p = r.in(1, 4);
            for (ul y = 0; y < i.H; ++y)
                for (ul x = 0; x < i.W; ++x)
                {
                    set(i.L, x, y, (x / p) % 2 ? i.maxv : 0);
                    set(i.R, x, y, ((x + r.in(0, 1)) / p) % 2 ? i.maxv : 0);
                }
            break;
        }
        case EXTREME:
            for (auto& v : i.L) v = r.chance(1, 2) ? i.maxv : 0;
            for (auto& v : i.R) v = r.chance(1, 2) ? i.maxv : 0;
            break;
        case SHIFT:
        {
            ul sh = r.in(0, i.D - 1);
            for (auto& v : i.L) v = r.in(0, i.maxv);
            for (ul y = 0; y < i.H; ++y)
                for (ul x = 0; x < i.W; ++x)
                    set(i.R, x, y,
                        x + sh < i.W ? i.L[y * i.W + x + sh]
                                     : r.in(0, i.maxv));
            break;
        }
        case STEREO:
        {
            // A foreground rectangle in front of a background.
            ul bg = r.in(0, i.D / 2), fg = r.in(bg, i.D - 1);
            ul x0 = r.in(0, i.W - 1), x1 = r.in(x0, i.W - 1);
            ul y0 = r.in(0, i.H - 1), y1 = r.in(y0, i.H - 1);
            for (auto& v : i.L) v = r.in(0, i.maxv);
            for (ul y = 0; y < i.H; ++y)
                for (ul x = 0; x < i.W; ++x)
                {
                    ul d = x >= x0 && x <= x1 && y >= y0 && y <= y1 ? fg : bg;
                    d = std::min(d, i.W - 1 - x);
                    set(i.R, x, y, i.L[y * i.W + x + d] + r.in(0, 1));
                }
            break;
        }
        case HOLES:
            // Disparities of a pixel form a set with holes: the hardest case
            // for greedy choices and for propagation around cycles.
            for (auto& v : i.L) v = r.chance(1, 2) ? 0 : std::min<ul>(i.maxv, r.in(1, 2) * 7);
            for (auto& v : i.R) v = r.chance(3, 5) ? 0 : std::min<ul>(i.maxv, 7);
            break;
        default:
            for (auto& v : i.L) v = r.in(0, i.maxv);
            for (auto& v : i.R) v = r.in(0, i.maxv);
    }
}

struct Limits
{
    ul maxW = 8, maxH = 6, maxD = 8, minW = 2, minD = 2;
    ul cells = 1000000;  // bound of W*H*D
};

inline Instance instance(Rng& r, const Limits& lim, int* style_out = nullptr)
{
    Instance i;
    for (;;)
    {
        i.W = r.in(lim.minW, lim.maxW);
        i.H = r.in(1, lim.maxH);
        if (r.chance(1, 8)) i.H = 1;
        if (r.chance(1, 12)) i.W = lim.minW;
        i.D = r.in(lim.minD, std::min(lim.maxD, i.W));
        if (r.chance(1, 5)) i.D = std::min(lim.maxD, i.W);
        if (i.W * i.H * i.D <= lim.cells) break;
    }
    switch (r.in(0, 4))
    {
        case 0: i.maxv = r.in(1, 4); break;
        case 1: i.maxv = 255; break;
        case 2: i.maxv = r.in(1, 1000); break;
        case 3: i.maxv = r.in(1, 20); break;
        default: i.maxv = r.chance(1, 2) ? 65536 : 65535;
    }
    i.c = weight(r);
    i.s = weight(r);
    if (r.chance(1, 16)) i.c = 0;
    else if (r.chance(1, 16)) i.s = 0;
    if (r.chance(1, 5))
    {
        // Other orders of magnitude; a power of two keeps exactness.
        int e = (int)(r.chance(1, 8) ? r.in(31, 300) : r.in(1, 30));
        i.unit = std::ldexp(1.0, r.chance(2, 3) ? -e : e);
        i.c *= i.unit;
        i.s *= i.unit;
    }
    int style = (int)r.in(0, STYLES - 1);
    if (style_out) *style_out = style;
    fill_images(r, i, style);
    return i;
}

// Random reparametrization on existing (node, neighbour) pairs; multiples of
// 1/4, or of 2^-22 where values of single precision do not do, so that sums
// stay exact.
inline void add_phi(Rng& r, Instance& i, bool fine = false)
{
    long mag = (long)r.in(1, 6) * (r.chance(1, 3) ? 40 : 4);
    fine = fine && i.maxv <= 255 && i.c <= 16 * i.unit && i.W * i.H * i.D * i.D <= 3000
        && r.chance(1, 5);
    ul dens = r.in(1, 4);
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (int n = 0; n < 4; ++n)
            {
                if (!i.pixel((long)x + ref::DX[n], (long)y + ref::DY[n]))
                    continue;
                for (ul d = 0; d < i.nd(x); ++d)
                    if (r.chance(dens, 4))
                        i.ph_ref(x, y, n, d)
                            = (fine ? dyadic(r, -mag * (1 << 21), mag * (1 << 21), 1 << 22)
                               : dyadic(r, -mag, mag, 4)) * i.unit;
            }
    if (i.phi.empty()) i.phi.assign(i.W * i.H * 4 * i.D, 0.0);
}

// More than 64 disparity levels.
inline Instance deep(Rng& r, int* style = nullptr)
{
    Limits l;
    l.minW = 66, l.maxW = 80, l.minD = 65, l.maxD = 80, l.maxH = 1;
    bool deeper = r.chance(1, 10);
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    deeper = false;  // would take too long
#endif
    if (deeper) l.minW = 130, l.maxW = 140, l.minD = 129, l.maxD = 140;
    else if (r.chance(1, 3)) l.maxH = 2;
    return instance(r, l, style);
}

// More than 4096 nodes.
inline Instance large(Rng& r)
{
    Limits l;
    l.minW = 24, l.maxW = 40, l.maxH = 40, l.minD = 6, l.maxD = 10;
    l.cells = 12000;
    for (;;)
    {
        Instance i = instance(r, l);
        if (i.W * i.H * i.D > 5000) return i;
    }
}

// More than 64 columns and 64 rows.
inline Instance tiles(Rng& r)
{
    Limits l;
    l.minW = 65, l.maxW = 72, l.maxH = 72, l.maxD = 3;
    for (;;)
    {
        Instance i = instance(r, l);
        if (i.H > 64) return i;
    }
}

inline Instance large_or_tiles(Rng& r)
{
    return r.chance(1, 2) ? large(r) : tiles(r);
}

// More than 65536 pixels and more than 2^17 nodes, of few labels. Smaller ones
// in slow builds: a correct solution may need time quadratic in the rows.
inline Instance huge(Rng& r)
{
    Instance i;
    static const ul shapes[][3] = {{70000, 1, 2}, {2, 70000, 2}, {3, 66000, 3},
                                   {280, 280, 4}, {1100, 66, 4}, {66, 1100, 4}};
    const ul* s = shapes[r.in(0, 5)];
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    static const ul slow[][3] = {{7000, 1, 2}, {2, 3000, 2}, {3, 2800, 3},
                                 {80, 80, 4}, {300, 66, 4}, {66, 300, 4}};
    s = slow[(s - shapes[0]) / 3];
#endif
    i.W = s[0] + r.in(0, s[0] > 3 ? 40 : 0);
    i.H = s[1] + r.in(0, s[1] > 1 ? 40 : 0);
    i.D = s[2];
    i.maxv = r.in(1, 3);
    i.c = weight(r);
    i.s = weight(r);
    i.L.resize(i.W * i.H);
    i.R.resize(i.W * i.H);
    for (auto& v : i.L) v = r.in(0, i.maxv);
    for (auto& v : i.R) v = r.in(0, i.maxv);
    return i;
}

// A shape class and an instance of it: mostly small ones, where every
// combination of borders occurs, some long, wide or big ones.
inline Instance mixed(Rng& r, bool big = true, int* style = nullptr,
                      bool deep_too = true)
{
    if (big && deep_too && r.chance(1, 300)) return deep(r, style);
    Limits l;
    ul k = r.in(0, 99);
    if (k < 35) l.maxW = 5, l.maxH = 4, l.maxD = 5;
    else if (k < 72) l.maxW = 9, l.maxH = 7, l.maxD = 8;
    else if (k < 92 || !big) l.maxW = 18, l.maxH = 9, l.maxD = 12, l.cells = 1000;
    else if (k < 94)
    {
        l.maxW = 72, l.maxH = 3, l.maxD = 6, l.cells = 1100;
        if (r.chance(1, 4)) l.minW = 200, l.maxW = 300, l.maxH = 1, l.maxD = 3;
    }
    else if (k < 96)
    {
        l.maxW = 5, l.maxH = 72, l.maxD = 4, l.cells = 1100;
        if (r.chance(1, 4)) l.maxW = 3, l.maxH = 300, l.maxD = 3, l.cells = 2000;
    }
    else if (k < 98) l.maxW = 40, l.maxH = 3, l.maxD = 40, l.cells = 2000;
    else l.maxW = 26, l.maxH = 20, l.maxD = 12, l.cells = 3500;
    return instance(r, l, style);
}

// The smallest hand-made problem where the best label of a consistent pixel
// leads to a dead end (a cycle of pixels whose sets of labels have holes),
// varied: shifted, scaled, repeated rows, noise elsewhere.
inline Instance dead_end(Rng& r)
{
    Instance i;
    ul px = r.in(0, 3), extra = r.in(0, 2);
    i.W = 18 + px; i.H = 2 + extra; i.D = 15; i.maxv = 200;
    double f = (double)(1ul << r.in(0, 3));
    i.c = f; i.s = f;
    ul base = r.in(60, 160);
    i.L.assign(i.W * i.H, base);
    i.R.assign(i.W * i.H, base);
    auto l = [&](ul x, ul y) -> ul& { return i.L[y * i.W + x]; };
    auto rr = [&](ul x, ul y) -> ul& { return i.R[y * i.W + x]; };
    l(7, 0) = 9; l(9, 0) = 12; l(10, 0) = 10; l(13, 0) = 11;
    rr(0, 0) = 10; rr(1, 0) = 11;
    l(8, 1) = l(11, 1) = l(12, 1) = 19; l(9, 1) = l(13, 1) = 21;
    rr(0, 1) = 19; rr(1, 1) = 21;
    for (ul x = 2; x < 14; ++x) rr(x, 1) = 20;
    for (ul y = 2; y < i.H; ++y)
        for (ul x = 0; x < i.W; ++x)
        {
            l(x, y) = l(x, 1);
            rr(x, y) = rr(x, 1);
        }
    if (r.chance(1, 2))
    {
        ul n = r.in(1, 4);
        for (ul j = 0; j < n; ++j)
        {
            ul q = r.in(0, i.W * i.H - 1);
            ul& v = (r.chance(1, 2) ? i.L : i.R)[q];
            v = std::min<ul>(i.maxv, v + r.in(0, 2));
        }
    }
    return i;
}

// Two labels, and a path through the image along which nodes can be removed
// one after another only, for the threshold i.unit: the node at the end of
// the path is removed by its penalty, each other one depends on the next one.
// Half of the steps of the path go against any order of pixels. If it is
// dead, the start of the path needs the removed label, so that the problem is
// not solvable, which only the last step shows.
inline Instance chain(Rng& r, bool dead, ul maxW = 20, ul maxH = 20)
{
    Instance i;
    i.W = r.in(3, maxW); i.H = r.in(2, maxH); i.D = 2; i.maxv = 3;
    if (r.chance(1, 4)) i.unit = std::ldexp(1.0, (int)r.in(0, 30) - 15);
    i.c = 4 * i.unit;
    i.s = r.chance(1, 2) ? 0 : i.unit / 8;
    // Nodes of the last column have one label, the path avoids it.
    ul w = i.W - 1, h = i.H;
    std::vector<std::pair<ul, ul>> path;
    int kind = (int)r.in(0, 2);
    if (kind == 2)
    {
        // A walk that never visits a pixel again; the longest of some.
        for (int k = 0; k < 8; ++k)
        {
            std::vector<std::pair<ul, ul>> q{{r.in(0, w - 1), r.in(0, h - 1)}};
            std::vector<char> used(w * h, 0);
            used[q[0].first * h + q[0].second] = 1;
            int last = (int)r.in(0, 3);
            for (;;)
            {
                int opt[4], num = 0;
                for (int n = 0; n < 4; ++n)
                {
                    long x = (long)q.back().first + ref::DX[n];
                    long y = (long)q.back().second + ref::DY[n];
                    if (x < 0 || y < 0 || x >= (long)w || y >= (long)h
                        || used[(ul)x * h + (ul)y])
                        continue;
                    opt[num++] = n;
                }
                if (!num) break;
                int n = opt[r.in(0, (ul)num - 1)];
                for (int j = 0; j < num; ++j)
                    if (opt[j] == last && r.chance(2, 3)) n = last;
                last = n;
                q.push_back({q.back().first + (ul)(long)ref::DX[n],
                             q.back().second + (ul)(long)ref::DY[n]});
                used[q.back().first * h + q.back().second] = 1;
            }
            if (q.size() > path.size()) path = q;
        }
    }
    else
    {
        // Along rows or columns, there and back.
        ul a = kind ? w : h, b = kind ? h : w;
        for (ul k = 0; k < a; ++k)
            for (ul j = 0; j < b; ++j)
            {
                ul z = k % 2 ? b - 1 - j : j;
                path.push_back(kind ? std::make_pair(k, z)
                                    : std::make_pair(z, k));
            }
    }
    if (r.chance(1, 2)) std::reverse(path.begin(), path.end());
    // Label d is kept, the other one is removed along the path.
    for (size_t k = 0; k + 1 < path.size(); ++k)
    {
        auto a = path[k], b = path[k + 1];
        for (int n = 0; n < 4; ++n)
            if (a.first + (ul)(long)ref::DX[n] == b.first
                && a.second + (ul)(long)ref::DY[n] == b.second)
            {
                i.ph_ref((long)a.first, (long)a.second, n, 0) = i.unit;
                i.ph_ref((long)b.first, (long)b.second, ref::OPP[n], 0)
                    = -i.unit;
            }
    }
    i.L.assign(i.W * i.H, 0);
    auto step = [&](std::pair<ul, ul> p) {
        for (ul x = p.first + 1; x < i.W; ++x) ++i.L[p.second * i.W + x];
    };
    step(path.back());
    if (dead) step(path.front());
    i.R = i.L;
    if (dead && path.size() > 1)
        ++i.R[path.front().second * i.W + path.front().first];
    return i;
}

inline void add_random_weights(Rng& r, Instance& i)
{
    // Not exactly representable ones; oracles must use a tolerance then.
    static const double w[] = {0.1, 3.7, 1e-3, 1e6 / 3, 2.0 / 3, 17.31, 1e-6,
                               123456.789};
    i.c = w[r.in(0, 7)];
    i.s = w[r.in(0, 7)];
}

}

#endif
