// Independent reference model of the stereo problem, written from the
// documentation (include/*.hpp comments), not from lib/*.cpp.
// It shares no code and no array layout with the library.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref
{

using std::vector;
typedef unsigned long ul;

// Directions in the documented order: right, left, bottom, top.
static const int DX[4] = {1, -1, 0, 0};
static const int DY[4] = {0, 0, 1, -1};
static const int OPP[4] = {1, 0, 3, 2};

struct Instance
{
    ul W = 0, H = 0, D = 0, maxv = 0;
    vector<ul> L, R;      // row-major
    double c = 1, s = 1;  // cleanness, smoothness
    double unit = 1;      // of weights and reparametrization (generators)
    vector<double> phi;   // empty == all zero; [((x*H+y)*4+n)*D+d]

    bool has_phi() const { return !phi.empty(); }
    double ph(long x, long y, int n, ul d) const
    {
        return phi.empty() ? 0.0 : phi[((x * H + y) * 4 + n) * D + d];
    }
    double& ph_ref(long x, long y, int n, ul d)
    {
        if (phi.empty())
        {
            phi.assign(W * H * 4 * D, 0.0);
        }
        return phi[((x * H + y) * 4 + n) * D + d];
    }
    bool pixel(long x, long y) const
    {
        return x >= 0 && y >= 0 && x < (long)W && y < (long)H;
    }
    // Number of disparities of the pixel in column x.
    ul nd(long x) const { return std::min(D, W - (ul)x); }
    bool node(long x, long y, ul d) const
    {
        return pixel(x, y) && d < nd(x);
    }
    double node_pen(long x, long y, ul d) const
    {
        double diff = (double)R[y * W + x] - (double)L[y * W + x + d];
        double res = c * (diff * diff);
        for (int n = 0; n < 4; ++n)
        {
            if (pixel(x + DX[n], y + DY[n]))
            {
                res += ph(x, y, n, d);
            }
        }
        return res;
    }
    // Edge from (x, y, d) to its neighbour in direction n with disparity e.
    bool edge(long x, long y, ul d, int n, ul e) const
    {
        long X = x + DX[n], Y = y + DY[n];
        if (!node(x, y, d) || !node(X, Y, e))
        {
            return false;
        }
        if (n == 0)
        {
            return d <= e + 1;
        }
        if (n == 1)
        {
            return e <= d + 1;
        }
        return true;
    }
    double edge_pen(long x, long y, ul d, int n, ul e) const
    {
        double diff = (double)d - (double)e;
        return s * (diff * diff) - ph(x, y, n, d)
            - ph(x + DX[n], y + DY[n], OPP[n], e);
    }
    double min_node(long x, long y) const
    {
        double m = std::numeric_limits<double>::infinity();
        for (ul d = 0; d < nd(x); ++d)
        {
            m = std::min(m, node_pen(x, y, d));
        }
        return m;
    }
    double min_edge(long x, long y, int n) const
    {
        double m = std::numeric_limits<double>::infinity();
        for (ul d = 0; d < D; ++d)
        {
            for (ul e = 0; e < D; ++e)
            {
                if (edge(x, y, d, n, e))
                {
                    m = std::min(m, edge_pen(x, y, d, n, e));
                }
            }
        }
        return m;
    }
    std::string str() const
    {
        std::ostringstream o;
        o.precision(17);
        o << "W=" << W << " H=" << H << " D=" << D << " max=" << maxv
          << " cleanness=" << c << " smoothness=" << s;
        if (L.size() > 20000)
        {
            // Too much to print: some numbers tell such instances apart.
            o << " L=[" << L[0] << " " << L[1];
            ul h = 0;
            for (ul v : L) h = h * 31 + v;
            for (ul v : R) h = h * 31 + v;
            o << " ...] checksum " << h;
            return o.str();
        }
        o << " L=[";
        for (ul i = 0; i < L.size(); ++i) o << (i ? " " : "") << L[i];
        o << "] R=[";
        for (ul i = 0; i < R.size(); ++i) o << (i ? " " : "") << R[i];
        o << "]";
        if (has_phi())
        {
            o << " phi(x,y,n,d)={";
            for (ul x = 0; x < W; ++x)
                for (ul y = 0; y < H; ++y)
                    for (int n = 0; n < 4; ++n)
                        for (ul d = 0; d < D; ++d)
                            if (ph(x, y, n, d) != 0)
                                o << "(" << x << "," << y << "," << n << ","
                                  << d << ")=" << ph(x, y, n, d) << " ";
            o << "}";
        }
        return o.str();
    }
};

// Precomputed tables for one instance: everything the oracles need.
struct Model
{
    const Instance& in;
    vector<double> mn;  // [x*H+y]
    vector<double> me;  // [(x*H+y)*4+n]
    explicit Model(const Instance& i) : in(i)
    {
        mn.resize(in.W * in.H);
        me.resize(in.W * in.H * 4);
        for (ul x = 0; x < in.W; ++x)
        {
            for (ul y = 0; y < in.H; ++y)
            {
                mn[x * in.H + y] = in.min_node(x, y);
                for (int n = 0; n < 4; ++n)
                {
                    if (in.pixel((long)x + DX[n], (long)y + DY[n]))
                    {
                        me[(x * in.H + y) * 4 + n] = in.min_edge(x, y, n);
                    }
                }
            }
        }
    }
    double node_dev(ul x, ul y, ul d) const
    {
        return in.node_pen(x, y, d) - mn[x * in.H + y];
    }
    double edge_dev(ul x, ul y, ul d, int n, ul e) const
    {
        return in.edge_pen(x, y, d, n, e) - me[(x * in.H + y) * 4 + n];
    }
};

// Set of available nodes: [(x*H+y)*D+d]
typedef vector<char> Avail;

inline ul at(const Instance& i, ul x, ul y, ul d)
{
    return (x * i.H + y) * i.D + d;
}

inline Avail initial(const Model& m, double eps)
{
    const Instance& i = m.in;
    Avail a(i.W * i.H * i.D, 0);
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (ul d = 0; d < i.nd(x); ++d)
                a[at(i, x, y, d)] = m.node_dev(x, y, d) <= eps;
    return a;
}

inline bool supported(const Model& m, double eps, const Avail& a, ul x, ul y,
                      ul d, int n)
{
    const Instance& i = m.in;
    ul X = x + DX[n], Y = y + DY[n];
    for (ul e = 0; e < i.nd(X); ++e)
    {
        if (a[at(i, X, Y, e)] && i.edge(x, y, d, n, e)
            && m.edge_dev(x, y, d, n, e) <= eps)
        {
            return true;
        }
    }
    return false;
}

// Greatest arc-consistent subset, by a worklist (no sweeps).
inline Avail closure(const Model& m, double eps, Avail a, ul* removed = nullptr)
{
    const Instance& i = m.in;
    std::deque<std::pair<ul, ul>> work;
    vector<char> queued(i.W * i.H, 0);
    for (ul x = i.W; x-- > 0;)
        for (ul y = i.H; y-- > 0;)
        {
            work.push_back({x, y});
            queued[x * i.H + y] = 1;
        }
    ul cnt = 0;
    while (!work.empty())
    {
        auto p = work.front();
        work.pop_front();
        queued[p.first * i.H + p.second] = 0;
        bool ch = false;
        for (ul d = 0; d < i.nd(p.first); ++d)
        {
            if (!a[at(i, p.first, p.second, d)])
            {
                continue;
            }
            for (int n = 0; n < 4; ++n)
            {
                if (i.pixel((long)p.first + DX[n], (long)p.second + DY[n])
                    && !supported(m, eps, a, p.first, p.second, d, n))
                {
                    a[at(i, p.first, p.second, d)] = 0;
                    ++cnt;
                    ch = true;
                    break;
                }
            }
        }
        if (ch)
        {
            for (int n = 0; n < 4; ++n)
            {
                long X = (long)p.first + DX[n], Y = (long)p.second + DY[n];
                if (i.pixel(X, Y) && !queued[X * i.H + Y])
                {
                    queued[X * i.H + Y] = 1;
                    work.push_back({(ul)X, (ul)Y});
                }
            }
        }
    }
    if (removed)
    {
        *removed = cnt;
    }
    return a;
}

inline bool any(const Avail& a)
{
    return std::find(a.begin(), a.end(), (char)1) != a.end();
}

// All values a threshold can usefully take, sorted and unique.
inline vector<double> candidates(const Model& m)
{
    const Instance& i = m.in;
    vector<double> s;
    auto squeeze = [&] {
        std::sort(s.begin(), s.end());
        s.erase(std::unique(s.begin(), s.end()), s.end());
    };
    size_t limit = 1 << 16;
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
        {
            for (ul d = 0; d < i.nd(x); ++d)
            {
                s.push_back(m.node_dev(x, y, d));
            }
            for (int n = 0; n < 4; ++n)
            {
                if (!i.pixel((long)x + DX[n], (long)y + DY[n])) continue;
                for (ul d = 0; d < i.D; ++d)
                    for (ul e = 0; e < i.D; ++e)
                        if (i.edge(x, y, d, n, e))
                            s.push_back(m.edge_dev(x, y, d, n, e));
            }
            if (s.size() > limit)
            {
                squeeze();
                limit = 2 * s.size() + (1 << 16);
            }
        }
    squeeze();
    return s;
}

// Least candidate for which the arc-consistent subset is not empty.
// Returns -1 when there is none (possible only with a reparametrization).
inline double min_threshold(const Model& m, const vector<double>& cand)
{
    ul lo = 0, hi = cand.size();
    while (lo < hi)
    {
        ul mid = lo + (hi - lo) / 2;
        if (any(closure(m, cand[mid], initial(m, cand[mid]))))
        {
            hi = mid;
        }
        else
        {
            lo = mid + 1;
        }
    }
    return lo == cand.size() ? -1 : cand[lo];
}

typedef vector<ul> Labeling;  // row-major disparities

// Largest deviation of a labeling; infinity if it is not admissible.
inline double worst(const Model& m, const Labeling& k)
{
    const Instance& i = m.in;
    double w = 0;
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
        {
            ul d = k[y * i.W + x];
            if (!i.node(x, y, d))
            {
                return std::numeric_limits<double>::infinity();
            }
            w = std::max(w, m.node_dev(x, y, d));
            for (int n = 0; n < 4; n += 2)
            {
                long X = (long)x + DX[n], Y = (long)y + DY[n];
                if (!i.pixel(X, Y)) continue;
                ul e = k[Y * i.W + X];
                if (!i.edge(x, y, d, n, e))
                {
                    return std::numeric_limits<double>::infinity();
                }
                w = std::max(w, m.edge_dev(x, y, d, n, e));
            }
        }
    return w;
}

inline double energy(const Instance& i, const Labeling& k)
{
    double w = 0;
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
        {
            ul d = k[y * i.W + x];
            w += i.node_pen(x, y, d);
            for (int n = 0; n < 4; n += 2)
            {
                long X = (long)x + DX[n], Y = (long)y + DY[n];
                if (i.pixel(X, Y))
                {
                    w += i.edge_pen(x, y, d, n, k[Y * i.W + X]);
                }
            }
        }
    return w;
}

// Exhaustive search of the smallest worst deviation. Only for tiny instances.
// Returns the number of complete admissible labelings visited in *visited.
inline double brute_minimax(const Model& m, ul* visited)
{
    const Instance& i = m.in;
    Labeling k(i.W * i.H, 0);
    double best = std::numeric_limits<double>::infinity();
    ul cnt = 0;
    std::function<void(ul, double)> go = [&](ul p, double cur) {
        if (cur >= best)
        {
            return;
        }
        if (p == i.W * i.H)
        {
            ++cnt;
            best = cur;
            return;
        }
        ul x = p % i.W, y = p / i.W;
        for (ul d = 0; d < i.nd(x); ++d)
        {
            double w = std::max(cur, m.node_dev(x, y, d));
            if (x > 0)
            {
                ul e = k[p - 1];
                if (!i.edge(x, y, d, 1, e)) continue;
                w = std::max(w, m.edge_dev(x, y, d, 1, e));
            }
            if (y > 0)
            {
                ul e = k[p - i.W];
                if (!i.edge(x, y, d, 3, e)) continue;
                w = std::max(w, m.edge_dev(x, y, d, 3, e));
            }
            k[p] = d;
            go(p + 1, w);
        }
    };
    go(0, 0);
    if (visited)
    {
        *visited = cnt;
    }
    return best;
}

// The documented choice of labels: pixels column by column, each at its best
// available node which does not make the rest inconsistent. Leaves the result
// in a; false when some pixel runs out of nodes.
inline bool greedy(const Model& m, double eps, Avail& a, ul* retries = nullptr)
{
    const Instance& i = m.in;
    a = closure(m, eps, a);
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
        {
            bool fixed = false, closed = true;
            while (!fixed)
            {
                long best = -1;
                ul options = 0;
                for (ul d = 0; d < i.nd(x); ++d)
                {
                    if (!a[at(i, x, y, d)]) continue;
                    ++options;
                    if (best < 0
                        || i.node_pen(x, y, d) < i.node_pen(x, y, best))
                    {
                        best = (long)d;
                    }
                }
                if (best < 0) return false;
                if (options == 1 && closed) break;
                Avail b = a;
                for (ul d = 0; d < i.nd(x); ++d)
                    b[at(i, x, y, d)] = d == (ul)best;
                b = closure(m, eps, b);
                if (any(b))
                {
                    a = b;
                    fixed = true;
                }
                else
                {
                    if (retries) ++*retries;
                    // Only this node is refused: the others stay candidates.
                    a[at(i, x, y, best)] = 0;
                    closed = false;
                }
            }
        }
    return true;
}

inline Labeling labeling_of(const Instance& i, const Avail& a)
{
    Labeling k(i.W * i.H, 0);
    for (ul x = 0; x < i.W; ++x)
        for (ul y = 0; y < i.H; ++y)
            for (ul d = 0; d < i.nd(x); ++d)
                if (a[at(i, x, y, d)]) k[y * i.W + x] = d;
    return k;
}

}

#endif
