// C16: validity of images and construction of problems.
#include "pipe.hpp"
#include <stdexcept>
using namespace pipe_;
NO_SETUP

void drv::run_case(Ctx& c, Rng& r)
{
    Instance in = gen::mixed(r);
    if (r.chance(1, 3000))
    {
        // More pixels than 16 bits count.
        in = Instance();
        in.W = r.in(200, 400);
        in.H = 65536 / in.W + r.in(1, 60);
        in.D = 2;
        in.maxv = r.in(1, 255);
        in.L.assign(in.W * in.H, 0);
        in.R.assign(in.W * in.H, 1);
        c.count("big-images");
    }
    if (r.chance(1, 8))
    {
        in.maxv = r.chance(1, 2) ? ~0ul : 1ul << r.in(17, 63);
        for (auto& v : in.L) v = r.chance(1, 2) ? in.maxv : r.in(0, in.maxv - 1);
    }
    Image L = left(in), R = right(in);
    ul D = in.D;
    double cw = in.c, sw = in.s;
    std::string what;
    ul defects = r.chance(1, 3) ? 0 : r.chance(1, 5) ? 2 : 1;
    for (ul q = 0; q < defects; ++q)
    {
        ul k = r.in(0, 22);
        Image& I = r.chance(1, 2) ? L : R;
        const char* which = &I == &L ? "left" : "right";
        switch (k)
        {
            case 0: I.width = 0; what += cat(which, " width 0;"); break;
            case 1: I.height = 0; what += cat(which, " height 0;"); break;
            case 2: I.max_value = 0; what += cat(which, " max 0;"); break;
            case 3: case 4: case 5:
            {
                // One intensity too big, at the first, last or any pixel.
                if (I.data.empty() || I.max_value == ~0ul) break;
                ul at = k == 3 ? 0 : k == 4 ? I.data.size() - 1
                                            : r.in(0, I.data.size() - 1);
                I.data[at] = r.chance(1, 2) ? I.max_value + 1
                    : r.chance(1, 2) ? ~0ul
                    : I.max_value + r.in(1, std::min(~0ul - I.max_value,
                                                     1ul << 40));
                what += cat(which, " pixel ", at, " too big;");
                break;
            }
            case 6:
            {
                I.width += 1;
                I.data.resize(I.width * I.height, 0);
                what += cat(which, " one column more;");
                break;
            }
            case 7:
            {
                I.height += 1;
                I.data.resize(I.width * I.height, 0);
                what += cat(which, " one row more;");
                break;
            }
            case 8:
                if (I.max_value != ~0ul) I.max_value += 1;
                what += cat(which, " max one more;");
                break;
            case 9: D = 0; what += "D 0;"; break;
            case 10: D = 1; what += "D 1;"; break;
            case 11: D = in.W + 1; what += "D width+1;"; break;
            case 12:
                D = in.W + r.in(1, 1000);
                // Numbers that fit into less bits without their upper ones.
                if (r.chance(1, 2))
                    D = (1ul << (r.chance(1, 2) ? 32 : r.in(10, 63)))
                        + r.in(0, in.W);
                what += "D above width;";
                break;
            case 13: D = ~0ul - r.in(0, 2); what += "D huge;"; break;
            case 14: cw = -gen::dyadic(r, 1, 100, 8); what += "c<0;"; break;
            case 15: sw = -gen::dyadic(r, 1, 100, 8); what += "s<0;"; break;
            case 16: cw = sw = 0; what += "both 0;"; break;
            case 17: cw = -1e-300; what += "c<0 tiny;"; break;
            case 18: sw = -1e-300; what += "s<0 tiny;"; break;
            case 19:
                // Same number of pixels, other shape.
                std::swap(I.width, I.height);
                what += cat(which, " transposed;");
                break;
            case 20: cw = -1e9; sw = 1e9; what += "c<0<s;"; break;
            case 21:
            {
                // Positive, though the program could take them for zeros.
                static const double tiny[] = {1e-15, 1e-16, 1e-17, 1e-30,
                                              1e-300, 5e-324};
                cw = tiny[r.in(0, 5)];
                sw = r.chance(1, 3) ? 0 : tiny[r.in(0, 5)];
                if (r.chance(1, 2)) std::swap(cw, sw);
                what += "weights tiny;";
                break;
            }
            default: cw = 0; what += "c=0;"; break;
        }
    }
    if (r.chance(1, 10)) cw = 1e-9, what += "c=1e-9;";
    if (r.chance(1, 10)) D = L.width, what += "D=width;";
    if (r.chance(1, 20)) D = 2;
    auto valid = [](const Image& i) {
        if (!i.width || !i.height || !i.max_value) return false;
        for (ul j = 0; j < i.width * i.height; ++j)
            if (i.data[j] > i.max_value) return false;
        return true;
    };
    bool vl = valid(L), vr = valid(R);
    std::string ctx = cat(" (", what, ") left ", L.width, "x", L.height,
                          " max ", L.max_value, ", right ", R.width, "x",
                          R.height, " max ", R.max_value, ", D=", D, " c=",
                          cw, " s=", sw);
    if (sp::image::image_valid(&L) != vl || sp::image::image_valid(&R) != vr)
        return c.viol("image-valid", "image_valid is wrong" + ctx);
    c.count(vl ? "valid-images" : "invalid-images");
    bool want = vl && vr && L.width == R.width && L.height == R.height
        && L.max_value == R.max_value && D >= 2 && D <= L.width && cw >= 0
        && sw >= 0 && (cw > 0 || sw > 0);
    bool built = false;
    DisparityGraph g;
    try
    {
        g = DisparityGraph{L, R, D, cw, sw};
        built = true;
    }
    catch (const std::invalid_argument&)
    {
    }
    catch (const std::exception& e)
    {
        return c.viol("other-exception", cat("exception ", e.what(), ctx));
    }
    if (built != want)
        return c.viol(built ? "accepts-invalid" : "refuses-valid",
                      cat(built ? "accepted" : "refused", ctx));
    c.count(built ? "accepted" : "refused");
    c.distinct(hash(ctx));
    c.sample((built ? "accepted" : "refused") + ctx);
    if (!built) return;
    auto same = [](const Image& a, const Image& b) {
        return a.width == b.width && a.height == b.height
            && a.max_value == b.max_value && a.data == b.data;
    };
    if (!same(g.left, L) || !same(g.right, R) || g.disparity_levels != D
        || g.cleanness != cw || g.smoothness != sw)
        return c.viol("parameters", "the problem differs from arguments" + ctx);
    for (ul x = 0; x < L.width; ++x)
        for (ul y = 0; y < L.height; ++y)
            for (int n = 0; n < 4; ++n)
            {
                Pixel q{x + ref::DX[n], y + ref::DY[n]};
                if (q.x >= L.width || q.y >= L.height) continue;
                for (ul d = 0; d < std::min(D, L.width - x); ++d)
                    if (g.reparametrization.at(
                            sp::indexing::reparametrization_index(
                                &g, node(x, y, d), q)) != 0)
                        return c.viol("reparametrization",
                                      "not zero initially" + ctx);
            }
}
