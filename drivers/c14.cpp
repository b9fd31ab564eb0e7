// C14: hostile bytes and breaking devices.
#include "driver.hpp"
#include "hostile.hpp"
using ref::ul;
void drv::teardown(Ctx&) {}
void drv::setup(Ctx&) {}

static std::string claims(gen::Rng& r)
{
    static const char* sizes[] = {"4294967296", "18446744073709551615",
                                  "1000000000", "65536", "2147483648",
                                  "9223372036854775807", "4294967295",
                                  "100000000", "12345678", "3"};
    std::string s = "P2 " + std::string(sizes[r.in(0, 9)]) + " "
        + sizes[r.in(0, 9)] + " " + (r.chance(1, 2) ? "255" : sizes[r.in(0, 9)])
        + "\n";
    ul n = r.in(0, 60);
    for (ul i = 0; i < n; ++i) s += std::to_string(r.in(0, 255)) + " ";
    return s;
}

void drv::run_case(Ctx& c, Rng& r)
{
    std::string text;
    ul kind = r.in(0, 7);
    std::string what;
    pgm::Tokens t = pgm::tokens(r);
    switch (kind)
    {
        case 0:
        {
            ul n = r.in(0, 300);
            for (ul i = 0; i < n; ++i) text += (char)r.in(0, 255);
            if (r.chance(1, 2)) text = "P2 " + text;
            what = "random bytes";
            break;
        }
        case 1: text = claims(r); what = "sizes claimed by the header"; break;
        case 2:
            text = pgm::join(r, pgm::damage(r, t.t, what));
            what = "damaged tokens";
            break;
        case 3:
        {
            text = pgm::join(r, t.t);
            ul n = r.in(1, 6);
            for (ul i = 0; i < n && !text.empty(); ++i)
            {
                ul at = r.in(0, text.size() - 1);
                switch (r.in(0, 3))
                {
                    case 0: text[at] = (char)r.in(0, 255); break;
                    case 1: text.erase(at, r.in(1, 5)); break;
                    case 2: text.insert(at, r.in(1, 4), (char)r.in(0, 255)); break;
                    default:
                        text.insert(at, text.substr(r.in(0, text.size() - 1),
                                                    r.in(1, 20)));
                }
            }
            what = "mutated bytes";
            break;
        }
        case 4:
            // One long token or comment.
            text = "P2 2 2 ";
            text += r.chance(1, 2) ? std::string(r.in(1, 20000), '9')
                                   : "#" + std::string(r.in(1, 20000), 'x');
            if (r.chance(1, 2)) text += "\n255 1 2 3 4";
            what = "long token";
            break;
        case 5:
        {
            // Now and then, more of them than any stack would bear.
            ul n = r.chance(1, 12) ? r.in(100000, 300000) : r.in(0, 400);
            for (ul i = 0; i < n; ++i) text += "#\n";
            text += pgm::join(r, t.t);
            what = "many comments";
            if (n > 400) c.count("thousands-of-comments");
            break;
        }
        case 6:
            text = pgm::join(r, t.t) + claims(r);
            what = "two images";
            break;
        default:
            text = pgm::join(r, t.t);
            what = "valid";
    }
    // Where the device breaks: nowhere, at some bytes, or at every byte.
    std::vector<std::pair<size_t, int>> plan;
    plan.push_back({~(size_t)0, 0});
    if (text.size() <= 60)
        for (size_t i = 0; i <= text.size(); ++i)
        {
            plan.push_back({i, 0});
            plan.push_back({i, 1});
        }
    else
        for (int q = 0; q < 12; ++q)
            plan.push_back({r.in(0, text.size()), (int)r.in(0, 1)});
    for (auto& p : plan)
    {
        size_t chunk = r.chance(1, 2) ? 64 : r.in(1, 64);
        auto o = hostile::check(text, p.first, p.second, chunk,
                                r.chance(1, 2), true);
        if (!o.error.empty())
            return c.viol(o.key, cat(o.error, " (", what, ", device ",
                                     p.first == ~(size_t)0 ? "complete"
                                     : p.second ? "throws" : "ends",
                                     " at byte ", (long)p.first, ") ",
                                     pgm::show(text)));
        c.count(o.ok ? "successes" : "failures");
        if (p.first != ~(size_t)0) c.count("broken-devices");
        c.maximum("bytes-of-memory", o.peak);
    }
    c.count(what);
    c.distinct(hash(text));
    c.sample(what + ": " + pgm::show(text, 160));
}
