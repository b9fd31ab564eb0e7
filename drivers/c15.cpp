// C15: what is written.
#include "driver.hpp"
#include "pgm_ref.hpp"
#include <image.hpp>
#include <pgm_io.hpp>
using sp::image::Image;
using sp::image::PGM_IO;
using ref::ul;
void drv::teardown(Ctx&) {}
void drv::setup(Ctx&) {}

struct Out : std::streambuf
{
    std::string got;
    size_t limit;
    int how;  // 0: breaks, 1: throws, 2: refuses once
    size_t refused = 0;
    Out(size_t limit, int how) : limit(limit), how(how) {}
    int_type overflow(int_type ch) override
    {
        if (got.size() >= limit && !(how == 2 && refused))
        {
            ++refused;
            if (how == 1) throw std::runtime_error("the device broke");
            return traits_type::eof();
        }
        got += (char)ch;
        return ch;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        std::streamsize room = (std::streamsize)(limit - got.size());
        if (how == 2 && refused) room = n;
        std::streamsize k = std::min(n, room);
        got.append(s, (size_t)k);
        if (k < n)
        {
            ++refused;
            if (how == 1) throw std::runtime_error("the device broke");
        }
        return k;
    }
};

void drv::run_case(Ctx& c, Rng& r)
{
    // Nothing to write.
    if (r.chance(1, 6))
    {
        PGM_IO io;
        std::string what = "no image";
        if (r.chance(5, 6))
        {
            pgm::Tokens t = pgm::tokens(r);
            Image i{t.w, t.h, t.max, t.values};
            if (r.chance(1, 60))
            {
                // Big enough for small types of counters.
                i.width = r.in(250, 300);
                i.height = r.in(225, 300);
                i.data.assign(i.width * i.height, i.max_value);
            }
            switch (r.in(0, 5))
            {
                case 0: i.width = 0; what = "width 0"; break;
                case 1: i.height = 0; what = "height 0"; break;
                case 2: i.max_value = 0; what = "max 0"; break;
                case 3:
                    i.data.back() = i.max_value + 1;
                    what = "last intensity too big";
                    break;
                case 4:
                    i.data[r.in(0, i.data.size() - 1)]
                        = (r.in(1, 3) << (r.chance(1, 2) ? 32 : r.in(17, 62)))
                        + r.in(0, i.max_value);
                    what = "huge intensity";
                    break;
                default:
                    i.data[r.in(0, i.data.size() - 1)] = i.max_value
                        + r.in(1, 1000);
                    what = "intensity too big";
            }
            io.set_image(std::make_shared<Image>(i));
        }
        std::ostringstream o;
        o << "before";
        o << io;
        if (!o.good() || o.str() != "before")
            return c.viol("writes-invalid",
                          what + ": wrote " + pgm::show(o.str()));
        c.count("nothing-written");
        return;
    }
    pgm::Tokens t = pgm::tokens(r);
    if (r.chance(1, 4))
    {
        // Longest numbers and rows around the limits of a line.
        t.w = r.in(1, 40);
        t.h = r.in(1, 4);
        t.max = r.chance(1, 2) ? 65536 : 65535;
        t.values.assign(t.w * t.h, 0);
        for (auto& v : t.values) v = t.max - r.in(0, r.chance(1, 2) ? 0 : 60000);
    }
    if (r.chance(1, 400))
    {
        // More than 65536 columns or rows.
        t.w = r.in(65530, 70000);
        t.h = r.in(1, 2);
        if (r.chance(1, 2)) std::swap(t.w, t.h);
        t.values.assign(t.w * t.h, 0);
        for (auto& v : t.values) v = r.in(0, t.max);
        c.count("images-of-about-65536-columns-or-rows");
    }
    auto img = std::make_shared<Image>(Image{t.w, t.h, t.max, t.values});
    PGM_IO io{img};
    std::ostringstream o;
    o << io;
    std::string s = o.str();
    std::string ctx = cat(" in ", pgm::show(s), " of ", t.w, "x", t.h, " max ",
                          t.max);
    if (!o.good()) return c.viol("stream", "stream is not good" + ctx);
    if (s.empty() || s.back() != '\n')
        return c.viol("newline", "no newline at the end" + ctx);
    for (unsigned char ch : s)
        if (ch >= 128 || ch == 0)
            return c.viol("ascii", cat("character ", (int)ch, ctx));
    pgm::Parsed p = pgm::parse(s);
    if (p.verdict != pgm::ACCEPT)
        return c.viol("grammar", "not a plain PGM text: " + p.why + ctx);
    if (p.w != t.w || p.h != t.h || p.max != t.max || p.data != t.values)
        return c.viol("values", "other image" + ctx);
    // Lines, and rows that start on new lines.
    size_t a = 0, longest = 0;
    ul tokens = 0;
    while (a < s.size())
    {
        size_t b = s.find('\n', a);
        longest = std::max(longest, b - a);
        if (b - a > 70)
            return c.viol("line-length", cat("line of ", b - a,
                                             " characters", ctx));
        std::string line = s.substr(a, b - a);
        line = line.substr(0, line.find('#'));
        bool inside = false;
        ul pos = 0;
        for (char ch : line)
        {
            if (!pgm::space((unsigned char)ch) && !inside)
            {
                inside = true;
                // Token number tokens+pos; rows are tokens 4, 4+w, ...
                ul id = tokens + pos;
                if (id >= 4 && (id - 4) % t.w == 0 && pos != 0)
                    return c.viol("row", cat("row ", (id - 4) / t.w,
                                             " does not start on a new line",
                                             ctx));
                ++pos;
            }
            else if (pgm::space((unsigned char)ch)) inside = false;
        }
        tokens += pos;
        a = b + 1;
    }
    c.count("texts");
    c.maximum("longest-line", longest);
    c.distinct(hash(s));
    c.sample(pgm::show(s, 200));
    // A stream which had other uses before.
    if (r.chance(1, 2))
    {
        std::ostringstream q;
        std::string what = pgm::unusual(r, q);
        q << io;
        if (q.str() != s)
            return c.viol("format-of-stream",
                          "a stream with" + what + " got "
                              + pgm::show(q.str()) + ctx);
        if (!what.empty()) c.count("streams-with-other-formats");
    }
    // The device breaks.
    std::vector<size_t> at;
    if (s.size() < 160)
        for (size_t i = 0; i < s.size(); ++i) at.push_back(i);
    else
    {
        for (int i = 0; i < 20; ++i) at.push_back(r.in(0, s.size() - 1));
        at.push_back(s.size() - 1);
    }
    for (size_t n : at)
        for (int how = 0; how < 3; ++how)
        {
            Out buf(n, how);
            std::ostream out(&buf);
            bool throws = r.chance(1, 8);
            if (throws) out.exceptions(std::ios::failbit | std::ios::badbit);
            try
            {
                out << io;
            }
            catch (const std::exception& e)
            {
                // The device's exception is passed on only when asked for.
                if (!throws)
                    return c.viol("broken-output",
                                  cat("writing threw ", e.what(), ctx));
                c.count("broken-outputs-with-exceptions");
            }
            if (!out.fail())
                return c.viol("broken-output",
                              cat("output breaks at byte ", n,
                                  ", but the stream is good", ctx));
            if (how < 2 && s.compare(0, buf.got.size(), buf.got) != 0)
                return c.viol("broken-output",
                              cat("after the break at byte ", n, " wrote ",
                                  pgm::show(buf.got), ctx));
            c.count("broken-outputs");
        }
    Out buf(s.size(), 0);
    std::ostream out(&buf);
    out << io;
    if (!out.good() || buf.got != s)
        return c.viol("exact-room", "output of the exact size failed" + ctx);
}
