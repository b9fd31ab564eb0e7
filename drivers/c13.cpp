// C13: the grammar of the reader.
#include "driver.hpp"
#include "pgm_ref.hpp"
#include <image.hpp>
#include <pgm_io.hpp>
using sp::image::Image;
using sp::image::PGM_IO;
using ref::ul;
void drv::teardown(Ctx&) {}
void drv::setup(Ctx&) {}

void drv::run_case(Ctx& c, Rng& r)
{
    PGM_IO io;
    ul n = r.in(1, 4);
    for (ul j = 0; j < n; ++j)
    {
        pgm::Tokens t = pgm::tokens(r);
        std::string text, what = "valid";
        ul kind = r.in(0, 9);
        if (kind < 4) text = pgm::join(r, t.t);
        else if (kind < 8) text = pgm::join(r, pgm::damage(r, t.t, what));
        else if (kind == 8)
        {
            // A valid text with characters changed.
            text = pgm::join(r, t.t);
            what = "mutated text";
            ul m = r.in(1, 3);
            static const char alpha[] = "P2 \n#0123456789-+a.\r\t";
            for (ul q = 0; q < m && !text.empty(); ++q)
            {
                ul at = r.in(0, text.size() - 1);
                switch (r.in(0, 2))
                {
                    case 0: text[at] = alpha[r.in(0, 20)]; break;
                    case 1: text.erase(at, 1); break;
                    default: text.insert(at, 1, alpha[r.in(0, 20)]);
                }
            }
        }
        else
        {
            text = pgm::join(r, t.t);
            text.resize(r.in(0, text.size()));
            what = "truncated text";
        }
        pgm::Parsed p = pgm::parse(text);
        std::string ctx = " of " + pgm::show(text);
        if (kind < 4 && (p.verdict != pgm::ACCEPT || p.data != t.values))
        {
            // A number glued to a comment in front of another one, and the
            // like: generator and parser have to agree.
            std::fprintf(stderr, "parser and generator disagree%s: %s\n",
                         ctx.c_str(), p.why.c_str());
            _exit(78);
        }
        if (kind >= 4 && kind < 8 && p.verdict == pgm::ACCEPT)
        {
            c.count("defects-without-effect");
        }
        auto before = io.get_image();
        Image copy{0, 0, 0, {}};
        if (before) copy = *before;
        std::istringstream in(text);
        bool throws = r.chance(1, 6), ok;
        if (throws)
        {
            // Failures are exceptions, success is silent.
            in.exceptions(std::ios::failbit | std::ios::badbit);
            ok = true;
            try
            {
                in >> io;
            }
            catch (const std::ios_base::failure&)
            {
                ok = false;
            }
            if (ok == in.fail())
                return c.viol("exceptions", "an exception without failure or "
                              "a failure without exception" + ctx);
            ctx += " from a stream with exceptions";
            c.count("streams-with-exceptions");
        }
        else
        {
            in >> io;
            ok = !in.fail();
        }
        auto after = io.get_image();
        if (p.verdict == pgm::EITHER)
        {
            c.count("without-claim");
            if (!ok && after != before)
                return c.viol("not-all-or-nothing", "image replaced by a "
                              "failed reading" + ctx);
            if (ok && after == before)
                return c.viol("success-without-image", "no image" + ctx);
            if (after && after == before
                && (copy.width != after->width || copy.data != after->data
                    || copy.height != after->height
                    || copy.max_value != after->max_value))
                return c.viol("old-image-changed", "the current image was "
                              "modified" + ctx);
            continue;
        }
        if (ok != (p.verdict == pgm::ACCEPT))
            return c.viol(ok ? "accepts" : "refuses",
                          (ok ? "accepted, but has " + p.why + " (" + what + ")"
                              : "refused a valid text") + ctx);
        if (!ok)
        {
            if (after != before)
                return c.viol("not-all-or-nothing",
                              "image replaced by a failed reading (" + what
                                  + ")" + ctx);
            if (after
                && (copy.width != after->width || copy.data != after->data
                    || copy.height != after->height
                    || copy.max_value != after->max_value))
                return c.viol("old-image-changed",
                              "the current image was modified (" + what + ")"
                                  + ctx);
            c.count("refused: " + (p.why.empty() ? what : p.why));
        }
        else
        {
            if (!after)
                return c.viol("success-without-image", "no image" + ctx);
            if (after->width != p.w || after->height != p.h
                || after->max_value != p.max || after->data != p.data)
            {
                std::string got = cat(after->width, "x", after->height,
                                      " max ", after->max_value, ":");
                for (ul q = 0; q < after->data.size() && q < 30; ++q)
                    got += cat(" ", after->data[q]);
                return c.viol("values", "read " + got + ctx);
            }
            if (before && after == before)
                return c.viol("values", "the old image was kept" + ctx);
            if (before
                && (copy.width != before->width || copy.data != before->data
                    || copy.height != before->height))
                return c.viol("old-image-changed", "the old image, which "
                              "others may hold, was modified" + ctx);
            c.count("accepted");
            if (text.find('#') != std::string::npos)
                c.count("accepted-with-comments");
        }
        c.distinct(hash(text));
        c.sample((ok ? "accepted " : "refused ") + pgm::show(text, 200));
        // A stream which failed before is not read.
        if (r.chance(1, 20))
        {
            std::istringstream f(pgm::join(r, pgm::tokens(r).t));
            f.setstate(r.chance(1, 2) ? std::ios::failbit : std::ios::badbit);
            auto was = io.get_image();
            f >> io;
            if (!f.fail() || io.get_image() != was)
                return c.viol("failed-stream", "a stream in a failure state "
                              "was read");
            c.count("streams-failed-before");
        }
    }
}
