// C12: write and read back.
#include "driver.hpp"
#include "pgm_ref.hpp"
#include <image.hpp>
#include <pgm_io.hpp>
using sp::image::Image;
using sp::image::PGM_IO;
using ref::ul;
void drv::teardown(Ctx&) {}
void drv::setup(Ctx&) {}

static std::shared_ptr<Image> make(gen::Rng& r)
{
    pgm::Tokens t = pgm::tokens(r);
    if (r.chance(1, 100))
    {
        // Big: the stream's buffers are refilled many times.
        t.w = r.in(100, 400);
        t.h = r.in(20, 120);
        if (r.chance(1, 4))
        {
            // More than 65536 columns or rows.
            t.w = r.in(65530, 70000);
            t.h = r.in(1, 2);
            if (r.chance(1, 2)) std::swap(t.w, t.h);
        }
        t.values.assign(t.w * t.h, 0);
        for (auto& v : t.values) v = r.in(0, t.max);
    }
    return std::make_shared<Image>(Image{t.w, t.h, t.max, t.values});
}

static bool same(const Image& a, const Image& b)
{
    return a.width == b.width && a.height == b.height
        && a.max_value == b.max_value && a.data == b.data;
}

static std::string show(const Image& i)
{
    std::string s = drv::cat(i.width, "x", i.height, " max ", i.max_value, " [");
    for (ul j = 0; j < i.data.size() && j < 60; ++j)
        s += drv::cat(j ? " " : "", i.data[j]);
    return s + (i.data.size() > 60 ? " ...]" : "]");
}

void drv::run_case(Ctx& c, Rng& r)
{
    PGM_IO reader, writer;
    ul n = r.in(1, 3);
    std::shared_ptr<Image> held;  // what the reader read before
    Image before{0, 0, 0, {}};
    for (ul j = 0; j < n; ++j)
    {
        auto img = make(r);
        Image copy = *img;
        std::string ctx = " of " + show(copy);
        if (r.chance(1, 2)) writer = PGM_IO{img};
        else writer.set_image(img);
        if (writer.get_image() != img)
            return c.viol("holder", "writer does not hold the image" + ctx);
        std::string bytes;
        bool file = r.chance(1, 4);
        std::string path = c.scratch + "/x.pgm";
        if (file)
        {
            std::ofstream o(path);
            if (r.chance(1, 3)) ctx += " with" + pgm::unusual(r, o);
            o << writer;
            o.close();
            if (!o) return c.viol("write", "writing to a file failed" + ctx);
            std::ifstream i(path);
            i >> reader;
            if (i.fail())
                return c.viol("read", "reading the file failed" + ctx);
            std::ifstream b(path, std::ios::binary);
            bytes.assign(std::istreambuf_iterator<char>(b), {});
            c.count("through-files");
        }
        else
        {
            std::stringstream s;
            if (r.chance(1, 3)) ctx += " with" + pgm::unusual(r, s);
            s << writer;
            if (!s) return c.viol("write", "writing failed" + ctx);
            bytes = s.str();
            if (r.chance(1, 2))
            {
                s >> reader;
                if (s.fail()) return c.viol("read", "reading failed" + ctx);
            }
            else
            {
                std::istringstream i(bytes);
                i >> reader;
                if (i.fail()) return c.viol("read", "reading failed" + ctx);
            }
            c.count("through-memory");
        }
        if (!same(*img, copy))
            return c.viol("write-changes", "writing changed the image" + ctx);
        if (!reader.get_image())
            return c.viol("read", "no image was read" + ctx);
        if (!same(*reader.get_image(), copy))
            return c.viol("differs", "read back " + show(*reader.get_image())
                          + ctx);
        if (held && !same(*held, before))
            return c.viol("earlier-image", "the image read before, "
                          + show(before) + ", became " + show(*held)
                          + " when the reader was reused" + ctx);
        held = reader.get_image();
        before = copy;
        std::ostringstream o1, o2;
        o1 << writer;
        PGM_IO second = reader;
        o2 << second;
        if (o1.str() != bytes || o2.str() != bytes)
            return c.viol("second-writing", "bytes differ" + ctx);
        c.count("round-trips");
        c.count("intensities", img->data.size());
        c.maximum("intensities", img->data.size());
        c.distinct(hash(bytes));
        c.sample(pgm::show(bytes, 200));
    }
}
