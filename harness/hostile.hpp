// Reading of arbitrary bytes, monitored: exceptions, memory, state.
#ifndef VERIF_HOSTILE_HPP
#define VERIF_HOSTILE_HPP

#include <cstdlib>
#include <ctime>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>

#include <image.hpp>
#include <pgm_io.hpp>

#include "pgm_ref.hpp"

namespace hostile
{

// Bytes allocated by operator new, while tracking.
extern thread_local bool tracking;
extern thread_local size_t live, peak;
void reset();

// A buffer that delivers the bytes in small pieces and breaks at one of them.
struct Buf : std::streambuf
{
    const std::string& s;
    size_t pos = 0, breaks, chunk;
    int how;  // 0: end of file, 1: throws
    size_t delivered = 0;
    char piece[64];
    Buf(const std::string& s, size_t breaks, int how, size_t chunk)
        : s(s), breaks(breaks), chunk(chunk), how(how)
    {
    }
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (pos >= breaks)
        {
            if (how == 1) throw std::runtime_error("the device broke");
            return traits_type::eof();
        }
        if (pos >= s.size()) return traits_type::eof();
        size_t n = std::min(std::min(chunk, s.size() - pos),
                            breaks - pos);
        s.copy(piece, n, pos);
        pos += n;
        delivered = pos;
        setg(piece, piece, piece + n);
        return traits_type::to_int_type(piece[0]);
    }
};

struct Outcome
{
    std::string error, key;
    bool ok = false;
    size_t peak = 0;
};

inline double cpu()
{
    struct timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

inline Outcome check(const std::string& text, size_t breaks, int how,
                     size_t chunk, bool with_image, bool grammar)
{
    using sp::image::Image;
    using sp::image::PGM_IO;
    Outcome o;
    PGM_IO io;
    std::shared_ptr<Image> old;
    if (with_image)
    {
        old = std::make_shared<Image>(Image{2, 1, 7, {3, 4}});
        io.set_image(old);
    }
    Buf buf(text, breaks, how, chunk);
    std::istream in(&buf);
    double t0 = cpu();
    reset();
    tracking = true;
    std::string thrown;
    bool threw = false;
    try
    {
        in >> io;
    }
    catch (const std::exception& e)
    {
        threw = true;
        thrown = e.what();
    }
    catch (...)
    {
        threw = true;
        thrown = "unknown";
    }
    tracking = false;
    o.peak = peak;
    double t = cpu() - t0;
    if (threw)
    {
        o.key = "exception";
        o.error = "reading threw " + thrown;
        return o;
    }
    // A number takes two bytes of the text and at most 8 in the image; vectors
    // grow by doubling and keep old and new storage for a moment. The factor
    // is generous: only sizes claimed by the header can exceed it.
    if (o.peak > 200 * (buf.delivered + 1) + (64 << 10))
    {
        o.key = "memory";
        o.error = "reading " + std::to_string(buf.delivered)
            + " bytes took " + std::to_string(o.peak) + " bytes of memory";
        return o;
    }
    if (t > 10 + 1e-3 * (double)buf.delivered)
    {
        o.key = "time";
        o.error = "reading " + std::to_string(buf.delivered) + " bytes took "
            + std::to_string(t) + " s";
        return o;
    }
    auto now = io.get_image();
    o.ok = !in.fail();
    if (!o.ok)
    {
        if (now != old)
        {
            o.key = "half-done";
            o.error = "failure state, but the image was replaced";
        }
        else if (old
                 && (old->width != 2 || old->height != 1 || old->max_value != 7
                     || old->data != std::vector<ref::ul>{3, 4}))
        {
            o.key = "half-done";
            o.error = "failure state, and the image was modified";
        }
    }
    else
    {
        if (!now)
        {
            o.key = "half-done";
            o.error = "success without an image";
        }
        else if (now->height == 0 || now->width == 0
                     ? !now->data.empty()
                     : now->data.size() % now->height != 0
                         || now->data.size() / now->height != now->width)
        {
            o.key = "data-size";
            o.error = "image " + std::to_string(now->width) + "x"
                + std::to_string(now->height) + " with "
                + std::to_string(now->data.size()) + " elements";
        }
        else if (now == old)
        {
            o.key = "half-done";
            o.error = "success, but the image is the old one";
        }
    }
    if (o.error.empty() && grammar)
    {
        pgm::Parsed p = pgm::parse(text.substr(0, std::min(breaks, text.size())));
        if (how == 0
            && ((p.verdict == pgm::ACCEPT && !o.ok)
                || (p.verdict == pgm::REJECT && o.ok)))
        {
            o.key = "grammar";
            o.error = o.ok ? "accepted, but has " + p.why : "refused valid text";
        }
    }
    return o;
}

}

#endif
