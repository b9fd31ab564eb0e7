// Main function, counters, watchdog and violation reports shared by drivers.
//
// A driver defines drv::run_case; the runner (vf/core.py) starts several
// processes of it with different ranges of cases. Case k of seed S is always
// the same, so a replay is "--seed S --first k --count 1".
#ifndef VERIF_DRIVER_HPP
#define VERIF_DRIVER_HPP

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>

#include "gen.hpp"

namespace drv
{

using gen::Rng;
using ref::ul;

struct Status  // shared with the runner through a file
{
    char magic[8];
    volatile int64_t current;  // case being executed
    volatile int64_t done;     // cases finished
    volatile int64_t hang;     // watchdog fired
    volatile int64_t since;    // when the case began, ms of the monotonic clock
};

struct Ctx
{
    uint64_t seed = 1;
    bool thorough = false;
    long k = 0;
    std::string scratch, aux;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> maxima;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    std::vector<std::string> notes;
    long violations = 0;
    std::FILE* out = nullptr;
    Status* status = nullptr;

    void count(const std::string& n, uint64_t v = 1) { counters[n] += v; }
    void maximum(const std::string& n, uint64_t v)
    {
        if (maxima[n] < v) maxima[n] = v;
    }
    void distinct(uint64_t h) { hashes.push_back(h); }
    void sample(const std::string& s)
    {
        if (samples.size() < 2) samples.push_back(s);
    }
    // A violation of the property: key identifies the kind of failure.
    void viol(const std::string& key, const std::string& text)
    {
        ++violations;
        std::string t = text;
        for (auto& c : t)
            if (c == '\n' || c == '\t' || c == '\r') c = ' ';
        std::fprintf(out, "VIOL\t%ld\t%s\t%s\n", k, key.c_str(), t.c_str());
        std::fflush(out);
    }
};

inline uint64_t hash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
    {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

template <class T>
std::string S(const T& v)
{
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}

template <class... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}

inline std::string json(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else r += (char)c;
    }
    return r + "\"";
}

void run_case(Ctx& c, Rng& r);
// Called once before the cases and once after them.
void setup(Ctx& c);
void teardown(Ctx& c);

inline Status*& status_ptr()
{
    static Status* s = nullptr;
    return s;
}
extern "C" inline void drv_on_prof(int)
{
    if (status_ptr()) status_ptr()->hang = 1;
    _exit(79);
}
inline int64_t now_ms()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000L + t.tv_nsec / 1000000;
}
inline void arm(double seconds)
{
    struct itimerval t;
    std::memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long)seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

}

#ifndef VERIF_NO_MAIN
int main(int argc, char** argv)
{
    using namespace drv;
    Ctx c;
    long first = 0, count = 1, stride = 1;
    double cpu = 60, soft = 0;
    const int64_t begun = now_ms();
    std::string outp = "/dev/stdout", statusp, hashp;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") c.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--first") first = std::atol(v.c_str());
        else if (a == "--count") count = std::atol(v.c_str());
        else if (a == "--stride") stride = std::atol(v.c_str());
        else if (a == "--tier") c.thorough = v == "thorough";
        else if (a == "--out") outp = v;
        else if (a == "--status") statusp = v;
        else if (a == "--hashes") hashp = v;
        else if (a == "--scratch") c.scratch = v;
        else if (a == "--aux") c.aux = v;
        else if (a == "--soft") soft = std::atof(v.c_str());
        else if (a == "--cpu") cpu = std::atof(v.c_str());
    }
    c.out = std::fopen(outp.c_str(), "w");
    if (!c.out) return 3;
    static Status local;
    c.status = &local;
    if (!statusp.empty())
    {
        int fd = open(statusp.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) return 3;
        void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE,
                       MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 3;
        c.status = (Status*)p;
    }
    std::memcpy(c.status->magic, "VERIFST", 8);
    c.status->current = -1;
    c.status->done = 0;
    c.status->hang = 0;
    status_ptr() = c.status;
    signal(SIGPROF, drv_on_prof);
    setup(c);
    for (long j = 0; j < count; ++j)
    {
        c.k = first + j * stride;
        // On a slow machine, less is explored.
        if (soft > 0 && j > 0 && now_ms() - begun > soft * 1000) break;
        c.status->since = now_ms();
        c.status->current = c.k;
        arm(cpu);
        Rng r(gen::mix(c.seed, (uint64_t)c.k + 1));
        try
        {
            run_case(c, r);
        }
        catch (const std::exception& e)
        {
            c.viol("unexpected-exception",
                   std::string("exception on valid use: ") + e.what());
        }
        catch (...)
        {
            c.viol("unexpected-exception", "unknown exception on valid use");
        }
        c.status->done = j + 1;
        if (c.violations >= 5) break;
    }
    arm(0);
    c.status->current = -2;
    teardown(c);
    if (!hashp.empty())
    {
        std::FILE* f = std::fopen(hashp.c_str(), "wb");
        if (!f) return 3;
        std::fwrite(c.hashes.data(), 8, c.hashes.size(), f);
        std::fclose(f);
    }
    std::string s = "STAT\t{\"done\":" + std::to_string(c.status->done);
    s += ",\"counters\":{";
    bool f = true;
    for (auto& p : c.counters)
    {
        s += (f ? "" : ",") + json(p.first) + ":" + std::to_string(p.second);
        f = false;
    }
    s += "},\"maxima\":{";
    f = true;
    for (auto& p : c.maxima)
    {
        s += (f ? "" : ",") + json(p.first) + ":" + std::to_string(p.second);
        f = false;
    }
    s += "},\"samples\":[";
    f = true;
    for (auto& p : c.samples)
    {
        s += (f ? "" : ",") + json(p);
        f = false;
    }
    s += "]}\n";
    std::fputs(s.c_str(), c.out);
    std::fclose(c.out);
    // Leave without the destructors of static objects of the monitors.
    std::fflush(nullptr);
    _exit(0);
}
#endif

#endif
