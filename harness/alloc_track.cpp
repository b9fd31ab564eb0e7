// Replaces operator new and delete to measure memory and count live blocks.
#include <cstdlib>
#include <new>
#include <malloc.h>

namespace hostile
{
thread_local bool tracking = false;
thread_local size_t live = 0, peak = 0;
void reset() { live = 0; peak = 0; }
}
namespace blocks
{
thread_local long count = 0;
// The allocation, counted from one, which fails; zero if none.
thread_local long fail_at = 0, seen = 0;
}
// Exceptions cannot leave a parallel region.
extern "C" int omp_in_parallel() __attribute__((weak));

static void* get(size_t n)
{
    if (!omp_in_parallel || !omp_in_parallel())
        if (++blocks::seen == blocks::fail_at) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++blocks::count;
    if (hostile::tracking)
    {
        hostile::live += malloc_usable_size(p);
        if (hostile::peak < hostile::live) hostile::peak = hostile::live;
    }
    return p;
}
static void put(void* p)
{
    if (!p) return;
    --blocks::count;
    if (hostile::tracking)
    {
        size_t n = malloc_usable_size(p);
        hostile::live = hostile::live > n ? hostile::live - n : 0;
    }
    std::free(p);
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try { return get(n); } catch (...) { return nullptr; }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    try { return get(n); } catch (...) { return nullptr; }
}
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
