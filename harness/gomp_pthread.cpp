// OpenMP runtime on plain pthreads, so that ThreadSanitizer sees all the
// synchronization there is (libgomp's own one is invisible to it), with
// random delays at entries of functions of the library.
#include <pthread.h>
#include <sched.h>

#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <vector>

#include "gomp_stats.hpp"

namespace vf
{
struct Mutex
{
    pthread_mutex_t m;
    Mutex() { pthread_mutex_init(&m, nullptr); }
    ~Mutex() { pthread_mutex_destroy(&m); }
    void lock() { pthread_mutex_lock(&m); }
    void unlock() { pthread_mutex_unlock(&m); }
};
struct Cond
{
    pthread_cond_t c;
    Cond() { pthread_cond_init(&c, nullptr); }
    ~Cond() { pthread_cond_destroy(&c); }
    void wait(Mutex& m) { pthread_cond_wait(&c, &m.m); }
    void broadcast() { pthread_cond_broadcast(&c); }
};
struct Start
{
    unsigned id;
    void (*body)(unsigned, void*);
    void* arg;
    uint64_t seed;
};
thread_local uint64_t rng = 1;
uint64_t base_seed = 1, started = 0;
unsigned delay_rate = 64;
inline uint64_t rnd()
{
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void* entry(void* p)
{
    Start* s = (Start*)p;
    rng = s->seed;
    s->body(s->id, s->arg);
    return nullptr;
}
void run_threads(unsigned n, void (*body)(unsigned, void*), void* arg)
{
    std::vector<Start>* s = new std::vector<Start>(n);
    std::vector<pthread_t>* t = new std::vector<pthread_t>(n);
    for (unsigned i = 1; i < n; ++i)
    {
        (*s)[i] = Start{i, body, arg, base_seed * 1000003 + ++started};
        if (pthread_create(&(*t)[i], nullptr, entry, &(*s)[i]))
        {
            std::fprintf(stderr, "cannot create a thread\n");
            _exit(78);
        }
    }
    body(0, arg);
    for (unsigned i = 1; i < n; ++i) pthread_join((*t)[i], nullptr);
    delete s;
    delete t;
}
}
#include "gomp_common.hpp"
namespace vf
{
vf_gomp_stats_t stats;
std::atomic<uint64_t> yields{0};
void note_region(unsigned n)
{
    if (self.team && self.team->n > 1) return;
    ++stats.regions;
    stats.threads += n;
    if (stats.max_threads < n) stats.max_threads = n;
}
Mutex& named(void* key)
{
    static Mutex guard;
    static std::map<void*, Mutex*> all;
    guard.lock();
    Mutex*& m = all[key];
    if (!m) m = new Mutex;
    Mutex& r = *m;
    guard.unlock();
    return r;
}
Mutex& critical() { static Mutex m; return m; }
Mutex& atomics() { static Mutex m; return m; }
}
extern "C"
{
vf_gomp_stats_t* vf_gomp_stats()
{
    vf::stats.yields = vf::yields.load(std::memory_order_relaxed);
    return &vf::stats;
}
void vf_gomp_seed(uint64_t s)
{
    static const unsigned rates[] = {0, 8, 64, 512};
    vf::base_seed = s;
    vf::rng = s;
    vf::delay_rate = rates[s % 4];
}
__attribute__((no_sanitize("thread"), no_instrument_function))
void __cyg_profile_func_enter(void*, void*)
{
    if (!vf::self.team || vf::self.team->n < 2 || !vf::delay_rate) return;
    uint64_t r = vf::rnd();
    if (r % vf::delay_rate) return;
    vf::yields.fetch_add(1, std::memory_order_relaxed);
    if ((r >> 32) % 4) sched_yield();
    else for (volatile int i = 0; i < 2000; i = i + 1) {}
}
__attribute__((no_instrument_function))
void __cyg_profile_func_exit(void*, void*) {}
}
