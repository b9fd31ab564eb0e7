// OpenMP runtime which chooses the interleaving: the threads are real, but
// only the holder of the baton runs. The library is compiled with
// -fsanitize=thread, and the functions its accesses call are defined here:
// each access to memory of others is a point where the baton may move.
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>

#include "gomp_stats.hpp"

namespace vf
{
vf_gomp_stats_t stats;

uint64_t rng = 1;
uint64_t rnd()
{
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Thread
{
    sem_t sem;
    unsigned id = 0;
    bool finished = false;
    bool waiting = false;
    long priority = 0;
    char *low = nullptr, *high = nullptr;
    Thread() { sem_init(&sem, 0, 0); }
    ~Thread() { sem_destroy(&sem); }
};

std::vector<Thread*>* live = nullptr;  // of the region in progress
thread_local Thread* me = nullptr;
unsigned preempt = 0;    // the baton moves with probability 1/preempt
bool priorities = false;  // the one of the highest priority runs
long lowest = 0;
uint64_t budget = 0;     // moves left for the case
unsigned long idle = 0;  // moves since a thread did something

void pass(bool must)
{
    // Chooses the next holder among the unfinished threads.
    Thread* next = nullptr;
    std::vector<Thread*> cand;
    for (Thread* t : *live)
        if (!t->finished && !(must && t == me)) cand.push_back(t);
    if (cand.empty()) return;
    if (priorities)
    {
        if (must && me && !me->finished) me->priority = --lowest;
        for (Thread* t : cand)
            if (!next || t->priority > next->priority) next = t;
    }
    else next = cand[rnd() % cand.size()];
    stats.hash = (stats.hash ^ (next->id + 1)) * 1099511628211ull;
    if (next == me) return;
    ++stats.switches;
    Thread* self_ = me;
    sem_post(&next->sem);
    if (self_ && !self_->finished)
        while (sem_wait(&self_->sem)) {}
}

void point(const void* p)
{
    if (!me || !live || !preempt) return;
    if ((char*)p >= me->low && (char*)p < me->high) return;
    ++stats.accesses;
    if (!budget) return;
    if (rnd() % preempt) return;
    --budget;
    idle = 0;
    stats.hash = (stats.hash ^ stats.accesses) * 1099511628211ull;
    if (priorities) me->priority = --lowest;
    pass(false);
}

void block()
{
    if (!live || !me)
    {
        std::fprintf(stderr, "Error: attempt to wait forever\n");
        abort();
    }
    if (++idle > 100000)
    {
        std::fprintf(stderr, "Error: attempt to wait forever: deadlock of "
                             "OpenMP threads\n");
        abort();
    }
    pass(true);
}

struct Mutex
{
    bool held = false;
    void lock()
    {
        while (held) block();
        held = true;
        idle = 0;
    }
    void unlock() { held = false; }
};
struct Cond
{
    void wait(Mutex& m)
    {
        m.unlock();
        block();
        m.lock();
    }
    void broadcast() { idle = 0; }
};

struct Start
{
    Thread* t;
    void (*body)(unsigned, void*);
    void* arg;
};

void bounds(Thread* t)
{
    pthread_attr_t a;
    void* p = nullptr;
    size_t n = 0;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &n);
    pthread_attr_destroy(&a);
    t->low = (char*)p;
    t->high = t->low + n;
}

void* entry(void* p)
{
    Start* s = (Start*)p;
    while (sem_wait(&s->t->sem)) {}
    me = s->t;
    bounds(me);
    s->body(s->t->id, s->arg);
    me->finished = true;
    idle = 0;
    pass(true);
    return nullptr;
}

void run_threads(unsigned n, void (*body)(unsigned, void*), void* arg)
{
    if (live)  // a region within a region runs its threads one after another
    {
        std::fprintf(stderr, "nested active regions are not supported\n");
        _exit(78);
    }
    static const unsigned rates[] = {0, 1, 2, 4, 16, 64, 256};
    preempt = rates[rnd() % 7];
    priorities = rnd() % 3 == 0;
    lowest = 0;
    idle = 0;
    std::vector<Thread*> all;
    for (unsigned i = 0; i < n; ++i)
    {
        Thread* t = new Thread;
        t->id = i;
        t->priority = (long)(rnd() % 1000);
        all.push_back(t);
    }
    live = &all;
    me = all[0];
    bounds(me);
    std::vector<Start> st(n);
    std::vector<pthread_t> th(n);
    for (unsigned i = 1; i < n; ++i)
    {
        st[i] = Start{all[i], body, arg};
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1 << 20);
        if (pthread_create(&th[i], &a, entry, &st[i]))
        {
            std::fprintf(stderr, "cannot create a thread\n");
            _exit(78);
        }
        pthread_attr_destroy(&a);
    }
    pass(false);  // any thread may be the first one
    body(0, arg);
    // The body ends with a barrier, after which the others only finish.
    while (true)
    {
        bool rest = false;
        for (unsigned i = 1; i < n; ++i) rest |= !all[i]->finished;
        if (!rest) break;
        pass(true);
    }
    me = nullptr;
    live = nullptr;
    for (unsigned i = 1; i < n; ++i) pthread_join(th[i], nullptr);
    for (Thread* t : all) delete t;
}
}
#include "gomp_common.hpp"
namespace vf
{
void note_region(unsigned n)
{
    ++stats.regions;
    stats.threads += n;
    if (stats.max_threads < n) stats.max_threads = n;
}
Mutex& named(void* key)
{
    static std::map<void*, Mutex*> all;
    Mutex*& m = all[key];
    if (!m) m = new Mutex;
    return *m;
}
Mutex& critical() { static Mutex m; return m; }
Mutex& atomics() { static Mutex m; return m; }
}
extern "C"
{
vf_gomp_stats_t* vf_gomp_stats() { return &vf::stats; }
void vf_gomp_seed(uint64_t s)
{
    vf::rng = s * 7919 + 13;
    vf::budget = 1500;
    vf::stats.hash = 1469598103934665603ull;
}

#define ACC(NAME) void __tsan_##NAME(void* p) { vf::point(p); }
#define ACCS(N) \
    ACC(read##N) ACC(write##N) ACC(unaligned_read##N) ACC(unaligned_write##N) \
    ACC(volatile_read##N) ACC(volatile_write##N) ACC(read_write##N) \
    ACC(unaligned_read_write##N) ACC(unaligned_volatile_read##N) \
    ACC(unaligned_volatile_write##N)
ACCS(1) ACCS(2) ACCS(4) ACCS(8) ACCS(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* p, long) { vf::point(p); }
void __tsan_write_range(void* p, long) { vf::point(p); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define OP(T, N, NAME, BUILTIN) \
    T __tsan_atomic##N##_##NAME(volatile T* p, T v, int) \
    { vf::point((const void*)p); return BUILTIN(p, v, __ATOMIC_SEQ_CST); }
#define AT(T, N) \
    T __tsan_atomic##N##_load(const volatile T* p, int) \
    { vf::point((const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) \
    { vf::point((const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    OP(T, N, exchange, __atomic_exchange_n) \
    OP(T, N, fetch_add, __atomic_fetch_add) \
    OP(T, N, fetch_sub, __atomic_fetch_sub) \
    OP(T, N, fetch_and, __atomic_fetch_and) \
    OP(T, N, fetch_or, __atomic_fetch_or) \
    OP(T, N, fetch_xor, __atomic_fetch_xor) \
    OP(T, N, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, \
                                                   int, int) \
    { vf::point((const void*)p); return __atomic_compare_exchange_n( \
        p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, \
                                                 int, int) \
    { vf::point((const void*)p); return __atomic_compare_exchange_n( \
        p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, \
                                              int) \
    { vf::point((const void*)p); __atomic_compare_exchange_n( \
        p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
}
