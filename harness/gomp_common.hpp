// A stand-in of the OpenMP runtime used by code which GCC compiles with
// -fopenmp. The includer defines the backend: vf::Mutex, vf::wait_until,
// vf::run_threads, vf::stats_region.
//
// backend requirements (namespace vf):
//   struct Mutex { void lock(); void unlock(); };
//   struct Cond  { void wait(Mutex&); void broadcast(); };
//   void run_threads(unsigned n, void (*body)(unsigned, void*), void* arg);
//       runs body(0..n-1, arg) concurrently, body(0) on the calling thread.
#ifndef VERIF_GOMP_COMMON_HPP
#define VERIF_GOMP_COMMON_HPP

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <map>
#include <vector>

namespace vf
{

struct Share  // one work-sharing construct of a team
{
    bool up = true;
    bool is_unsigned = false;
    unsigned long long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned left = 0;  // threads which have not finished with it
    bool single_taken = false;
    void* copy = nullptr;
};

struct Team
{
    unsigned n = 1;
    unsigned level = 0, active_level = 0;
    Team* parent = nullptr;
    unsigned parent_id = 0;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    Mutex m;
    Cond c;
    unsigned waiting = 0;
    unsigned long generation = 0;
    std::map<unsigned long, Share> shares;
    unsigned long ordered_next = 0;
};

struct Self
{
    Team* team = nullptr;
    unsigned id = 0;
    unsigned long share = 0;    // number of the next construct to enter
    unsigned long current = 0;  // the construct the thread is in
    unsigned long long stat_next = 0;  // static schedule: iteration counter
    bool stat_done = false;
};
extern thread_local Self self;
thread_local Self self;

int threads_default = 4;
// Teams get fewer threads than they asked for, chosen by this seed.
int dynamic_seed = 0;

inline void team_barrier(Team* t)
{
    if (!t || t->n == 1) return;
    t->m.lock();
    unsigned long g = t->generation;
    if (++t->waiting == t->n)
    {
        t->waiting = 0;
        ++t->generation;
        t->c.broadcast();
    }
    else
    {
        while (t->generation == g) t->c.wait(t->m);
    }
    t->m.unlock();
}

inline void thread_body(unsigned id, void* p)
{
    Team* t = (Team*)p;
    Self old = self;
    self = Self();
    self.team = t;
    self.id = id;
    t->fn(t->data);
    team_barrier(t);
    self = old;
}

inline unsigned team_size(unsigned wanted)
{
    Team* p = self.team;
    if (p && p->active_level >= 1) return 1;  // max-active-levels is 1
    return wanted ? wanted : (unsigned)threads_default;
}

void note_region(unsigned n);

inline unsigned adjusted(unsigned n)
{
    if (!dynamic_seed || n < 2) return n;
    static std::atomic<uint64_t> regions{0};
    static std::atomic<int> seed{0};
    if (seed.exchange(dynamic_seed) != dynamic_seed) regions = 0;
    uint64_t x = (uint64_t)dynamic_seed * 0x9e3779b97f4a7c15ull
        + ++regions * 0xbf58476d1ce4e5b9ull;
    x = (x ^ x >> 31) * 0x94d049bb133111ebull;
    return 1 + (unsigned)((x ^ x >> 29) % n);
}

inline void parallel(void (*fn)(void*), void* data, unsigned wanted,
                     const Share* share = nullptr)
{
    Team t;
    t.n = adjusted(team_size(wanted));
    t.parent = self.team;
    t.parent_id = self.id;
    t.level = (self.team ? self.team->level : 0) + 1;
    t.active_level = (self.team ? self.team->active_level : 0)
        + (t.n > 1 ? 1 : 0);
    t.fn = fn;
    t.data = data;
    if (share)
    {
        t.shares[0] = *share;
        t.shares[0].left = t.n;
    }
    note_region(t.n);
    if (t.n == 1) thread_body(0, &t);
    else run_threads(t.n, thread_body, &t);
}

inline Team* team()
{
    if (!self.team)
    {
        // Outside of any region: a team of one thread.
        static thread_local Team* alone = new Team;
        self.team = alone;
    }
    return self.team;
}

// Enters the next work-sharing construct; the first thread describes it.
inline Share& enter(const Share& s)
{
    Team* t = team();
    self.current = self.share++;
    auto it = t->shares.find(self.current);
    if (it == t->shares.end())
    {
        it = t->shares.insert({self.current, s}).first;
        it->second.left = t->n;
    }
    return it->second;
}

inline void leave()
{
    Team* t = team();
    t->m.lock();
    auto it = t->shares.find(self.current);
    if (it != t->shares.end() && --it->second.left == 0) t->shares.erase(it);
    t->m.unlock();
}

inline Share make_share(bool up, unsigned long long start,
                        unsigned long long end, unsigned long long incr,
                        unsigned long long chunk, bool is_unsigned)
{
    Share s;
    s.up = up;
    s.is_unsigned = is_unsigned;
    s.next = start;
    s.end = end;
    s.incr = incr;
    s.chunk = chunk ? chunk : 1;
    return s;
}

// Takes a piece [*a, *b) of the iterations.
inline bool take(Share& s, unsigned long long* a, unsigned long long* b)
{
    bool any;
    if (s.is_unsigned)
        any = s.up ? s.next < s.end : s.next > s.end;
    else
        any = s.up ? (long long)s.next < (long long)s.end
                   : (long long)s.next > (long long)s.end;
    if (!any) return false;
    *a = s.next;
    unsigned long long left;  // iterations
    if (s.up) left = (s.end - s.next + s.incr - 1) / s.incr;
    else left = (s.next - s.end + (0 - s.incr) - 1) / (0 - s.incr);
    if (left <= s.chunk)
    {
        *b = s.end;
        s.next = s.end;
    }
    else
    {
        s.next += s.chunk * s.incr;
        *b = s.next;
    }
    return true;
}

inline bool loop_next(unsigned long long* a, unsigned long long* b)
{
    Team* t = team();
    t->m.lock();
    auto it = t->shares.find(self.current);
    bool r = it != t->shares.end() && take(it->second, a, b);
    t->m.unlock();
    return r;
}

inline bool loop_start(const Share& s, unsigned long long* a,
                       unsigned long long* b)
{
    Team* t = team();
    t->m.lock();
    enter(s);
    t->m.unlock();
    return loop_next(a, b);
}

Mutex& named(void* key);
Mutex& critical();
Mutex& atomics();

}

extern "C"
{

typedef unsigned long long ull;

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    vf::parallel(fn, data, n);
}

void GOMP_barrier() { vf::team_barrier(vf::team()); }
bool GOMP_barrier_cancel() { vf::team_barrier(vf::team()); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { vf::critical().lock(); }
void GOMP_critical_end() { vf::critical().unlock(); }
void GOMP_critical_name_start(void** p) { vf::named(p).lock(); }
void GOMP_critical_name_end(void** p) { vf::named(p).unlock(); }
void GOMP_atomic_start() { vf::atomics().lock(); }
void GOMP_atomic_end() { vf::atomics().unlock(); }

bool GOMP_single_start()
{
    vf::Team* t = vf::team();
    t->m.lock();
    vf::Share& s = vf::enter(vf::Share());
    bool first = !s.single_taken;
    s.single_taken = true;
    t->m.unlock();
    vf::leave();
    return first;
}
void* GOMP_single_copy_start()
{
    vf::Team* t = vf::team();
    t->m.lock();
    vf::Share& s = vf::enter(vf::Share());
    bool first = !s.single_taken;
    s.single_taken = true;
    t->m.unlock();
    if (first) return nullptr;
    vf::team_barrier(t);
    t->m.lock();
    void* r = t->shares[vf::self.current].copy;
    t->m.unlock();
    vf::team_barrier(t);
    vf::leave();
    return r;
}
void GOMP_single_copy_end(void* p)
{
    vf::Team* t = vf::team();
    t->m.lock();
    t->shares[vf::self.current].copy = p;
    t->m.unlock();
    vf::team_barrier(t);
    vf::team_barrier(t);
    vf::leave();
}

void GOMP_loop_end()
{
    vf::leave();
    vf::team_barrier(vf::team());
}
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_loop_end_nowait() { vf::leave(); }

unsigned GOMP_sections_next()
{
    ull a, b;
    return vf::loop_next(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n)
{
    ull a, b;
    return vf::loop_start(vf::make_share(true, 1, n + 1ull, 1, 1, true), &a,
                          &b) ? (unsigned)a : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n,
                            unsigned count, unsigned)
{
    vf::Share s = vf::make_share(true, 1, count + 1ull, 1, 1, true);
    vf::parallel(fn, data, n, &s);
}
void GOMP_sections_end() { GOMP_loop_end(); }
bool GOMP_sections_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_sections_end_nowait() { vf::leave(); }

#define LOOP(KIND) \
    bool GOMP_loop_##KIND##_start(long s, long e, long i, long c, long* a, \
                                  long* b) \
    { \
        return vf::loop_start(vf::make_share(i > 0, s, e, i, c, false), \
                              (ull*)a, (ull*)b); \
    } \
    bool GOMP_loop_##KIND##_next(long* a, long* b) \
    { \
        return vf::loop_next((ull*)a, (ull*)b); \
    } \
    bool GOMP_loop_ull_##KIND##_start(bool up, ull s, ull e, ull i, ull c, \
                                      ull* a, ull* b) \
    { \
        return vf::loop_start(vf::make_share(up, s, e, i, c, true), a, b); \
    } \
    bool GOMP_loop_ull_##KIND##_next(ull* a, ull* b) \
    { \
        return vf::loop_next(a, b); \
    } \
    void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* d, unsigned n, \
                                   long s, long e, long i, long c, unsigned) \
    { \
        vf::Share sh = vf::make_share(i > 0, s, e, i, c, false); \
        vf::parallel(fn, d, n, &sh); \
    }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)

#define LOOP_RT(KIND) \
    bool GOMP_loop_##KIND##_start(long s, long e, long i, long* a, long* b) \
    { \
        return vf::loop_start(vf::make_share(i > 0, s, e, i, 1, false), \
                              (ull*)a, (ull*)b); \
    } \
    bool GOMP_loop_##KIND##_next(long* a, long* b) \
    { \
        return vf::loop_next((ull*)a, (ull*)b); \
    } \
    bool GOMP_loop_ull_##KIND##_start(bool up, ull s, ull e, ull i, ull* a, \
                                      ull* b) \
    { \
        return vf::loop_start(vf::make_share(up, s, e, i, 1, true), a, b); \
    } \
    bool GOMP_loop_ull_##KIND##_next(ull* a, ull* b) \
    { \
        return vf::loop_next(a, b); \
    } \
    void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* d, unsigned n, \
                                   long s, long e, long i, unsigned) \
    { \
        vf::Share sh = vf::make_share(i > 0, s, e, i, 1, false); \
        vf::parallel(fn, d, n, &sh); \
    }
LOOP_RT(runtime)
LOOP_RT(nonmonotonic_runtime)
LOOP_RT(maybe_nonmonotonic_runtime)

// Tasks run at once on the thread which creates them: a legal schedule.
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*),
               long size, long align, bool, unsigned, void**, int, void*)
{
    if (cpy)
    {
        std::vector<char> buf(size + align);
        char* p = (char*)(((size_t)buf.data() + align - 1)
                          & ~(size_t)(align - 1));
        cpy(p, data);
        fn(p);
    }
    else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_num_threads() { return (int)vf::team()->n; }
int omp_get_thread_num() { return (int)vf::self.id; }
int omp_get_max_threads()
{
    return vf::threads_default;
}
void omp_set_num_threads(int n) { vf::threads_default = n > 0 ? n : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return vf::team()->active_level > 0; }
int omp_get_level() { return (int)vf::team()->level; }
int omp_get_active_level() { return (int)vf::team()->active_level; }
int omp_get_thread_limit() { return 1024; }
int omp_get_dynamic() { return vf::dynamic_seed != 0; }
void omp_set_dynamic(int d) { vf::dynamic_seed = d; }
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return (double)clock() / CLOCKS_PER_SEC; }
double omp_get_wtick() { return 1e-6; }
struct vf_omp_lock { void* p; };
void omp_init_lock(vf_omp_lock* l) { l->p = new vf::Mutex; }
void omp_destroy_lock(vf_omp_lock* l) { delete (vf::Mutex*)l->p; }
void omp_set_lock(vf_omp_lock* l) { ((vf::Mutex*)l->p)->lock(); }
void omp_unset_lock(vf_omp_lock* l) { ((vf::Mutex*)l->p)->unlock(); }

}

#endif
