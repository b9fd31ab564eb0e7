// A small CUDA runtime for tests. Device code is compiled for this processor
// into a library (MOCKCUDA_DEVICE) with the instrumentation of
// ThreadSanitizer, whose callbacks are defined here: every access to device
// memory is checked and is a point where the scheduler may switch to another
// thread of the grid, so that a run explores one interleaving of threads,
// reproducible from its seed.
//
// Reported on stderr as "MOCKCUDA-ERROR: ..." with exit code 77: accesses out
// of device memory or to memory of the host by a kernel, and to device memory
// by the host; reads of device memory never written; barriers not all threads
// of a block or of a grid reach; synchronization of a grid launched in the
// ordinary way; kernels that do not finish.
#include "../harness/mock_switch.hpp"
#include "cuda_runtime.h"

#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim
#undef warpSize

#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

dim3 mock_threadIdx, mock_blockIdx, mock_blockDim, mock_gridDim;

namespace
{

const int MAX_THREADS = 1024;
const unsigned long RESIDENT = 56ul * 2048, RESIDENT_BLOCKS = 56ul * 32;

[[noreturn]] void fail(const char* fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    fprintf(stderr, "MOCKCUDA-ERROR: ");
    vfprintf(stderr, fmt, a);
    fprintf(stderr, "\n");
    va_end(a);
    fflush(nullptr);
    _exit(77);
}

[[noreturn]] void harness(const char* what)
{
    fprintf(stderr, "MOCKCUDA-HARNESS: %s\n", what);
    fflush(nullptr);
    _exit(78);
}

struct Buffer
{
    size_t size = 0, span = 0, body = 0;
    char *base = nullptr, *data = nullptr;
    std::vector<bool> written;
    void protect(bool open) const
    {
        mprotect(base + 4096, body, open ? PROT_READ | PROT_WRITE : PROT_NONE);
    }
};
std::map<char*, Buffer*> live;  // by base

Buffer* find(const void* p)
{
    auto it = live.upper_bound((char*)p);
    if (it == live.begin()) return nullptr;
    Buffer* b = (--it)->second;
    return (char*)p < b->base + b->span ? b : nullptr;
}

cudaError_t last_error = cudaSuccess;
cudaError_t give(cudaError_t e)
{
    if (e != cudaSuccess) last_error = e;
    return e;
}

// The call to fail: it does nothing and returns an error.
bool fault()
{
    static const char* which = getenv("MOCKCUDA_FAIL");
    static unsigned long left = which ? strtoul(which, nullptr, 10) : 0;
    if (left == 0 || --left) return false;
    fprintf(stderr, "MOCKCUDA-FAULT\n");
    return true;
}

uint64_t rng_state = 1;
uint64_t rnd()
{
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

enum State { READY, BLOCK_BARRIER, GRID_BARRIER, FINISHED };
struct Fiber
{
    void* sp = nullptr;
    char* stack = nullptr;
    dim3 thread, block;
    size_t group = 0;
    State state = READY;
};
const size_t STACK = 64 * 1024;
std::vector<char*> stacks;

struct Stats
{
    unsigned long launches = 0, threads = 0, blocks = 0, switches = 0,
                  accesses = 0, barriers = 0, copies = 0;
} stats;
std::set<uint64_t> schedules;

std::vector<Fiber> pool;

struct Launch
{
    void (*tramp)(void**);
    void** args;
    std::string name;
    std::vector<Fiber>& fibers = pool;
    bool cooperative = false;
    void* main = nullptr;
    long current = -1;
    uint64_t hash = 1469598103934665603ull;
    unsigned long steps = 0;
    unsigned preempt = 0;
} *run_ = nullptr;

void fiber_main()
{
    Fiber& f = run_->fibers[run_->current];
    run_->tramp(run_->args);
    f.state = FINISHED;
    mock_switch(&f.sp, run_->main);
}

void to_scheduler()
{
    Fiber& f = run_->fibers[run_->current];
    mock_switch(&f.sp, run_->main);
}

void* device()
{
    static void* h = nullptr;
    if (!h)
    {
        const char* path = getenv("MOCKCUDA_DEVICE");
        if (!path) harness("MOCKCUDA_DEVICE is not set");
        h = dlopen(path, RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
        if (!h) harness(dlerror());
    }
    return h;
}

void access(const void* p, size_t n, bool write)
{
    if (!run_ || run_->current < 0) return;
    const char* c = (const char*)p;
    Fiber& f = run_->fibers[run_->current];
    if (c >= f.stack && c < f.stack + STACK) return;
    Buffer* b = find(p);
    if (!b)
    {
        // Constants of the device code, indices of the thread.
        static std::map<uintptr_t, bool> known;
        uintptr_t page = (uintptr_t)p >> 12;
        auto it = known.find(page);
        if (it == known.end())
        {
            Dl_info i;
            it = known.emplace(page, dladdr(p, &i) != 0).first;
        }
        if (!it->second)
            fail("kernel %s accesses memory of the host at %p",
                 run_->name.c_str(), p);
        return;
    }
    if (c < b->data || c + n > b->data + b->size)
        fail("kernel %s accesses %zu bytes out of a buffer of %zu bytes, at "
             "offset %ld", run_->name.c_str(), n, b->size, (long)(c - b->data));
    if (run_->preempt && rnd() % run_->preempt == 0) to_scheduler();
    ++stats.accesses;
    if (++run_->steps > 400000000ul)
        fail("kernel %s does not finish", run_->name.c_str());
    size_t at = c - b->data;
    if (write)
        for (size_t i = 0; i < n; ++i) b->written[at + i] = true;
    else
        for (size_t i = 0; i < n; ++i)
            if (!b->written[at + i])
                fail("kernel %s reads device memory never written, at offset "
                     "%zu of %zu", run_->name.c_str(), at, b->size);
}

void execute(Launch& l, dim3 grid, dim3 block)
{
    size_t groups = (size_t)grid.x * grid.y * grid.z;
    size_t per = (size_t)block.x * block.y * block.z;
    l.fibers.assign(groups * per, Fiber());
    static const unsigned pre[] = {0, 1, 2, 4, 16, 64};
    l.preempt = pre[rnd() % 6];
    size_t in_flight = 1;
    switch (rnd() % 3)
    {
        case 0: in_flight = 1; break;
        case 1: in_flight = groups; break;
        default: in_flight = 1 + rnd() % groups;
    }
    if (l.cooperative) in_flight = groups;
    unsigned order = rnd() % 3;
    std::vector<size_t> group_order(groups);
    for (size_t i = 0; i < groups; ++i)
        group_order[i] = order == 1 ? groups - 1 - i : i;
    if (order == 2)
        for (size_t i = groups; i-- > 1;)
            std::swap(group_order[i], group_order[rnd() % (i + 1)]);
    mock_gridDim = grid;
    mock_blockDim = block;
    for (auto& b : live) b.second->protect(true);
    run_ = &l;
    size_t next = 0, flying = 0, done = 0, at_grid = 0;
    std::vector<size_t> active;
    size_t head = 0;
    std::vector<size_t> left(groups, per), waiting(groups, 0);
    std::vector<char*> free_stacks = stacks;
    auto start = [&]() {
        size_t g = group_order[next++];
        ++flying;
        ++stats.blocks;
        for (size_t i = 0; i < per; ++i)
        {
            Fiber& f = l.fibers[g * per + i];
            f.group = g;
            f.block = dim3(g % grid.x, g / grid.x % grid.y,
                           g / grid.x / grid.y);
            f.thread = dim3(i % block.x, i / block.x % block.y,
                            i / block.x / block.y);
            if (free_stacks.empty())
            {
                char* s = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (s == MAP_FAILED) harness("mmap of a stack");
                stacks.push_back(s);
                free_stacks.push_back(s);
            }
            f.stack = free_stacks.back();
            free_stacks.pop_back();
            f.sp = mock_stack(f.stack, STACK, fiber_main);
            active.push_back(g * per + i);
        }
    };
    while (true)
    {
        while (flying < in_flight && next < groups) start();
        const size_t size = active.size() - head;
        if (size == 0) break;
        size_t pos = 0;
        bool found = false;
        size_t first = l.preempt == 0 && order == 0 ? 0 : rnd() % size;
        for (size_t t = 0; t < size && !found; ++t)
        {
            pos = head + (first + t) % size;
            found = l.fibers[active[pos]].state == READY;
        }
        if (!found)
            fail("deadlock of kernel %s: %zu threads wait for the grid, %zu of "
                 "%zu have finished", l.name.c_str(), at_grid, done,
                 groups * per);
        size_t id = active[pos];
        Fiber& f = l.fibers[id];
        l.current = (long)id;
        l.hash = (l.hash ^ id) * 1099511628211ull;
        ++stats.switches;
        mock_threadIdx = f.thread;
        mock_blockIdx = f.block;
        mock_switch(&l.main, f.sp);
        l.current = -1;
        if (f.state == FINISHED)
        {
            ++done;
            free_stacks.push_back(f.stack);
            if (pos == head) ++head;
            else
            {
                active[pos] = active.back();
                active.pop_back();
            }
            if (--left[f.group] == 0) --flying;
        }
        else if (f.state == BLOCK_BARRIER) ++waiting[f.group];
        else if (f.state == GRID_BARRIER) ++at_grid;
        if (waiting[f.group] && waiting[f.group] == left[f.group])
        {
            if (left[f.group] != per)
                fail("barrier divergence in kernel %s: threads of a block have "
                     "finished", l.name.c_str());
            ++stats.barriers;
            waiting[f.group] = 0;
            for (size_t i = 0; i < per; ++i)
                l.fibers[f.group * per + i].state = READY;
        }
        if (at_grid && at_grid == groups * per)
        {
            ++stats.barriers;
            at_grid = 0;
            for (auto& x : l.fibers) x.state = READY;
        }
    }
    run_ = nullptr;
    for (auto& b : live) b.second->protect(false);
    ++stats.launches;
    stats.threads += groups * per;
    schedules.insert(l.hash);
}

void on_segv(int, siginfo_t* info, void*)
{
    char buf[200];
    int n = snprintf(buf, sizeof buf, "MOCKCUDA-ERROR: invalid memory access "
                     "at %p%s\n", info->si_addr,
                     run_ && run_->current >= 0 ? " inside a kernel"
                     : find(info->si_addr) ? " of device memory by the host"
                                           : "");
    ssize_t w = write(2, buf, n);
    (void)w;
    _exit(77);
}

struct Init
{
    Init()
    {
        const char* s = getenv("MOCKCUDA_SEED");
        rng_state = s ? strtoull(s, nullptr, 10) * 7919 + 13 : 13;
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = on_segv;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        static char alt[65536];
        stack_t st;
        st.ss_sp = alt;
        st.ss_flags = 0;
        st.ss_size = sizeof alt;
        sigaltstack(&st, nullptr);
        sigaction(SIGSEGV, &sa, nullptr);
        sigaction(SIGBUS, &sa, nullptr);
    }
    ~Init()
    {
        const char* f = getenv("MOCKCUDA_STATS");
        if (f)
        {
            if (FILE* o = fopen(f, "a"))
            {
                fprintf(o, "launches=%lu threads=%lu\n", stats.launches,
                        stats.threads);
                fclose(o);
            }
        }
    }
} init_;

// The part [p, p + n) of device memory, or null.
Buffer* range(const void* p, size_t n)
{
    Buffer* b = find(p);
    if (!b) return nullptr;
    const char* c = (const char*)p;
    if (c < b->data || c + n > b->data + b->size)
        fail("copying %zu bytes out of a buffer of %zu bytes, at offset %ld",
             n, b->size, (long)(c - b->data));
    return b;
}

}

extern "C"
{

void mockcuda_reseed(unsigned long seed) { rng_state = seed * 7919 + 13; }
unsigned long mockcuda_live() { return live.size(); }
// launches, threads, blocks, switches, accesses, barriers, schedules
void mockcuda_stats(unsigned long* v)
{
    v[0] = stats.launches;
    v[1] = stats.threads;
    v[2] = stats.blocks;
    v[3] = stats.switches;
    v[4] = stats.accesses;
    v[5] = stats.barriers;
    v[6] = schedules.size();
}

cudaError_t cudaMalloc(void** p, size_t n)
{
    if (!p) return give(cudaErrorInvalidValue);
    if (fault()) return give(cudaErrorMemoryAllocation);
    if (n == 0)
    {
        *p = nullptr;
        return cudaSuccess;
    }
    Buffer* b = new Buffer;
    b->size = n;
    b->body = (n + 4095) / 4096 * 4096;
    b->span = b->body + 2 * 4096;
    b->base = (char*)mmap(nullptr, b->span, PROT_NONE,
                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b->base == MAP_FAILED) harness("mmap");
    b->protect(true);
    b->data = b->base + 4096 + (b->body - (n + 15) / 16 * 16);
    memset(b->base + 4096, 0xAB, b->body);
    b->protect(false);
    b->written.assign(n, false);
    live[b->base] = b;
    *p = b->data;
    return cudaSuccess;
}
cudaError_t cudaFree(void* p)
{
    if (fault()) return give(cudaErrorInvalidValue);
    if (!p) return cudaSuccess;
    Buffer* b = find(p);
    if (!b || b->data != p) return give(cudaErrorInvalidValue);
    munmap(b->base, b->span);
    live.erase(b->base);
    delete b;
    return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k)
{
    if (n == 0) return cudaSuccess;
    if (fault()) return give(cudaErrorLaunchFailure);
    ++stats.copies;
    Buffer *bd = range(d, n), *bs = range(s, n);
    bool wd = k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice;
    bool ws = k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice;
    if (k != cudaMemcpyDefault && (wd != !!bd || ws != !!bs))
        fail("copying from %s to %s memory as kind %d", bs ? "device" : "host",
             bd ? "device" : "host", (int)k);
    if (bs)
    {
        size_t at = (const char*)s - bs->data;
        for (size_t i = 0; i < n; ++i)
            if (!bs->written[at + i])
                fail("copying device memory never written, at offset %zu of "
                     "%zu", at + i, bs->size);
        bs->protect(true);
    }
    if (bd)
    {
        size_t at = (char*)d - bd->data;
        for (size_t i = 0; i < n; ++i) bd->written[at + i] = true;
        bd->protect(true);
    }
    memmove(d, s, n);
    if (bd) bd->protect(false);
    if (bs) bs->protect(false);
    return cudaSuccess;
}
cudaError_t cudaMemset(void* d, int v, size_t n)
{
    if (n == 0) return cudaSuccess;
    if (fault()) return give(cudaErrorLaunchFailure);
    Buffer* b = range(d, n);
    if (!b) return give(cudaErrorInvalidValue);
    size_t at = (char*)d - b->data;
    for (size_t i = 0; i < n; ++i) b->written[at + i] = true;
    b->protect(true);
    memset(d, v, n);
    b->protect(false);
    return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize()
{
    return fault() ? give(cudaErrorLaunchFailure) : cudaSuccess;
}
cudaError_t cudaGetLastError()
{
    cudaError_t e = last_error;
    last_error = cudaSuccess;
    return e;
}
cudaError_t cudaPeekAtLastError() { return last_error; }
const char* cudaGetErrorName(cudaError_t e)
{
    return e == cudaSuccess ? "cudaSuccess" : "cudaError";
}
const char* cudaGetErrorString(cudaError_t e)
{
    switch (e)
    {
        case cudaSuccess: return "no error";
        case cudaErrorInvalidValue: return "invalid argument";
        case cudaErrorInvalidConfiguration:
            return "invalid configuration argument";
        case cudaErrorCooperativeLaunchTooLarge:
            return "too many blocks in cooperative launch";
        default: return "error";
    }
}
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int)
{
    memset(p, 0, sizeof *p);
    strcpy(p->name, "mock");
    p->totalGlobalMem = 16ul << 30;
    p->maxThreadsPerBlock = MAX_THREADS;
    p->multiProcessorCount = 56;
    p->maxThreadsPerMultiProcessor = 2048;
    p->warpSize = 32;
    p->maxThreadsDim[0] = p->maxThreadsDim[1] = 1024;
    p->maxThreadsDim[2] = 64;
    p->maxGridSize[0] = 2147483647;
    p->maxGridSize[1] = p->maxGridSize[2] = 65535;
    p->major = 6;
    p->cooperativeLaunch = 1;
    return cudaSuccess;
}
cudaError_t cudaDeviceGetAttribute(int* v, cudaDeviceAttr a, int)
{
    *v = a == cudaDevAttrMaxThreadsPerBlock ? MAX_THREADS
        : a == cudaDevAttrMultiProcessorCount ? 56 : 1;
    return cudaSuccess;
}
cudaError_t mock_launch_kernel(const void* f, dim3 grid, dim3 block,
                               void** args, bool cooperative)
{
    unsigned long threads = (unsigned long)block.x * block.y * block.z;
    unsigned long blocks = (unsigned long)grid.x * grid.y * grid.z;
    if (threads == 0 || blocks == 0 || threads > MAX_THREADS
        || block.z > 64 || grid.x > 2147483647u || grid.y > 65535
        || grid.z > 65535)
        return give(cudaErrorInvalidConfiguration);
    if (cooperative && (threads * blocks > RESIDENT || blocks > RESIDENT_BLOCKS))
        return give(cudaErrorCooperativeLaunchTooLarge);
    if (fault()) return give(cudaErrorLaunchFailure);
    Dl_info i;
    if (!dladdr(f, &i) || !i.dli_sname || i.dli_saddr != f)
        harness("a kernel without a name");
    Launch l;
    l.name = i.dli_sname;
    l.tramp = (void (*)(void**))dlsym(device(), ("mock_tramp_" + l.name).c_str());
    if (!l.tramp)
    {
        fprintf(stderr, "%s\n", i.dli_sname);
        harness("a kernel is not in the device code");
    }
    l.args = args;
    l.cooperative = cooperative;
    execute(l, grid, block);
    return cudaSuccess;
}

void mock_grid_sync()
{
    if (!run_ || run_->current < 0) return;
    if (!run_->cooperative)
        fail("synchronization of the grid in kernel %s, which is not launched "
             "cooperatively", run_->name.c_str());
    run_->fibers[run_->current].state = GRID_BARRIER;
    to_scheduler();
}
bool mock_is_cooperative() { return run_ && run_->cooperative; }
void mock_syncthreads()
{
    if (!run_ || run_->current < 0) return;
    run_->fibers[run_->current].state = BLOCK_BARRIER;
    to_scheduler();
}
void mock_access(const void* p, size_t n, bool write)
{
    // One atomic operation: no switch between its parts.
    unsigned keep = run_ ? run_->preempt : 0;
    if (run_ && write) run_->preempt = 0;
    access(p, n, write);
    if (run_) run_->preempt = keep;
}

#define READ(NAME, N) void __tsan_##NAME##N(void* p) { access(p, N, false); }
#define WRITE(NAME, N) void __tsan_##NAME##N(void* p) { access(p, N, true); }
#define BOTH(N) \
    READ(read, N) WRITE(write, N) READ(unaligned_read, N) \
    WRITE(unaligned_write, N) READ(volatile_read, N) WRITE(volatile_write, N)
BOTH(1)
BOTH(2)
BOTH(4)
BOTH(8)
BOTH(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void**, void*) {}

}
