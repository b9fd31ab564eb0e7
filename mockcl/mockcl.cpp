// A small OpenCL 1.2 runtime for tests: the host side of the API the library
// uses, with kernels compiled for the host by clang and executed by a
// scheduler of fibers.
//
// The kernels are compiled with the instrumentation of ThreadSanitizer, but
// the callbacks are defined here: every access to global memory is a point
// where the scheduler may switch to another work-item, so that a run explores
// one interleaving of work-items, reproducible from MOCKCL_SEED.
//
// Reported on stderr as "MOCKCL-ERROR: ..." followed by exit code 77:
// barriers that not all work-items of a group reach, accesses of kernels
// outside of the buffers passed (guard pages), kernels that do not finish,
// enqueueing with unset arguments, out of bounds reads and writes of buffers.
#define CL_TARGET_OPENCL_VERSION 120
#include "../harness/mock_switch.hpp"

#include <CL/cl.h>

#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <mutex>
#include <regex>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <vector>

namespace
{

[[noreturn]] void fail(const char* fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    fprintf(stderr, "MOCKCL-ERROR: ");
    vfprintf(stderr, fmt, a);
    fprintf(stderr, "\n");
    va_end(a);
    fflush(nullptr);
    _exit(77);
}

[[noreturn]] void harness(const char* fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    fprintf(stderr, "MOCKCL-HARNESS: ");
    vfprintf(stderr, fmt, a);
    fprintf(stderr, "\n");
    va_end(a);
    fflush(nullptr);
    _exit(78);
}

// The call to fail: it does nothing and returns an error.
bool fault()
{
    static const char* which = getenv("MOCKCL_FAIL");
    static unsigned long left = which ? strtoul(which, nullptr, 10) : 0;
    if (left == 0 || --left) return false;
    fprintf(stderr, "MOCKCL-FAULT\n");
    return true;
}

struct Obj
{
    int refs = 1;
    virtual ~Obj() {}
};

struct Buffer : Obj
{
    size_t size = 0, span = 0;
    char* base = nullptr;
    char* data = nullptr;
    explicit Buffer(size_t n) : size(n)
    {
        size_t page = 4096;
        size_t body = (n + page - 1) / page * page;
        if (body == 0) body = page;
        span = body + 2 * page;
        base = (char*)mmap(nullptr, span, PROT_NONE,
                           MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) harness("mmap");
        mprotect(base + page, body, PROT_READ | PROT_WRITE);
        // The end of the data is at the guard page (up to alignment).
        data = base + page + (body - (n + 15) / 16 * 16);
        memset(base + page, 0xAB, body);
    }
    ~Buffer() override { munmap(base, span); }
};

struct KernelInfo
{
    std::vector<std::string> types;
    void (*tramp)(void**) = nullptr;
};

struct Program : Obj
{
    std::string source, options, log;
    void* lib = nullptr;
    std::map<std::string, KernelInfo> kernels;
    cl_build_status status = CL_BUILD_NONE;
};

struct Kernel : Obj
{
    Program* program;
    std::string name;
    const KernelInfo* info;
    std::vector<std::vector<char>> args;
};

Obj platform_, device_, context_, queue_, event_;

// ---- the scheduler -------------------------------------------------------

uint64_t rng_state = 1;
uint64_t rnd()
{
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Fiber
{
    void* sp = nullptr;
    char* stack = nullptr;
    size_t gid = 0, group = 0, lid = 0;
    int state = 0;  // 0 ready, 1 at a barrier, 2 finished
};

const size_t STACK = 128 * 1024;
std::vector<char*> stacks;

struct Stats
{
    unsigned long launches = 0, items = 0, accesses = 0, switches = 0,
                  groups = 0, barriers = 0, builds = 0, tasks = 0;
    uint64_t schedule_hash = 0;
} stats;
std::set<uint64_t>* schedules = new std::set<uint64_t>;

std::vector<Fiber> pool;

struct Launch
{
    void (*tramp)(void**);
    void** args;
    std::vector<Fiber>& fibers = pool;
    size_t global_size = 0, local_size = 0, offset = 0;
    void* main = nullptr;
    long current = -1;
    uint64_t hash = 1469598103934665603ull;
    unsigned long steps = 0;
    unsigned preempt = 0;  // switch with probability 1/preempt; 0 is never
} *run_ = nullptr;

void fiber_main()
{
    Fiber& f = run_->fibers[run_->current];
    run_->tramp(run_->args);
    f.state = 2;
    mock_switch(&f.sp, run_->main);
}

void to_scheduler()
{
    Fiber& f = run_->fibers[run_->current];
    mock_switch(&f.sp, run_->main);
}

std::vector<Buffer*> live;

void access(const void* p, size_t n = 1)
{
    if (!run_ || run_->current < 0) return;
    bool global = false;
    for (Buffer* b : live)
    {
        const char* c = (const char*)p;
        if (c < b->base || c >= b->base + b->span) continue;
        // Guard pages are too far away for small overruns.
        if (c < b->data || c + n > b->data + b->size)
            fail("access of %zu bytes out of a buffer of %zu bytes, at offset "
                 "%ld", n, b->size, (long)(c - b->data));
        global = true;
        break;
    }
    if (!global) return;
    if (run_->preempt == 0)
    {
        if (++run_->steps > 400000000ul) fail("a kernel does not finish");
        return;
    }
    ++stats.accesses;
    if (++run_->steps > 400000000ul)
        fail("a kernel does not finish");
    if (rnd() % run_->preempt == 0)
    {
        to_scheduler();
    }
}

void execute(Kernel* k, size_t offset, size_t n, size_t local)
{
    std::vector<void*> argv;
    std::vector<void*> storage(k->args.size());
    for (size_t i = 0; i < k->args.size(); ++i)
    {
        if (k->args[i].empty())
            fail("argument %zu of kernel %s is not set", i, k->name.c_str());
        const std::string& t = k->info->types[i];
        if (t.find('*') != std::string::npos)
        {
            Obj* o = *(Obj**)k->args[i].data();
            Buffer* b = o ? dynamic_cast<Buffer*>(o) : nullptr;
            storage[i] = b ? b->data : nullptr;
            argv.push_back(&storage[i]);
        }
        else
        {
            argv.push_back(k->args[i].data());
        }
    }
    Launch l;
    l.tramp = k->info->tramp;
    l.args = argv.data();
    l.global_size = n;
    l.offset = offset;
    static const size_t divisors_wanted[] = {1, 2, 3, 4, 8, 1000000};
    if (local == 0)
    {
        // The implementation chooses the size of a group: any divisor.
        size_t want = divisors_wanted[rnd() % 6];
        local = 1;
        for (size_t d = 1; d <= n && d <= want; ++d)
            if (n % d == 0) local = d;
    }
    if (n % local) fail("global size is not a multiple of the local one");
    l.local_size = local;
    static const unsigned pre[] = {0, 1, 2, 4, 16, 64};
    l.preempt = pre[rnd() % 6];
    size_t groups = n / local;
    size_t in_flight = 1;
    switch (rnd() % 3)
    {
        case 0: in_flight = 1; break;
        case 1: in_flight = groups; break;
        default: in_flight = 1 + rnd() % groups;
    }
    unsigned order = rnd() % 3;
    l.fibers.assign(n, Fiber());
    std::vector<size_t> group_order(groups);
    for (size_t i = 0; i < groups; ++i)
        group_order[i] = order == 1 ? groups - 1 - i : i;
    if (order == 2)
        for (size_t i = groups; i-- > 1;)
            std::swap(group_order[i], group_order[rnd() % (i + 1)]);
    run_ = &l;
    size_t next_group = 0;
    std::vector<size_t> active;  // fibers of the groups in flight
    std::vector<size_t> left(groups, local);
    size_t head = 0;             // the first of them
    size_t flying = 0;
    std::vector<char*> free_stacks = stacks;
    auto start_group = [&]() {
        size_t g = group_order[next_group++];
        ++flying;
        ++stats.groups;
        for (size_t i = 0; i < local; ++i)
        {
            Fiber& f = l.fibers[g * local + i];
            f.gid = g * local + i + offset;
            f.group = g;
            f.lid = i;
            if (free_stacks.empty())
            {
                char* s = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (s == MAP_FAILED) harness("mmap of a stack");
                stacks.push_back(s);
                free_stacks.push_back(s);
            }
            f.stack = free_stacks.back();
            free_stacks.pop_back();
            f.sp = mock_stack(f.stack, STACK, fiber_main);
            active.push_back(g * local + i);
        }
    };
    while (true)
    {
        while (flying < in_flight && next_group < groups) start_group();
        const size_t size = active.size() - head;
        if (size == 0) break;
        // Choose a ready fiber.
        size_t pos = 0;
        bool found = false;
        size_t start = l.preempt == 0 && order == 0 ? 0 : rnd() % size;
        for (size_t t = 0; t < size; ++t)
        {
            pos = head + (start + t) % size;
            if (l.fibers[active[pos]].state == 0)
            {
                found = true;
                break;
            }
        }
        if (!found)
            fail("barrier divergence in kernel %s: some work-items of a group "
                 "wait at a barrier, the others have finished",
                 k->name.c_str());
        size_t id = active[pos];
        Fiber& f = l.fibers[id];
        l.current = (long)id;
        l.hash = (l.hash ^ id) * 1099511628211ull;
        ++stats.switches;
        mock_switch(&l.main, f.sp);
        l.current = -1;
        if (f.state == 2)
        {
            free_stacks.push_back(f.stack);
            if (pos == head) ++head;
            else
            {
                active[pos] = active.back();
                active.pop_back();
            }
            if (--left[f.group] == 0) --flying;
        }
        if (f.state >= 1)
        {
            // Release the barrier when all work-items of the group are there.
            bool all = true;
            size_t waiting = 0;
            for (size_t i = 0; i < local; ++i)
            {
                int s = l.fibers[f.group * local + i].state;
                if (s == 1) ++waiting;
                else all = false;
            }
            if (all && waiting == local)
            {
                ++stats.barriers;
                for (size_t i = 0; i < local; ++i)
                    l.fibers[f.group * local + i].state = 0;
            }
        }
    }
    run_ = nullptr;
    ++stats.launches;
    stats.items += n;
    schedules->insert(l.hash);
}

void on_segv(int, siginfo_t* info, void*)
{
    char buf[160];
    int n = snprintf(buf, sizeof buf,
                     "MOCKCL-ERROR: invalid memory access at %p%s\n",
                     info->si_addr,
                     run_ && run_->current >= 0 ? " inside a kernel" : "");
    ssize_t w = write(2, buf, n);
    (void)w;
    _exit(77);
}

struct Init
{
    Init()
    {
        const char* s = getenv("MOCKCL_SEED");
        rng_state = s ? strtoull(s, nullptr, 10) * 7919 + 13 : 13;
        if (getenv("MOCKCL_SEGV"))
        {
            struct sigaction sa;
            memset(&sa, 0, sizeof sa);
            sa.sa_sigaction = on_segv;
            sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
            static char alt[65536];
            stack_t st;
            st.ss_sp = alt;
            st.ss_size = sizeof alt;
            st.ss_flags = 0;
            sigaltstack(&st, nullptr);
            sigaction(SIGSEGV, &sa, nullptr);
            sigaction(SIGBUS, &sa, nullptr);
        }
    }
    ~Init()
    {
        const char* f = getenv("MOCKCL_STATS");
        if (f)
        {
            if (FILE* o = fopen(f, "a"))
            {
                fprintf(o,
                        "launches=%lu tasks=%lu items=%lu groups=%lu "
                        "switches=%lu accesses=%lu barriers=%lu builds=%lu "
                        "schedules=%zu\n",
                        stats.launches, stats.tasks, stats.items, stats.groups,
                        stats.switches, stats.accesses, stats.barriers,
                        stats.builds, schedules->size());
                fclose(o);
            }
        }
    }
} init_;

// ---- the compiler ----------------------------------------------------------

std::string shell(const std::string& cmd, int& rc)
{
    std::string out;
    FILE* p = popen((cmd + " 2>&1").c_str(), "r");
    if (!p) harness("popen");
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, n);
    int st = pclose(p);
    rc = WIFEXITED(st) ? WEXITSTATUS(st) : 255;
    return out;
}

std::string c_type(const std::string& t)
{
    if (t.find('*') != std::string::npos) return "void*";
    static const std::map<std::string, std::string> m = {
        {"ulong", "unsigned long"}, {"long", "long"},
        {"uint", "unsigned"}, {"int", "int"}, {"float", "float"},
        {"double", "double"}, {"char", "signed char"},
        {"uchar", "unsigned char"}, {"short", "short"},
        {"ushort", "unsigned short"}};
    auto it = m.find(t);
    if (it == m.end()) harness("kernel argument type %s", t.c_str());
    return it->second;
}

std::map<std::string, Program*> cache;

bool build(Program* p)
{
    std::string key = p->source + "\n//" + p->options;
    auto it = cache.find(key);
    if (it != cache.end())
    {
        p->kernels = it->second->kernels;
        p->lib = it->second->lib;
        p->log = it->second->log;
        p->status = it->second->status;
        return p->status == CL_BUILD_SUCCESS;
    }
    ++stats.builds;
    const char* tmp = getenv("MOCKCL_DIR");
    std::string dir = (tmp ? tmp : "/tmp") + std::string("/mockcl.XXXXXX");
    std::vector<char> d(dir.begin(), dir.end());
    d.push_back(0);
    if (!mkdtemp(d.data())) harness("mkdtemp %s", dir.c_str());
    dir = d.data();
    {
        std::ofstream f(dir + "/k.cl");
        f << p->source;
    }
    int rc;
    const char* cc = getenv("MOCKCL_CLANG");
    std::string clang = cc ? cc : "/usr/bin/clang-18";
    std::string common = clang + " -x cl " + p->options
        + " -Xclang -finclude-default-header -cl-kernel-arg-info -O1 -g "
          "-fPIC -fsanitize=thread ";
    p->log = shell(common + "-S -emit-llvm " + dir + "/k.cl -o " + dir
                   + "/k.ll", rc);
    if (rc != 0)
    {
        p->status = CL_BUILD_ERROR;
        cache[key] = p;
        ++p->refs;
        int r;
        shell("rm -rf '" + dir + "'", r);
        return false;
    }
    p->log.clear();
    std::stringstream ss;
    {
        std::ifstream f(dir + "/k.ll");
        ss << f.rdbuf();
    }
    std::string ll = ss.str(), line;
    std::istringstream in(ll);
    static const std::regex def(
        "^define .*spir_kernel void @([A-Za-z0-9_]+)\\(|"
        "^define .*void @([A-Za-z0-9_]+)\\(.*!kernel_arg_type ");
    static const std::regex ref("!kernel_arg_type !([0-9]+)");
    std::map<std::string, std::string> names;  // kernel -> metadata id
    while (std::getline(in, line))
    {
        std::smatch m, r;
        if (line.compare(0, 6, "define") == 0
            && std::regex_search(line, m, def)
            && std::regex_search(line, r, ref))
        {
            names[m[1].matched ? m[1] : m[2]] = r[1];
        }
    }
    std::ostringstream tr;
    for (auto& kv : names)
    {
        std::regex md("\n!" + kv.second + " = !\\{(.*)\\}");
        std::smatch m;
        if (!std::regex_search(ll, m, md)) harness("metadata of a kernel");
        KernelInfo ki;
        std::string body = m[1];
        static const std::regex str("!\"([^\"]*)\"");
        for (std::sregex_iterator i(body.begin(), body.end(), str), e; i != e;
             ++i)
            ki.types.push_back((*i)[1]);
        tr << "extern void " << kv.first << "(";
        for (size_t i = 0; i < ki.types.size(); ++i)
            tr << (i ? ", " : "") << c_type(ki.types[i]);
        tr << ");\nvoid mockcl_tramp_" << kv.first << "(void** a) { "
           << kv.first << "(";
        for (size_t i = 0; i < ki.types.size(); ++i)
            tr << (i ? ", " : "") << "*(" << c_type(ki.types[i]) << "*)a[" << i
               << "]";
        tr << "); }\n";
        p->kernels[kv.first] = ki;
    }
    {
        std::ofstream f(dir + "/t.c");
        f << tr.str();
    }
    std::string err = shell(common + "-c " + dir + "/k.cl -o " + dir + "/k.o && "
          + clang + " -O1 -fPIC -c " + dir + "/t.c -o " + dir + "/t.o && "
          + clang + " -shared -Wl,-z,lazy " + dir + "/k.o " + dir
          + "/t.o -o " + dir + "/k.so", rc);
    if (rc != 0) harness("building kernels: %s", err.c_str());
    p->lib = dlopen((dir + "/k.so").c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!p->lib) harness("dlopen: %s", dlerror());
    for (auto& kv : p->kernels)
    {
        kv.second.tramp
            = (void (*)(void**))dlsym(p->lib, ("mockcl_tramp_" + kv.first).c_str());
        if (!kv.second.tramp) harness("dlsym %s", kv.first.c_str());
    }
    int r;
    shell("rm -rf '" + dir + "'", r);
    p->status = CL_BUILD_SUCCESS;
    cache[key] = p;
    ++p->refs;
    return true;
}

cl_int give(const void* v, size_t n, size_t cap, void* out, size_t* ret)
{
    if (ret) *ret = n;
    if (out)
    {
        if (cap < n) return CL_INVALID_VALUE;
        memcpy(out, v, n);
    }
    return CL_SUCCESS;
}
template<class T>
cl_int give(T v, size_t cap, void* out, size_t* ret)
{
    return give(&v, sizeof v, cap, out, ret);
}
cl_int gives(const std::string& s, size_t cap, void* out, size_t* ret)
{
    return give(s.c_str(), s.size() + 1, cap, out, ret);
}

void set_err(cl_int* e, cl_int v)
{
    if (e) *e = v;
}

Buffer* buf(cl_mem m)
{
    Buffer* b = dynamic_cast<Buffer*>((Obj*)m);
    if (!b) fail("not a buffer");
    return b;
}

cl_event event(cl_event* out)
{
    if (out)
    {
        ++event_.refs;
        *out = (cl_event)&event_;
    }
    return nullptr;
}

}

// Scalar builtins: conversions, arithmetics, atomics.
#include "builtins.hpp"

extern "C"
{

// ---- builtins of kernels ---------------------------------------------------

size_t _Z13get_global_idj(unsigned d)
{
    return d == 0 ? run_->fibers[run_->current].gid : 0;
}
size_t _Z12get_local_idj(unsigned d)
{
    return d == 0 ? run_->fibers[run_->current].lid : 0;
}
size_t _Z12get_group_idj(unsigned d)
{
    return d == 0 ? run_->fibers[run_->current].group : 0;
}
size_t _Z15get_global_sizej(unsigned d) { return d == 0 ? run_->global_size : 1; }
size_t _Z14get_local_sizej(unsigned d) { return d == 0 ? run_->local_size : 1; }
size_t _Z14get_num_groupsj(unsigned d)
{
    return d == 0 ? run_->global_size / run_->local_size : 1;
}
size_t _Z17get_global_offsetj(unsigned d) { return d == 0 ? run_->offset : 0; }
unsigned _Z12get_work_dimv() { return 1; }
void _Z7barrierj(unsigned)
{
    run_->fibers[run_->current].state = 1;
    to_scheduler();
}
void _Z9mem_fencej(unsigned) {}
void _Z14read_mem_fencej(unsigned) {}
void _Z15write_mem_fencej(unsigned) {}
// ---- instrumentation of kernels -------------------------------------------

#define ACC(NAME, N) \
    void __tsan_##NAME##N(void* p) { access(p, N); }
#define ACCS(N) \
    ACC(read, N) ACC(write, N) ACC(unaligned_read, N) ACC(unaligned_write, N) \
    ACC(volatile_read, N) ACC(volatile_write, N) ACC(read_write, N) \
    ACC(unaligned_read_write, N)
ACCS(1)
ACCS(2)
ACCS(4)
ACCS(8)
ACCS(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void __tsan_read_range(void* p, long n) { access(p, n); }
void __tsan_write_range(void* p, long n) { access(p, n); }

// ---- the host API ----------------------------------------------------------

void mockcl_reseed(unsigned long seed) { rng_state = seed * 7919 + 13; }
// launches, items, groups, switches, accesses, barriers, schedules
void mockcl_stats(unsigned long* v)
{
    v[0] = stats.launches;
    v[1] = stats.items;
    v[2] = stats.groups;
    v[3] = stats.switches;
    v[4] = stats.accesses;
    v[5] = stats.barriers;
    v[6] = schedules->size();
}

cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* c)
{
    if (c) *c = 1;
    if (p && n) *p = (cl_platform_id)&platform_;
    return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info i, size_t cap,
                         void* out, size_t* ret)
{
    switch (i)
    {
        case CL_PLATFORM_VERSION: return gives("OpenCL 1.2 mock", cap, out, ret);
        case CL_PLATFORM_EXTENSIONS: return gives("", cap, out, ret);
        default: return gives("mock", cap, out, ret);
    }
}
cl_int clGetDeviceIDs(cl_platform_id, cl_device_type, cl_uint n,
                      cl_device_id* d, cl_uint* c)
{
    if (c) *c = 1;
    if (d && n) *d = (cl_device_id)&device_;
    return CL_SUCCESS;
}
cl_int clGetDeviceInfo(cl_device_id, cl_device_info i, size_t cap, void* out,
                       size_t* ret)
{
    switch (i)
    {
        case CL_DEVICE_TYPE:
            return give<cl_device_type>(CL_DEVICE_TYPE_CPU, cap, out, ret);
        case CL_DEVICE_VERSION: return gives("OpenCL 1.2 mock", cap, out, ret);
        case CL_DEVICE_PLATFORM:
            return give<void*>(&platform_, cap, out, ret);
        case CL_DEVICE_EXTENSIONS: return gives("", cap, out, ret);
        case CL_DEVICE_MAX_COMPUTE_UNITS: return give<cl_uint>(4, cap, out, ret);
        case CL_DEVICE_MAX_WORK_GROUP_SIZE:
            return give<size_t>(4096, cap, out, ret);
        case CL_DEVICE_AVAILABLE: return give<cl_bool>(CL_TRUE, cap, out, ret);
        case CL_DEVICE_NAME:
        case CL_DEVICE_VENDOR:
        case CL_DEVICE_PROFILE: return gives("mock", cap, out, ret);
        default: return give<cl_ulong>(0, cap, out, ret);
    }
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
cl_context clCreateContext(const cl_context_properties*, cl_uint,
                           const cl_device_id*,
                           void (*)(const char*, const void*, size_t, void*),
                           void*, cl_int* e)
{
    if (fault()) return set_err(e, CL_OUT_OF_HOST_MEMORY), nullptr;
    set_err(e, CL_SUCCESS);
    return (cl_context)&context_;
}
cl_int clRetainContext(cl_context) { return CL_SUCCESS; }
cl_int clReleaseContext(cl_context) { return CL_SUCCESS; }
cl_int clGetContextInfo(cl_context, cl_context_info i, size_t cap, void* out,
                        size_t* ret)
{
    switch (i)
    {
        case CL_CONTEXT_DEVICES: return give<void*>(&device_, cap, out, ret);
        case CL_CONTEXT_NUM_DEVICES: return give<cl_uint>(1, cap, out, ret);
        default: return give<cl_ulong>(0, cap, out, ret);
    }
}
cl_command_queue clCreateCommandQueue(cl_context, cl_device_id,
                                      cl_command_queue_properties, cl_int* e)
{
    if (fault()) return set_err(e, CL_OUT_OF_HOST_MEMORY), nullptr;
    set_err(e, CL_SUCCESS);
    return (cl_command_queue)&queue_;
}
cl_int clRetainCommandQueue(cl_command_queue) { return CL_SUCCESS; }
cl_int clReleaseCommandQueue(cl_command_queue) { return CL_SUCCESS; }
cl_int clGetCommandQueueInfo(cl_command_queue, cl_command_queue_info i,
                             size_t cap, void* out, size_t* ret)
{
    switch (i)
    {
        case CL_QUEUE_CONTEXT: return give<void*>(&context_, cap, out, ret);
        case CL_QUEUE_DEVICE: return give<void*>(&device_, cap, out, ret);
        default: return give<cl_ulong>(0, cap, out, ret);
    }
}
cl_mem clCreateBuffer(cl_context, cl_mem_flags flags, size_t n, void* host,
                      cl_int* e)
{
    if (fault()) return set_err(e, CL_MEM_OBJECT_ALLOCATION_FAILURE), nullptr;
    if (n == 0)
    {
        set_err(e, CL_INVALID_BUFFER_SIZE);
        return nullptr;
    }
    Buffer* b = new Buffer(n);
    if (host && (flags & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR)))
        memcpy(b->data, host, n);
    live.push_back(b);
    set_err(e, CL_SUCCESS);
    return (cl_mem)(Obj*)b;
}
cl_int clRetainMemObject(cl_mem m)
{
    ++buf(m)->refs;
    return CL_SUCCESS;
}
cl_int clReleaseMemObject(cl_mem m)
{
    Buffer* b = buf(m);
    if (--b->refs == 0)
    {
        for (size_t i = 0; i < live.size(); ++i)
            if (live[i] == b)
            {
                live.erase(live.begin() + i);
                break;
            }
        delete b;
    }
    return CL_SUCCESS;
}
cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info i, size_t cap, void* out,
                          size_t* ret)
{
    switch (i)
    {
        case CL_MEM_SIZE: return give<size_t>(buf(m)->size, cap, out, ret);
        case CL_MEM_CONTEXT: return give<void*>(&context_, cap, out, ret);
        case CL_MEM_TYPE:
            return give<cl_mem_object_type>(CL_MEM_OBJECT_BUFFER, cap, out, ret);
        case CL_MEM_FLAGS:
            return give<cl_mem_flags>(CL_MEM_READ_WRITE, cap, out, ret);
        case CL_MEM_REFERENCE_COUNT:
            return give<cl_uint>(buf(m)->refs, cap, out, ret);
        default: return give<cl_ulong>(0, cap, out, ret);
    }
}
static void bounds(Buffer* b, size_t off, size_t n, const char* what)
{
    if (off > b->size || n > b->size - off)
        fail("%s of %zu bytes at %zu of a buffer of %zu bytes", what, n, off,
             b->size);
}
cl_int clEnqueueReadBuffer(cl_command_queue, cl_mem m, cl_bool, size_t off,
                           size_t n, void* p, cl_uint, const cl_event*,
                           cl_event* ev)
{
    if (fault()) return CL_OUT_OF_RESOURCES;
    bounds(buf(m), off, n, "read");
    memcpy(p, buf(m)->data + off, n);
    event(ev);
    return CL_SUCCESS;
}
cl_int clEnqueueWriteBuffer(cl_command_queue, cl_mem m, cl_bool, size_t off,
                            size_t n, const void* p, cl_uint, const cl_event*,
                            cl_event* ev)
{
    if (fault()) return CL_OUT_OF_RESOURCES;
    bounds(buf(m), off, n, "write");
    memcpy(buf(m)->data + off, p, n);
    event(ev);
    return CL_SUCCESS;
}
cl_int clEnqueueCopyBuffer(cl_command_queue, cl_mem s, cl_mem d, size_t so,
                           size_t dof, size_t n, cl_uint, const cl_event*,
                           cl_event* ev)
{
    if (fault()) return CL_OUT_OF_RESOURCES;
    bounds(buf(s), so, n, "copy");
    bounds(buf(d), dof, n, "copy");
    memmove(buf(d)->data + dof, buf(s)->data + so, n);
    event(ev);
    return CL_SUCCESS;
}
cl_int clEnqueueFillBuffer(cl_command_queue, cl_mem m, const void* pat,
                           size_t ps, size_t off, size_t n, cl_uint,
                           const cl_event*, cl_event* ev)
{
    bounds(buf(m), off, n, "fill");
    for (size_t i = 0; i + ps <= n; i += ps)
        memcpy(buf(m)->data + off + i, pat, ps);
    event(ev);
    return CL_SUCCESS;
}
void* clEnqueueMapBuffer(cl_command_queue, cl_mem m, cl_bool, cl_map_flags,
                         size_t off, size_t n, cl_uint, const cl_event*,
                         cl_event* ev, cl_int* e)
{
    bounds(buf(m), off, n, "map");
    event(ev);
    set_err(e, CL_SUCCESS);
    return buf(m)->data + off;
}
cl_int clEnqueueUnmapMemObject(cl_command_queue, cl_mem, void*, cl_uint,
                               const cl_event*, cl_event* ev)
{
    event(ev);
    return CL_SUCCESS;
}
cl_int clFinish(cl_command_queue) { return CL_SUCCESS; }
cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
cl_int clWaitForEvents(cl_uint, const cl_event*) { return CL_SUCCESS; }
cl_int clRetainEvent(cl_event) { return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
cl_int clGetEventInfo(cl_event, cl_event_info, size_t cap, void* out,
                      size_t* ret)
{
    return give<cl_int>(CL_COMPLETE, cap, out, ret);
}

cl_program clCreateProgramWithSource(cl_context, cl_uint n, const char** s,
                                     const size_t* l, cl_int* e)
{
    if (fault()) return set_err(e, CL_OUT_OF_HOST_MEMORY), nullptr;
    Program* p = new Program;
    for (cl_uint i = 0; i < n; ++i)
        p->source += l && l[i] ? std::string(s[i], l[i]) : std::string(s[i]);
    set_err(e, CL_SUCCESS);
    return (cl_program)(Obj*)p;
}
static Program* prog(cl_program p) { return dynamic_cast<Program*>((Obj*)p); }
cl_int clRetainProgram(cl_program p)
{
    ++prog(p)->refs;
    return CL_SUCCESS;
}
cl_int clReleaseProgram(cl_program p)
{
    if (--prog(p)->refs == 0) delete prog(p);
    return CL_SUCCESS;
}
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*,
                      const char* options, void (*)(cl_program, void*), void*)
{
    if (fault()) return CL_BUILD_PROGRAM_FAILURE;
    prog(p)->options = options ? options : "";
    return build(prog(p)) ? CL_SUCCESS : CL_BUILD_PROGRAM_FAILURE;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info i,
                             size_t cap, void* out, size_t* ret)
{
    switch (i)
    {
        case CL_PROGRAM_BUILD_STATUS:
            return give<cl_build_status>(prog(p)->status, cap, out, ret);
        case CL_PROGRAM_BUILD_OPTIONS:
            return gives(prog(p)->options, cap, out, ret);
        default: return gives(prog(p)->log, cap, out, ret);
    }
}
cl_int clGetProgramInfo(cl_program p, cl_program_info i, size_t cap, void* out,
                        size_t* ret)
{
    switch (i)
    {
        case CL_PROGRAM_CONTEXT: return give<void*>(&context_, cap, out, ret);
        case CL_PROGRAM_NUM_DEVICES: return give<cl_uint>(1, cap, out, ret);
        case CL_PROGRAM_DEVICES: return give<void*>(&device_, cap, out, ret);
        case CL_PROGRAM_SOURCE: return gives(prog(p)->source, cap, out, ret);
        default: return give<cl_ulong>(0, cap, out, ret);
    }
}
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* e)
{
    if (fault()) return set_err(e, CL_OUT_OF_RESOURCES), nullptr;
    auto it = prog(p)->kernels.find(name);
    if (it == prog(p)->kernels.end())
    {
        set_err(e, CL_INVALID_KERNEL_NAME);
        return nullptr;
    }
    Kernel* k = new Kernel;
    k->program = prog(p);
    ++k->program->refs;
    k->name = name;
    k->info = &it->second;
    k->args.resize(it->second.types.size());
    set_err(e, CL_SUCCESS);
    return (cl_kernel)(Obj*)k;
}
static Kernel* kern(cl_kernel k) { return dynamic_cast<Kernel*>((Obj*)k); }
cl_int clRetainKernel(cl_kernel k)
{
    ++kern(k)->refs;
    return CL_SUCCESS;
}
cl_int clReleaseKernel(cl_kernel k)
{
    if (--kern(k)->refs == 0) delete kern(k);
    return CL_SUCCESS;
}
cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info i, size_t cap, void* out,
                       size_t* ret)
{
    switch (i)
    {
        case CL_KERNEL_NUM_ARGS:
            return give<cl_uint>(kern(k)->args.size(), cap, out, ret);
        case CL_KERNEL_FUNCTION_NAME:
            return gives(kern(k)->name, cap, out, ret);
        case CL_KERNEL_PROGRAM:
            return give<void*>((Obj*)kern(k)->program, cap, out, ret);
        case CL_KERNEL_CONTEXT: return give<void*>(&context_, cap, out, ret);
        default: return give<cl_ulong>(0, cap, out, ret);
    }
}
static size_t type_size(const std::string& t)
{
    if (t.find('*') != std::string::npos) return 8;
    if (t == "ulong" || t == "long" || t == "double") return 8;
    if (t == "uint" || t == "int" || t == "float") return 4;
    if (t == "short" || t == "ushort") return 2;
    return 1;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v)
{
    if (fault()) return CL_OUT_OF_HOST_MEMORY;
    if (i >= kern(k)->args.size()) return CL_INVALID_ARG_INDEX;
    if (n != type_size(kern(k)->info->types[i])) return CL_INVALID_ARG_SIZE;
    kern(k)->args[i].assign((const char*)v, (const char*)v + n);
    return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue, cl_kernel k, cl_uint dim,
                              const size_t* off, const size_t* global,
                              const size_t* local, cl_uint, const cl_event*,
                              cl_event* ev)
{
    if (fault()) return CL_OUT_OF_RESOURCES;
    if (dim != 1) harness("only one dimension is supported");
    execute(kern(k), off ? off[0] : 0, global[0], local ? local[0] : 0);
    event(ev);
    return CL_SUCCESS;
}
cl_int clEnqueueTask(cl_command_queue, cl_kernel k, cl_uint, const cl_event*,
                     cl_event* ev)
{
    if (fault()) return CL_OUT_OF_RESOURCES;
    ++stats.tasks;
    execute(kern(k), 0, 1, 1);
    event(ev);
    return CL_SUCCESS;
}

}
