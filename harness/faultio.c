/* LD_PRELOAD: counts the operations of the program on chosen files, and lets
 * one of them fail. Environment:
 *   VF_TARGET  path as the program gets it
 *   VF_OP      open, read, write or close: operation which fails
 *   VF_NTH     which one (1 is the first), 0 for none
 *   VF_EVERY   1: all operations from the nth one on
 *   VF_ERR     errno, or 0 for a short operation
 *   VF_LOG     file for the counts: opens reads writes closes hits allocations
 *   VF_OP=new  the operator new of the program fails instead
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN, READ, WRITE, CLOSE, NEW = 5 };
static const char* names[] = {"open", "read", "write", "close"};
static long local_[6];
static long* counts = local_;
static char mine[65536];
static int ready = 0, op = -1, err = 0, every = 0;
static long nth = 0;
static const char* target = 0;

static void* real(const char* n)
{
    return dlsym(RTLD_NEXT, n);
}

static void start(void)
{
    if (ready) return;
    ready = 1;
    target = getenv("VF_TARGET");
    const char* o = getenv("VF_OP");
    for (int i = 0; o && i < 4; ++i) if (!strcmp(o, names[i])) op = i;
    if (o && !strcmp(o, "new")) op = NEW;
    nth = getenv("VF_NTH") ? atol(getenv("VF_NTH")) : 0;
    every = getenv("VF_EVERY") && *getenv("VF_EVERY") == '1';
    err = getenv("VF_ERR") ? atoi(getenv("VF_ERR")) : 0;
    const char* l = getenv("VF_LOG");
    if (l)
    {
        int (*op_)(const char*, int, ...) = real("open");
        int (*cl)(int) = real("close");
        int fd = op_(l, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof local_) == 0)
        {
            void* p = mmap(0, sizeof local_, PROT_READ | PROT_WRITE,
                           MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) counts = p;
        }
        if (fd >= 0) cl(fd);
    }
}

/* 0: go on, 1: fail with err, 2: short operation */
static int hit(int what)
{
    long n = ++counts[what];
    if (what != op || !nth) return 0;
    if (n != nth && !(every && n > nth)) return 0;
    ++counts[4];
    return err ? 1 : 2;
}

static int is_target(const char* p)
{
    start();
    return target && p && !strcmp(p, target);
}

static int is_mine(int fd)
{
    start();
    return fd >= 0 && fd < (int)sizeof mine && mine[fd];
}

static void mark(int fd)
{
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 1;
}

#define OPENER(NAME) \
    FILE* NAME(const char* p, const char* m) \
    { \
        FILE* (*f)(const char*, const char*) = real(#NAME); \
        if (!is_target(p)) return f(p, m); \
        if (hit(OPEN) == 1) { errno = err; return 0; } \
        FILE* r = f(p, m); \
        if (r) mark(fileno(r)); \
        return r; \
    }
OPENER(fopen)
OPENER(fopen64)

#define OPEN_(NAME) \
    int NAME(const char* p, int flags, ...) \
    { \
        va_list a; \
        va_start(a, flags); \
        int mode = va_arg(a, int); \
        va_end(a); \
        int (*f)(const char*, int, ...) = real(#NAME); \
        if (!is_target(p)) return f(p, flags, mode); \
        if (hit(OPEN) == 1) { errno = err; return -1; } \
        int r = f(p, flags, mode); \
        mark(r); \
        return r; \
    }
OPEN_(open)
OPEN_(open64)

#define OPENAT(NAME) \
    int NAME(int d, const char* p, int flags, ...) \
    { \
        va_list a; \
        va_start(a, flags); \
        int mode = va_arg(a, int); \
        va_end(a); \
        int (*f)(int, const char*, int, ...) = real(#NAME); \
        if (!is_target(p)) return f(d, p, flags, mode); \
        if (hit(OPEN) == 1) { errno = err; return -1; } \
        int r = f(d, p, flags, mode); \
        mark(r); \
        return r; \
    }
OPENAT(openat)
OPENAT(openat64)

int creat(const char* p, mode_t m)
{
    return open(p, O_CREAT | O_WRONLY | O_TRUNC, m);
}

ssize_t read(int fd, void* b, size_t n)
{
    ssize_t (*f)(int, void*, size_t) = real("read");
    if (!is_mine(fd)) return f(fd, b, n);
    int h = hit(READ);
    if (h == 1) { errno = err; return -1; }
    if (h == 2 && n > 1) n = n > 7 ? 7 : 1;
    return f(fd, b, n);
}

ssize_t readv(int fd, const struct iovec* v, int c)
{
    ssize_t (*f)(int, const struct iovec*, int) = real("readv");
    if (!is_mine(fd)) return f(fd, v, c);
    int h = hit(READ);
    if (h == 1) { errno = err; return -1; }
    return f(fd, v, c);
}

ssize_t write(int fd, const void* b, size_t n)
{
    ssize_t (*f)(int, const void*, size_t) = real("write");
    if (!is_mine(fd)) return f(fd, b, n);
    int h = hit(WRITE);
    if (h == 1) { errno = err; return -1; }
    if (h == 2 && n > 1) n = n / 2;
    return f(fd, b, n);
}

ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    ssize_t (*f)(int, const void*, size_t, off_t) = real("pwrite");
    if (!is_mine(fd)) return f(fd, b, n, o);
    int h = hit(WRITE);
    if (h == 1) { errno = err; return -1; }
    if (h == 2 && n > 1) n = n / 2;
    return f(fd, b, n, o);
}

ssize_t writev(int fd, const struct iovec* v, int c)
{
    ssize_t (*f)(int, const struct iovec*, int) = real("writev");
    if (!is_mine(fd)) return f(fd, v, c);
    int h = hit(WRITE);
    if (h == 1) { errno = err; return -1; }
    if (h == 2)
    {
        ssize_t (*w)(int, const void*, size_t) = real("write");
        for (int i = 0; i < c; ++i)
            if (v[i].iov_len)
                return w(fd, v[i].iov_base, (v[i].iov_len + 1) / 2);
    }
    return f(fd, v, c);
}

/* The C library's own writes are not visible here: the functions of stdio
 * which do them are. */
size_t fwrite(const void* b, size_t s, size_t n, FILE* f_)
{
    size_t (*f)(const void*, size_t, size_t, FILE*) = real("fwrite");
    if (!f_ || !is_mine(fileno(f_))) return f(b, s, n, f_);
    int h = hit(WRITE);
    if (h == 1) { errno = err; return 0; }
    if (h == 2 && n > 1) n = n / 2;
    return f(b, s, n, f_);
}

int fflush(FILE* f_)
{
    int (*f)(FILE*) = real("fflush");
    if (!f_ || !is_mine(fileno(f_))) return f(f_);
    int h = hit(WRITE);
    if (h == 1) { errno = err; return EOF; }
    return f(f_);
}

int fclose(FILE* f_)
{
    int (*f)(FILE*) = real("fclose");
    int fd = f_ ? fileno(f_) : -1;
    if (!is_mine(fd)) return f(f_);
    mine[fd] = 0;
    int h = hit(CLOSE);
    int r = f(f_);
    if (h == 1) { errno = err; return EOF; }
    return r;
}

int close(int fd)
{
    int (*f)(int) = real("close");
    if (!is_mine(fd)) return f(fd);
    mine[fd] = 0;
    int h = hit(CLOSE);
    int r = f(fd);
    if (h == 1) { errno = err; return -1; }
    return r;
}

/* std::__throw_bad_alloc and omp_in_parallel of the program, if there are */
extern void throw_bad_alloc(void) __asm__("_ZSt17__throw_bad_allocv")
    __attribute__((weak));
extern int omp_in_parallel(void) __attribute__((weak));

static void* make(size_t n, int may_throw)
{
    start();
    void* p = 0;
    /* Exceptions cannot leave a parallel region. */
    if ((omp_in_parallel && omp_in_parallel()) || hit(NEW) != 1)
        p = malloc(n ? n : 1);
    if (!p && may_throw)
    {
        if (!throw_bad_alloc) abort();
        throw_bad_alloc();
    }
    return p;
}

void* new_(size_t n) __asm__("_Znwm");
void* new_(size_t n) { return make(n, 1); }
void* new_array(size_t n) __asm__("_Znam");
void* new_array(size_t n) { return make(n, 1); }
void* new_nothrow(size_t n, const void* t) __asm__("_ZnwmRKSt9nothrow_t");
void* new_nothrow(size_t n, const void* t) { return make(n, 0); }
void* new_array_nothrow(size_t n, const void* t)
    __asm__("_ZnamRKSt9nothrow_t");
void* new_array_nothrow(size_t n, const void* t) { return make(n, 0); }
