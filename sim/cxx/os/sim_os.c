/*
 * Simulated clock and disk, as a library to preload (LD_PRELOAD).
 *
 * Nothing is changed until a process enables it.  Then
 *  - every clock of the process reads the simulated clock, which follows a
 *    script of increments (jumps back included),
 *  - operations on files below one scratch directory are numbered, and a plan
 *    says which of them are cut short, fail, get interrupted, or are where the
 *    process dies.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) { real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name); }

/* ---------------------------------------------------------------- clock -- */

static int clock_on = 0;
static double clock_now = 0.0;      /* seconds since the epoch */
static double clock_tick = 0.0;     /* added at every reading */
static double * clock_jumps = NULL; /* jumps, used one per reading of the wall clock */
static int64_t clock_n_jumps = 0, clock_pos = 0, clock_reads = 0, clock_jumped = 0;
static double clock_span_lo = 0.0, clock_span_hi = 0.0;

void simos_clock(int on, double now, double tick, const double * jumps, int64_t n)
{
    clock_on = on;
    clock_now = now;
    clock_tick = tick;
    free(clock_jumps);
    clock_jumps = NULL;
    clock_n_jumps = n;
    clock_pos = 0;
    clock_reads = 0;
    clock_jumped = 0;
    clock_span_lo = clock_span_hi = now;
    if (n > 0)
    {
        clock_jumps = malloc(n * sizeof(double));
        memcpy(clock_jumps, jumps, n * sizeof(double));
    }
}

int64_t simos_clock_reads(void) { return clock_reads; }
int64_t simos_clock_jumped(void) { return clock_jumped; }
double simos_clock_span(void) { return clock_span_hi - clock_span_lo; }
double simos_clock_now(void) { return clock_now; }

static double clock_read(void)
{
    ++clock_reads;
    clock_now += clock_tick;
    if (clock_pos < clock_n_jumps)
    {
        const double j = clock_jumps[clock_pos++];
        if (j != 0.0) { ++clock_jumped; }
        clock_now += j;
    }
    if (clock_now < clock_span_lo) { clock_span_lo = clock_now; }
    if (clock_now > clock_span_hi) { clock_span_hi = clock_now; }
    return clock_now;
}

time_t time(time_t * t)
{
    REAL(time_t, "time", time_t *);
    time_t v = clock_on ? (time_t) clock_read() : real(NULL);
    if (t) { *t = v; }
    return v;
}

static void to_spec(double v, struct timespec * ts)
{
    ts->tv_sec = (time_t) v;
    ts->tv_nsec = (long) ((v - (double) ts->tv_sec) * 1e9);
    if (ts->tv_nsec < 0) { ts->tv_nsec = 0; }
    if (ts->tv_nsec > 999999999L) { ts->tv_nsec = 999999999L; }
}

int clock_gettime(clockid_t id, struct timespec * ts)
{
    REAL(int, "clock_gettime", clockid_t, struct timespec *);
    if (!clock_on) { return real(id, ts); }
    to_spec(clock_read(), ts);
    return 0;
}

int gettimeofday(struct timeval * restrict tv, void * restrict tz)
{
    REAL(int, "gettimeofday", struct timeval *, void *);
    if (!clock_on) { return real(tv, tz); }
    struct timespec ts;
    to_spec(clock_read(), &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

/* ----------------------------------------------------------------- disk -- */

enum { OP_OPEN = 0, OP_WRITE = 1, OP_CLOSE = 2, OP_TRUNC = 3, OP_KINDS = 4 };
enum { F_NONE = 0, F_SHORT = 1, F_EINTR = 2, F_ENOSPC = 3, F_EIO = 4, F_CRASH = 5, F_SIGINT = 6, F_KINDS = 7 };

struct fault { int64_t op; int kind; int64_t arg; int64_t repeat; };

static int disk_on = 0;
static char disk_root[512];
static size_t disk_root_len = 0;
static unsigned char tracked[4096];
static int64_t n_ops = 0, n_kind[OP_KINDS], fired[F_KINDS];
static struct fault faults[64];
static int n_faults = 0;

void simos_disk(int on, const char * root)
{
    disk_on = on;
    strncpy(disk_root, root, sizeof(disk_root) - 1);
    disk_root_len = strlen(disk_root);
    memset(tracked, 0, sizeof(tracked));
    n_ops = 0;
    memset(n_kind, 0, sizeof(n_kind));
    memset(fired, 0, sizeof(fired));
    n_faults = 0;
}

void simos_disk_fault(int64_t op, int kind, int64_t arg, int64_t repeat)
{
    if (n_faults < 64)
    {
        faults[n_faults].op = op;
        faults[n_faults].kind = kind;
        faults[n_faults].arg = arg;
        faults[n_faults].repeat = repeat;
        ++n_faults;
    }
}

void simos_disk_clear(void) { n_faults = 0; }
int64_t simos_disk_ops(void) { return n_ops; }
int64_t simos_disk_ops_of(int kind) { return n_kind[kind]; }
int64_t simos_disk_fired(int kind) { return fired[kind]; }

static int below(const char * path) { return disk_on && path && strncmp(path, disk_root, disk_root_len) == 0; }
static int is_tracked(int fd) { return disk_on && fd >= 0 && fd < 4096 && tracked[fd]; }

/* The fault of this operation, if any. Counts the operation. */
static struct fault * next(int kind)
{
    const int64_t op = n_ops++;
    ++n_kind[kind];
    for (int i = 0; i < n_faults; ++i)
    {
        if (op >= faults[i].op && op < faults[i].op + faults[i].repeat)
        {
            const int k = faults[i].kind;
            /* Short writes only make sense for writes, full disks not for closing or cutting. */
            if ((k == F_SHORT || k == F_ENOSPC) && (kind == OP_CLOSE || kind == OP_TRUNC || (k == F_SHORT && kind == OP_OPEN))) { continue; }
            /* A cut back that fails, or a close that fails, leaves the outcome open: not injected. */
            if ((k == F_EIO || k == F_EINTR) && (kind == OP_TRUNC || kind == OP_CLOSE)) { continue; }
            if (k == F_SIGINT && kind != OP_WRITE) { continue; }
            ++fired[k];
            return &faults[i];
        }
    }
    return NULL;
}

static int fail(const struct fault * f)
{
    switch (f->kind)
    {
    case F_EINTR:  errno = EINTR; return 1;
    case F_ENOSPC: errno = ENOSPC; return 1;
    case F_EIO:    errno = EIO; return 1;
    case F_CRASH:  _exit(86);
    case F_SIGINT: raise(SIGINT); return 0;
    default:       return 0;
    }
}

static int opened(int fd, const char * path)
{
    if (fd >= 0 && fd < 4096) { tracked[fd] = (unsigned char) below(path); }
    return fd;
}

#define OPEN_BODY(NAME) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, NAME, const char *, int, ...); \
    if (below(path) && (flags & (O_WRONLY | O_RDWR))) \
    { \
        struct fault * f = next(OP_OPEN); \
        if (f && fail(f)) { return -1; } \
        return opened(real(path, flags, mode), path); \
    } \
    return real(path, flags, mode);

int open(const char * path, int flags, ...) { OPEN_BODY("open") }
int open64(const char * path, int flags, ...) { OPEN_BODY("open64") }

#define OPENAT_BODY(NAME) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, NAME, int, const char *, int, ...); \
    if (below(path) && (flags & (O_WRONLY | O_RDWR))) \
    { \
        struct fault * f = next(OP_OPEN); \
        if (f && fail(f)) { return -1; } \
        return opened(real(dir, path, flags, mode), path); \
    } \
    return real(dir, path, flags, mode);

int openat(int dir, const char * path, int flags, ...) { OPENAT_BODY("openat") }
int openat64(int dir, const char * path, int flags, ...) { OPENAT_BODY("openat64") }

ssize_t write(int fd, const void * buf, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (is_tracked(fd))
    {
        struct fault * f = next(OP_WRITE);
        if (f)
        {
            size_t part = n;
            if (f->kind == F_SHORT || f->kind == F_CRASH)
            {
                part = (size_t) f->arg % (n + (f->kind == F_CRASH ? 1 : 0) + (n == 0 ? 1 : 0));
                if (part == 0 && f->kind == F_SHORT) { part = 1; }
                if (part > n) { part = n; }
                ssize_t r = part ? real(fd, buf, part) : 0;
                if (f->kind == F_CRASH) { _exit(86); }
                return r;
            }
            if (fail(f)) { return -1; }
        }
    }
    return real(fd, buf, n);
}

int close(int fd)
{
    REAL(int, "close", int);
    if (is_tracked(fd))
    {
        tracked[fd] = 0;
        struct fault * f = next(OP_CLOSE);
        if (f && f->kind == F_CRASH) { _exit(86); }
    }
    return real(fd);
}

#define TRUNC_BODY(NAME, TYPE) \
    REAL(int, NAME, const char *, TYPE); \
    if (below(path)) { struct fault * f = next(OP_TRUNC); if (f && fail(f)) { return -1; } } \
    return real(path, len);
int truncate(const char * path, off_t len) { TRUNC_BODY("truncate", off_t) }
int truncate64(const char * path, off64_t len) { TRUNC_BODY("truncate64", off64_t) }

#define FTRUNC_BODY(NAME, TYPE) \
    REAL(int, NAME, int, TYPE); \
    if (is_tracked(fd)) { struct fault * f = next(OP_TRUNC); if (f && fail(f)) { return -1; } } \
    return real(fd, len);
int ftruncate(int fd, off_t len) { FTRUNC_BODY("ftruncate", off_t) }
int ftruncate64(int fd, off64_t len) { FTRUNC_BODY("ftruncate64", off64_t) }

/* ---------------------------------------------------------------------------
 * The C++ heap: what is allocated and not yet freed.
 */
#include <malloc.h>
#include <stdlib.h>

static int64_t heap_blocks_, heap_bytes_, heap_total_;

int64_t simos_heap_blocks(void) { return heap_blocks_; }
int64_t simos_heap_bytes(void) { return heap_bytes_; }
int64_t simos_heap_total(void) { return heap_total_; }

void simos_heap_count(void * p, int sign)
{
    __atomic_add_fetch(&heap_blocks_, sign, __ATOMIC_RELAXED);
    if (sign > 0) __atomic_add_fetch(&heap_total_, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&heap_bytes_, sign * (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED);
}

static void * heap_new(size_t n)
{
    void * p = malloc(n);
    if (!p) abort();
    simos_heap_count(p, 1);
    return p;
}

static void heap_delete(void * p)
{
    if (!p) return;
    simos_heap_count(p, -1);
    free(p);
}

/* operator new and delete (left to the sanitizers in a build with them) */
#ifndef SIMOS_NO_HEAP
void * _Znwm(size_t n) { return heap_new(n); }
void * _Znam(size_t n) { return heap_new(n); }
void * _ZnwmRKSt9nothrow_t(size_t n, void * t) { (void)t; return heap_new(n); }
void * _ZnamRKSt9nothrow_t(size_t n, void * t) { (void)t; return heap_new(n); }
void _ZdlPv(void * p) { heap_delete(p); }
void _ZdaPv(void * p) { heap_delete(p); }
void _ZdlPvm(void * p, size_t n) { (void)n; heap_delete(p); }
void _ZdaPvm(void * p, size_t n) { (void)n; heap_delete(p); }
void _ZdlPvRKSt9nothrow_t(void * p, void * t) { (void)t; heap_delete(p); }
void _ZdaPvRKSt9nothrow_t(void * p, void * t) { (void)t; heap_delete(p); }
#endif
