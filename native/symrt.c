// Runs an entry of the harness natively, on a concrete model and schedule.
//
//   symrt LIB ENTRY PARAMS MODEL [SCHED [SEED [room for arguments...]]]
//
// LIB     libharness.so as cargo built it, or the same IR with a call to
//         symx_sched_point() before each operation at which the executor may switch
// PARAMS  comma separated
// MODEL   file with lines "TAG_IDX VALUE"; what is missing is 0
// SCHED   comma separated POINT:THREAD
//
// Only one thread runs at a time: the one that holds the token.  The rules for points,
// blocking and time are the executor's (symx/src/exec.rs: sched_point, reschedule).
// Prints ASSERT id / ASSUME / REACH id / OUT tag value; the exit code is 0 (done),
// 42 (assertion), 43 (assumption), 44 (deadlock), 46 (the process
// ends by itself and should not); a panic aborts.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
#define MAXT 64
enum { RUN, DONE, FUTEX, JOIN, JOINALL, JOINPOOL };
struct th {
    sem_t token;
    int status, resumed, pool, has_deadline, err, spins;
    u64 addr, deadline;
    int target;
    void *(*f)(void *);
    u64 (*g)(u64);
    void *arg;
};
static struct th T[MAXT];
static int nt = 1;
static int cur = 0;
static __thread int self = 0;
static u64 npoints = 0, clock_ns = 1000000000ull, rnd = 1;

static u64 params[64];
static int nparams;
static struct { u64 tag, idx, v; } *model;
static int nmodel;
static struct { u64 p; int t; } sched[4096];
static int nsched;

static void finish(int code) {
    fflush(stdout);
    _exit(code);
}
static int scheduled(u64 p) {
    for (int i = 0; i < nsched; i++)
        if (sched[i].p == p)
            return sched[i].t;
    return -1;
}
static void diverged(const char *why) {
    printf("DIVERGED %s at point %llu\n", why, (unsigned long long)npoints);
    finish(45);
}
static int can_run(int i) {
    switch (T[i].status) {
    case RUN: return 1;
    case JOIN: return T[T[i].target].status == DONE;
    case JOINALL:
        for (int k = 0; k < nt; k++)
            if (k != i && T[k].status != DONE)
                return 0;
        return 1;
    case JOINPOOL:
        for (int k = 0; k < nt; k++)
            if (T[k].pool && T[k].status != DONE)
                return 0;
        return 1;
    }
    return 0;
}
static void activate(int t) {
    if (T[t].status == FUTEX && T[t].has_deadline) {
        u64 late = T[t].addr != 1; // 1: it sleeps
        if (clock_ns < T[t].deadline + late)
            clock_ns = T[t].deadline + late;
        T[t].status = RUN;
        T[t].err = late ? ETIMEDOUT : 0;
    } else if (T[t].status != RUN && T[t].status != DONE) {
        if (!can_run(t))
            diverged("thread cannot run");
        T[t].status = RUN;
    }
}
static void pass(int me, int t) {
    T[t].resumed = 1;
    T[t].spins = 0;
    activate(t);
    cur = t;
    if (t != me) {
        sem_post(&T[t].token);
        if (T[me].status != DONE)
            while (sem_wait(&T[me].token)) {}
    }
}
void symx_sched_point(void) {
    int me = self;
    if (nt < 2)
        return;
    if (T[me].resumed) {
        T[me].resumed = 0;
        return;
    }
    npoints++;
    int t = scheduled(npoints);
    if (t >= 0 && t != me) {
        if (t >= nt)
            diverged("no such thread");
        pass(me, t);
        T[me].resumed = 0;
    }
}
static void reschedule(void) {
    int me = self;
    npoints++;
    int t = scheduled(npoints);
    if (t < 0)
        for (int i = 0; i < nt && t < 0; i++)
            if (i != me && can_run(i))
                t = i;
    if (t < 0)
        for (int i = 0; i < nt && t < 0; i++)
            if (T[i].status == FUTEX && T[i].has_deadline)
                t = i;
    if (t < 0) {
        printf("DEADLOCK\n");
        finish(44);
    }
    if (t >= nt)
        diverged("no such thread");
    pass(me, t);
}
static int block(int status) {
    T[self].status = status;
    T[self].err = 0;
    reschedule();
    return T[self].err;
}

// ---- what the harness calls
u64 symx_bits(u64 tag, u64 idx, u64 width) {
    (void)width;
    for (int i = 0; i < nmodel; i++)
        if (model[i].tag == tag && model[i].idx == idx)
            return model[i].v;
    return 0;
}
void symx_assume(u64 c) {
    if (!c) {
        printf("ASSUME\n");
        finish(43);
    }
}
void symx_assert(u64 c, u64 id) {
    if (!c) {
        printf("ASSERT %llu\n", (unsigned long long)id);
        finish(42);
    }
}
void symx_reach(u64 id) { printf("REACH %llu\n", (unsigned long long)id); }
u64 symx_param(u64 i) { return i < (u64)nparams ? params[i] : 0; }
void symx_out(u64 tag, u64 v) { printf("OUT %llu %llu\n", (unsigned long long)tag, (unsigned long long)v); }
u64 symx_concretize(u64 v) { return v; }
void symx_merge(u64 on) { (void)on; }
static int may_exit;
static char **args;
static int nargs;
void symx_may_exit(u64 on) { may_exit = on != 0; }
// std has kept where the arguments are; a null ends them
void symx_args(u64 n, char **v) {
    if (n >= (u64)nargs)
        diverged("too many arguments");
    for (u64 i = 0; i <= n; i++)
        args[i] = v[i];
}
void exit(int code) {
    printf("OUT 99 %d\n", code & 255);
    if (!may_exit) {
        printf("EXIT\n");
        finish(46);
    }
    finish(0);
}
u64 symx_ite(u64 c, u64 a, u64 b) { return c ? a : b; }
void symx_yield(void) { symx_sched_point(); }
#define SPINS 250 // as in the executor
int sched_yield(void) {
    if (nt > 1 && !T[self].resumed)
        T[self].spins += 60;
    symx_sched_point();
    return 0;
}
void symx_pause(void) {
    if (nt < 2)
        return;
    int r = T[self].resumed;
    if (!r)
        T[self].spins++;
    if (r || T[self].spins > SPINS)
        symx_sched_point();
}

// ---- threads
static void *start(void *p) {
    self = (int)(intptr_t)p;
    while (sem_wait(&T[self].token)) {}
    if (T[self].f)
        T[self].f(T[self].arg);
    else
        T[self].g((u64)T[self].arg);
    T[self].status = DONE;
    reschedule();
    return 0;
}
static int make(void *(*f)(void *), u64 (*g)(u64), void *arg, int pool) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real)
        real = dlsym(RTLD_NEXT, "pthread_create");
    int t = nt;
    if (t >= MAXT)
        diverged("too many threads");
    memset(&T[t], 0, sizeof T[t]);
    sem_init(&T[t].token, 0, 0);
    T[t].f = f;
    T[t].g = g;
    T[t].arg = arg;
    T[t].resumed = 1;
    T[t].pool = pool;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_attr_setstacksize(&a, 64 << 20);
    pthread_t h;
    if (real(&h, &a, start, (void *)(intptr_t)t))
        diverged("pthread_create");
    nt++;
    return t;
}
u64 symx_spawn(u64 (*f)(u64), u64 data) { return make(0, f, (void *)data, 1); }
void symx_join_all(void) {
    T[self].status = JOINALL;
    int c = can_run(self);
    T[self].status = RUN;
    if (!c)
        block(JOINALL);
}
void symx_join_pool(void) {
    T[self].status = JOINPOOL;
    int c = can_run(self);
    T[self].status = RUN;
    if (!c)
        block(JOINPOOL);
}
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    (void)a;
    *h = make(f, 0, arg, 0);
    return 0;
}
int pthread_join(pthread_t t, void **r) {
    (void)r;
    if (T[t].status != DONE) {
        T[self].target = (int)t;
        block(JOIN);
    }
    return 0;
}
int pthread_detach(pthread_t t) { (void)t; return 0; }

// ---- time, randomness, futexes
int clock_gettime(clockid_t c, struct timespec *ts) {
    (void)c;
    ts->tv_sec = clock_ns / 1000000000ull;
    ts->tv_nsec = clock_ns % 1000000000ull;
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem) {
    (void)c, (void)rem;
    u64 s;
    if (__builtin_mul_overflow((u64)ts->tv_sec, 1000000000ull, &s) || __builtin_add_overflow(s, (u64)ts->tv_nsec, &s))
        s = ~0ull;
    if (!(flags & 1) && __builtin_add_overflow(s, clock_ns, &s))
        s = ~0ull;
    if (s > clock_ns) {
        T[self].has_deadline = 1;
        T[self].addr = 1;
        T[self].deadline = s;
        block(FUTEX);
    }
    return 0;
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    (void)flags;
    for (size_t i = 0; i < n; i++) {
        rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
        ((unsigned char *)p)[i] = rnd >> 56;
    }
    return n;
}
char *getenv(const char *n) { (void)n; return 0; }
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex) {
        unsigned *w = (unsigned *)a[0];
        switch (a[1] & 0x7f) {
        case FUTEX_WAIT:
        case FUTEX_WAIT_BITSET: {
            if (*(volatile unsigned *)w != (unsigned)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            const struct timespec *ts = (void *)a[3];
            T[self].has_deadline = ts != 0;
            T[self].addr = (u64)w;
            if (ts) {
                u64 s;
                if (__builtin_mul_overflow((u64)ts->tv_sec, 1000000000ull, &s) ||
                    __builtin_add_overflow(s, (u64)ts->tv_nsec, &s))
                    s = ~0ull;
                T[self].deadline = s;
                if (s <= clock_ns) {
                    if (clock_ns < s + 1)
                        clock_ns = s + 1;
                    errno = ETIMEDOUT;
                    return -1;
                }
            }
            int e = block(FUTEX);
            if (e) {
                errno = e;
                return -1;
            }
            return 0;
        }
        case FUTEX_WAKE:
        case FUTEX_WAKE_BITSET: {
            long woken = 0;
            for (int i = 0; i < nt && woken < a[2]; i++)
                if (T[i].status == FUTEX && T[i].addr == (u64)w) {
                    T[i].status = RUN;
                    T[i].err = 0;
                    woken++;
                }
            return woken;
        }
        }
        diverged("futex operation");
    }
    if (n == SYS_getrandom)
        return getrandom((void *)a[0], a[1], 0);
    if (n == SYS_gettid)
        return 1000 + self;
    static long (*real)(long, ...);
    if (!real)
        real = dlsym(RTLD_NEXT, "syscall");
    return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

int main(int argc, char **argv) {
    if (argc < 5)
        return 2;
    args = argv;
    nargs = argc;
    for (char *p = argv[3]; *p && nparams < 64;) {
        params[nparams++] = strtoull(p, &p, 10);
        if (*p == ',')
            p++;
    }
    FILE *f = fopen(argv[4], "r");
    if (!f)
        return 2;
    unsigned long long a, b, c;
    while (fscanf(f, "%llu_%llu %llu", &a, &b, &c) == 3) {
        model = realloc(model, (nmodel + 1) * sizeof *model);
        model[nmodel].tag = a;
        model[nmodel].idx = b;
        model[nmodel++].v = c;
    }
    fclose(f);
    if (argc > 5)
        for (char *p = argv[5]; *p && nsched < 4096;) {
            sched[nsched].p = strtoull(p, &p, 10);
            if (*p != ':')
                break;
            sched[nsched++].t = (int)strtol(p + 1, &p, 10);
            if (*p == ',')
                p++;
        }
    sem_init(&T[0].token, 0, 0);
    T[0].status = RUN;
    T[0].resumed = 0;
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        fprintf(stderr, "%s\n", dlerror());
        return 2;
    }
    void (*e)(void) = (void (*)(void))dlsym(h, argv[2]);
    if (!e) {
        fprintf(stderr, "%s\n", dlerror());
        return 2;
    }
    if (argc > 6)
        rnd = strtoull(argv[6], 0, 10);
    e();
    finish(0);
}
