// Deterministic thread scheduler.
//
// Managed threads are real threads, exactly one of which holds the token.  The
// code under test calls back here at every basic block, load and store
// (compiler instrumentation), and std's blocking primitives arrive as futex
// system calls, which are modelled here.  Who runs next is decided by a plan
// (thread, step, target) made by the simulator; nothing else decides.
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define MAXT 8
enum { UNUSED, RUNNABLE, BLOCKED, DONE };

struct sw { uint32_t thread; uint32_t target; uint64_t step; };
struct tstate {
    int state; volatile int token;
    uint64_t steps; uint32_t *addr; int timed; int timedout;
    uint32_t next;               // next plan index
};
struct result {                  // in shared memory
    uint64_t total_steps, switches, blocks, preempts, hash;
    uint32_t deadlock, livelock, nfutex, timeouts;
    uint64_t steps[MAXT];
};

static struct tstate T[MAXT];
static struct sw *plan; static uint32_t nplan;
static struct result *R;
static int nthreads, finished;
static uint64_t since, quantum = 3000000, cap = 400000000ULL;
static uint64_t wake_seed, wake_ctr, rnd_seed, sim_ns;
static int active;
static uint32_t *prof; static uint64_t *prof_addr; static uint64_t prof_n, prof_cap;
static __thread int slot = -1;
static __thread uint64_t rnd_ctr;
static __thread int rnd_stream;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void mix(uint64_t v) { R->hash = (R->hash ^ v) * 0x100000001b3ULL; R->hash ^= R->hash >> 31; }
static uint64_t splitmix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}

static void wait_token(int me) {
    while (!__atomic_load_n(&T[me].token, __ATOMIC_ACQUIRE))
        raw(SYS_futex, (long)&T[me].token, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    T[me].token = 0;
}
static void give_token(int to) {
    __atomic_store_n(&T[to].token, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&T[to].token, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static int pick(int from, int want) {       // first runnable at or after `want`, other than `from`
    for (int k = 0; k < nthreads; k++) {
        int i = (want + k) % nthreads;
        if (i != from && T[i].state == RUNNABLE) return i;
    }
    return -1;
}
static void halt(uint32_t *flag) { *flag = 1; raw(SYS_exit_group, 77, 0, 0, 0, 0, 0); }

static void switch_to(int me, int to) {
    since = 0;
    R->switches++;
    mix(((uint64_t)me << 60) ^ ((uint64_t)to << 56) ^ T[me].steps);
    give_token(to);
    if (T[me].state != DONE) wait_token(me);
}
static void must_leave(int me, int want) {  // me cannot continue
    int to = pick(me, want % nthreads);
    if (to < 0) {
        for (int i = 0; i < nthreads; i++)
            if (T[i].state == BLOCKED && T[i].timed) { T[i].state = RUNNABLE; T[i].timedout = 1; R->timeouts++; sim_ns += 1000000000; to = i; break; }
        if (to == me) return;
        if (to < 0) halt(&R->deadlock);
    }
    switch_to(me, to);
}
static void arm(int me) { while (T[me].next < nplan && plan[T[me].next].thread != (uint32_t)me) T[me].next++; }

static void preempt(int me, int want) {
    int to = pick(me, want % nthreads);
    if (to < 0) return;
    R->preempts++;
    switch_to(me, to);
}
static inline void step(void *pc, void *addr) {
    if (__builtin_expect(slot < 0, 1) || !active) return;
    struct tstate *t = &T[slot];
    t->steps++;
    if (prof && prof_n < prof_cap) { prof[prof_n] = ((uint32_t)(uintptr_t)pc & 0x0fffffff) | (uint32_t)slot << 28; prof_addr[prof_n++] = (uint64_t)(uintptr_t)addr; }
    if (++R->total_steps > cap) halt(&R->livelock);
    if (t->next < nplan && t->steps >= plan[t->next].step) {
        int want = plan[t->next].target;
        t->next++; arm(slot);
        preempt(slot, want);
    } else if (++since > quantum) {
        since = 0;
        preempt(slot, slot + 1);
    }
}
#define CB(name, ...) void name(void *p) { step(__builtin_return_address(0), p); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { step(__builtin_return_address(0), 0); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { uint32_t i = 0; for (; a < b; a++) *a = ++i; }
CB(__sanitizer_cov_load1, void *p) CB(__sanitizer_cov_load2, void *p) CB(__sanitizer_cov_load4, void *p)
CB(__sanitizer_cov_load8, void *p) CB(__sanitizer_cov_load16, void *p)
CB(__sanitizer_cov_store1, void *p) CB(__sanitizer_cov_store2, void *p) CB(__sanitizer_cov_store4, void *p)
CB(__sanitizer_cov_store8, void *p) CB(__sanitizer_cov_store16, void *p)

// ---- control, called by the harness -----------------------------------------
void sched_setup(int n, struct sw *p, uint32_t np, struct result *r, uint64_t wake, uint64_t rnd) {
    memset(T, 0, sizeof T);
    nthreads = n; plan = p; nplan = np; R = r; wake_seed = wake; rnd_seed = rnd; finished = 0; since = 0;
    sim_ns = 1600000000LL * 1000000000LL;
    active = 1;
    for (int i = 0; i < n; i++) { T[i].state = RUNNABLE; T[i].next = 0; arm(i); }
}
void sched_prof(uint32_t *p, uint64_t *a, uint64_t c) { prof = p; prof_addr = a; prof_cap = c; prof_n = 0; }
extern char __data_start, _end;
uint64_t sched_static_lo(void) { return (uint64_t)(uintptr_t)&__data_start; }
uint64_t sched_static_hi(void) { return (uint64_t)(uintptr_t)&_end; }
uint64_t sched_prof_n(void) { return prof_n; }
void sched_rnd(uint64_t rnd) { rnd_seed = rnd; active = 1; }
void sched_stream(int s) { rnd_stream = s + 1; rnd_ctr = 0; }
void sched_enter(int me) { rnd_stream = me + 1; wait_token(me); slot = me; }
void sched_start(int first) { give_token(first % nthreads); }
void sched_point(void) { step(__builtin_return_address(0), 0); }
void sched_yield_to(int want) { if (slot >= 0) { T[slot].steps++; if (++R->total_steps > cap) halt(&R->livelock); preempt(slot, want); } }
int sched_others_runnable(void) { return slot >= 0 && pick(slot, 0) >= 0; }
uint64_t sched_steps(void) { return slot >= 0 ? T[slot].steps : 0; }
int sched_slot(void) { return slot; }
void sched_exit(void) {
    int me = slot;
    R->steps[me] = T[me].steps;
    T[me].state = DONE; slot = -1; finished++;
    if (finished < nthreads) must_leave(me, me + 1);
}

// ---- what std sees -------------------------------------------------------------
static long managed_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to) {
    int me = slot, cmd = op & FUTEX_CMD_MASK;
    R->nfutex++;
    switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET:
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        T[me].state = BLOCKED; T[me].addr = addr; T[me].timed = to != 0; T[me].timedout = 0;
        R->blocks++;
        must_leave(me, (int)(splitmix(wake_seed ^ ++wake_ctr) % nthreads));
        T[me].state = RUNNABLE;
        if (T[me].timedout) { errno = ETIMEDOUT; return -1; }
        return 0;
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
        long n = 0; int start = (int)(splitmix(wake_seed ^ ++wake_ctr) % nthreads);
        for (int k = 0; k < nthreads && n < (long)val; k++) {
            int i = (start + k) % nthreads;
            if (T[i].state == BLOCKED && T[i].addr == addr) { T[i].state = RUNNABLE; n++; }
        }
        return n; }
    }
    errno = ENOSYS; return -1;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && slot >= 0 && active) return managed_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d);
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield(void) { if (slot >= 0 && active) { T[slot].steps++; preempt(slot, slot + 1); } return 0; }
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (!active) { long r = raw(SYS_getrandom, (long)buf, n, fl, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return r; }
    unsigned char *o = buf;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) rnd_ctr++;
        o[i] = (unsigned char)(splitmix(rnd_seed ^ ((uint64_t)rnd_stream << 32) ^ rnd_ctr) >> (8 * (i % 8)));
    }
    return (ssize_t)n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (slot < 0 || !active) { long r = raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    sim_ns += 1000; t->tv_sec = sim_ns / 1000000000; t->tv_nsec = sim_ns % 1000000000; return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (slot < 0 || !active) { long r = raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    sim_ns += a->tv_sec * 1000000000LL + a->tv_nsec; preempt(slot, slot + 1); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { return nanosleep(a, b) ? errno : 0; }
uint64_t sched_sim_ns(void) { return sim_ns; }
