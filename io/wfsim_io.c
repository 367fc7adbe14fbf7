// Simulated libc surface for builder processes (LD_PRELOAD).
//
// Every call through which a builder process meets the outside world - files,
// standard streams, randomness, clocks, process id, allocator - passes through
// here.  What happens (which call fails, how much moves, when the process dies,
// when another process gets to run) is read from a shared-memory plan written
// by the simulator; nothing is decided here.  The disk behind it is a scratch
// directory; writes outside of it are refused and recorded.
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/file.h>

#define PLAN_MAX 256
#define LOG_MAX 16384

enum { OPEN_IN, READ_IN, OPEN_OUT, WRITE_OUT, STDOUT_W, STDERR_W, CLOSE_C, META, SYNC_C, ALLOC,
       OPEN_OTHER, RW_OTHER, ENVIRON, STAT_C, ELSEWHERE, ANY = 15 };
enum { A_NONE, A_ERR, A_SHORT, A_EINTR, A_ZERO, A_KILL_BEFORE, A_KILL_AFTER, A_KILL_MID, A_DELAY };

struct plan_ent { uint8_t cls, action, sticky, pad; uint32_t nth; int32_t arg, err; };
struct log_ent { uint8_t op, cls, action, pad; int16_t err; uint16_t pad2; uint32_t len; int32_t ret; };

struct shm {
    uint32_t magic, nplan;                 // 0
    uint64_t rnd_seed;                     // 8
    int64_t clock_ns, clock_step;          // 16
    uint32_t pid, lockstep_fd;             // 32
    uint32_t step_cap, who;                // 40  (who asks, and where: see below; 0: as it is)
    int64_t disk_left;                     // 48  (-1: unlimited)
    int64_t stdout_left;                   // 56  (-1: unlimited)
    char root[256], input[256], output[256]; // 64, 320, 576
    // results
    uint32_t ncalls, nlog;                 // 832
    uint32_t capped, escaped;              // 840
    char escape_path[256];                 // 848
    uint32_t fired_recov, fired_unrecov;   // 1104
    uint32_t killed, armed;                // 1112
    uint32_t nth[16];                      // 1120
    uint32_t fired_cls_act[16 * 16];       // 1184
    uint64_t hash;                         // 2208
    uint64_t rnd_ctr;                      // 2216
    uint32_t quantum_left, input_opens;    // 2224
    uint32_t nrandom, nclock;              // 2232
    uint32_t in_err_fired, pad3;           // 2240
    uint32_t fd_limit, pad4;               // 2248 (0: as usual)
    struct plan_ent plan[PLAN_MAX];        // 2256
    struct log_ent log[LOG_MAX];
};

static struct shm *S;
static uint8_t fdcls[1024]; // 0 none, else class+1

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
extern char **environ;
static char sweep[64];
// The environment; if told so, every variable that is not set and that nobody knows has a value.
static char *lookup(const char *k) {
    size_t n = strlen(k);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}
char *getenv(const char *k) {
    char *v = lookup(k);
    if (v || !sweep[0]) return v;
    static const char *const known[] = {"RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "CARGO_MANIFEST_DIR", "OUT_DIR", "PATH", "HOME", "TMPDIR", 0};
    for (int i = 0; known[i]; i++) if (!strcmp(k, known[i])) return 0;
    static const char *const family[] = {"WFNODE", "WFSIM", "LD_", "GLIBC_", "MALLOC_", "LC_", "LANG", "TZ", 0};
    for (int i = 0; family[i]; i++) if (!strncmp(k, family[i], strlen(family[i]))) return 0;
    return sweep;
}

static long ret_errno(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

__attribute__((constructor(101))) static void init(void) {
    const char *p = lookup("WFSIM_SHM");
    if (!p) return;
    const char *sw = lookup("WFSIM_SWEEP");
    if (sw) strncpy(sweep, sw, sizeof sweep - 1);
    long fd = raw(SYS_openat, AT_FDCWD, (long)p, O_RDWR | O_CLOEXEC, 0, 0, 0);
    if (fd < 0) _exit(120);
    long m = raw(SYS_mmap, 0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    raw(SYS_close, fd, 0, 0, 0, 0, 0);
    if (m < 0 && m > -4096) _exit(120);
    S = (struct shm *)m;
    if (S->magic != 0x57465331) _exit(120);
    struct rlimit cpu = {20, 22}, as = {4UL << 30, 4UL << 30}, fs = {64 << 20, 64 << 20}, core = {0, 0};
    setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_AS, &as); setrlimit(RLIMIT_FSIZE, &fs); setrlimit(RLIMIT_CORE, &core);
    if (S->fd_limit) { long next = raw(SYS_dup, 0, 0, 0, 0, 0, 0); if (next >= 0) raw(SYS_close, next, 0, 0, 0, 0, 0); S->fd_limit += next > 0 ? next : 3; } // that many are left
    if (S->fd_limit) { struct rlimit nf = {S->fd_limit, S->fd_limit}; setrlimit(RLIMIT_NOFILE, &nf); }
    fdcls[1] = STDOUT_W + 1;
    fdcls[2] = STDERR_W + 1;
}

static void die(void) {
    S->killed = 1;
    long pid = raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    raw(SYS_kill, pid, SIGKILL, 0, 0, 0, 0);
    for (;;) raw(SYS_exit_group, 137, 0, 0, 0, 0, 0);
}

static void mix(uint64_t v) { S->hash = (S->hash ^ v) * 0x100000001b3ULL; S->hash ^= S->hash >> 29; }

static void logev(int op, int cls, int action, int err, uint64_t len, long ret) {
    mix(((uint64_t)op << 56) ^ ((uint64_t)cls << 48) ^ ((uint64_t)action << 40) ^ ((uint64_t)(err & 0xffff) << 24) ^ len);
    mix((uint64_t)ret);
    if (S->nlog < LOG_MAX) {
        struct log_ent *e = &S->log[S->nlog];
        e->op = op; e->cls = cls; e->action = action; e->err = err; e->len = (uint32_t)len; e->ret = (int32_t)ret;
    }
    S->nlog++;
}

static int is_transfer(int cls) { return cls == READ_IN || cls == WRITE_OUT || cls == STDOUT_W || cls == STDERR_W || cls == RW_OTHER; }
static int eintr_ok(int cls) { return is_transfer(cls) || cls == OPEN_IN || cls == OPEN_OUT || cls == SYNC_C; }

static void fired(int cls, int action, int unrecov) {
    S->fired_cls_act[cls * 16 + action]++;
    if (unrecov) S->fired_unrecov++; else S->fired_recov++;
    if (unrecov && (cls == OPEN_IN || cls == READ_IN)) S->in_err_fired++;
}

// Scheduling point + fault decision for one call.  Returns the plan entry to apply, or 0.
static struct plan_ent *point(int cls) {
    if (S->lockstep_fd) {
        if (S->quantum_left == 0) {
            char y = 'y'; uint32_t q = 0;
            raw(SYS_write, S->lockstep_fd, (long)&y, 1, 0, 0, 0);
            long r = raw(SYS_read, S->lockstep_fd, (long)&q, 4, 0, 0, 0);
            if (r != 4) raw(SYS_exit_group, 121, 0, 0, 0, 0, 0);
            S->quantum_left = q;
        }
        S->quantum_left--;
    }
    S->ncalls++;
    if (S->ncalls > S->step_cap) { S->capped = 1; raw(SYS_exit_group, 122, 0, 0, 0, 0, 0); }
    if (cls == OPEN_IN || cls == OPEN_OUT) S->armed = 1;
    uint32_t n = S->nth[cls]++, a = S->nth[ANY]++;
    for (uint32_t i = 0; i < S->nplan; i++) {
        struct plan_ent *p = &S->plan[i];
        uint32_t k = p->cls == ANY ? a : n;
        if (p->cls != cls && p->cls != ANY) continue;
        if (p->sticky ? k < p->nth : k != p->nth) continue;
        if (p->action == A_EINTR && !eintr_ok(cls)) continue;
        if ((p->action == A_SHORT || p->action == A_ZERO || p->action == A_KILL_MID) && !is_transfer(cls) && !(cls == STAT_C && p->action == A_SHORT && p->cls == STAT_C)) continue;
        if (p->action == A_ZERO && cls == READ_IN) continue; // indistinguishable from a shorter file
        if (p->action == A_DELAY) { S->clock_ns += (int64_t)p->arg * 1000000; fired(cls, A_DELAY, 0); continue; }
        if (p->action == A_KILL_BEFORE) { fired(cls, A_KILL_BEFORE, 1); logev(0, cls, A_KILL_BEFORE, 0, 0, 0); die(); }
        return p;
    }
    return 0;
}

static void norm(const char *path, char *out, size_t cap) {
    char buf[1024]; size_t n = 0;
    if (path[0] != '/') {
        long r = raw(SYS_getcwd, (long)buf, sizeof buf, 0, 0, 0, 0);
        n = r > 0 ? (size_t)r - 1 : 0;
        buf[n++] = '/';
    }
    size_t l = strlen(path);
    if (n + l >= sizeof buf) l = sizeof buf - n - 1;
    memcpy(buf + n, path, l); buf[n + l] = 0;
    size_t o = 0; char *p = buf;
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        char *q = p; while (*q && *q != '/') q++;
        size_t len = q - p;
        if (len == 1 && p[0] == '.') { }
        else if (len == 2 && p[0] == '.' && p[1] == '.') { while (o > 0 && out[--o] != '/') ; }
        else if (o + len + 2 < cap) { out[o++] = '/'; memcpy(out + o, p, len); o += len; }
        p = q;
    }
    if (o == 0) out[o++] = '/';
    out[o] = 0;
}

// Everything that is neither the route file nor the output nor a folder they are in may be out of
// reach; that must not matter.  Returns the error, or 0.
static int denied_now(void) {
    uint32_t n = S->nth[ELSEWHERE]++;
    for (uint32_t i = 0; i < S->nplan; i++) {
        struct plan_ent *p = &S->plan[i];
        if (p->cls != ELSEWHERE || p->action != A_ERR || (p->sticky ? n < p->nth : n != p->nth)) continue;
        fired(ELSEWHERE, A_ERR, 0);
        logev('E', ELSEWHERE, A_ERR, p->err, 0, -1);
        return p->err;
    }
    return 0;
}
static int denied(const char *path, int look) {
    if (!S || !path || !*path) return 0;
    char n[1024]; norm(path, n, sizeof n);
    size_t rl = strlen(S->root);
    int ours = !strncmp(n, S->root, rl) && (n[rl] == '/' || n[rl] == 0); // the scratch folder is below /dev itself
    if ((!ours && !strncmp(n, "/dev/", 5)) || !strcmp(n, S->input) || !strcmp(n, S->output)) return 0;
    size_t l = strlen(n);
    if (look && ((!strncmp(n, S->input, l) && S->input[l] == '/') || (!strncmp(n, S->output, l) && S->output[l] == '/') || l == 1)) return 0;
    return denied_now();
}

static int inside(const char *path) {
    char n[1024]; norm(path, n, sizeof n);
    size_t l = strlen(S->root);
    if (!strncmp(n, S->root, l) && (n[l] == '/' || n[l] == 0)) return 1;
    if (!strcmp(n, "/dev/null") || !strcmp(n, "/dev/tty")) return 1;
    return 0;
}
static int escape(const char *path) {
    S->escaped++;
    char n[1024]; norm(path, n, sizeof n);
    strncpy(S->escape_path, n, 255);
    logev('X', META, 0, EACCES, 0, -1);
    errno = EACCES;
    return -1;
}

// Generic "may fail, may kill" wrapper for non-transfer calls.
#define GUARDED(op, cls, expr) ({ \
    struct plan_ent *p_ = point(cls); long r_; \
    if (p_ && (p_->action == A_ERR || p_->action == A_EINTR)) { \
        fired(cls, p_->action, p_->action == A_ERR); \
        int e_ = p_->action == A_EINTR ? EINTR : p_->err; \
        logev(op, cls, p_->action, e_, 0, -1); errno = e_; r_ = -1; \
    } else { \
        r_ = ret_errno(expr); int sv_ = errno; logev(op, cls, 0, r_ < 0 ? sv_ : 0, 0, r_ < 0 ? -1 : 0); \
        if (p_ && p_->action == A_KILL_AFTER) { fired(cls, A_KILL_AFTER, 1); die(); } \
        errno = sv_; \
    } \
    r_; })

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!S) return (int)ret_errno(raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    char n[1024]; norm(path, n, sizeof n);
    if (wr && !inside(path)) return escape(path);
    int no = denied(path, 0);
    if (no) { errno = no; return -1; }
    if (!inside(path)) return (int)ret_errno(raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    int cls;
    if (!wr && !strcmp(n, S->input)) { cls = OPEN_IN; S->input_opens++; }
    else if (wr && !strcmp(n, S->output)) cls = OPEN_OUT;
    else cls = OPEN_OTHER;
    long fd = GUARDED('o', cls, raw(SYS_openat, dirfd, (long)path, flags | O_LARGEFILE, mode, 0, 0));
    if (fd >= 0 && fd < 1024)
        fdcls[fd] = (cls == OPEN_IN ? READ_IN : cls == OPEN_OUT ? WRITE_OUT : wr ? WRITE_OUT : RW_OTHER) + 1;
    return (int)fd;
}

#define OPENBODY(dirfd) \
    mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    return do_open(dirfd, path, flags, mode);
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { OPENBODY(d) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(d) }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int cls_of(int fd) { return fd >= 0 && fd < 1024 && fdcls[fd] ? fdcls[fd] - 1 : -1; }

static ssize_t transfer(int op, int cls, int fd, const void *buf, size_t len, int64_t off) {
    int wr = op == 'w';
    long nr = off >= 0 ? (wr ? SYS_pwrite64 : SYS_pread64) : (wr ? SYS_write : SYS_read);
    struct plan_ent *p = point(cls);
    size_t n = len; int kill_after = 0;
    if (p) switch (p->action) {
        case A_ERR: case A_EINTR: {
            int e = p->action == A_EINTR ? EINTR : p->err;
            fired(cls, p->action, p->action == A_ERR);
            logev(op, cls, p->action, e, len, -1); errno = e; return -1; }
        case A_ZERO: if (len) { fired(cls, A_ZERO, 1); logev(op, cls, A_ZERO, 0, len, 0); return 0; } break;
        case A_SHORT: if (p->arg > 0 && (size_t)p->arg < n) { n = p->arg; fired(cls, A_SHORT, 0); } break;
        case A_KILL_MID: if ((size_t)p->arg < n) n = p->arg; kill_after = 1; break;
        case A_KILL_AFTER: kill_after = 1; break;
    }
    int64_t *room = !wr ? 0 : cls == WRITE_OUT ? &S->disk_left : cls == STDOUT_W ? &S->stdout_left : 0;
    if (room && *room >= 0 && len) {
        if (*room == 0) {
            fired(cls, A_ERR, 1); logev(op, cls, A_ERR, ENOSPC, len, -1); errno = ENOSPC; return -1;
        }
        if ((int64_t)n > *room) n = *room;
    }
    long r = n == 0 && kill_after ? 0 : raw(nr, fd, (long)buf, n, off >= 0 ? off : 0, 0, 0);
    if (r > 0 && room && *room >= 0) *room -= r;
    logev(op, cls, p ? p->action : 0, 0, len, r);
    if (kill_after) { fired(cls, p->action, 1); die(); }
    return ret_errno(r);
}

ssize_t read(int fd, void *b, size_t n) {
    int c = S ? cls_of(fd) : -1;
    if (c < 0) return ret_errno(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
    return transfer('r', c, fd, b, n, -1);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    int c = S ? cls_of(fd) : -1;
    if (c < 0) return ret_errno(raw(SYS_pread64, fd, (long)b, n, o, 0, 0));
    return transfer('r', c, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
    int c = S ? cls_of(fd) : -1;
    if (c < 0) return ret_errno(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
    return transfer('w', c, fd, b, n, -1);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    int c = S ? cls_of(fd) : -1;
    if (c < 0) return ret_errno(raw(SYS_pwrite64, fd, (long)b, n, o, 0, 0));
    return transfer('w', c, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    int k = S ? cls_of(fd) : -1;
    if (k < 0) return ret_errno(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return transfer('w', k, fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    int k = S ? cls_of(fd) : -1;
    if (k < 0) return ret_errno(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return transfer('r', k, fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
// Kernel-side copies are not offered; callers fall back to read/write.
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = EINVAL; return -1; }

int close(int fd) {
    int c = S ? cls_of(fd) : -1;
    if (c < 0 || fd <= 2) return (int)ret_errno(raw(SYS_close, fd, 0, 0, 0, 0, 0));
    struct plan_ent *p = point(CLOSE_C); // only kills apply: std ignores close errors
    fdcls[fd] = 0;
    long r = raw(SYS_close, fd, 0, 0, 0, 0, 0);
    logev('c', CLOSE_C, p ? p->action : 0, 0, 0, r);
    if (p && p->action == A_KILL_AFTER) { fired(CLOSE_C, A_KILL_AFTER, 1); die(); }
    return (int)ret_errno(r);
}
static int dupd(int from, long r) { if (r >= 0 && r < 1024 && from >= 0 && from < 1024) fdcls[r] = fdcls[from]; return (int)ret_errno(r); }
int dup(int fd) { return dupd(fd, raw(SYS_dup, fd, 0, 0, 0, 0, 0)); }
int dup2(int a, int b) { return dupd(a, raw(SYS_dup2, a, b, 0, 0, 0, 0)); }
int dup3(int a, int b, int f) { return dupd(a, raw(SYS_dup3, a, b, f, 0, 0, 0)); }
static int do_fcntl(int fd, int cmd, long arg) {
    long r = raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dupd(fd, r);
    return (int)ret_errno(r);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

int fsync(int fd) { return !S || cls_of(fd) < 0 ? (int)ret_errno(raw(SYS_fsync, fd, 0, 0, 0, 0, 0)) : (int)GUARDED('s', SYNC_C, 0); }
int fdatasync(int fd) { return !S || cls_of(fd) < 0 ? (int)ret_errno(raw(SYS_fdatasync, fd, 0, 0, 0, 0, 0)) : (int)GUARDED('s', SYNC_C, 0); }
int ftruncate64(int fd, off64_t l) { return !S ? (int)ret_errno(raw(SYS_ftruncate, fd, l, 0, 0, 0, 0)) : (int)GUARDED('t', META, raw(SYS_ftruncate, fd, l, 0, 0, 0, 0)); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }

#define META1(name, decl, path, op, expr) int name decl { \
    if (!S) return (int)ret_errno(expr); \
    if (!inside(path)) return escape(path); \
    int no = denied(path, (op) == 'm'); if (no) { errno = no; return -1; } \
    return (int)GUARDED(op, META, expr); }
#define META2(name, decl, p1, p2, op, expr) int name decl { \
    if (!S) return (int)ret_errno(expr); \
    if (!inside(p1)) return escape(p1); \
    if (!inside(p2)) return escape(p2); \
    int no = denied(p1, 0); if (!no) no = denied(p2, 0); if (no) { errno = no; return -1; } \
    return (int)GUARDED(op, META, expr); }
META1(unlink, (const char *p), p, 'u', raw(SYS_unlink, (long)p, 0, 0, 0, 0, 0))
META1(rmdir, (const char *p), p, 'u', raw(SYS_rmdir, (long)p, 0, 0, 0, 0, 0))
META1(unlinkat, (int d, const char *p, int f), p, 'u', raw(SYS_unlinkat, d, (long)p, f, 0, 0, 0))
META1(mkdir, (const char *p, mode_t m), p, 'm', raw(SYS_mkdir, (long)p, m, 0, 0, 0, 0))
META1(truncate64, (const char *p, off64_t l), p, 't', raw(SYS_truncate, (long)p, l, 0, 0, 0, 0))
META1(truncate, (const char *p, off_t l), p, 't', raw(SYS_truncate, (long)p, l, 0, 0, 0, 0))
META1(chmod, (const char *p, mode_t m), p, 'h', raw(SYS_chmod, (long)p, m, 0, 0, 0, 0))
META2(rename, (const char *a, const char *b), a, b, 'n', raw(SYS_rename, (long)a, (long)b, 0, 0, 0, 0))
META2(renameat, (int x, const char *a, int y, const char *b), a, b, 'n', raw(SYS_renameat, x, (long)a, y, (long)b, 0, 0))
META2(link, (const char *a, const char *b), a, b, 'l', raw(SYS_link, (long)a, (long)b, 0, 0, 0, 0))
META2(linkat, (int x, const char *a, int y, const char *b, int f), a, b, 'l', raw(SYS_linkat, x, (long)a, y, (long)b, f, 0))
int symlink(const char *a, const char *b) {
    if (S && !inside(b)) return escape(b);
    int no = denied(b, 0); if (no) { errno = no; return -1; }
    return S ? (int)GUARDED('l', META, raw(SYS_symlink, (long)a, (long)b, 0, 0, 0, 0)) : (int)ret_errno(raw(SYS_symlink, (long)a, (long)b, 0, 0, 0, 0));
}

// What a look at a file says may be out of date, as on network file systems.
int statx(int d, const char *path, int flags, unsigned mask, struct statx *st) {
    int no = denied(path, 1); if (no) { errno = no; return -1; }
    int mine = S && (path && *path ? inside(path) : cls_of(d) >= 0 && d > 2);
    if (!mine) return (int)ret_errno(raw(SYS_statx, d, (long)path, flags, mask, (long)st, 0));
    struct plan_ent *p = point(STAT_C);
    if (p && (p->action == A_ERR)) { fired(STAT_C, A_ERR, 1); logev('S', STAT_C, A_ERR, p->err, 0, -1); errno = p->err; return -1; }
    long r = raw(SYS_statx, d, (long)path, flags, mask, (long)st, 0);
    if (r == 0 && p && p->action == A_SHORT) { fired(STAT_C, A_SHORT, 0); st->stx_size = (uint64_t)(uint32_t)p->arg; }
    if (r == 0 && (S->who >> 8 & 7)) st->stx_blksize = 256u << 2 * (S->who >> 8 & 7);
    logev('S', STAT_C, p ? p->action : 0, r < 0 ? (int)-r : 0, 0, r < 0 ? -1 : 0);
    if (p && p->action == A_KILL_AFTER) { fired(STAT_C, A_KILL_AFTER, 1); die(); }
    return (int)ret_errno(r);
}
// A process that waits for a lock lets the others run.
int flock(int fd, int op) {
    if (!S) return (int)ret_errno(raw(SYS_flock, fd, op, 0, 0, 0, 0));
    for (;;) {
        point(META);
        long r = raw(SYS_flock, fd, op | LOCK_NB, 0, 0, 0, 0);
        if (r == -EWOULDBLOCK && !(op & LOCK_NB)) continue;
        logev('f', META, 0, r < 0 ? (int)-r : 0, op, r < 0 ? -1 : 0);
        return (int)ret_errno(r);
    }
}

// ---- other things a process can ask for: folders, threads, children, the network
#include <dlfcn.h>
#include <pthread.h>
#include <dirent.h>
#include <spawn.h>
#include <sys/socket.h>
#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })
DIR *opendir(const char *path) {
    int no = denied(path, 0); if (no) { errno = no; return 0; }
    return REAL(opendir)(path);
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    if (S && denied_now()) return EAGAIN;
    return REAL(pthread_create)(t, a, f, x);
}
pid_t fork(void) { if (S && denied_now()) { errno = EAGAIN; return -1; } return REAL(fork)(); }
int posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *x, const posix_spawnattr_t *a, char *const v[], char *const e[]) { if (S && denied_now()) return EAGAIN; return REAL(posix_spawn)(p, f, x, a, v, e); }
int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *x, const posix_spawnattr_t *a, char *const v[], char *const e[]) { if (S && denied_now()) return EAGAIN; return REAL(posix_spawnp)(p, f, x, a, v, e); }
int socket(int d, int t, int p) { if (S && denied_now()) { errno = EACCES; return -1; } return REAL(socket)(d, t, p); }

// ---- randomness, clocks, identity ------------------------------------------
static uint64_t splitmix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!S) return ret_errno(raw(SYS_getrandom, (long)b, n, f, 0, 0, 0));
    unsigned char *o = b;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) S->rnd_ctr++; o[i] = (unsigned char)(splitmix(S->rnd_seed ^ (S->rnd_ctr * 0x9e37)) >> (8 * (i % 8))); }
    S->nrandom++;
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!S) return (int)ret_errno(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
    S->clock_ns += S->clock_step; S->nclock++;
    t->tv_sec = S->clock_ns / 1000000000; t->tv_nsec = S->clock_ns % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) { struct timespec s; clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *o) { struct timespec s; clock_gettime(0, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!S) return (int)ret_errno(raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0));
    S->clock_ns += a->tv_sec * 1000000000LL + a->tv_nsec;
    point(ENVIRON);
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return nanosleep(a, b) ? errno : 0; }
pid_t getpid(void) { return S && S->pid ? (pid_t)S->pid : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t gettid(void) { return getpid(); }

// What else a process may ask about itself and its machine: S->who answers.
// bits 0-2 which of its streams are terminals, 3 another user, 4-6 processors, 7 name, 8-10 block size, 11 a file as standard input, 12 more arguments (see procs.rs), 16.. parent
#include <termios.h>
#include <sys/ioctl.h>
#include <sys/utsname.h>
#include <sched.h>
#define WHO (S ? S->who : 0)
static int term(int fd) { return WHO && fd >= 0 && fd < 3 && (WHO >> fd & 1); }
int isatty(int fd) {
    if (term(fd)) return 1;
    if (WHO && fd >= 0 && fd < 3) { errno = ENOTTY; return 0; }
    struct termios t;
    return raw(SYS_ioctl, fd, TCGETS, (long)&t, 0, 0, 0) >= 0 ? 1 : (errno = ENOTTY, 0);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (WHO && fd >= 0 && fd < 3 && (req == TCGETS || req == TIOCGWINSZ || req == TIOCGPGRP)) {
        if (!term(fd)) { errno = ENOTTY; return -1; }
        if (req == TIOCGWINSZ) *(struct winsize *)arg = (struct winsize){24, WHO & 16 ? 40 : 132, 0, 0};
        else if (req == TIOCGPGRP) *(pid_t *)arg = 1;
        else memset(arg, 0, 36);
        return 0;
    }
    return (int)ret_errno(raw(SYS_ioctl, fd, req, (long)arg, 0, 0, 0));
}
int tcgetattr(int fd, struct termios *t) {
    if (WHO && fd >= 0 && fd < 3) { if (!term(fd)) { errno = ENOTTY; return -1; } memset(t, 0, sizeof *t); return 0; }
    return (int)ret_errno(raw(SYS_ioctl, fd, TCGETS, (long)t, 0, 0, 0));
}
static uid_t user(long n) { return WHO & 8 ? 1000 : (uid_t)raw(n, 0, 0, 0, 0, 0, 0); }
uid_t getuid(void) { return user(SYS_getuid); }
uid_t geteuid(void) { return user(SYS_geteuid); }
gid_t getgid(void) { return user(SYS_getgid); }
gid_t getegid(void) { return user(SYS_getegid); }
pid_t getppid(void) { return WHO ? (pid_t)(WHO >> 16 & 0x7fff) + 1 : (pid_t)raw(SYS_getppid, 0, 0, 0, 0, 0, 0); }
static int cpus(void) { return WHO ? 1 << (WHO >> 4 & 7) >> 1 : 0; } // 0: as it is
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *set) {
    int k = cpus();
    if (!k) { long r = raw(SYS_sched_getaffinity, p, n, (long)set, 0, 0, 0); if (r >= 0 && (size_t)r < n) memset((char *)set + r, 0, n - r); return r < 0 ? (int)ret_errno(r) : 0; }
    memset(set, 0, n);
    for (int i = 0; i < k && (size_t)i < 8 * n; i++) ((unsigned char *)set)[i / 8] |= 1 << i % 8;
    return 0;
}
int uname(struct utsname *u) {
    long r = raw(SYS_uname, (long)u, 0, 0, 0, 0, 0);
    if (WHO & 128) { strcpy(u->nodename, "elsewhere"); strcpy(u->release, "4.4.0"); }
    return (int)ret_errno(r);
}
int gethostname(char *b, size_t n) { struct utsname u; if (uname(&u)) return -1; strncpy(b, u.nodename, n); return 0; }

// ---- allocator ---------------------------------------------------------------
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t); extern void *__libc_memalign(size_t, size_t);
static int alloc_fails(void) {
    if (!S || !S->armed) return 0;
    uint32_t n = S->nth[ALLOC]++;
    for (uint32_t i = 0; i < S->nplan; i++) {
        struct plan_ent *p = &S->plan[i];
        if (p->cls == ALLOC && p->action == A_ERR && (p->sticky ? n >= p->nth : n == p->nth)) {
            fired(ALLOC, A_ERR, 1); logev('a', ALLOC, A_ERR, ENOMEM, 0, -1); errno = ENOMEM; return 1;
        }
    }
    return 0;
}
void *malloc(size_t n) { return alloc_fails() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return alloc_fails() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return alloc_fails() ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **o, size_t a, size_t n) { if (alloc_fails()) return ENOMEM; *o = __libc_memalign(a, n); return *o ? 0 : ENOMEM; }
void *aligned_alloc(size_t a, size_t n) { return alloc_fails() ? 0 : __libc_memalign(a, n); }
