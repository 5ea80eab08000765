// Preloaded into every simulated process: turns each system call (Syscall User
// Dispatch), clock reading and allocation into a request to the simulator.
#define _GNU_SOURCE
#include "shm.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
#define SIMTEXT __attribute__((section("simtext"), noinline, used))

SIMTEXT static long raw(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
__asm__(".section simtext,\"ax\",@progbits\n"
        ".globl sim_restorer\n.hidden sim_restorer\nsim_restorer:\n mov $15,%eax\n syscall\n"
        ".globl sim_sigret_at\n.hidden sim_sigret_at\nsim_sigret_at:\n mov %rdi,%rsp\n mov $15,%eax\n syscall\n"
        ".text\n");
extern void sim_restorer(void);
extern void sim_sigret_at(void *sp) __attribute__((noreturn));
extern char __start_simtext[], __stop_simtext[];

static struct Shared *sh;
static struct Slot *me;
static int active;
static char selector = 1; // SYSCALL_DISPATCH_FILTER_BLOCK

static void die_raw(int c)
{
    for (;;)
        raw(SYS_exit_group, c, 0, 0, 0, 0, 0);
}

static void post(struct Slot *s)
{
    __atomic_store_n(&s->state, ST_REQ, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)&s->state, FUTEX_WAKE, 1, 0, 0, 0);
}
static void await(struct Slot *s)
{
    for (;;) {
        uint32_t v = __atomic_load_n(&s->state, __ATOMIC_SEQ_CST);
        if (v == ST_REP)
            return;
        raw(SYS_futex, (long)&s->state, FUTEX_WAIT, v, 0, 0, 0);
    }
}
static long call(struct Slot *s, long nr, long *a)
{
    s->nr = nr;
    for (int i = 0; i < 6; i++)
        s->args[i] = a ? a[i] : 0;
    s->outlen = 0;
    post(s);
    await(s);
    if (s->action == ACT_EXIT)
        die_raw((int)s->ret);
    if (s->action == ACT_HANG)
        for (;;)
            raw(SYS_pause, 0, 0, 0, 0, 0, 0);
    return s->ret;
}

// ---------------------------------------------------------------- allocator
#define ARENA_SIZE (1ul << 34)
static char *arena, *arena_ptr;
static void *freelist[256];
struct Hdr {
    uint64_t size; // usable bytes (class size)
    uint64_t base; // address of the start of the block
};
static int cls_of(size_t n, size_t *csz)
{
    if (n <= 1024) {
        size_t c = (n + 15) / 16;
        if (c == 0)
            c = 1;
        *csz = c * 16;
        return (int)c; // 1..64
    }
    int lg   = 63 - __builtin_clzl(n - 1);
    size_t q = (size_t)1 << (lg - 2);
    size_t r = (n + q - 1) / q; // 5..8
    *csz     = r * q;
    return 64 + (lg - 10) * 4 + (int)(r - 4); // distinct per (lg,r)
}
#define BIG (128u << 10)
static int should_fail(size_t n)
{
    struct Slot *s = me;
    if (!s || !s->armed)
        return 0;
    s->alloc_n++;
    if (s->alloc_fail_at && s->alloc_n >= s->alloc_fail_at &&
        (s->alloc_fail_len < 0 || s->alloc_n < s->alloc_fail_at + s->alloc_fail_len)) {
        s->alloc_fired++;
        return 1;
    }
    if (s->alloc_limit && s->alloc_live + (int64_t)n > s->alloc_limit) {
        s->alloc_fired++;
        return 1;
    }
    return 0;
}
static void *alloc_raw(size_t n, size_t align)
{
    if (n > (1ul << 40) || should_fail(n)) {
        errno = ENOMEM;
        return 0;
    }
    size_t csz;
    struct Hdr *h;
    size_t need = n + (align > 16 ? align : 0);
    if (need == 0)
        need = 1;
    if (need > BIG) {
        // the end of the block touches a page that cannot be accessed
        need       = (need + 15) & ~15ul;
        size_t tot = (need + sizeof(struct Hdr) + 4095) & ~4095ul;
        long p = raw(SYS_mmap, 0, tot + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p < 0 && p > -4096) {
            errno = ENOMEM;
            return 0;
        }
        raw(SYS_mprotect, p + (long)tot, 4096, PROT_NONE, 0, 0, 0);
        h       = (struct Hdr *)(p + (long)(tot - need - sizeof(struct Hdr)));
        h->size = need;
        csz     = h->size;
    } else {
        int c = cls_of(need, &csz);
        if (freelist[c]) {
            h           = freelist[c];
            freelist[c] = *(void **)(h + 1);
        } else {
            if (!arena) {
                long p = raw(SYS_mmap, 0x600000000000l, ARENA_SIZE, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (p < 0 && p > -4096)
                    die_raw(121);
                arena = arena_ptr = (char *)p;
            }
            h = (struct Hdr *)arena_ptr;
            arena_ptr += sizeof(struct Hdr) + csz;
            if (arena_ptr > arena + ARENA_SIZE)
                die_raw(122);
        }
        h->size = csz;
    }
    h->base = (uint64_t)h;
    if (me) {
        me->alloc_live += (int64_t)csz;
        if (me->alloc_live > me->alloc_peak)
            me->alloc_peak = me->alloc_live;
    }
    char *p = (char *)(h + 1);
    if (align > 16) {
        uint64_t q = ((uint64_t)p + align - 1) & ~(uint64_t)(align - 1);
        if (q != (uint64_t)p) {
            if (q - (uint64_t)p < sizeof(struct Hdr))
                q += align;
            struct Hdr *h2 = (struct Hdr *)q - 1;
            h2->size       = csz - (q - (uint64_t)p);
            h2->base       = (uint64_t)h;
            p              = (char *)q;
        }
    }
    memset(p, me ? (int)(me->poison & 255) : 0xA5, n);
    return p;
}
void *malloc(size_t n) { return alloc_raw(n, 16); }
void free(void *p)
{
    if (!p)
        return;
    struct Hdr *h = (struct Hdr *)p - 1;
    h             = (struct Hdr *)h->base;
    size_t csz    = h->size;
    if (me)
        me->alloc_live -= (int64_t)csz;
    if (csz > BIG) {
        long from = (long)h & ~4095l;
        raw(SYS_munmap, from, ((csz + sizeof(struct Hdr) + 4095) & ~4095ul) + 4096, 0, 0, 0, 0);
        return;
    }
    size_t c2;
    int c = cls_of(csz, &c2);
    memset(h + 1, 0xDB, csz);
    *(void **)(h + 1) = freelist[c];
    freelist[c]       = h;
}
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return 0;
    }
    void *p = alloc_raw(n, 16);
    if (p)
        memset(p, 0, n);
    return p;
}
void *realloc(void *p, size_t n)
{
    if (!p)
        return malloc(n);
    if (n == 0) {
        free(p);
        return 0;
    }
    struct Hdr *h = (struct Hdr *)p - 1;
    size_t old    = h->size;
    void *q       = alloc_raw(n, 16);
    if (!q)
        return 0;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
void *memalign(size_t al, size_t n) { return alloc_raw(n, al); }
void *aligned_alloc(size_t al, size_t n) { return alloc_raw(n, al); }
int posix_memalign(void **out, size_t al, size_t n)
{
    int e   = errno;
    void *p = alloc_raw(n, al);
    errno   = e;
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
void *valloc(size_t n) { return alloc_raw(n, 4096); }
void *pvalloc(size_t n) { return alloc_raw((n + 4095) & ~4095ul, 4096); }
size_t malloc_usable_size(void *p) { return p ? ((struct Hdr *)p - 1)->size : 0; }
void cfree(void *p) { free(p); }

// ------------------------------------------------------------------- clocks
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!active) {
        long r = raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
        if (r < 0) {
            errno = (int)-r;
            return -1;
        }
        return 0;
    }
    long a[6] = { id, 0, 0, 0, 0, 0 };
    me->inlen = 0;
    long r    = call(me, SYS_clock_gettime, a);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    memcpy(ts, me->out, sizeof *ts);
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &ts) < 0)
        return -1;
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    if (clock_gettime(CLOCK_REALTIME, &ts) < 0)
        return -1;
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
int timespec_get(struct timespec *ts, int base)
{
    if (base != TIME_UTC)
        return 0;
    return clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0;
}

// ------------------------------------------------------------- system calls
struct Desc {
    signed char p1, p2;       // arguments that are path strings (-1: none)
    signed char ib, il;       // input buffer argument and its length argument (il = -2: fixed 64)
    signed char ob;           // output buffer argument
};
static void put_str(const char *s)
{
    size_t n = s ? strlen(s) : 0;
    if (n > 4000)
        n = 4000;
    memcpy(me->in + me->inlen, s ? s : "", n);
    me->in[me->inlen + n] = 0;
    me->inlen += n + 1;
}
static void arm_sud(void)
{
    unsigned long off = (unsigned long)__start_simtext;
    unsigned long len = (unsigned long)(__stop_simtext - __start_simtext);
    long r            = raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, off, len, (long)&selector, 0);
    if (r < 0)
        die_raw(123);
}
static long unknown_call(long nr, long *a)
{
    me->inlen = 0;
    return call(me, nr, a);
}
static long do_exec(long *a)
{
    me->inlen = 0;
    put_str((const char *)a[0]);
    char **av = (char **)a[1];
    int n     = 0;
    uint32_t cnt_at = me->inlen;
    for (n = 0; av && av[n] && me->inlen < 40000; n++)
        put_str(av[n]);
    (void)cnt_at;
    long b[6] = { n, 0, 0, 0, 0, 0 };
    long r    = call(me, SYS_execve, b);
    if (me->action != ACT_EXEC)
        return r;
    // out: real path \0 LD_PRELOAD=... \0 SIMSLOT=... \0
    static char buf[4096];
    memcpy(buf, me->out, me->outlen < sizeof buf ? me->outlen : sizeof buf);
    char *path = buf, *pre = path + strlen(path) + 1, *slot = pre + strlen(pre) + 1;
    char **ev = (char **)a[2];
    static char *nev[512];
    int k    = 0;
    nev[k++] = pre;
    nev[k++] = slot;
    for (int i = 0; ev && ev[i] && k < 510; i++)
        if (strncmp(ev[i], "LD_PRELOAD=", 11) && strncmp(ev[i], "SIMSLOT=", 8))
            nev[k++] = ev[i];
    nev[k]   = 0;
    long rr  = raw(SYS_execve, (long)path, (long)av, (long)nev, 0, 0, 0);
    long c[6] = { rr, 0, 0, 0, 0, 0 };
    call(me, SIM_EXECFAIL, c);
    return rr;
}
static long do_fork(long nr, long *a, ucontext_t *uc)
{
    unsigned long flags = SIGCHLD, stack = 0;
    long ptid = 0, ctid = 0;
    if (nr == SYS_clone) {
        flags = (unsigned long)a[0];
        stack = (unsigned long)a[1];
        ptid  = a[2];
        ctid  = a[3];
    }
    if (flags & CLONE_THREAD)
        return unknown_call(nr, a);
    me->inlen = 0;
    long r    = call(me, SYS_fork, a);
    if (me->action != ACT_FORK)
        return r;
    int cs = me->child_slot;
    flags &= ~(unsigned long)(CLONE_VM | CLONE_VFORK | CLONE_SETTLS);
    flags |= CLONE_PARENT;
    long pid = raw(SYS_clone, (long)flags, 0, ptid, ctid, 0, 0);
    if (pid == 0) {
        me = &sh->slot[cs];
        await(me);
        if (me->action == ACT_EXIT)
            die_raw((int)me->ret);
        arm_sud();
        if (stack)
            uc->uc_mcontext.gregs[REG_RSP] = (long)stack;
        return 0;
    }
    long b[6] = { pid, 0, 0, 0, 0, 0 };
    return call(me, SIM_FORKED, b); // returns the virtual pid of the child
}

static long do_sys(long nr, long *a, ucontext_t *uc)
{
    struct Desc d = { -1, -1, -1, -1, -1 };
    switch (nr) {
    // --- memory and thread-local housekeeping: native
    case SYS_mmap:
        if (!(a[3] & MAP_ANONYMOUS))
            return unknown_call(nr, a);
        // fallthrough
    case SYS_munmap: case SYS_mprotect: case SYS_brk: case SYS_madvise: case SYS_mremap:
    case SYS_arch_prctl: case SYS_set_tid_address: case SYS_set_robust_list: case SYS_futex:
    case SYS_prlimit64: case SYS_getrlimit: case SYS_setrlimit: case SYS_uname: case SYS_rseq:
    case SYS_sched_getaffinity: case SYS_membarrier:
        return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    case SYS_sigaltstack:
        return 0;
    case SYS_rt_sigreturn:
        sim_sigret_at((void *)uc->uc_mcontext.gregs[REG_RSP]);
    case SYS_rt_sigprocmask: {
        unsigned long *cur = (unsigned long *)&uc->uc_sigmask;
        unsigned long keep = (1ul << (SIGSYS - 1)) | (1ul << (SIGSEGV - 1)) | (1ul << (SIGBUS - 1)) |
                             (1ul << (SIGFPE - 1)) | (1ul << (SIGILL - 1)) | (1ul << (SIGXCPU - 1));
        unsigned long old = *cur;
        if (a[1]) {
            unsigned long s = *(unsigned long *)a[1] & ~keep;
            if (a[0] == SIG_BLOCK)
                *cur |= s;
            else if (a[0] == SIG_UNBLOCK)
                *cur &= ~s;
            else if (a[0] == SIG_SETMASK)
                *cur = s;
            else
                return -EINVAL;
        }
        if (a[2])
            *(unsigned long *)a[2] = old;
        return 0;
    }
    case SYS_rt_sigaction: {
        int s = (int)a[0];
        if (s == SIGSYS || s == SIGSEGV || s == SIGBUS || s == SIGFPE || s == SIGILL || s == SIGXCPU || s == SIGPROF)
            return 0;
        if (a[1] && s > 0 && s < 64) {
            void *h      = *(void **)a[1];
            uint64_t bit = 1ull << s;
            me->sigign &= ~bit;
            me->sighand &= ~bit;
            if (h == (void *)SIG_IGN)
                me->sigign |= bit;
            else if (h != (void *)SIG_DFL)
                me->sighand |= bit;
        }
        return raw(nr, a[0], a[1], a[2], a[3], 0, 0);
    }
    case SYS_clone3:
        return -ENOSYS;
    case SYS_fork: case SYS_vfork: case SYS_clone:
        return do_fork(nr, a, uc);
    case SYS_execve:
        return do_exec(a);
    // --- descriptors and files: simulated
    case SYS_read: case SYS_pread64: case SYS_getdents64: d.ob = 1; break;
    case SYS_write: case SYS_pwrite64: d.ib = 1; d.il = 2; break;
    case SYS_open: case SYS_creat: case SYS_access: case SYS_chdir: case SYS_mkdir: case SYS_rmdir:
    case SYS_unlink: case SYS_chmod: case SYS_truncate: d.p1 = 0; break;
    case SYS_stat: case SYS_lstat: case SYS_readlink: d.p1 = 0; d.ob = 1; break;
    case SYS_fstat: d.ob = 1; break;
    case SYS_rename: case SYS_link: case SYS_symlink: d.p1 = 0; d.p2 = 1; break;
    case SYS_openat: case SYS_mkdirat: case SYS_unlinkat: case SYS_faccessat: case SYS_faccessat2: case SYS_fchmodat: d.p1 = 1; break;
    case SYS_newfstatat: case SYS_readlinkat: d.p1 = 1; d.ob = 2; break;
    case SYS_statx: d.p1 = 1; d.ob = 4; break;
    case SYS_renameat: case SYS_renameat2: d.p1 = 1; d.p2 = 3; break;
    case SYS_ioctl: d.ob = 2; break;
    case SYS_pipe: case SYS_pipe2: d.ob = 0; break;
    case SYS_wait4: d.ob = 1; break;
    case SYS_waitid: d.ob = 2; break;
    case SYS_getcwd: d.ob = 0; break;
    case SYS_clock_gettime: case SYS_clock_getres: d.ob = 1; break;
    case SYS_gettimeofday: d.ob = 0; break;
    case SYS_getrandom: d.ob = 0; break;
    case SYS_nanosleep: d.ib = 0; d.il = -2; break;
    case SYS_clock_nanosleep: d.ib = 2; d.il = -2; break;
    case SYS_poll: case SYS_ppoll: d.ib = 0; d.il = -3; d.ob = 0; break;
    case SYS_readv: case SYS_preadv: {
        struct iovec *v = (struct iovec *)a[1];
        long b[6]       = { a[0], 0, 0, a[3], 0, 0 };
        for (long i = 0; i < a[2]; i++)
            b[2] += (long)v[i].iov_len;
        if (b[2] > SIM_OUT)
            b[2] = SIM_OUT;
        me->inlen = 0;
        long r    = call(me, nr == SYS_readv ? SYS_read : SYS_pread64, b);
        size_t o  = 0;
        for (long i = 0; i < a[2] && (long)o < r; i++) {
            size_t m = (size_t)r - o < v[i].iov_len ? (size_t)r - o : v[i].iov_len;
            memcpy(v[i].iov_base, me->out + o, m);
            o += m;
        }
        return r;
    }
    case SYS_writev: {
        struct iovec *v = (struct iovec *)a[1];
        size_t o        = 0;
        for (long i = 0; i < a[2]; i++) {
            size_t m = v[i].iov_len;
            if (m > SIM_IN - o)
                m = SIM_IN - o;
            memcpy(me->in + o, v[i].iov_base, m);
            o += m;
        }
        me->inlen = o;
        long b[6] = { a[0], 0, (long)o, 0, 0, 0 };
        return call(me, SYS_write, b);
    }
    case SYS_copy_file_range: case SYS_close_range: case SYS_memfd_create: case SYS_io_uring_setup:
        return -ENOSYS;
    default:
        break; // plain numbers only
    }
    me->inlen = 0;
    long b[6];
    memcpy(b, a, sizeof b);
    if (d.p1 >= 0)
        put_str((const char *)a[(int)d.p1]);
    if (d.p2 >= 0)
        put_str((const char *)a[(int)d.p2]);
    if (d.ib >= 0) {
        size_t n = d.il == -2 ? 16 : d.il == -3 ? (size_t)a[1] * 8 : (size_t)a[(int)d.il];
        if (n > SIM_IN)
            n = SIM_IN;
        if (a[(int)d.ib]) {
            memcpy(me->in, (void *)a[(int)d.ib], n);
            me->inlen = n;
        }
        if (d.il >= 0)
            b[(int)d.il] = (long)n;
    }
    long r = call(me, nr, b);
    if (me->action == ACT_NATIVE)
        return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (d.ob >= 0 && me->outlen && a[(int)d.ob])
        memcpy((void *)a[(int)d.ob], me->out, me->outlen);
    return r;
}
static void on_sys(int sig, siginfo_t *si, void *ucv)
{
    (void)sig;
    (void)si;
    ucontext_t *uc = ucv;
    greg_t *g      = uc->uc_mcontext.gregs;
    long a[6]      = { g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9] };
    int e          = errno;
    g[REG_RAX]     = do_sys(g[REG_RAX], a, uc);
    errno          = e;
}
static void on_crash(int sig, siginfo_t *si, void *ucv)
{
    (void)si;
    (void)ucv;
    long a[6] = { sig, 0, 0, 0, 0, 0 };
    me->inlen = 0;
    call(me, SIM_CRASH, a);
    die_raw(124);
}
struct ksa {
    void *h;
    unsigned long flags;
    void (*rest)(void);
    unsigned long mask;
};
static void install(int sig, void *h, unsigned long fl)
{
    struct ksa k = { h, fl | 0x04000000ul | SA_SIGINFO, sim_restorer, sig == SIGSYS ? (1ul << (SIGPROF - 1)) | (1ul << (SIGXCPU - 1)) : 0 };
    raw(SYS_rt_sigaction, sig, (long)&k, 0, 8, 0, 0);
}
static char altstack[32768];
extern char **environ;
__attribute__((constructor)) static void sim_init(void)
{
    const char *e = 0, *ms = 0;
    for (char **p = environ; p && *p; p++)
        if (!strncmp(*p, "SIMSLOT=", 8))
            e = *p + 8;
        else if (!strncmp(*p, "SIMCPU=", 7))
            ms = *p + 7;
    if (!e)
        return;
    int n  = atoi(e);
    long p = raw(SYS_mmap, SIM_ADDR, sizeof(struct Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, SIM_FD, 0);
    if (p < 0 && p > -4096)
        die_raw(120);
    sh = (struct Shared *)p;
    struct Slot *s = &sh->slot[n];
    // hide the simulator's variables from the program
    long cpu_ms = ms ? atol(ms) : 0;
    unsetenv("SIMSLOT");
    unsetenv("SIMCPU");
    unsetenv("LD_PRELOAD");
    stack_t st = { altstack, 0, sizeof altstack };
    raw(SYS_sigaltstack, (long)&st, 0, 0, 0, 0, 0);
    install(SIGSYS, on_sys, 0x40000000ul);
    int cs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGPROF };
    for (unsigned i = 0; i < sizeof cs / sizeof *cs; i++)
        install(cs[i], on_crash, SA_ONSTACK);
    s->realpid = (int)raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    s->alloc_live = 0;
    long a[6] = { 0 };
    s->inlen  = 0;
    me = s;
    if (cpu_ms) { // processor time before the process counts as endless
        struct itimerval it = { { 0, 0 }, { cpu_ms / 1000, cpu_ms % 1000 * 1000 } };
        raw(SYS_setitimer, ITIMER_PROF, (long)&it, 0, 0, 0, 0);
    }
    call(s, SIM_ATTACH, a);
    s->armed = 1;
    active   = 1;
    arm_sud();
}
