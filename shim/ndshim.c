/* LD_PRELOAD observer / fault injector for nd.
 *
 *   NDS_LOG=path       append one line per observed call (an event log for the offline checkers)
 *   NDS_SHORT=seed     reads and writes transfer a random prefix of what was asked
 *   NDS_DELAY=seed     random sleeps (0..NDS_DELAY_US us) around reads and writes (schedule perturbation)
 *   NDS_TID=1          number the threads of nd in the log, and log and (with NDS_DELAY) delay the futex calls
 *   NDS_FAIL=op:n:errno[:class]   the n-th (1-origin) call of `op` fails
 *   NDS_KILL=n[:after] SIGKILL right before (after) the n-th state-changing call
 *   NDS_ROOT=dir       NDS_FAIL / NDS_KILL / NDS_LOG only look at path calls below this directory
 *
 * Classes of file descriptors: 'i' opened read-only below NDS_ROOT or fd 0, 'o' opened for writing, '1' stdout,
 * 'p' pipes to and from children.  Only nd's own process is instrumented (children inherit nothing: the
 * variables are removed from the environment in the constructor).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* libc's syscall() is interposed below: nothing here may use it */
static long raw(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#define SYS(n, a, b, c, d) raw(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)

static int enabled, tids, logfd = -1;
static int next_tid;
static __thread int my_tid __attribute__((tls_model("initial-exec")));
static long short_seed = -1, delay_seed = -1, delay_us = 300;
static char fail_op[32];
static long fail_n = -1, fail_errno;
static char fail_cls;
static long kill_n = -1;
static int kill_after;
static char root[512];
static long muts;
static long opcount[32];
static uint64_t rs;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static uint64_t rnd(void)
{
    uint64_t z = __atomic_add_fetch(&rs, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

__attribute__((constructor)) static void init(void)
{
    char *p;
    if ((p = getenv("NDS_SHORT"))) short_seed = atol(p);
    if ((p = getenv("NDS_DELAY"))) delay_seed = atol(p);
    if ((p = getenv("NDS_DELAY_US"))) delay_us = atol(p);
    rs = (uint64_t)(short_seed + 1) * 7919 + (uint64_t)(delay_seed + 1) * 104729;
    if ((p = getenv("NDS_ROOT"))) snprintf(root, sizeof root, "%s", p);
    if ((p = getenv("NDS_FAIL"))) {
        char c[8] = "";
        if (sscanf(p, "%31[^:]:%ld:%ld:%7s", fail_op, &fail_n, &fail_errno, c) >= 3) fail_cls = c[0];
    }
    if ((p = getenv("NDS_KILL"))) {
        kill_n = atol(p);
        kill_after = strstr(p, ":after") != NULL;
    }
    if ((p = getenv("NDS_LOG"))) logfd = (int)SYS(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    tids = getenv("NDS_TID") != NULL;
    enabled = 1;
    unsetenv("NDS_SHORT"); unsetenv("NDS_DELAY"); unsetenv("NDS_DELAY_US"); unsetenv("NDS_ROOT");
    unsetenv("NDS_FAIL"); unsetenv("NDS_KILL"); unsetenv("NDS_LOG"); unsetenv("NDS_TID"); unsetenv("LD_PRELOAD");
}

static void logf_(const char *fmt, ...)
{
    if (logfd < 0) return;
    char b[1024];
    int k = 0;
    if (tids) {
        if (!my_tid) my_tid = __atomic_add_fetch(&next_tid, 1, __ATOMIC_RELAXED);
        k = snprintf(b, sizeof b, "t%d ", my_tid);
    }
    va_list ap;
    va_start(ap, fmt);
    int n = k + vsnprintf(b + k, sizeof b - k, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    SYS(SYS_write, logfd, b, n, 0);
}

static char cls_of(int fd)
{
    struct stat st;
    if (SYS(SYS_fstat, fd, &st, 0, 0) != 0) return '?';
    if (fd == 1) return '1';
    if (fd == 2) return '2';
    if (fd == 0) return 'i';
    if (S_ISFIFO(st.st_mode) || S_ISSOCK(st.st_mode)) return 'p';
    int fl = (int)SYS(SYS_fcntl, fd, F_GETFL, 0, 0);
    if ((fl & O_ACCMODE) == O_RDONLY) return 'i';
    return (fl & O_ACCMODE) == O_RDWR ? 't' : 'o';
}

static int under_root(const char *p)
{
    if (!root[0]) return 1;
    if (p[0] != '/') return 1;
    return strncmp(p, root, strlen(root)) == 0;
}

/* returns nonzero if the call must fail */
static int hit(const char *op, char cls)
{
    if (fail_n < 0 || strcmp(op, fail_op) != 0 || (fail_cls && fail_cls != cls)) return 0;
    long n = __atomic_add_fetch(&opcount[0], 1, __ATOMIC_SEQ_CST);
    if (n != fail_n) return 0;
    logf_("FAIL %s %c %ld errno=%ld\n", op, cls, n, fail_errno);
    errno = (int)fail_errno;
    return 1;
}

/* a state-changing call begins */
static long mut_begin(void)
{
    long n = __atomic_add_fetch(&muts, 1, __ATOMIC_SEQ_CST);
    if (n == kill_n && !kill_after) {
        logf_("KILL before %ld\n", n);
        SYS(SYS_kill, getpid(), SIGKILL, 0, 0);
        for (;;) pause();
    }
    return n;
}

static void mut_end(long n)
{
    if (n == kill_n && kill_after) {
        logf_("KILL after %ld\n", n);
        SYS(SYS_kill, getpid(), SIGKILL, 0, 0);
        for (;;) pause();
    }
}

static void maybe_delay(void)
{
    if (delay_seed < 0 || delay_us <= 0) return;
    uint64_t r = rnd();
    if (r % 3 == 0) return;
    struct timespec t = {0, (long)((r >> 8) % (uint64_t)delay_us) * 1000};
    SYS(SYS_nanosleep, &t, NULL, 0, 0);
}

static size_t cut(size_t n)
{
    if (short_seed < 0 || n <= 1) return n;
    uint64_t r = rnd();
    switch (r % 5) {
    case 0: return n;
    case 1: return 1;
    case 2: return 1 + (r >> 8) % (n < 16 ? n : 16);
    default: return 1 + (r >> 8) % n;
    }
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(read);
    if (!enabled || fd == logfd) return real(fd, buf, n);
    char c = cls_of(fd);
    if (hit("read", c)) return -1;
    maybe_delay();
    ssize_t r = real(fd, buf, c == 'i' || c == 'p' ? cut(n) : n);
    logf_("read %c %d %zu %zd\n", c, fd, n, r);
    return r;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write);
    if (!enabled || fd == logfd) return real(fd, buf, n);
    char c = cls_of(fd);
    if (c == '2') return real(fd, buf, n);
    if (hit("write", c)) return -1;
    maybe_delay();
    long m = c == 'o' || c == 't' ? mut_begin() : 0;
    ssize_t r = real(fd, buf, cut(n));
    logf_("write %c %d %zu %zd\n", c, fd, n, r);
    if (m) mut_end(m);
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int cnt)
{
    REAL(writev);
    if (!enabled || fd == 2) return real(fd, v, cnt);
    for (int i = 0; i < cnt; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t readv(int fd, const struct iovec *v, int cnt)
{
    REAL(readv);
    if (!enabled) return real(fd, v, cnt);
    for (int i = 0; i < cnt; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

static int open_common(int (*real)(const char *, int, ...), const char *path, int flags, mode_t mode)
{
    if (!enabled || !under_root(path)) return real(path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (hit("open", wr ? 'o' : 'i')) return -1;
    long m = wr ? mut_begin() : 0;
    int fd = real(path, flags, mode);
    int e = errno;
    logf_("open %c %d %s %s%s%s\n", wr ? 'o' : 'i', fd, path, flags & O_CREAT ? "C" : "", flags & O_TRUNC ? "T" : "", flags & O_EXCL ? "X" : "");
    if (m) mut_end(m);
    errno = e;
    return fd;
}

int open(const char *path, int flags, ...)
{
    REAL(open);
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return open_common(real, path, flags, mode);
}

int open64(const char *path, int flags, ...)
{
    REAL(open64);
    va_list ap;
    va_start(ap, flags);
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return open_common(real, path, flags, mode);
}

int rename(const char *a, const char *b)
{
    REAL(rename);
    if (!enabled) return real(a, b);
    if (hit("rename", 'o')) return -1;
    long m = mut_begin();
    int r = real(a, b), e = errno;
    logf_("rename %d %s %s\n", r, a, b);
    mut_end(m);
    errno = e;
    return r;
}

int unlink(const char *a)
{
    REAL(unlink);
    if (!enabled) return real(a);
    if (hit("unlink", 'o')) return -1;
    long m = mut_begin();
    int r = real(a), e = errno;
    logf_("unlink %d %s\n", r, a);
    mut_end(m);
    errno = e;
    return r;
}

int fchmod(int fd, mode_t md)
{
    REAL(fchmod);
    if (!enabled) return real(fd, md);
    if (hit("fchmod", 'o')) return -1;
    long m = mut_begin();
    int r = real(fd, md), e = errno;
    logf_("fchmod %d %d %o\n", r, fd, md);
    mut_end(m);
    errno = e;
    return r;
}

int ftruncate64(int fd, off64_t n)
{
    REAL(ftruncate64);
    if (!enabled) return real(fd, n);
    if (hit("ftruncate", 'o')) return -1;
    long m = mut_begin();
    int r = real(fd, n), e = errno;
    logf_("ftruncate %d %d %lld\n", r, fd, (long long)n);
    mut_end(m);
    errno = e;
    return r;
}

off64_t lseek64(int fd, off64_t o, int w)
{
    REAL(lseek64);
    if (!enabled) return real(fd, o, w);
    char c = cls_of(fd);
    if (hit("lseek", c)) return -1;
    return real(fd, o, w);
}

int fsync(int fd)
{
    REAL(fsync);
    if (!enabled) return real(fd);
    if (hit("fsync", 'o')) return -1;
    int r = real(fd);
    logf_("fsync %d %d\n", r, fd);
    return r;
}

long syscall(long n, ...)
{
    va_list ap;
    long a[6];
    va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    int watch = enabled && tids && n == SYS_futex;
    if (watch) {
        logf_("futex %ld\n", a[1] & 0x7f);
        maybe_delay();
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (watch) {
        maybe_delay();
        logf_("futex' %ld %ld\n", a[1] & 0x7f, r);
    }
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int close(int fd)
{
    REAL(close);
    if (enabled && fd == logfd) return 0;
    return real(fd);
}

__attribute__((unused)) static void unused_(void) { (void)mu; }
