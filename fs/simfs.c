// LD_PRELOAD: the file system as the scripts see it. Counts every call on paths under SIMFS_ROOT, lists directories
// in a seeded order and makes the k-th call fail, or the process die there. Writing outside the root is refused.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char g_root[PATH_MAX];
static size_t g_rootLen;
static uint64_t g_seed;
static int g_unknown;        // directory entries without a type
static long g_k = -1;        // call at which the fault strikes
static char g_kind[32];
static int g_persist;        // later calls of the same class fail too
static char g_class;
static long g_n;
static int g_log = -1, g_on;
static pid_t g_pid;
static signed char g_fd[4096]; // 1 read, 2 write: a file under the root
static int g_struck;

static const char *env(const char *n) {
    const char *v = getenv(n);
    return v ? v : "";
}

__attribute__((constructor)) static void start(void) {
    const char *r = getenv("SIMFS_ROOT");
    if (!r) {
        return;
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    strncpy(g_root, r, sizeof g_root - 1);
    g_rootLen = strlen(g_root);
    g_seed = strtoull(env("SIMFS_SEED"), NULL, 10);
    g_unknown = atoi(env("SIMFS_UNKNOWN"));
    const char *f = getenv("SIMFS_FAULT"); // k:kind:persist
    if (f && *f) {
        sscanf(f, "%ld:%31[^:]:%d", &g_k, g_kind, &g_persist);
    }
    const char *l = getenv("SIMFS_LOG");
    if (l && *l) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        g_log = fcntl(fd, F_DUPFD_CLOEXEC, 1000);
        syscall(SYS_close, fd);
    }
    g_pid = getpid();
    char b[32];
    snprintf(b, sizeof b, "%d", (int)g_pid);
    setenv("SIMCF_PY", b, 1);
    unsetenv("LD_PRELOAD");
    unsetenv("SIMFS_ROOT");
    unsetenv("SIMFS_SEED");
    unsetenv("SIMFS_UNKNOWN");
    unsetenv("SIMFS_FAULT");
    unsetenv("SIMFS_LOG");
    g_on = 1;
}

static int active(void) {
    return g_on && getpid() == g_pid;
}

static int absPath(int dirfd, const char *p, char *out) {
    if (p[0] == '/') {
        snprintf(out, PATH_MAX, "%s", p);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base)) {
                return 0;
            }
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof base - 1);
            if (n < 0) {
                return 0;
            }
            base[n] = 0;
        }
        if (snprintf(out, PATH_MAX, "%s/%s", base, p) >= PATH_MAX) {
            return 0;
        }
    }
    // remove . and .. and doubled slashes
    char t[PATH_MAX], *q = t;
    char *s = out;
    while (*s) {
        while (*s == '/') {
            ++s;
        }
        char *e = s;
        while (*e && *e != '/') {
            ++e;
        }
        size_t n = (size_t)(e - s);
        if (n == 2 && s[0] == '.' && s[1] == '.') {
            while (q > t && *--q != '/') {
            }
        } else if (n && !(n == 1 && s[0] == '.')) {
            *q++ = '/';
            memcpy(q, s, n);
            q += n;
        }
        s = e;
    }
    if (q == t) {
        *q++ = '/';
    }
    *q = 0;
    strcpy(out, t);
    return 1;
}

static int under(int dirfd, const char *p, char *out) {
    return p && absPath(dirfd, p, out) && strncmp(out, g_root, g_rootLen) == 0 && (out[g_rootLen] == '/' || !out[g_rootLen]);
}

static void logCall(const char *op, const char *what, const char *extra) {
    if (g_log >= 0) {
        char b[PATH_MAX + 64];
        int n = snprintf(b, sizeof b, "%ld %s %s %s\n", g_n, op, what, extra);
        (void)!syscall(SYS_write, g_log, b, (size_t)n);
    }
}

static int errnoOf(void) {
    return strcmp(g_kind, "ENOSPC") == 0   ? ENOSPC
           : strcmp(g_kind, "EACCES") == 0 ? EACCES
           : strcmp(g_kind, "EMFILE") == 0 ? EMFILE
           : strcmp(g_kind, "EINTR") == 0  ? EINTR
           : strcmp(g_kind, "EXDEV") == 0  ? EXDEV
           : strcmp(g_kind, "ENOENT") == 0 ? ENOENT
           : strcmp(g_kind, "EDQUOT") == 0 ? EDQUOT
                                           : EIO;
}

// one call. class: o open to read, r read, l list, O open to write, w write, c close, m rename, u unlink, d mkdir
// returns 0 go on, -1 fail with errno, 1 die after the call, 2 short write
static int point(char class, const char *op, const char *what) {
    ++g_n;
    if (g_struck && g_persist && class == g_class) {
        logCall(op, what, "fails");
        errno = errnoOf();
        return -1;
    }
    if (g_n != g_k) {
        logCall(op, what, "");
        return 0;
    }
    g_struck = 1;
    g_class = class;
    logCall(op, what, g_kind);
    if (strcmp(g_kind, "kill") == 0) {
        kill(g_pid, SIGKILL);
        pause();
    }
    if (strcmp(g_kind, "term") == 0) {
        raise(SIGTERM);
        return 0;
    }
    if (strcmp(g_kind, "int") == 0) {
        raise(SIGINT);
        return 0;
    }
    if (strcmp(g_kind, "after") == 0) {
        return 1;
    }
    if (strcmp(g_kind, "short") == 0 || strcmp(g_kind, "torn") == 0) {
        return class == 'w' ? 2 : 0;
    }
    errno = errnoOf();
    return -1;
}

static void die(int p) {
    if (p == 1) {
        kill(g_pid, SIGKILL);
        pause();
    }
}

static int openImpl(int dirfd, const char *path, int flags, mode_t mode) {
    char a[PATH_MAX] = "";
    int in = active() && under(dirfd, path, a);
    int wr = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    if (active() && wr && !in && strncmp(a, "/dev/", 5) != 0) {
        errno = EACCES;
        return -1;
    }
    int p = 0;
    if (in) {
        p = point(wr ? 'O' : (flags & O_DIRECTORY) ? 'l' : 'o', wr ? "openw" : "open", a + g_rootLen);
        if (p < 0) {
            return -1;
        }
    }
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < 4096) {
        g_fd[fd] = in ? (wr ? 2 : 1) : 0;
    }
    die(p);
    return fd;
}
#define MODE                                                                                                           \
    mode_t mode = 0;                                                                                                   \
    if (flags & (O_CREAT | O_TMPFILE)) {                                                                               \
        va_list ap;                                                                                                    \
        va_start(ap, flags);                                                                                           \
        mode = va_arg(ap, mode_t);                                                                                     \
        va_end(ap);                                                                                                    \
    }
int open(const char *p, int flags, ...) {
    MODE return openImpl(AT_FDCWD, p, flags, mode);
}
int open64(const char *p, int flags, ...) {
    MODE return openImpl(AT_FDCWD, p, flags, mode);
}
int openat(int d, const char *p, int flags, ...) {
    MODE return openImpl(d, p, flags, mode);
}
int openat64(int d, const char *p, int flags, ...) {
    MODE return openImpl(d, p, flags, mode);
}
static int mine(int fd) {
    return fd >= 0 && fd < 4096 && g_fd[fd] && active();
}
ssize_t read(int fd, void *b, size_t n) {
    if (mine(fd) && point('r', "read", "") < 0) {
        return -1;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    int p = 0;
    if (mine(fd)) {
        char e[32];
        snprintf(e, sizeof e, "%zu", n);
        p = point('w', "write", e);
        if (p < 0) {
            return -1;
        }
        if (p == 2) {
            ssize_t r = syscall(SYS_write, fd, b, n / 2 ? n / 2 : n);
            if (strcmp(g_kind, "torn") == 0) {
                die(1);
            }
            return r;
        }
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    die(p);
    return r;
}
int close(int fd) {
    int p = 0;
    if (mine(fd)) {
        if (g_fd[fd] == 2) {
            p = point('c', "close", "");
        }
        g_fd[fd] = 0;
    }
    int r = (int)syscall(SYS_close, fd);
    die(p);
    if (p < 0) { // the descriptor is gone all the same, as on a file server
        errno = errnoOf();
        return -1;
    }
    return r;
}
static int two(char class, const char *op, int d1, const char *a, int d2, const char *b) {
    char x[PATH_MAX] = "", y[PATH_MAX] = "", z[2 * PATH_MAX];
    if (!active()) {
        return 0;
    }
    int i = under(d1, a, x), j = b ? under(d2, b, y) : 1;
    if (!i || !j) {
        errno = EACCES;
        return -1;
    }
    snprintf(z, sizeof z, "%s %s", x + g_rootLen, b ? y + g_rootLen : "");
    return point(class, op, z);
}
#define CALL2(class, op, d1, a, d2, b, sys)                                                                            \
    int p = two(class, op, d1, a, d2, b);                                                                              \
    if (p < 0) {                                                                                                       \
        return -1;                                                                                                     \
    }                                                                                                                  \
    int r = (int)(sys);                                                                                                \
    die(p);                                                                                                            \
    return r
int rename(const char *a, const char *b) {
    CALL2('m', "rename", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b));
}
int renameat(int d, const char *a, int e, const char *b) {
    CALL2('m', "rename", d, a, e, b, syscall(SYS_renameat, d, a, e, b));
}
int link(const char *a, const char *b) {
    CALL2('m', "link", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int symlink(const char *a, const char *b) {
    CALL2('m', "symlink", AT_FDCWD, b, AT_FDCWD, NULL, syscall(SYS_symlinkat, a, AT_FDCWD, b));
}
int unlink(const char *a) {
    CALL2('u', "unlink", AT_FDCWD, a, 0, NULL, syscall(SYS_unlinkat, AT_FDCWD, a, 0));
}
int unlinkat(int d, const char *a, int f) {
    CALL2('u', "unlink", d, a, 0, NULL, syscall(SYS_unlinkat, d, a, f));
}
int rmdir(const char *a) {
    CALL2('u', "rmdir", AT_FDCWD, a, 0, NULL, syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR));
}
int mkdir(const char *a, mode_t m) {
    CALL2('d', "mkdir", AT_FDCWD, a, 0, NULL, syscall(SYS_mkdirat, AT_FDCWD, a, m));
}
int mkdirat(int d, const char *a, mode_t m) {
    CALL2('d', "mkdir", d, a, 0, NULL, syscall(SYS_mkdirat, d, a, m));
}
int truncate(const char *a, off_t n) {
    CALL2('w', "truncate", AT_FDCWD, a, 0, NULL, syscall(SYS_truncate, a, n));
}
int truncate64(const char *a, off64_t n) {
    CALL2('w', "truncate", AT_FDCWD, a, 0, NULL, syscall(SYS_truncate, a, n));
}
int chmod(const char *a, mode_t m) {
    CALL2('u', "chmod", AT_FDCWD, a, 0, NULL, syscall(SYS_fchmodat, AT_FDCWD, a, m));
}
static int onFd(int fd, char class, const char *op) {
    return mine(fd) ? point(class, op, "") : 0;
}
int fsync(int fd) {
    int p = onFd(fd, 'w', "fsync");
    if (p < 0) {
        return -1;
    }
    die(p);
    return 0;
}
int fdatasync(int fd) {
    return fsync(fd);
}
static int ftruncImpl(int fd, off64_t n) {
    int p = onFd(fd, 'w', "ftruncate");
    if (p < 0) {
        return -1;
    }
    int r = (int)syscall(SYS_ftruncate, fd, n);
    die(p);
    return r;
}
int ftruncate(int fd, off_t n) {
    return ftruncImpl(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    return ftruncImpl(fd, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { // shutil: let it fall back to read and write
    (void)o, (void)i, (void)off, (void)n;
    errno = ENOTSOCK;
    return -1;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    return sendfile64(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
    (void)o, (void)i, (void)a, (void)b, (void)n, (void)f;
    errno = EXDEV;
    return -1;
}

// ------------------------------------------------------------------ directories
struct List {
    DIR *d;
    int n, at;
    struct dirent64 **e;
};
static struct List g_list[64];
static uint64_t mixed(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static int byName(const void *a, const void *b) {
    return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
static struct dirent64 *next(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) {
        real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    }
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd(d));
    ssize_t k = readlink(l, p, sizeof p - 1);
    p[k < 0 ? 0 : k] = 0;
    char a[PATH_MAX] = "";
    if (!active() || !under(AT_FDCWD, p, a)) {
        return real(d);
    }
    struct List *f = NULL;
    for (int i = 0; i < 64; ++i) {
        if (g_list[i].d == d) {
            f = &g_list[i];
        }
    }
    for (int i = 0; !f && i < 64; ++i) {
        if (!g_list[i].d) {
            f = &g_list[i];
            f->d = d;
            f->n = f->at = 0;
            f->e = NULL;
            struct dirent64 *x;
            while ((x = real(d))) {
                f->e = (struct dirent64 **)realloc(f->e, sizeof(void *) * (size_t)(f->n + 1));
                f->e[f->n] = (struct dirent64 *)malloc(sizeof(struct dirent64));
                memcpy(f->e[f->n], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
                if (g_unknown) {
                    f->e[f->n]->d_type = DT_UNKNOWN;
                }
                ++f->n;
            }
            qsort(f->e, (size_t)f->n, sizeof(void *), byName);
            uint64_t s = g_seed;
            for (const char *c = a + g_rootLen; *c; ++c) {
                s = s * 31 + (unsigned char)*c;
            }
            for (int j = f->n - 1; g_seed && j > 0; --j) {
                int m = (int)(mixed(&s) % (uint64_t)(j + 1));
                struct dirent64 *t = f->e[j];
                f->e[j] = f->e[m];
                f->e[m] = t;
            }
        }
    }
    if (!f) {
        return real(d);
    }
    if (point('l', "list", a + g_rootLen) < 0) {
        return NULL;
    }
    return f->at < f->n ? f->e[f->at++] : NULL;
}
struct dirent64 *readdir64(DIR *d) {
    return next(d);
}
struct dirent *readdir(DIR *d) {
    return (struct dirent *)next(d);
}
int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) {
        real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    }
    for (int i = 0; i < 64; ++i) {
        if (g_list[i].d == d) {
            g_list[i].d = NULL;
        }
    }
    return real(d);
}
DIR *opendir(const char *p) {
    static DIR *(*real)(const char *);
    if (!real) {
        real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    }
    char a[PATH_MAX] = "";
    if (active() && under(AT_FDCWD, p, a) && point('l', "opendir", a + g_rootLen) < 0) {
        return NULL;
    }
    return real(p);
}
