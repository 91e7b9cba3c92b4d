/* Preloaded into the commands: what the system does with their files is decided here. Only files below SHIM_ROOT are meant.
   SHIM_PLAN=k:act,...  the k-th call (from 1): short (deliver half), one (deliver a byte), intr (EINTR), kill, or an errno
             *:act      every call
   SHIM_REQ, SHIM_GRANT descriptors: each call asks for a turn, and waits until it is given
   SHIM_LOG             a file: a line per call: number kind size action */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char ours[MAXFD];
static const char *root;
static int count, reqfd = -1, grantfd = -1, logfd = -1, ready;
static char plan[4096];

static void begin(void)
{
    if (ready)
        return;
    ready = 1;
    root = getenv("SHIM_ROOT");
    char *p = getenv("SHIM_PLAN");
    if (p)
        strncpy(plan, p, sizeof plan - 1);
    if ((p = getenv("SHIM_REQ")))
        reqfd = atoi(p);
    if ((p = getenv("SHIM_GRANT")))
        grantfd = atoi(p);
    if ((p = getenv("SHIM_LOG")))
        logfd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

static int below(const char *path)
{
    begin();
    if (!root || !path)
        return 0;
    size_t n = strlen(root);
    char cwd[PATH_MAX];
    if (path[0] != '/') {
        if (!getcwd(cwd, sizeof cwd))
            return 0;
        path = cwd;
    }
    return !strncmp(path, root, n) && (path[n] == '/' || !path[n]);
}

/* what is to be done with this call: 0 nothing, -1 short, -2 one byte, else an errno */
static int step(const char *kind, size_t n)
{
    begin();
    int k = ++count, act = 0;
    if (reqfd >= 0 && kind[0] != 'd') {
        char c = kind[0];
        if (syscall(SYS_write, reqfd, &c, 1) == 1)
            syscall(SYS_read, grantfd, &c, 1);
    }
    char want[16];
    for (char *p = plan; *p;) {
        char *e = strchr(p, ',');
        size_t l = e ? (size_t)(e - p) : strlen(p);
        char *c = memchr(p, ':', l);
        if (c && (*p == '*' || atoi(p) == k) && l - (c + 1 - p) < sizeof want) {
            memcpy(want, c + 1, l - (c + 1 - p));
            want[l - (c + 1 - p)] = 0;
            int rw = kind[0] == 'r' || kind[0] == 'w';
            if (!strcmp(want, "short"))
                act = rw && n > 1 ? -1 : 0;
            else if (!strcmp(want, "one"))
                act = rw && n > 1 ? -2 : 0;
            else if (!strcmp(want, "intr"))
                act = rw || kind[0] == 'o' ? EINTR : 0;
            else if (!strcmp(want, "kill"))
                act = 1000;
            else if (strcmp(want, "full") && kind[0] != 'c')
                act = atoi(want);
        }
        p += l + (e != 0);
    }
    if (logfd >= 0) {
        char line[64];
        int m = snprintf(line, sizeof line, "%d %s %zu %d\n", k, kind, n, act);
        syscall(SYS_write, logfd, line, m);
    }
    if (act == 1000) {
        syscall(SYS_kill, getpid(), SIGKILL);
        for (;;)
            pause();
    }
    return act;
}

static size_t part(int act, size_t n)
{
    return act == -1 ? (n + 1) / 2 : act == -2 ? 1 : n;
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

static int opened(int fd, int in)
{
    if (fd >= 0 && fd < MAXFD)
        ours[fd] = in;
    return fd;
}

static int anyopen(int dir, const char *path, int flags, mode_t mode)
{
    int in = below(path) && (dir == AT_FDCWD || path[0] == '/');
    if (in) {
        int act = step(flags & (O_WRONLY | O_RDWR) ? "openw" : "openr", 0);
        if (act > 0) {
            errno = act;
            return -1;
        }
    }
    return opened(syscall(SYS_openat, dir, path, flags, mode), in);
}

#define MODE() mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(); return anyopen(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(); return anyopen(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(); return anyopen(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(); return anyopen(dir, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return anyopen(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode); }

int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && ours[fd]) {
        ours[fd] = 0;
        step("close", 0);
    }
    return syscall(SYS_close, fd);
}

#define OURS(fd) ((fd) >= 0 && (fd) < MAXFD && ours[fd])
#define FAIL(act) if (act > 0) { errno = act; return -1; }

ssize_t read(int fd, void *b, size_t n)
{
    if (OURS(fd)) {
        int act = step("read", n);
        FAIL(act);
        n = part(act, n);
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (OURS(fd)) {
        int act = step("write", n);
        FAIL(act);
        n = part(act, n);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    if (OURS(fd)) {
        int act = step("read", n);
        FAIL(act);
        n = part(act, n);
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    if (OURS(fd)) {
        int act = step("write", n);
        FAIL(act);
        n = part(act, n);
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
static size_t total(const struct iovec *v, int k)
{
    size_t n = 0;
    while (k-- > 0)
        n += v++->iov_len;
    return n;
}
ssize_t readv(int fd, const struct iovec *v, int k)
{
    if (OURS(fd)) {
        int act = step("read", total(v, k));
        FAIL(act);
        if (act < 0 && k > 0)
            return syscall(SYS_read, fd, v->iov_base, part(act, v->iov_len));
    }
    return syscall(SYS_readv, fd, v, k);
}
ssize_t writev(int fd, const struct iovec *v, int k)
{
    if (OURS(fd)) {
        int act = step("write", total(v, k));
        FAIL(act);
        if (act < 0 && k > 0)
            return syscall(SYS_write, fd, v->iov_base, part(act, v->iov_len));
    }
    return syscall(SYS_writev, fd, v, k);
}
/* copies go through reads and writes */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f)
{
    if (OURS(a) || OURS(b)) {
        errno = ENOSYS;
        return -1;
    }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n)
{
    if (OURS(a) || OURS(b)) {
        errno = ENOSYS;
        return -1;
    }
    return syscall(SYS_sendfile, a, b, o, n);
}

int fsync(int fd) { if (OURS(fd)) { int act = step("fsync", 0); FAIL(act); } return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (OURS(fd)) { int act = step("fsync", 0); FAIL(act); } return syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off64_t n) { if (OURS(fd)) { int act = step("truncate", 0); FAIL(act); } return syscall(SYS_ftruncate, fd, n); }
int rename(const char *a, const char *b) { if (below(a)) { int act = step("move", 0); FAIL(act); } return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int unlink(const char *a) { if (below(a)) { int act = step("unlink", 0); FAIL(act); } return syscall(SYS_unlinkat, AT_FDCWD, a, 0); }

/* listing a directory */
#define MAXDIR 64
static DIR *dirs[MAXDIR];
DIR *opendir(const char *path)
{
    int in = below(path), k = 0;
    if (in) {
        int act = step("dir", 0);
        if (act > 0) {
            errno = act;
            return 0;
        }
    }
    DIR *d = REAL(opendir)(path);
    while (in && d && k < MAXDIR && dirs[k])
        k++;
    if (in && d && k < MAXDIR)
        dirs[k] = d;
    return d;
}
int closedir(DIR *d)
{
    for (int k = 0; k < MAXDIR; k++)
        if (dirs[k] == d)
            dirs[k] = 0;
    return REAL(closedir)(d);
}
static int listing(DIR *d)
{
    for (int k = 0; d && k < MAXDIR; k++)
        if (dirs[k] == d) {
            int act = step("dirent", 0);
            return act > 0 ? act : 0;
        }
    return 0;
}
struct dirent64 *readdir64(DIR *d) { int act = listing(d); if (act) { errno = act; return 0; } return REAL(readdir64)(d); }
struct dirent *readdir(DIR *d) { int act = listing(d); if (act) { errno = act; return 0; } return REAL(readdir)(d); }
