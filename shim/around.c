/* What a command asks of its surroundings: the names of the environment
   variables it looks up go to the file AROUND_LOG; with AROUND_CLOCK the clock
   shows another time (seconds since 1970); the paths that it opens for writing,
   creates or renames to go to the file AROUND_FILES; the paths that it looks for
   and that are not there go to the file AROUND_MISSED. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static char *(*real)(const char *);
static int log_fd = -1, files_fd = -1, missed_fd = -1;
static long long shift;

static void begin(void)
{
    if (real) return;
    char *(*r)(const char *) = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    const char *p = r("AROUND_LOG"), *t = r("AROUND_CLOCK"), *f = r("AROUND_FILES"), *m = r("AROUND_MISSED");
    if (p) log_fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (f) files_fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (m) missed_fd = syscall(SYS_openat, AT_FDCWD, m, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (t) {
        struct timespec now;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &now);
        shift = atoll(t) - now.tv_sec;
    }
    real = r;
}

static char *asked(const char *name)
{
    begin();
    if (log_fd >= 0 && strncmp(name, "AROUND_", 7)) {
        char b[300];
        size_t n = strlen(name);
        if (n < sizeof b - 1) {
            memcpy(b, name, n);
            b[n] = '\n';
            if (syscall(SYS_write, log_fd, b, n + 1)) {}
        }
    }
    return real(name);
}

char *getenv(const char *name) { return asked(name); }
char *secure_getenv(const char *name) { return asked(name); }

int clock_gettime(clockid_t id, struct timespec *t)
{
    begin();
    int rc = syscall(SYS_clock_gettime, id, t);
    if (!rc && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += shift;
    return rc;
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
    begin();
    int rc = syscall(SYS_gettimeofday, t, z);
    if (!rc) t->tv_sec += shift;
    return rc;
}
time_t time(time_t *t)
{
    struct timespec x;
    clock_gettime(CLOCK_REALTIME, &x);
    if (t) *t = x.tv_sec;
    return x.tv_sec;
}

static void note(int fd, int dir, const char *path)
{
    if (fd < 0 || !path) return;
    char b[2 * PATH_MAX + 2], at[PATH_MAX] = "";
    if (path[0] != '/') {
        if (dir == AT_FDCWD) {
            if (!getcwd(at, sizeof at)) return;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dir);
            ssize_t n = readlink(l, at, sizeof at - 1);
            if (n < 0) return;
            at[n] = 0;
        }
    }
    int n = snprintf(b, sizeof b, "%s%s%s\n", at, at[0] ? "/" : "", path);
    if (n > 0 && (size_t)n < sizeof b && syscall(SYS_write, fd, b, n)) {}
}
static void touched(int dir, const char *path)
{
    begin();
    note(files_fd, dir, path);
}
/* what a call for a path gave */
static long sought(int dir, const char *path, long rc)
{
    begin();
    if (rc < 0 && (errno == ENOENT || errno == ENOTDIR)) {
        int e = errno;
        note(missed_fd, dir, path);
        errno = e;
    }
    return rc;
}

#define MODE() mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
static int anyopen(int dir, const char *path, int flags, mode_t mode)
{
    if (flags & (O_WRONLY | O_RDWR | O_CREAT)) touched(dir, path);
    return sought(dir, path, syscall(SYS_openat, dir, path, flags, mode));
}
int open(const char *path, int flags, ...) { MODE(); return anyopen(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(); return anyopen(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(); return anyopen(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(); return anyopen(dir, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return anyopen(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int mkdir(const char *path, mode_t mode) { touched(AT_FDCWD, path); return syscall(SYS_mkdirat, AT_FDCWD, path, mode); }
int rename(const char *a, const char *b) { touched(AT_FDCWD, b); return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int link(const char *a, const char *b) { touched(AT_FDCWD, b); return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int c, const char *a, int d, const char *b, int f) { touched(d, b); return syscall(SYS_linkat, c, a, d, b, f); }
int symlink(const char *a, const char *b) { touched(AT_FDCWD, b); return syscall(SYS_symlinkat, a, AT_FDCWD, b); }
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict to) { return sought(dir, path, syscall(SYS_statx, dir, path, flags, mask, to)); }
int stat64(const char *restrict path, struct stat64 *restrict to) { return sought(AT_FDCWD, path, syscall(SYS_newfstatat, AT_FDCWD, path, to, 0)); }
int lstat64(const char *restrict path, struct stat64 *restrict to) { return sought(AT_FDCWD, path, syscall(SYS_newfstatat, AT_FDCWD, path, to, AT_SYMLINK_NOFOLLOW)); }
int fstatat64(int dir, const char *restrict path, struct stat64 *restrict to, int flags) { return sought(dir, path, syscall(SYS_newfstatat, dir, path, to, flags)); }
int access(const char *path, int mode) { return sought(AT_FDCWD, path, syscall(SYS_faccessat, AT_FDCWD, path, mode)); }
ssize_t readlink(const char *restrict path, char *restrict b, size_t n) { return sought(AT_FDCWD, path, syscall(SYS_readlinkat, AT_FDCWD, path, b, n)); }
DIR *opendir(const char *path)
{
    DIR *d = ((DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir"))(path);
    if (!d) sought(AT_FDCWD, path, -1);
    return d;
}
