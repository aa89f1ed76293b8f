/* Simulated disk, preloaded into the interpreters: system calls on files below a scratch directory are counted and fail as
 * armed; all other files are left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

enum { OPEN, WRITE, READ, CLOSE, SHORT, EINTR_, STAT, RENAME, SITES };

static char root[4096];
static size_t root_len = 0;
static unsigned char tracked[65536]; /* 1: read only, 2: writable */
static int armed = -1, err = 0;
static long left = 0;
static unsigned long fired[SITES], calls[SITES];

void verif_disk_root(const char *path)
{
    strncpy(root, path, sizeof(root) - 1);
    root_len = strlen(root);
}

/* OPEN, CLOSE, RENAME, EINTR_: the (n+1)th call fails; WRITE, READ: once n bytes are through; SHORT: at most n bytes per call */
void verif_disk_arm(int site, long n, int e)
{
    armed = site;
    left = n;
    err = e;
    memset(fired, 0, sizeof(fired));
}

void verif_disk_disarm(void) { armed = -1; }
unsigned long verif_disk_fired(int site) { return fired[site]; }
unsigned long verif_disk_calls(int site) { return calls[site]; }

static int ours(const char *path) { return root_len && path && strncmp(path, root, root_len) == 0; }

static int hit(int site)
{
    calls[site]++;
    if (armed == site && (site == OPEN || site == CLOSE || site == RENAME)) {
        if (left-- <= 0) {
            fired[site]++;
            errno = err;
            return 1;
        }
    }
    return 0;
}

static int interrupted(void)
{
    if (armed == EINTR_ && left-- <= 0) {
        fired[EINTR_]++;
        left = 2;
        errno = EINTR;
        return 1;
    }
    return 0;
}

static int open_common(const char *name, int dir, int at, const char *path, int flags, mode_t mode)
{
    static int (*real)(int, const char *, int, ...);
    int fd;
    if (!real)
        real = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, "openat64");
    (void)name;
    (void)at;
    if (ours(path)) {
        if (interrupted() || hit(OPEN))
            return -1;
    }
    fd = real(dir, path, flags, mode);
    if (fd >= 0 && fd < (int)sizeof(tracked))
        tracked[fd] = ours(path) ? ((flags & O_ACCMODE) == O_RDONLY ? 1 : 2) : 0;
    return fd;
}

#define MODE(last)                      \
    mode_t mode = 0;                    \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap;                     \
        va_start(ap, last);             \
        mode = va_arg(ap, mode_t);      \
        va_end(ap);                     \
    }

int open(const char *path, int flags, ...)
{
    MODE(flags)
    return open_common("open", AT_FDCWD, 0, path, flags, mode);
}

int open64(const char *path, int flags, ...)
{
    MODE(flags)
    return open_common("open64", AT_FDCWD, 0, path, flags, mode);
}

int openat(int dir, const char *path, int flags, ...)
{
    MODE(flags)
    return open_common("openat", dir, 1, path, flags, mode);
}

int openat64(int dir, const char *path, int flags, ...)
{
    MODE(flags)
    return open_common("openat64", dir, 1, path, flags, mode);
}

static int is_tracked(int fd) { return fd >= 0 && fd < (int)sizeof(tracked) && tracked[fd]; }

ssize_t write(int fd, const void *buf, size_t n)
{
    static ssize_t (*real)(int, const void *, size_t);
    if (!real)
        real = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    if (is_tracked(fd)) {
        calls[WRITE]++;
        if (interrupted())
            return -1;
        if (armed == SHORT && left > 0 && n > (size_t)left) {
            fired[SHORT]++;
            n = left;
        }
        if (armed == WRITE) {
            if (left <= 0) {
                fired[WRITE]++;
                errno = err;
                return -1;
            }
            if (n > (size_t)left)
                n = left; /* a short write comes first */
            left -= n;
        }
    }
    return real(fd, buf, n);
}

ssize_t read(int fd, void *buf, size_t n)
{
    static ssize_t (*real)(int, void *, size_t);
    if (!real)
        real = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    if (is_tracked(fd)) {
        calls[READ]++;
        if (interrupted())
            return -1;
        if (armed == SHORT && left > 0 && n > (size_t)left) {
            fired[SHORT]++;
            n = left;
        }
        if (armed == READ) {
            ssize_t r;
            if (left <= 0) {
                fired[READ]++;
                errno = err;
                return -1;
            }
            if (n > (size_t)left)
                n = left;
            r = real(fd, buf, n);
            if (r > 0)
                left -= r;
            return r;
        }
    }
    return real(fd, buf, n);
}

int close(int fd)
{
    static int (*real)(int);
    if (!real)
        real = (int (*)(int))dlsym(RTLD_NEXT, "close");
    if (is_tracked(fd)) {
        int writable = tracked[fd] == 2;
        tracked[fd] = 0;
        if (writable && hit(CLOSE)) { /* the error of a delayed write; the descriptor is gone */
            int e = errno;
            real(fd);
            errno = e;
            return -1;
        }
    }
    return real(fd);
}

int rename(const char *a, const char *b)
{
    static int (*real)(const char *, const char *);
    if (!real)
        real = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename");
    if ((ours(a) || ours(b)) && hit(RENAME))
        return -1;
    return real(a, b);
}
