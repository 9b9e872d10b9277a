/* Interposes the I/O functions of libc: counts the operations on watched
 * files and makes a chosen one fail.  Loaded with LD_PRELOAD. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 4096
#define NLOG 200000

static pid_t armed;
static long counter, target;
static int kind, fired;
static int broken = -1;         /* fd whose later writes fail, -2: all */
static char prefixes[8][512];
static int nprefix;
static unsigned char watched[NFD];      /* 1 watched */
static unsigned char writable[NFD];
static char *oplog;

enum { ONCE = 0, PERSISTENT = 1, SHORT = 2, TORN = 3 };

void shim_reset(void) {
    armed = 0; nprefix = 0; counter = 0; fired = 0; broken = -1;
    memset(watched, 0, sizeof watched);
    memset(writable, 0, sizeof writable);
    if (!oplog) oplog = malloc(NLOG);
}
void shim_prefix(const char *p) {
    strncpy(prefixes[nprefix], p, 511); nprefix++;
}
void shim_watch(int fd, int w) { watched[fd] = 1; writable[fd] = w; }
void shim_arm(long t, int k) {
    target = t; kind = k; counter = 0; fired = 0; broken = -1;
    armed = getpid();
}
void shim_disarm(void) { armed = 0; }
void shim_resume(void) { armed = getpid(); }
long shim_count(void) { return counter; }
int shim_fired(void) { return fired; }
const char *shim_log(void) {
    oplog[counter < NLOG ? counter : NLOG - 1] = 0;
    return oplog;
}

static int matches(const char *path) {
    if (!path) return 0;
    size_t n = strlen(path);
    if ((n > 3 && !strcmp(path + n - 3, ".py")) ||
        (n > 4 && !strcmp(path + n - 4, ".pyc")) || strstr(path, ".so"))
        return 0;
    for (int i = 0; i < nprefix; i++)
        if (!strncmp(path, prefixes[i], strlen(prefixes[i]))) return 1;
    if (path[0] != '/') return 1;       /* relative: the working directory */
    return 0;
}

static int on(void) { return armed && armed == getpid(); }

/* 1: this operation has to fail */
static int hit(char op) {
    if (counter < NLOG - 1) oplog[counter] = op;
    counter++;
    if (counter - 1 == target) { fired = op; return 1; }
    return 0;
}

int shim_step(int op) { return armed ? hit(op) : 0; }

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name);

static void opened(int fd, int flags) {
    if (fd < 0 || fd >= NFD) return;
    watched[fd] = 1;
    writable[fd] = (flags & O_ACCMODE) != O_RDONLY;
}

#define OPEN(name, dirarg, dirpass) \
int name(dirarg const char *path, int flags, ...) { \
    REAL(name) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); \
    } \
    if (on() && matches(path) && !(flags & O_DIRECTORY)) { \
        int w = (flags & O_ACCMODE) != O_RDONLY; \
        if (hit(w ? 'c' : 'o')) { \
            errno = kind == PERSISTENT ? EMFILE : w ? ENOSPC : EACCES; \
            return -1; \
        } \
        int fd = real(dirpass path, flags, mode); \
        opened(fd, flags); \
        return fd; \
    } \
    int fd = real(dirpass path, flags, mode); \
    if (fd >= 0 && fd < NFD && on()) watched[fd] = 0; \
    return fd; \
}
#define NOARG
#define COMMA ,
OPEN(open, , )
OPEN(open64, , )
OPEN(openat, int dirfd COMMA, dirfd COMMA)
OPEN(openat64, int dirfd COMMA, dirfd COMMA)

#define FOPEN(name) \
FILE *name(const char *path, const char *mode) { \
    REAL(name) \
    if (on() && matches(path)) { \
        int w = mode[0] != 'r'; \
        if (hit(w ? 'C' : 'O')) { errno = w ? ENOSPC : EACCES; return NULL; } \
        FILE *f = real(path, mode); \
        if (f) opened(fileno(f), w ? O_WRONLY : O_RDONLY); \
        return f; \
    } \
    FILE *f = real(path, mode); \
    if (f && fileno(f) < NFD && on()) watched[fileno(f)] = 0; \
    return f; \
}
FOPEN(fopen)
FOPEN(fopen64)

size_t fread(void *p, size_t size, size_t n, FILE *f) {
    REAL(fread)
    if (on() && fileno(f) >= 0 && fileno(f) < NFD && watched[fileno(f)]) {
        if (hit('R')) {
            if (kind == SHORT) {
                n = n * size;
                size_t got = real(p, 1, n > 1 ? n / 2 : n, f);
                return size ? got / size : 0;
            }
            errno = EIO;
            f->_flags |= 0x20;          /* _IO_ERR_SEEN */
            return 0;
        }
    }
    return real(p, size, n, f);
}

static int isw(int fd) { return fd >= 0 && fd < NFD && watched[fd]; }

#define READ(name, args, pass) \
ssize_t name args { \
    REAL(name) \
    if (on() && isw(fd)) { \
        if (hit('r')) { \
            if (kind == SHORT) { \
                if (n > 1) n = n / 2 ? (n / 2 < 7 ? n / 2 : 7) : 1; \
                return real pass; \
            } \
            errno = EIO; \
            return -1; \
        } \
    } \
    return real pass; \
}
READ(read, (int fd, void *p, size_t n), (fd, p, n))
ssize_t __read_chk(int fd, void *p, size_t n, size_t len) {
    (void) len;
    return read(fd, p, n);
}
READ(pread64, (int fd, void *p, size_t n, off64_t o), (fd, p, n, o))

ssize_t write(int fd, const void *p, size_t n) {
    REAL(write)
    if (on() && isw(fd)) {
        if (broken == fd || broken == -2) { errno = ENOSPC; return -1; }
        if (hit('w')) {
            if (kind == SHORT)
                return real(fd, p, n > 1 ? n / 2 : n);
            if (kind == TORN && n > 1) {
                broken = fd;
                return real(fd, p, n / 2);
            }
            if (kind == PERSISTENT) broken = -2;
            errno = ENOSPC;
            return -1;
        }
    }
    return real(fd, p, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev)
    if (on() && isw(fd)) {
        if (hit('w') && kind != SHORT) { errno = ENOSPC; return -1; }
    }
    return real(fd, v, c);
}

int close(int fd) {
    REAL(close)
    if (on() && isw(fd)) {
        int w = writable[fd];
        int h = hit(w ? 'X' : 'x');
        watched[fd] = 0;
        int r = real(fd);
        if (h && kind != SHORT) { errno = EIO; return -1; }
        return r;
    }
    return real(fd);
}

int fclose(FILE *f) {
    REAL(fclose)
    int fd = fileno(f);
    if (on() && isw(fd)) watched[fd] = 0;
    return real(f);
}

int mkdir(const char *path, mode_t mode) {
    REAL(mkdir)
    if (on() && matches(path) && hit('d') && kind != SHORT) {
        errno = ENOSPC; return -1;
    }
    return real(path, mode);
}
int rmdir(const char *path) {
    REAL(rmdir)
    if (on() && matches(path) && hit('D') && kind != SHORT) {
        errno = EACCES; return -1;
    }
    return real(path);
}
int unlink(const char *path) {
    REAL(unlink)
    if (on() && matches(path) && hit('u') && kind != SHORT) {
        errno = EACCES; return -1;
    }
    return real(path);
}
int unlinkat(int d, const char *path, int flags) {
    REAL(unlinkat)
    if (on() && matches(path) && hit('u') && kind != SHORT) {
        errno = EACCES; return -1;
    }
    return real(d, path, flags);
}
DIR *opendir(const char *path) {
    REAL(opendir)
    if (on() && matches(path) && hit('l') && kind != SHORT) {
        errno = EACCES; return NULL;
    }
    return real(path);
}
