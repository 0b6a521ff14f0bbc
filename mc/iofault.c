/* LD_PRELOAD library: log of writes to tracked files and write failures.
 *
 * Tracked are files with path of tracked prefix (except "-lock" files).  Each
 * write/sync/truncate is an operation: it is numbered, appended to log and can
 * be made to fail.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAX_FD 4096

enum { OP_CREATE = 0, OP_WRITE = 1, OP_SYNC = 2, OP_TRUNCATE = 3 };
enum { MODE_ERROR = 0, MODE_SHORT = 1 };

struct op {
    int kind;
    int dsync;
    long long off;
    long long len;
    char *data;
};

static struct op *ops;
static long ops_len, ops_cap;
static char prefix[1024];
static int tracked[MAX_FD];     /* 1 normal, 2 synchronous */
static long counter, fail_at = -1, fail_count, fail_hits;
static int fail_errno, fail_mode;

static void add(int kind, int dsync, long long off, long long len,
                const void *data) {
    if (ops_len == ops_cap) {
        ops_cap = ops_cap ? ops_cap * 2 : 256;
        ops = realloc(ops, ops_cap * sizeof(*ops));
    }
    struct op *op = &ops[ops_len++];
    op->kind = kind;
    op->dsync = dsync;
    op->off = off;
    op->len = len;
    op->data = NULL;
    if (data) {
        op->data = malloc(len ? len : 1);
        memcpy(op->data, data, len);
    }
}

/* interface */

void iofault_reset(const char *path) {
    for (long i = 0; i < ops_len; ++i)
        free(ops[i].data);
    ops_len = 0;
    counter = 0;
    fail_at = -1;
    fail_hits = 0;
    strncpy(prefix, path, sizeof(prefix) - 1);
}

void iofault_fail(long at, long count, int err, int mode) {
    counter = 0;
    fail_hits = 0;
    fail_at = at;
    fail_count = count;
    fail_errno = err;
    fail_mode = mode;
}

long iofault_counter(void) { return counter; }
long iofault_hits(void) { return fail_hits; }
long iofault_len(void) { return ops_len; }
struct op *iofault_op(long i) { return &ops[i]; }

/* interposed functions */

static int next_fails(void) {
    long i = counter++;
    if (fail_at < 0 || i < fail_at || i >= fail_at + fail_count)
        return 0;
    ++fail_hits;
    return 1;
}

static int is_tracked(int fd) {
    return fd >= 0 && fd < MAX_FD && tracked[fd];
}

static void opened(const char *path, int flags, int fd, int existed) {
    if (fd < 0 || fd >= MAX_FD)
        return;
    tracked[fd] = 0;
    size_t n = strlen(prefix), m = strlen(path);
    if (!n || strncmp(path, prefix, n))
        return;
    if (m > 5 && !strcmp(path + m - 5, "-lock"))
        return;
    if ((flags & O_ACCMODE) == O_RDONLY)
        return;
    tracked[fd] = (flags & (O_DSYNC | O_SYNC)) ? 2 : 1;
    if (!existed)
        add(OP_CREATE, 0, 0, 0, NULL);
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    REAL(name); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); \
        va_end(ap); \
    } \
    int existed = access(path, F_OK) == 0; \
    int fd = real(path, flags, mode); \
    int err = errno; \
    opened(path, flags, fd, existed); \
    errno = err; \
    return fd; \
}

OPEN(open)
OPEN(open64)

int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < MAX_FD)
        tracked[fd] = 0;
    return real(fd);
}

static ssize_t logged(int fd, long long off, const void *data, ssize_t len,
                      ssize_t (*fn)(int, const void *, size_t, off_t)) {
    if (next_fails()) {
        if (fail_mode == MODE_SHORT && len > 1) {
            ssize_t n = fn(fd, data, len / 2, off);
            if (n > 0)
                add(OP_WRITE, tracked[fd] == 2, off, n, data);
            return n;
        }
        errno = fail_errno;
        return -1;
    }
    ssize_t n = fn(fd, data, len, off);
    if (n > 0)
        add(OP_WRITE, tracked[fd] == 2, off, n, data);
    return n;
}

#define PWRITE(name) \
ssize_t name(int fd, const void *data, size_t len, off_t off) { \
    REAL(name); \
    if (!is_tracked(fd)) \
        return real(fd, data, len, off); \
    return logged(fd, off, data, len, real); \
}

PWRITE(pwrite)
PWRITE(pwrite64)

ssize_t write(int fd, const void *data, size_t len) {
    REAL(write);
    if (!is_tracked(fd))
        return real(fd, data, len);
    off_t off = lseek(fd, 0, SEEK_CUR);
    ssize_t n = pwrite(fd, data, len, off);
    if (n > 0)
        lseek(fd, off + n, SEEK_SET);
    return n;
}

static ssize_t vectored(int fd, const struct iovec *iov, int count,
                        off_t off) {
    size_t len = 0;
    for (int i = 0; i < count; ++i)
        len += iov[i].iov_len;
    char *data = malloc(len ? len : 1), *p = data;
    for (int i = 0; i < count; ++i) {
        memcpy(p, iov[i].iov_base, iov[i].iov_len);
        p += iov[i].iov_len;
    }
    ssize_t n = pwrite(fd, data, len, off);
    int err = errno;
    free(data);
    errno = err;
    return n;
}

ssize_t writev(int fd, const struct iovec *iov, int count) {
    REAL(writev);
    if (!is_tracked(fd))
        return real(fd, iov, count);
    off_t off = lseek(fd, 0, SEEK_CUR);
    ssize_t n = vectored(fd, iov, count, off);
    if (n > 0)
        lseek(fd, off + n, SEEK_SET);
    return n;
}

#define PWRITEV(name) \
ssize_t name(int fd, const struct iovec *iov, int count, off_t off) { \
    REAL(name); \
    if (!is_tracked(fd)) \
        return real(fd, iov, count, off); \
    return vectored(fd, iov, count, off); \
}

PWRITEV(pwritev)
PWRITEV(pwritev64)

#define SYNC(name) \
int name(int fd) { \
    REAL(name); \
    if (!is_tracked(fd)) \
        return real(fd); \
    if (next_fails()) { errno = fail_errno; return -1; } \
    int rc = real(fd); \
    if (!rc) add(OP_SYNC, 0, 0, 0, NULL); \
    return rc; \
}

SYNC(fsync)
SYNC(fdatasync)

#define TRUNCATE(name) \
int name(int fd, off_t len) { \
    REAL(name); \
    if (!is_tracked(fd)) \
        return real(fd, len); \
    if (next_fails()) { errno = fail_errno; return -1; } \
    int rc = real(fd, len); \
    if (!rc) add(OP_TRUNCATE, 0, 0, len, NULL); \
    return rc; \
}

TRUNCATE(ftruncate)
TRUNCATE(ftruncate64)

/* writable shared mapping of tracked file cannot be logged */

static long mapped;
long iofault_mapped(void) { return mapped; }

#define MMAP(name) \
void *name(void *addr, size_t len, int prot, int flags, int fd, off_t off) { \
    REAL(name); \
    if (is_tracked(fd) && (prot & PROT_WRITE) && (flags & MAP_SHARED)) \
        ++mapped; \
    return real(addr, len, prot, flags, fd, off); \
}

MMAP(mmap)
MMAP(mmap64)
