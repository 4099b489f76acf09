// Fault / crash / clock / containment shim linked (with -Wl,--wrap) into the
// binaries under test. It is inert unless the ZV_* environment is set.
//
//  ZV_BITS      number of hash-table bits (small table: fast start, collisions)
//  ZV_DATASIZE  datafile size before rotation, set just before zdb_open
//  ZV_ROOT      directory every mutating filesystem call must stay inside
//  ZV_CTL       control block (mmap'd file) to arm faults and shift the clock
//  ZV_OPLOG     append one text line per filesystem mutation
//  ZV_DURABLE   directory receiving a copy of each file when it is flushed
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include "libzdb.h"

typedef struct zvctl_t {
    uint32_t magic;
    uint32_t escaped;        // number of refused out-of-root mutations
    int64_t  timeoff;        // seconds added to the wall clock
    int64_t  timefix;        // if not 0: time() is exactly that
    uint64_t mutations;      // mutating fs calls seen so far
    int64_t  crash_at;       // kill the process at that mutation (-1: never)
    int64_t  crash_part;     // bytes of that write to let through (-1: 0)
    int64_t  fail_at;        // first failing mutation (-1: never)
    int64_t  fail_count;     // how many mutations fail from there
    int64_t  fail_errno;     // errno reported
    int64_t  fail_short;     // >=0: first do a short write of that many bytes
    uint64_t failed;         // how many were failed
    uint64_t crashed;        // 1 if crash fired
    int64_t  fail_mask;      // which kinds fail (bit0 write, bit1 open-create, bit2 fsync, bit3 other)
    uint64_t recv_max;       // >0: recv() returns at most that many bytes
    uint64_t send_max;       // >0: send() sends at most that many bytes
    uint64_t fsyncs;
    uint64_t writes;
    int64_t  todstep;        // >=0: gettimeofday() runs on its own, so many us per call
    int64_t  todcalls;
    char     escape[512];    // first refused path
    int64_t  todoff;         // us added to gettimeofday() when it runs on its own
    int64_t  memory;         // bytes allocated when a request was received (if memwatch)
    int64_t  memwatch;
    uint64_t reads;          // reads of stored files seen so far
    int64_t  rfail_at;       // first failing read (-1: never)
    int64_t  rfail_count;
    int64_t  rfail_errno;
    int64_t  rfail_short;    // >=0: the first one only gives that many bytes
    uint64_t rfailed;
    int64_t  rfail_mask;     // bit0 read, bit1 open of an existing file
    int64_t  vfs;            // if not 0: blocks available on the disk of the index
    int64_t  rofs;           // what is on a read-only disk (bit0 data, bit1 index)
    uint64_t rorefused;      // how many changes of it were refused
} zvctl_t;

static zvctl_t local = {.crash_at = -1, .crash_part = -1, .fail_at = -1, .fail_short = -1, .fail_mask = 15, .todstep = -1, .rfail_at = -1, .rfail_short = -1};
static zvctl_t *ctl = &local;
static char root[PATH_MAX];
static size_t rootlen = 0;
static int oplog = -1;
static char durable[PATH_MAX];
static uint8_t tracked[65536];
static uint8_t stored[65536];

extern int index_set_buckets_bits(uint8_t bits) __attribute__((weak));
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

ssize_t __real_read(int fd, void *buf, size_t n);
ssize_t __real_pread(int fd, void *buf, size_t n, off_t o);
ssize_t __real_write(int fd, const void *buf, size_t n);
ssize_t __real_pwrite(int fd, const void *buf, size_t n, off_t o);
ssize_t __real_writev(int fd, const struct iovec *iov, int c);
int __real_open(const char *path, int flags, ...);
int __real_creat(const char *path, mode_t mode);
int __real_close(int fd);
int __real_unlink(const char *path);
int __real_rmdir(const char *path);
int __real_access(const char *path, int mode);
int __real_remove(const char *path);
int __real_rename(const char *a, const char *b);
int __real_mkdir(const char *path, mode_t mode);
int __real_truncate(const char *path, off_t len);
int __real_ftruncate(int fd, off_t len);
int __real_fsync(int fd);
int __real_fdatasync(int fd);
time_t __real_time(time_t *t);
int __real_gettimeofday(struct timeval *tv, void *tz);
ssize_t __real_recv(int fd, void *buf, size_t n, int flags);
ssize_t __real_send(int fd, const void *buf, size_t n, int flags);

__attribute__((constructor)) static void zv_init(void) {
    char *e;

    if((e = getenv("ZV_BITS")) && *e && index_set_buckets_bits)
        index_set_buckets_bits(atoi(e));

    if((e = getenv("ZV_ROOT")) && *e) {
        if(realpath(e, root))
            rootlen = strlen(root);
    }

    if((e = getenv("ZV_CTL")) && *e) {
        int fd = __real_open(e, O_RDWR);
        if(fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if(p != MAP_FAILED)
                ctl = p;
            __real_close(fd);
        }
    }

    if((e = getenv("ZV_DURABLE")) && *e)
        snprintf(durable, sizeof(durable), "%s", e);

    if((e = getenv("ZV_OPLOG")) && *e) {
        oplog = __real_open(e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if(oplog >= 0) {
            int high = fcntl(oplog, F_DUPFD_CLOEXEC, 900);
            if(high >= 0) {
                __real_close(oplog);
                oplog = high;
            }
        }
    }
}

static void fdpath(int fd, char *out, size_t len) {
    char link[64];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, out, len - 1);
    out[n < 0 ? 0 : n] = '\0';
}

// where the flushed content of a file is kept
static int durpath(const char *path, char *out, size_t len) {
    if(!durable[0])
        return 0;
    int n = snprintf(out, len, "%s/", durable);
    for(; *path && n < (int) len - 1; path++)
        out[n++] = (*path == '/') ? '@' : *path;
    out[n] = '\0';
    return 1;
}

static void flushed(int fd) {
    char path[PATH_MAX], copy[PATH_MAX], buf[65536];
    ssize_t n;
    off_t at = 0;

    if(!durable[0])
        return;

    fdpath(fd, path, sizeof(path));
    durpath(path, copy, sizeof(copy));

    snprintf(buf, sizeof(buf), "/proc/self/fd/%d", fd);
    int in = __real_open(buf, O_RDONLY | O_CLOEXEC);
    int out = __real_open(copy, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    while(in >= 0 && out >= 0 && (n = __real_pread(in, buf, sizeof(buf), at)) > 0) {
        if(__real_write(out, buf, n) != n)
            break;
        at += n;
    }
    if(in >= 0)
        __real_close(in);
    if(out >= 0)
        __real_close(out);
}

static void forgotten(const char *path) {
    char copy[PATH_MAX];
    if(durpath(path, copy, sizeof(copy)))
        __real_unlink(copy);
}

static void logop(const char *op, const char *path, long a, long b) {
    char line[PATH_MAX + 128];
    if(oplog < 0)
        return;
    int n = snprintf(line, sizeof(line), "%s %ld %ld %s\n", op, a, b, path ? path : "-");
    ssize_t x = __real_write(oplog, line, n);
    (void) x;
}


// 1: path is inside the scratch root (strictly below it)
static int contained(const char *path) {
    char resolved[PATH_MAX], dir[PATH_MAX], *slash;

    if(!rootlen)
        return 1;

    if(strcmp(path, "/dev/null") == 0)
        return 1;

    // resolve the parent, keep the last component
    if(strlen(path) >= sizeof(dir) - 2) {
        errno = ENAMETOOLONG;
        return 1; // the kernel will refuse it by itself
    }

    strcpy(dir, path);
    size_t l = strlen(dir);
    while(l > 1 && dir[l - 1] == '/')
        dir[--l] = '\0';

    // the target itself when it exists (covers "..", symlinks)
    if(realpath(dir, resolved))
        return strncmp(resolved, root, rootlen) == 0 && resolved[rootlen] == '/';

    slash = strrchr(dir, '/');
    if(slash == NULL)
        strcpy(dir, ".");
    else if(slash == dir)
        dir[1] = '\0';
    else
        *slash = '\0';

    if(!realpath(dir, resolved))
        return 1; // parent does not exist: nothing can be created

    return strncmp(resolved, root, rootlen) == 0 && (resolved[rootlen] == '/' || resolved[rootlen] == '\0');
}

static int refuse(const char *op, const char *path) {
    if(contained(path))
        return 0;

    if(ctl->escaped == 0)
        snprintf(ctl->escape, sizeof(ctl->escape), "%s %s", op, path);

    ctl->escaped += 1;
    errno = EACCES;
    return 1;
}

// returns 1 if that is stored on a disk which is read-only (errno set)
static int readonly(const char *path) {
    int64_t mask = *(volatile int64_t *) &ctl->rofs;
    char resolved[PATH_MAX];

    if(!mask || !rootlen)
        return 0;
    if(realpath(path, resolved))
        path = resolved;
    if(strncmp(path, root, rootlen))
        return 0;

    char *d = strstr(path + rootlen, "/data"), *i = strstr(path + rootlen, "/index");
    if(d && (!i || d < i) ? mask & 1 : i && mask & 2) {
        ctl->rorefused += 1;
        errno = EROFS;
        return 1;
    }
    return 0;
}

static int readonly_fd(int fd) {
    char path[PATH_MAX];
    if(!*(volatile int64_t *) &ctl->rofs)
        return 0;
    fdpath(fd, path, sizeof(path));
    return readonly(path);
}

static void zv_die(void) {
    ctl->crashed = 1;
    _exit(77);
}

// returns 1 if that mutation must fail (errno set)
static int mutation(int kind) {
    uint64_t id = ctl->mutations++;

    if(ctl->crash_at >= 0 && (uint64_t) ctl->crash_at == id)
        zv_die();

    if(ctl->fail_at >= 0 && id >= (uint64_t) ctl->fail_at && id < (uint64_t) (ctl->fail_at + ctl->fail_count)) {
        if(ctl->fail_mask & kind) {
            ctl->failed += 1;
            errno = (int) ctl->fail_errno;
            return 1;
        }
    }

    return 0;
}

// returns 1 if that read must fail (errno set)
static int reading(int kind) {
    uint64_t id = ctl->reads++;

    if(ctl->rfail_at >= 0 && id >= (uint64_t) ctl->rfail_at && id < (uint64_t) (ctl->rfail_at + ctl->rfail_count)) {
        if(ctl->rfail_mask & kind) {
            ctl->rfailed += 1;
            errno = (int) ctl->rfail_errno;
            return 1;
        }
    }

    return 0;
}

static int is_stored(int fd) {
    return fd >= 0 && fd < (int) sizeof(stored) && stored[fd];
}

// what can be read before the failing place
static ssize_t partial(size_t n) {
    int64_t part = ctl->rfail_short;
    if(part < 0)
        return -1;
    ctl->rfail_short = -1;
    return ((size_t) part < n && part > 0) ? part : -1;
}

ssize_t __wrap_read(int fd, void *buf, size_t n) {
    if(is_stored(fd) && reading(1)) {
        ssize_t part = partial(n);
        return part < 0 ? -1 : __real_read(fd, buf, part);
    }
    return __real_read(fd, buf, n);
}

ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t o) {
    if(is_stored(fd) && reading(1)) {
        ssize_t part = partial(n);
        return part < 0 ? -1 : __real_pread(fd, buf, part, o);
    }
    return __real_pread(fd, buf, n, o);
}

// only an append can stop halfway: the few bytes of an in-place update are
// assumed to reach the file as a whole or not at all
static int appending(int fd, off_t at) {
    struct stat st;

    if(fstat(fd, &st) < 0)
        return 0;

    if(fcntl(fd, F_GETFL) & O_APPEND)
        return 1;

    if(at < 0)
        at = lseek(fd, 0, SEEK_CUR);

    return at >= st.st_size;
}

static int is_tracked(int fd) {
    return fd >= 0 && fd < (int) sizeof(tracked) && tracked[fd];
}

// a file opened with O_SYNC or O_DSYNC is flushed by each write
static ssize_t flushing(int fd, ssize_t r) {
    if(oplog >= 0 && r >= 0 && (fcntl(fd, F_GETFL) & O_DSYNC)) {
        char path[PATH_MAX];
        fdpath(fd, path, sizeof(path));
        flushed(fd);
        logop("fsync", path, 0, 0);
    }
    return r;
}

ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    if(!is_tracked(fd))
        return __real_write(fd, buf, n);

    if(readonly_fd(fd))
        return -1;

    uint64_t id = ctl->mutations;
    ctl->writes += 1;

    if(ctl->crash_at >= 0 && (uint64_t) ctl->crash_at == id && ctl->crash_part > 0 && appending(fd, -1)) {
        size_t part = (size_t) ctl->crash_part;
        ssize_t x = __real_write(fd, buf, part < n ? part : n);
        (void) x;
    }

    if(mutation(1)) {
        if(ctl->fail_short >= 0 && appending(fd, -1)) {
            // a full disk first accepts a part of the buffer
            int64_t part = ctl->fail_short;
            ctl->fail_short = -1;
            if(part > 0 && (size_t) part < n)
                return __real_write(fd, buf, (size_t) part);
        }
        if(oplog >= 0) {
            int e = errno;
            char path[PATH_MAX];
            fdpath(fd, path, sizeof(path));
            logop("refused", path, 0, (long) n);
            errno = e;
        }
        return -1;
    }

    if(oplog >= 0) {
        char path[PATH_MAX];
        fdpath(fd, path, sizeof(path));
        logop("write", path, (long) lseek(fd, 0, SEEK_CUR), (long) n);
    }

    return flushing(fd, __real_write(fd, buf, n));
}

ssize_t __wrap_pwrite(int fd, const void *buf, size_t n, off_t o) {
    if(!is_tracked(fd))
        return __real_pwrite(fd, buf, n, o);

    if(readonly_fd(fd))
        return -1;

    uint64_t id = ctl->mutations;
    ctl->writes += 1;

    if(ctl->crash_at >= 0 && (uint64_t) ctl->crash_at == id && ctl->crash_part > 0 && appending(fd, o)) {
        size_t part = (size_t) ctl->crash_part;
        ssize_t x = __real_pwrite(fd, buf, part < n ? part : n, o);
        (void) x;
    }

    if(mutation(1)) {
        if(ctl->fail_short >= 0) {
            int64_t part = ctl->fail_short;
            ctl->fail_short = -1;
            if(part > 0 && (size_t) part < n)
                return __real_pwrite(fd, buf, (size_t) part, o);
        }
        return -1;
    }

    if(oplog >= 0) {
        char path[PATH_MAX];
        fdpath(fd, path, sizeof(path));
        logop("write", path, (long) o, (long) n);
    }

    return flushing(fd, __real_pwrite(fd, buf, n, o));
}

ssize_t __wrap_writev(int fd, const struct iovec *iov, int c) {
    if(!is_tracked(fd))
        return __real_writev(fd, iov, c);

    // one logical write: flatten it so that crash and short writes apply
    size_t total = 0;
    for(int i = 0; i < c; i++)
        total += iov[i].iov_len;

    char *flat = malloc(total ? total : 1), *w = flat;
    for(int i = 0; i < c; i++) {
        memcpy(w, iov[i].iov_base, iov[i].iov_len);
        w += iov[i].iov_len;
    }

    ssize_t r = __wrap_write(fd, flat, total);
    free(flat);
    return r;
}

int __wrap_open(const char *path, int flags, ...) {
    mode_t mode = 0;

    if(flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, int);
        va_end(ap);
    }

    int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));

    if(writing && refuse("open", path))
        return -1;

    if((flags & O_ACCMODE) != O_RDONLY || (flags & O_TRUNC)) {
        if(readonly(path))
            return -1;
    }

    if(flags & O_CREAT) {
        struct stat st;
        if(stat(path, &st) < 0) {
            if(readonly(path) || mutation(2))
                return -1;
            logop("create", path, 0, 0);
        }
    }

    if(!(flags & O_CREAT) && rootlen && strncmp(path, root, rootlen) == 0 && reading(2))
        return -1;

    int fd = __real_open(path, flags, mode);

    if(fd >= 0 && fd < (int) sizeof(stored))
        stored[fd] = rootlen && strncmp(path, root, rootlen) == 0;

    if(fd >= 0 && fd < (int) sizeof(tracked)) {
        tracked[fd] = 0;
        if(writing && strcmp(path, "/dev/null"))
            tracked[fd] = 1;
    }

    return fd;
}

int __wrap_open64(const char *path, int flags, ...) {
    mode_t mode = 0;

    if(flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, int);
        va_end(ap);
    }

    return __wrap_open(path, flags, mode);
}

int __wrap_openat(int dir, const char *path, int flags, ...) {
    mode_t mode = 0;
    char full[PATH_MAX];

    if(flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, int);
        va_end(ap);
    }

    if(dir != AT_FDCWD && path[0] != '/') {
        fdpath(dir, full, sizeof(full));
        strncat(full, "/", sizeof(full) - strlen(full) - 1);
        strncat(full, path, sizeof(full) - strlen(full) - 1);
        path = full;
    }

    return __wrap_open(path, flags, mode);
}

int __wrap_creat(const char *path, mode_t mode) {
    return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

int __wrap_close(int fd) {
    if(fd >= 0 && fd < (int) sizeof(tracked))
        tracked[fd] = stored[fd] = 0;
    return __real_close(fd);
}

int __wrap_unlink(const char *path) {
    if(refuse("unlink", path) || readonly(path) || mutation(8))
        return -1;
    logop("unlink", path, 0, 0);
    forgotten(path);
    return __real_unlink(path);
}

int __wrap_access(const char *path, int mode) {
    if((mode & W_OK) && readonly(path))
        return -1;
    return __real_access(path, mode);
}

int __wrap_rmdir(const char *path) {
    if(refuse("rmdir", path) || readonly(path) || mutation(8))
        return -1;
    logop("rmdir", path, 0, 0);
    return __real_rmdir(path);
}

int __wrap_remove(const char *path) {
    if(refuse("remove", path) || readonly(path) || mutation(8))
        return -1;
    logop("remove", path, 0, 0);
    forgotten(path);
    return __real_remove(path);
}

int __wrap_rename(const char *a, const char *b) {
    if(refuse("rename", a) || refuse("rename", b) || readonly(a) || readonly(b) || mutation(8))
        return -1;
    logop("rename", b, 0, 0);
    if(durable[0]) {
        char ca[PATH_MAX], cb[PATH_MAX];
        durpath(a, ca, sizeof(ca));
        durpath(b, cb, sizeof(cb));
        if(__real_rename(ca, cb) < 0)
            __real_unlink(cb);
    }
    return __real_rename(a, b);
}

int __wrap_mkdir(const char *path, mode_t mode) {
    struct stat st;

    // walking the parents of a path creates nothing
    if(stat(path, &st) == 0) {
        errno = EEXIST;
        return -1;
    }

    if(refuse("mkdir", path) || readonly(path) || mutation(8))
        return -1;
    logop("mkdir", path, 0, 0);
    return __real_mkdir(path, mode);
}

int __wrap_truncate(const char *path, off_t len) {
    if(refuse("truncate", path) || readonly(path) || mutation(8))
        return -1;
    logop("truncate", path, (long) len, 0);
    return __real_truncate(path, len);
}

int __wrap_ftruncate(int fd, off_t len) {
    // undoing a partial write must stay possible on a full disk
    if(is_tracked(fd)) {
        if(readonly_fd(fd))
            return -1;
        uint64_t id = ctl->mutations++;
        if(ctl->crash_at >= 0 && (uint64_t) ctl->crash_at == id)
            zv_die();
        if(oplog >= 0) {
            char path[PATH_MAX];
            fdpath(fd, path, sizeof(path));
            logop("truncate", path, (long) len, 0);
        }
    }
    return __real_ftruncate(fd, len);
}

int __wrap_fsync(int fd) {
    ctl->fsyncs += 1;
    flushed(fd);
    if(oplog >= 0) {
        char path[PATH_MAX];
        fdpath(fd, path, sizeof(path));
        logop("fsync", path, 0, 0);
    }
    // a real disk flush is never needed here
    return 0;
}

int __wrap_fdatasync(int fd) {
    return __wrap_fsync(fd);
}

time_t __wrap_time(time_t *t) {
    time_t now = ctl->timefix ? (time_t) ctl->timefix : __real_time(NULL);
    now += ctl->timeoff;
    if(t)
        *t = now;
    return now;
}

int __wrap_gettimeofday(struct timeval *tv, void *tz) {
    int r = __real_gettimeofday(tv, tz);
    if(tv)
        tv->tv_sec += ctl->timeoff;
    if(tv && ctl->todstep >= 0) {
        int64_t us = ctl->todcalls++ * ctl->todstep + ctl->todoff;
        tv->tv_sec = 1700000000 + us / 1000000;
        tv->tv_usec = us % 1000000;
    }
    return r;
}

int __real_clock_gettime(clockid_t id, struct timespec *ts);

// another way to ask for the same clocks
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    int r = __real_clock_gettime(id, ts);
    if(!ts || r)
        return r;
    if(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        if(ctl->timefix)
            ts->tv_sec = ctl->timefix;
    } else if(id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_MONOTONIC_RAW && id != CLOCK_BOOTTIME) {
        return r;
    }
    ts->tv_sec += ctl->timeoff;
    if(ctl->todstep >= 0) {
        int64_t us = ctl->todcalls++ * ctl->todstep + ctl->todoff;
        ts->tv_sec = 1700000000 + us / 1000000;
        ts->tv_nsec = (us % 1000000) * 1000;
    }
    return r;
}

int __real_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
static struct { int ep; struct epoll_event ev; } polled[1024];

int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if(fd >= 0 && fd < 1024 && ev && op != EPOLL_CTL_DEL) {
        polled[fd].ep = ep;
        polled[fd].ev = *ev;
    }
    return __real_epoll_ctl(ep, op, fd, ev);
}

// reads are cut as if the rest of the data was received later: it is
// notified again
ssize_t __wrap_recv(int fd, void *buf, size_t n, int flags) {
    static size_t cut = 0;
    // (not always, when there would be too many of them)
    // read once: the other side changes it while we run
    size_t max = *(volatile uint64_t *) &ctl->recv_max;
    if(ctl->memwatch && __sanitizer_get_current_allocated_bytes)
        ctl->memory = __sanitizer_get_current_allocated_bytes();
    if(max > 0 && n > max && !(flags & MSG_PEEK) && (cut++ < 5000 || cut % 64 == 0)) {
        char c;
        ssize_t r = __real_recv(fd, buf, max, flags);
        if(r == (ssize_t) max && fd >= 0 && fd < 1024 && polled[fd].ep && __real_recv(fd, &c, 1, MSG_PEEK | MSG_DONTWAIT) >= 0)
            __real_epoll_ctl(polled[fd].ep, EPOLL_CTL_MOD, fd, &polled[fd].ev);
        return r;
    }
    return __real_recv(fd, buf, n, flags);
}

int __real_fallocate(int fd, int mode, off_t at, off_t len);

int __wrap_fallocate(int fd, int mode, off_t at, off_t len) {
    // reserving is not what is checked: large limits do not take the disk
    off_t max = 16 << 20;
    if(readonly_fd(fd))
        return -1;
    return __real_fallocate(fd, mode, at, len > max ? max : len);
}

int __real_statvfs(const char *path, struct statvfs *buf);

int __wrap_statvfs(const char *path, struct statvfs *buf) {
    int r = __real_statvfs(path, buf);
    int64_t n = *(volatile int64_t *) &ctl->vfs;
    if(r == 0 && n > 0) {
        if(strstr(path, "/data"))
            n += 7;
        buf->f_bsize = buf->f_frsize = 4096;
        buf->f_bavail = n;
        buf->f_bfree = n + 1000;
        buf->f_blocks = n + 5000;
    }
    return r;
}

ssize_t __wrap_send(int fd, const void *buf, size_t n, int flags) {
    size_t max = *(volatile uint64_t *) &ctl->send_max;
    if(max > 0 && n > max)
        n = max;
    return __real_send(fd, buf, n, flags);
}

extern zdb_settings_t *__real_zdb_open(zdb_settings_t *s);

zdb_settings_t *__wrap_zdb_open(zdb_settings_t *s) {
    char *e = getenv("ZV_DATASIZE");
    if(e && *e)
        s->datasize = (size_t) atoll(e);
    return __real_zdb_open(s);
}
