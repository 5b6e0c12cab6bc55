/* Counts the file-changing calls a process makes below MC_ROOT and makes one (or several) of them fail.
 *
 * MC_ROOT   directory: only calls on files below it count
 * MC_LOG    file: one line per counted call (written before the fault)
 * MC_FAULTS "k:mode" : at the k-th counted call (from 0) do mode:
 *   before   end the process before the call (as if killed)
 *   after    end the process after the call
 *   torn0/torn1/tornh/tornl  (write) write nothing / 1 byte / half / all but one byte, then end the process
 *   tornm    (write) the data is cut inside its first multi-byte character, then the process ends
 *   torn@N   (write) N bytes are written, then the process ends
 *   enospc/eio/eacces  the call fails (for write: nothing written)
 *   shortfail  (write) half is written, every later write below MC_ROOT fails with ENOSPC
 *   full     this and every later write/open-for-writing fails with ENOSPC
 *   short    (write) only half is written, reported as such (a legal partial write)
 *   intr     the call fails once with EINTR
 *   sigint/sigterm  the signal is raised before the call
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int counter = 0, full = 0, inited = 0, fault_at = -1, logfd = -1;
static char root[PATH_MAX], mode[32];

static void init(void) {
    if (inited) return;
    inited = 1;
    const char *r = getenv("MC_ROOT"), *f = getenv("MC_FAULTS"), *l = getenv("MC_LOG");
    if (r) snprintf(root, sizeof root, "%s", r);
    if (f && sscanf(f, "%d:%31s", &fault_at, mode) != 2) fault_at = -1;
    if (l) {
        logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (logfd >= 0) { int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 900); if (hi >= 0) { syscall(SYS_close, logfd); logfd = hi; } }
    }
}

static int below(const char *p) { size_t n = strlen(root); return n && !strncmp(p, root, n) && (p[n] == '/' || !p[n]); }

static int path_counts(int dirfd, const char *p) {
    char buf[PATH_MAX * 2], res[PATH_MAX];
    init();
    if (!root[0] || !p) return 0;
    if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
    else {
        char d[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, d, sizeof d - 1); if (n < 0) return 0; d[n] = 0; }
        snprintf(buf, sizeof buf, "%s/%s", d, p);
    }
    char *slash = strrchr(buf, '/');
    if (slash && slash != buf) {               /* the directory must be resolvable, the file need not exist */
        *slash = 0;
        if (!realpath(buf, res)) return 0;
        return below(res);
    }
    return below(buf);
}

static int fd_counts(int fd) {
    char l[64], d[PATH_MAX];
    int e = errno;
    init();
    if (!root[0] || fd < 3 || fd == logfd) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, d, sizeof d - 1);
    errno = e;
    if (n < 0) return 0;
    d[n] = 0;
    return below(d);
}

static int fd_writes(int fd) { int e = errno, f = fcntl(fd, F_GETFL); errno = e; return f >= 0 && (f & O_ACCMODE) != O_RDONLY; }

/* Returns 1 when the call has to fail with errno set; runs 'before' faults. */
static int hook(const char *what, long size, int *torn, int *after) {
    int k = counter++;
    *torn = -1; *after = 0;
    if (logfd >= 0) { char b[96]; int n = snprintf(b, sizeof b, "%d %s %ld\n", k, what, size); syscall(SYS_write, logfd, b, n); }
    if (full && strcmp(what, "close")) { errno = ENOSPC; return 1; }
    if (k != fault_at) return 0;
    if (!strcmp(mode, "before")) _exit(137);
    if (!strcmp(mode, "after")) { *after = 1; return 0; }
    if (!strncmp(mode, "torn", 4)) { *torn = mode[4]; return 0; }
    if (!strcmp(mode, "short")) { *torn = 's'; return 0; }
    if (!strcmp(mode, "shortfail")) { *torn = 'f'; return 0; }
    if (!strcmp(mode, "sigint")) { raise(SIGINT); return 0; }
    if (!strcmp(mode, "sigterm")) { raise(SIGTERM); return 0; }
    if (!strcmp(mode, "full")) { full = 1; errno = ENOSPC; return 1; }
    if (!strcmp(mode, "enospc")) { errno = ENOSPC; return 1; }
    if (!strcmp(mode, "eio")) { errno = EIO; return 1; }
    if (!strcmp(mode, "eacces")) { errno = EACCES; return 1; }
    if (!strcmp(mode, "intr")) { errno = EINTR; return 1; }
    return 0;
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
#define SIMPLE(what, cond, callexpr, failval) do { if (cond) { int torn, after; if (hook(what, -1, &torn, &after)) return failval; \
    __auto_type r = callexpr; if (after || torn > 0) _exit(137); return r; } return callexpr; } while (0)

static int wants_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPENBODY(fname, dirfd, ...) \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    REAL(fname); SIMPLE("open", wants_write(flags) && path_counts(dirfd, path), real(__VA_ARGS__, m), -1);
int open(const char *path, int flags, ...) { OPENBODY(open, AT_FDCWD, path, flags) }
int open64(const char *path, int flags, ...) { OPENBODY(open64, AT_FDCWD, path, flags) }
int openat(int d, const char *path, int flags, ...) { OPENBODY(openat, d, d, path, flags) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(openat64, d, d, path, flags) }
int creat(const char *path, mode_t m) { REAL(creat); SIMPLE("open", path_counts(AT_FDCWD, path), real(path, m), -1); }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    if (!fd_counts(fd)) return real(fd, buf, n);
    int torn, after;
    if (hook("write", (long)n, &torn, &after)) return -1;
    if (torn > 0) {
        size_t part = torn == '0' ? 0 : torn == '1' ? (n ? 1 : 0) : torn == 'l' ? (n ? n - 1 : 0) : (n + 1) / 2;
        if (torn == 'm') for (part = 0; part < n; ) if (((const unsigned char *)buf)[part++] >= 0xC0) break;
        if (torn == '@') { part = strtoul(mode + 5, 0, 10); if (part > n) part = n; }
        size_t off = 0;
        while (off < part) { ssize_t r = real(fd, (const char *)buf + off, part - off); if (r <= 0) break; off += r; }
        if (torn == 's') return off;
        if (torn == 'f') { full = 1; return off; }
        _exit(137);
    }
    ssize_t r = real(fd, buf, n);
    if (after) _exit(137);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); SIMPLE("write", fd_counts(fd), real(fd, b, n, o), -1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); SIMPLE("write", fd_counts(fd), real(fd, b, n, o), -1); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); SIMPLE("write", fd_counts(fd), real(fd, v, c), -1); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(sendfile); SIMPLE("write", fd_counts(o), real(o, i, p, n), -1); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(sendfile64); SIMPLE("write", fd_counts(o), real(o, i, p, n), -1); }
int close(int fd) { REAL(close); SIMPLE("close", fd_counts(fd) && fd_writes(fd), real(fd), -1); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); SIMPLE("truncate", fd_counts(fd), real(fd, n), -1); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); SIMPLE("truncate", fd_counts(fd), real(fd, n), -1); }
int truncate(const char *p, off_t n) { REAL(truncate); SIMPLE("truncate", path_counts(AT_FDCWD, p), real(p, n), -1); }
int fsync(int fd) { REAL(fsync); SIMPLE("fsync", fd_counts(fd), real(fd), -1); }
int fdatasync(int fd) { REAL(fdatasync); SIMPLE("fsync", fd_counts(fd), real(fd), -1); }
int rename(const char *a, const char *b) { REAL(rename); SIMPLE("rename", path_counts(AT_FDCWD, a) || path_counts(AT_FDCWD, b), real(a, b), -1); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); SIMPLE("rename", path_counts(d, a) || path_counts(e, b), real(d, a, e, b), -1); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(renameat2); SIMPLE("rename", path_counts(d, a) || path_counts(e, b), real(d, a, e, b, f), -1); }
int link(const char *a, const char *b) { REAL(link); SIMPLE("link", path_counts(AT_FDCWD, b), real(a, b), -1); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(linkat); SIMPLE("link", path_counts(e, b), real(d, a, e, b, f), -1); }
int symlink(const char *a, const char *b) { REAL(symlink); SIMPLE("link", path_counts(AT_FDCWD, b), real(a, b), -1); }
int unlink(const char *p) { REAL(unlink); SIMPLE("unlink", path_counts(AT_FDCWD, p), real(p), -1); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); SIMPLE("unlink", path_counts(d, p), real(d, p, f), -1); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); SIMPLE("mkdir", path_counts(AT_FDCWD, p), real(p, m), -1); }
int rmdir(const char *p) { REAL(rmdir); SIMPLE("unlink", path_counts(AT_FDCWD, p), real(p), -1); }
int chmod(const char *p, mode_t m) { REAL(chmod); SIMPLE("chmod", path_counts(AT_FDCWD, p), real(p, m), -1); }
int fchmod(int fd, mode_t m) { REAL(fchmod); SIMPLE("chmod", fd_counts(fd), real(fd, m), -1); }
