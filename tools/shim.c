// LD_PRELOAD shim for demonstrations: traces and disturbs file operations of the server on kvd-* files.
//   SHIM_LOG=FILE         append one line per operation
//   SHIM_FSYNC_MS=N       a sync of a log takes N ms longer
//   SHIM_BLOCK=NAME:FILE  writes and syncs of files whose name contains NAME wait while FILE exists
//   SHIM_FULL=NAME:N      files whose name contains NAME hold N bytes, then ENOSPC
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
static int name(int fd, char *b, size_t n) {
    char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(p, b, n - 1);
    if (r < 0) return 0;
    b[r] = 0;
    char *s = strrchr(b, '/');
    return s && !strncmp(s + 1, "kvd-", 4);
}
static void logop(const char *op, const char *path, long v) {
    const char *l = getenv("SHIM_LOG");
    if (!l) return;
    char b[700]; int n = snprintf(b, sizeof b, "%s %s %ld\n", op, path, v);
    int e = errno, fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
    errno = e;
}
static void block(const char *path) {
    const char *s = getenv("SHIM_BLOCK");
    if (!s) return;
    char nm[100]; const char *c = strchr(s, ':');
    snprintf(nm, sizeof nm, "%.*s", (int) (c - s), s);
    if (!strstr(strrchr(path, '/'), nm)) return;
    while (access(c + 1, F_OK) == 0) usleep(10000);
}
ssize_t write(int fd, const void *buf, size_t n) {
    char p[512];
    if (fd > 2 && name(fd, p, sizeof p)) {
        block(p);
        const char *s = getenv("SHIM_FULL");
        if (s) {
            char nm[100]; const char *c = strchr(s, ':'); struct stat st;
            snprintf(nm, sizeof nm, "%.*s", (int) (c - s), s);
            if (strstr(strrchr(p, '/'), nm) && fstat(fd, &st) == 0 && st.st_size + (long) n > atol(c + 1)) {
                long k = atol(c + 1) - st.st_size;
                logop("full", p, k);
                if (k <= 0) { errno = ENOSPC; return -1; }
                n = k;
            }
        }
        ssize_t r = syscall(SYS_write, fd, buf, n);
        logop("write", p, r);
        return r;
    }
    return syscall(SYS_write, fd, buf, n);
}
static int dosync(int nr, int fd) {
    char p[512];
    if (name(fd, p, sizeof p)) {
        block(p);
        const char *m = getenv("SHIM_FSYNC_MS");
        if (m && strstr(p, "kvd-log")) usleep(atoi(m) * 1000);
        int r = syscall(nr, fd);
        logop("sync", p, r);
        return r;
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return dosync(SYS_fsync, fd); }
int fdatasync(int fd) { return dosync(SYS_fdatasync, fd); }
int rename(const char *a, const char *b) {
    logop("rename-from", a, 0); logop("rename-to", b, 0);
    return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0) ? -1 : 0;
}
int unlink(const char *a) { logop("unlink", a, 0); return syscall(SYS_unlinkat, AT_FDCWD, a, 0); }
