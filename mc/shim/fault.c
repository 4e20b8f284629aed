// Stands between the command line tool and its reads of one file.
//   MCF_PATH  the file          MCF_OPEN  errno for opening it (0: open it)
//   MCF_READ  one letter per read of it: n as asked, 1 one byte, h half, e an I/O error
//   MCF_LOG   gets an "e" once an error has been returned
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int watched[64], n_reads;

static void note(void) {
    const char *p = getenv("MCF_LOG");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd < 0) return;
    syscall(SYS_write, fd, "e", 1);
    syscall(SYS_close, fd);
}
static int do_open(int dir, const char *path, int flags, int mode) {
    const char *w = getenv("MCF_PATH"), *o = getenv("MCF_OPEN");
    int hit = w && !strcmp(w, path);
    if (hit && o && atoi(o)) {
        note();
        errno = atoi(o);
        return -1;
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (hit && fd >= 0 && fd < 64) watched[fd] = 1;
    return fd;
}
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int close(int fd) {
    if (fd >= 0 && fd < 64) watched[fd] = 0;
    return syscall(SYS_close, fd);
}
// how much of a request is served; -1: an error
static long cut(int fd, size_t n) {
    if (fd < 0 || fd >= 64 || !watched[fd] || n == 0) return n;
    const char *s = getenv("MCF_READ");
    if (!s || n_reads >= (int)strlen(s)) return n;
    switch (s[n_reads++]) {
    case '1': return 1;
    case 'h': return (n + 1) / 2;
    case 'e': note(); errno = EIO; return -1;
    default: return n;
    }
}
ssize_t read(int fd, void *b, size_t n) {
    long k = cut(fd, n);
    return k < 0 ? -1 : syscall(SYS_read, fd, b, k);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    long k = cut(fd, n);
    return k < 0 ? -1 : syscall(SYS_pread64, fd, b, k, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
