/* Makes the n-th file operation of a process fail or end the process.
 * Preloaded into the worker; armed from Python through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <sys/types.h>
#include <unistd.h>

volatile int vp_mode;        /* 0 off, 1 count only, 2 end process, 3 fail once, 4 writing fails from then on,
                                5 the process is interrupted (Ctrl-C), the operation itself succeeds */
volatile long vp_left;       /* operations until then */
volatile long vp_count;
volatile long vp_fired;
volatile int vp_errno;

static int hit(int writes)
{
    if (!vp_mode) return 0;
    vp_count++;
    if (vp_mode == 1) return 0;
    if (vp_left-- > 0) return 0;
    if (vp_mode == 2) return 1;
    if (vp_mode == 5) { if (vp_left == -1) { vp_fired++; raise(SIGINT); } return 0; }
    if (vp_mode == 3) { if (vp_left == -1) { vp_fired++; return 2; } return 0; }
    if (writes) { vp_fired++; return 2; }
    return 0;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define FAIL do { errno = vp_errno; return -1; } while (0)

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (fd <= 2) return real(fd, b, n);
    switch (hit(1)) { case 1: if (n > 1 && real(fd, b, n / 2) < 0) _exit(78); _exit(77); case 2: FAIL; }
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(pwrite);
    switch (hit(1)) { case 1: if (n > 1 && real(fd, b, n / 2, o) < 0) _exit(78); _exit(77); case 2: FAIL; }
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(pwrite64);
    switch (hit(1)) { case 1: if (n > 1 && real(fd, b, n / 2, o) < 0) _exit(78); _exit(77); case 2: FAIL; }
    return real(fd, b, n, o);
}
#define SIMPLE(type, name, writes, decl, args) \
    type name decl { REAL(name); switch (hit(writes)) { case 1: _exit(77); case 2: FAIL; } return real args; }
SIMPLE(int, fsync, 1, (int fd), (fd))
SIMPLE(int, fdatasync, 1, (int fd), (fd))
SIMPLE(int, ftruncate, 1, (int fd, off_t n), (fd, n))
SIMPLE(int, ftruncate64, 1, (int fd, off64_t n), (fd, n))
SIMPLE(int, rename, 0, (const char *a, const char *b), (a, b))
SIMPLE(int, renameat, 0, (int d, const char *a, int e, const char *b), (d, a, e, b))
SIMPLE(int, unlink, 0, (const char *a), (a))
SIMPLE(int, unlinkat, 0, (int d, const char *a, int f), (d, a, f))
SIMPLE(int, chmod, 0, (const char *a, mode_t m), (a, m))
