/* Preloaded into the server by a demonstration: shifts the clock by the number of
 * seconds in the file $DEMO_OFF, lets every $DEMO_EAGAIN-th write to a socket not be
 * ready yet, lets every connection take only $DEMO_STUCK writes, and notes fsync and
 * rename calls in the file $DEMO_ORDER. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long off(void)
{
    const char *p = getenv("DEMO_OFF");
    char b[32];
    long n;
    int fd;
    if (!p || (fd = open(p, O_RDONLY)) < 0) return 0;
    n = read(fd, b, 31);
    close(fd);
    if (n <= 0) return 0;
    b[n] = 0;
    return atol(b);
}
time_t time(time_t *t)
{
    struct timespec ts;
    time_t v;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    v = ts.tv_sec + off();
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void)tz;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec + off();
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
static long wrote[1024];
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    int n = syscall(SYS_accept, fd, a, l);
    if (n >= 0 && n < 1024) wrote[n] = 0;
    return n;
}
ssize_t write(int fd, const void *b, size_t n)
{
    const char *k = getenv("DEMO_EAGAIN");
    static long c;
    struct stat st;
    if (k && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode) && ++c % atol(k) == 0) {
        errno = EAGAIN;
        return -1;
    }
    k = getenv("DEMO_STUCK");
    if (k && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode) && fd < 1024 && ++wrote[fd] > atol(k)) {
        errno = EAGAIN;
        return -1;
    }
    return syscall(SYS_write, fd, b, n);
}
static void note(const char *w)
{
    const char *p = getenv("DEMO_ORDER");
    int fd;
    if (!p || (fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600)) < 0) return;
    syscall(SYS_write, fd, w, strlen(w));
    close(fd);
}
int fsync(int fd)
{
    int r = syscall(SYS_fsync, fd);
    note("fsync\n");
    return r;
}
int rename(const char *a, const char *b)
{
    int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
    note("rename\n");
    return real(a, b);
}
