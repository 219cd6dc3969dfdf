/* Linked into the icbd under test: virtual clock, deterministic name service,
 * and (when asked) short reads/writes and EAGAIN on sockets.  Controlled by a
 * mmapped file named by ICB_SHIM. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct ctl {
    volatile int64_t sec, usec;
    volatile uint64_t io_mode;   /* 0 off, bit0 short reads, bit1 short writes, bit2 EAGAIN on read, bit3 EAGAIN on write */
    volatile uint64_t rng;
    volatile uint64_t injected;
    volatile uint64_t wnext;     /* not used by the shim */
    volatile uint64_t polls;     /* times the server has asked for something to do */
    volatile uint64_t heap;      /* set to 1: replaced by the number of bytes allocated */
    volatile uint64_t db_kind, db_at, db_n, db_act, db_hits;  /* faults of the database file's calls, see point() */
    volatile uint64_t sig, sig_at;   /* this signal arrives inside the sig_at-th time conversion from now */
    volatile uint64_t pad2[1];
    volatile uint64_t win[300];  /* per descriptor: 0 no limit, else 1 + bytes the peer will still take */
};
static struct ctl *C;

static struct ctl *ctl(void)
{
    static int tried;
    if (!C && !tried) {
        const char *p = getenv("ICB_SHIM");
        tried = 1;
        if (p) {
            int fd = open(p, O_RDWR | O_CLOEXEC);
            if (fd >= 0) {
                void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) C = m;
                close(fd);
            }
        }
    }
    return C;
}

#define REAL(ret, name, args) static ret (*real) args; if (!real) real = (ret (*) args)dlsym(RTLD_NEXT, #name)

time_t time(time_t *t)
{
    struct ctl *c = ctl();
    time_t v;
    if (c) v = (time_t)c->sec;
    else { struct timespec ts; REAL(int, clock_gettime, (clockid_t, struct timespec *)); real(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    struct ctl *c = ctl();
    (void)tz;
    if (c) { tv->tv_sec = c->sec; tv->tv_usec = c->usec; return 0; }
    struct timespec ts;
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    real(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    struct ctl *c = ctl();
    if (c && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = c->sec; ts->tv_nsec = c->usec * 1000; return 0;
    }
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    return real(id, ts);
}

/* The C library holds a lock during these: a signal handler that calls one of
 * them while it has interrupted one waits for ever. */
static int converting;
static void enter(void)
{
    struct ctl *c = ctl();
    if (!c) return;
    if (converting) _exit(98);
    converting = 1;
    if (c->sig && c->sig_at-- == 1) {
        int s = (int)c->sig;
        c->sig = 0;
        kill(getpid(), s);
    }
}
struct tm *localtime(const time_t *t)
{
    REAL(struct tm *, localtime, (const time_t *));
    struct tm *r;
    enter();
    r = real(t);
    converting = 0;
    return r;
}
struct tm *localtime_r(const time_t *t, struct tm *b)
{
    REAL(struct tm *, localtime_r, (const time_t *, struct tm *));
    struct tm *r;
    enter();
    r = real(t, b);
    converting = 0;
    return r;
}

/* 127.0.A.B <-> hB.nA.test; some have no name, or one that does not lead back to them (see node_of in chat.py) */
static void name_of(unsigned a, unsigned b, char *host, socklen_t n)
{
    char pad[128];
    memset(pad, 'x', sizeof pad);
    if (b >= 250) snprintf(host, n, "liar.test");                   /* leads elsewhere */
    else if (b == 239 || b == 24) snprintf(host, n, "near%u.n%u.test", b, a);   /* leads to an address that begins like it, or that it is the beginning of */
    else if (b >= 235 && b <= 238) snprintf(host, n, "h%u.n%u.test.org", b - 230, a);   /* begins with somebody else's name */
    else if (b == 240) snprintf(host, n, "ghost.test");             /* leads nowhere */
    else if (b == 241) snprintf(host, n, "multi.n%u.test", a);      /* leads to several addresses, the last one right */
    else if (b == 242) snprintf(host, n, "h5.n0.test");             /* somebody else's name */
    else if (b == 243) snprintf(host, n, "127.0.0.5");              /* somebody else's address */
    else if (b == 244) snprintf(host, n, "H5.N%u.Test", a);         /* somebody else's name, and its own */
    else if (b >= 245) snprintf(host, n, "%.*s.n%u.b%u.long.test", b == 245 ? 45 : b == 246 ? 46 : b == 247 ? 47 : 100, pad, a, b);
    else snprintf(host, n, "h%u.n%u.test", b, a);
}
int getnameinfo(const struct sockaddr *sa, socklen_t salen, char *host, socklen_t hostlen,
                char *serv, socklen_t servlen, int flags)
{
    REAL(int, getnameinfo, (const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int));
    if (ctl() && !(flags & NI_NUMERICHOST) && host) {
        uint32_t a = 0;
        if (sa->sa_family == AF_INET) a = ntohl(((const struct sockaddr_in *)sa)->sin_addr.s_addr);
        else if (sa->sa_family == AF_INET6) {
            const struct in6_addr *p = &((const struct sockaddr_in6 *)sa)->sin6_addr;
            if (IN6_IS_ADDR_V4MAPPED(p)) { memcpy(&a, p->s6_addr + 12, 4); a = ntohl(a); }
            else if (IN6_IS_ADDR_LOOPBACK(p)) { snprintf(host, hostlen, "six.test"); return 0; }
        }
        if ((a >> 24) == 127) {
            if ((a & 255) >= 253) return EAI_NONAME;
            name_of((a >> 8) & 255, a & 255, host, hostlen);
            return 0;
        }
    }
    return real(sa, salen, host, hostlen, serv, servlen, flags);
}
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    REAL(int, getaddrinfo, (const char *, const char *, const struct addrinfo *, struct addrinfo **));
    unsigned a, b;
    char buf[64];
    const char *six = hints && hints->ai_family == AF_INET6 ? "::ffff:" : "", *q;
    if (ctl() && node) {
        if (!strcmp(node, "six.test")) return real("::1", service, hints, res);
        if (!strcmp(node, "ghost.test")) return EAI_NONAME;
        if (!strcmp(node, "liar.test")) {
            snprintf(buf, sizeof buf, "%s127.9.9.9", six);
            return real(buf, service, hints, res);
        }
        if (sscanf(node, "near%u.n%u.test", &b, &a) == 2) {
            snprintf(buf, sizeof buf, "%s127.0.%u.%u", six, a, b == 239 ? 23 : 240);
            return real(buf, service, hints, res);
        }
        if (sscanf(node, "multi.n%u.test", &a) == 1) {
            struct addrinfo *x, *y;
            int r;
            snprintf(buf, sizeof buf, "%s127.9.9.8", six);
            if ((r = real(buf, service, hints, &x)) != 0) return r;
            snprintf(buf, sizeof buf, "%s127.0.%u.241", six, a);
            if ((r = real(buf, service, hints, &y)) != 0) return r;
            *res = x;
            while (x->ai_next) x = x->ai_next;
            x->ai_next = y;
            return 0;
        }
        if (strncmp(node, "H5.N", 4) == 0 && sscanf(node + 4, "%u", &a) == 1) {
            snprintf(buf, sizeof buf, "%s127.0.%u.244", six, a);
            return real(buf, service, hints, res);
        }
        if (node[0] == 'x' && (q = strstr(node, ".n")) && sscanf(q, ".n%u.b%u.long", &a, &b) == 2) {
            snprintf(buf, sizeof buf, "%s127.0.%u.%u", six, a, b);
            return real(buf, service, hints, res);
        }
        if (strstr(node, ".test.org") && sscanf(node, "h%u.n%u.test", &b, &a) == 2) {
            snprintf(buf, sizeof buf, "%s127.0.%u.%u", six, a, b + 230);
            return real(buf, service, hints, res);
        }
        if (sscanf(node, "h%u.n%u.test", &b, &a) == 2) {
            snprintf(buf, sizeof buf, "%s127.0.%u.%u", six, a, b);
            return real(buf, service, hints, res);
        }
        if (hints && hints->ai_family == AF_INET6 && sscanf(node, "127.0.%u.%u", &a, &b) == 2) {
            snprintf(buf, sizeof buf, "::ffff:%s", node);
            return real(buf, service, hints, res);
        }
    }
    return real(node, service, hints, res);
}

static uint32_t rnd(struct ctl *c)
{
    uint64_t x = c->rng;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    c->rng = x;
    return (uint32_t)(x >> 16);
}
/* Calls that write the database file.  kind: 0 off, 1 any, 2 open, 3 write, 4 fsync, 5 rename; of those, the db_at-th
 * from now (and with act 3 the db_n-1 following ones): act 1 die before, 2 die after, 3 fail for lack of space, 4 do half and die. */
static unsigned char isdb[1024];
static int dbpath(const char *p) { return strstr(p, "icbdb") != NULL && !strstr(p, ".log"); }
static int point(int kind)
{
    struct ctl *c = ctl();
    if (!c || !c->db_kind || (c->db_kind != 1 && c->db_kind != (uint64_t)kind)) return 0;
    if (c->db_at > 1) { c->db_at--; return 0; }
    if (c->db_act == 3) {
        if (c->db_n == 0) { c->db_kind = 0; return 0; }
        c->db_n--; c->db_hits++;
        errno = ENOSPC;
        return 3;
    }
    c->db_hits++;
    if (c->db_act == 1) _exit(99);
    return (int)c->db_act;
}
static void after(int r) { int e = errno; if (r == 2 || r == 4) _exit(99); errno = e; }

int open(const char *p, int fl, ...)
{
    REAL(int, open, (const char *, int, ...));
    mode_t m = 0;
    int r, k = 0, w = (fl & O_ACCMODE) != O_RDONLY && dbpath(p);
    if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
    if (w && (k = point(2)) == 3) return -1;
    r = real(p, fl, m);
    if (w && r >= 0 && r < 1024) isdb[r] = 1;
    after(k);
    return r;
}
int open64(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
    return open(p, fl, m);
}
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int mkstemp(char *t)
{
    REAL(int, mkstemp, (char *));
    int r, k = 0, w = dbpath(t);
    if (w && (k = point(2)) == 3) return -1;
    r = real(t);
    if (w && r >= 0 && r < 1024) isdb[r] = 1;
    after(k);
    return r;
}
FILE *fopen(const char *p, const char *m)
{
    REAL(FILE *, fopen, (const char *, const char *));
    FILE *f;
    int k = 0, w = strpbrk(m, "wa+") && dbpath(p);
    if (w && (k = point(2)) == 3) return NULL;
    f = real(p, m);
    if (w && f && fileno(f) < 1024) isdb[fileno(f)] = 1;
    after(k);
    return f;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *));
    int fd = fileno(f), k = 0;
    size_t r;
    if (fd >= 0 && fd < 1024 && isdb[fd] && (k = point(3)) == 3) return 0;
    r = real(b, s, n, f);
    after(k);
    return r;
}
int fclose(FILE *f)
{
    REAL(int, fclose, (FILE *));
    int fd = fileno(f);
    if (fd >= 0 && fd < 1024) isdb[fd] = 0;
    return real(f);
}
int fsync(int fd)
{
    int k = 0;
    if (fd >= 0 && fd < 1024 && isdb[fd]) {
        if ((k = point(4)) == 3) return -1;
        after(k);
        return 0;       /* the disk of the sandbox need not know */
    }
    REAL(int, fsync, (int));
    return real(fd);
}
int fdatasync(int fd) { return fsync(fd); }
int rename(const char *a, const char *b)
{
    REAL(int, rename, (const char *, const char *));
    int r, k = 0;
    if (dbpath(b) && (k = point(5)) == 3) return -1;
    r = real(a, b);
    after(k);
    return r;
}

static unsigned char row_r[1024], row_w[1024];
static int is_sock(int fd)
{
    struct stat st;
    return fd >= 0 && fd < 1024 && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
}
/* returns -1 for injected EAGAIN, else the (possibly reduced) length.
 * Never interferes more than three times in a row, so progress is guaranteed. */
static ssize_t inject(int fd, size_t n, int wr)
{
    struct ctl *c = ctl();
    unsigned sh = wr ? 2 : 1, ag = wr ? 8 : 4;
    unsigned char *row = wr ? row_w : row_r;
    if (!c || n == 0 || fd < 0) return (ssize_t)n;
    if (wr && fd < 300 && c->win[fd]) {
        uint64_t left = c->win[fd] - 1;
        c->injected++;
        if (left == 0) { errno = EAGAIN; return -1; }
        return (ssize_t)(n < left ? n : left);
    }
    if (!(c->io_mode & (sh | ag)) || !is_sock(fd)) return (ssize_t)n;
    if (row[fd] < 3) {
        if ((c->io_mode & ag) && rnd(c) % 3 == 0) { row[fd]++; c->injected++; errno = EAGAIN; return -1; }
        if ((c->io_mode & sh) && n > 1 && rnd(c) % 2) {
            size_t k = 1 + rnd(c) % n;
            if (rnd(c) % 3 == 0) k = 1;
            if (k < n) { row[fd]++; c->injected++; return (ssize_t)k; }
        }
    }
    row[fd] = 0;
    return (ssize_t)n;
}
static int limited(int fd)
{
    return ctl() && fd >= 0 && fd < 300 && C->win[fd] != 0;
}
static void took(int fd, ssize_t r, int lim)
{
    if (lim && r > 0) C->win[fd] -= (uint64_t)r;
}
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
/* a descriptor whose peer takes nothing more is not writable */
int poll(struct pollfd *f, nfds_t n, int tmo)
{
    REAL(int, poll, (struct pollfd *, nfds_t, int));
    struct ctl *c = ctl();
    static short save[2048];
    nfds_t i;
    int r, e;
    if (!c || n > 2048) return real(f, n, tmo);
    c->polls++;
    if (c->heap == 1 && __sanitizer_get_current_allocated_bytes)
        c->heap = __sanitizer_get_current_allocated_bytes() + 2;
    for (i = 0; i < n; i++) {
        save[i] = f[i].events;
        if (f[i].fd >= 0 && f[i].fd < 300 && c->win[f[i].fd] == 1) f[i].events &= ~POLLOUT;
    }
    r = real(f, n, tmo);
    e = errno;
    for (i = 0; i < n; i++) f[i].events = save[i];
    errno = e;
    return r;
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *set)
{
    sigset_t old;
    int r, e;
    if (set) sigprocmask(SIG_SETMASK, set, &old);
    r = poll(f, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
    e = errno;
    if (set) sigprocmask(SIG_SETMASK, &old, NULL);
    errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, read, (int, void *, size_t));
    ssize_t k = inject(fd, n, 0);
    return k < 0 ? -1 : real(fd, b, (size_t)k);
}
ssize_t recv(int fd, void *b, size_t n, int fl)
{
    REAL(ssize_t, recv, (int, void *, size_t, int));
    ssize_t k = inject(fd, n, 0);
    return k < 0 ? -1 : real(fd, b, (size_t)k, fl);
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, (int, const void *, size_t));
    int lim = limited(fd);
    ssize_t k;
    if (fd >= 0 && fd < 1024 && isdb[fd]) {
        int a = point(3);
        if (a == 3) return -1;
        k = real(fd, b, a == 4 ? n / 2 : n);
        after(a);
        return k;
    }
    k = inject(fd, n, 1);
    if (k >= 0) { k = real(fd, b, (size_t)k); took(fd, k, lim); }
    return k;
}
ssize_t send(int fd, const void *b, size_t n, int fl)
{
    REAL(ssize_t, send, (int, const void *, size_t, int));
    int lim = limited(fd);
    ssize_t k = inject(fd, n, 1);
    if (k >= 0) { k = real(fd, b, (size_t)k, fl); took(fd, k, lim); }
    return k;
}

/* no Nagle delays on the accepted sockets: only affects latency */
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    REAL(int, accept, (int, struct sockaddr *, socklen_t *));
    int one = 1, r = real(fd, a, l);
    if (r >= 0 && r < 300 && ctl()) C->win[r] = 0;
    if (r >= 0 && ctl()) setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return r;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl)
{
    REAL(int, accept4, (int, struct sockaddr *, socklen_t *, int));
    int one = 1, r = real(fd, a, l, fl);
    if (r >= 0 && r < 300 && ctl()) C->win[r] = 0;
    if (r >= 0 && ctl()) setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return r;
}
int close(int fd)
{
    REAL(int, close, (int));
    if (C && fd >= 0 && fd < 300) C->win[fd] = 0;
    if (fd >= 0 && fd < 1024) isdb[fd] = 0;
    return real(fd);
}
