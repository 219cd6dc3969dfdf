/* Drives icbd's building blocks (database, text, patterns, lists) from a line protocol.
 *
 * stdin: "RUN n" followed by n command lines.  The lines are run in a forked child, which answers each with one
 * line; then comes "END status".  Strings are hex, "-" is NULL, "." is empty.
 *
 * File system calls made by the code under test can be counted, made to fail, or be the last thing the process
 * does; a power failure can be simulated, which takes back all that was written but not synced. */
#define _GNU_SOURCE
#include "config.h"
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

/* one of these is defined: a change of one part's interfaces must not take the other parts' harnesses away */
#ifdef U_DB
#include "server/dbm.h"
#endif
#ifdef U_LIST
#include "server/namelist.h"
#include "server/strlist.h"
#endif
#ifdef U_TEXT
#include "server/strutil.h"
extern char *fields[];
#endif
#ifdef U_WILD
int wildmat(char *, char *);
#endif

/* ---------------------------------------------------------------- file system calls */
#define REAL(ret, name, args) static ret (*real) args; if (!real) real = (ret (*) args)dlsym(RTLD_NEXT, #name)

static int armed, count, at, action, err, last;     /* action: 0 count, 1 die before, 2 die after, 3 fail, 4 short/partial then die, 5 short, 6 EINTR */
static int power;                                   /* 0 process dies; 1 unsynced data lost; 2 unsynced data zeroed */
#define NF 4096
static struct { int used, dupfd; dev_t dev; ino_t ino; off_t synced; } F[NF]; /* files opened for writing */
static int ofd[NF];                                  /* fd -> F index + 1 */

static void die(void)
{
    int i;
    for (i = 0; i < NF; i++) {
        struct stat st;
        if (!F[i].used || !power) continue;
        if (fstat(F[i].dupfd, &st) < 0 || st.st_size <= F[i].synced) continue;
        REAL(int, ftruncate, (int, off_t));
        if (power == 1) real(F[i].dupfd, F[i].synced);
        else if (power == 2) { real(F[i].dupfd, F[i].synced); real(F[i].dupfd, st.st_size); }
        else real(F[i].dupfd, F[i].synced + (st.st_size - F[i].synced) / 2);
    }
    _exit(99);
}
/* 0 go on; 1 fail with errno; 2 do it partially (then the caller dies if dieafter) */
static int point(int can_short)
{
    if (!armed) return 0;
    count++;
    if (count < at || (count > at && count > last)) return 0;
    switch (action) {
    case 1: die();
    case 3: errno = err; return 1;
    case 4: if (can_short) return 2; die();
    case 5: if (can_short) return 2; return 0;
    }
    return 0;
}
static void after(void)
{
    if (armed && count == at && (action == 2 || action == 4)) die();
}
static void opened(int fd, int flags)
{
    struct stat st;
    int i;
    if (!armed || fd < 0 || fd >= NF || (flags & O_ACCMODE) == O_RDONLY) return;
    if (fstat(fd, &st) < 0 || !S_ISREG(st.st_mode)) return;
    /* the same file opened again is still the same file */
    for (i = 0; i < NF && F[i].used && !(F[i].dev == st.st_dev && F[i].ino == st.st_ino); i++) ;
    if (i == NF) return;
    if (F[i].used) {
        if (flags & O_TRUNC) F[i].synced = 0;
        ofd[fd] = i + 1;
        return;
    }
    F[i].used = 1;
    F[i].dev = st.st_dev;
    F[i].ino = st.st_ino;
    F[i].dupfd = dup(fd);
    F[i].synced = (flags & O_TRUNC) ? 0 : st.st_size;
    ofd[fd] = i + 1;
}
int open(const char *p, int fl, ...)
{
    REAL(int, open, (const char *, int, ...));
    mode_t m = 0;
    int r, wr = (fl & O_ACCMODE) != O_RDONLY;
    if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
    if (wr && point(0)) return -1;
    r = real(p, fl, m);
    opened(r, fl);
    if (wr) after();
    return r;
}
int open64(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
    return open(p, fl, m);
}
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int mkstemp(char *t)
{
    REAL(int, mkstemp, (char *));
    int r;
    if (point(0)) return -1;
    r = real(t);
    opened(r, O_RDWR | O_TRUNC);
    after();
    return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, (int, const void *, size_t));
    ssize_t r;
    int k;
    if (!armed || fd < 0 || fd >= NF || !ofd[fd]) return real(fd, b, n);
    k = point(n > 1);
    if (k == 1) return -1;
    r = real(fd, b, k == 2 ? n / 2 : n);
    after();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    ssize_t r;
    if (!armed || fd < 0 || fd >= NF || !ofd[fd]) return real(fd, v, n);
    if (point(0) == 1) return -1;
    r = real(fd, v, n);
    after();
    return r;
}
int fsync(int fd)
{
    REAL(int, fsync, (int));
    struct stat st;
    if (point(0)) return -1;
    (void)real;                     /* the disk of the sandbox need not know */
    if (fd < 0 || fcntl(fd, F_GETFD) < 0) { errno = EBADF; return -1; }
    if (fd < NF && ofd[fd] && fstat(fd, &st) == 0) F[ofd[fd] - 1].synced = st.st_size;
    after();
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int rename(const char *a, const char *b)
{
    REAL(int, rename, (const char *, const char *));
    int r;
    if (point(0)) return -1;
    r = real(a, b);
    after();
    return r;
}
int unlink(const char *p)
{
    REAL(int, unlink, (const char *));
    int r;
    if (armed && action == 3) return real(p);        /* cleaning up after a failure works */
    if (point(0)) return -1;
    r = real(p);
    after();
    return r;
}
int ftruncate(int fd, off_t n)
{
    REAL(int, ftruncate, (int, off_t));
    int r;
    if (!armed || fd < 0 || fd >= NF || !ofd[fd]) return real(fd, n);
    if (point(0)) return -1;
    r = real(fd, n);
    after();
    return r;
}
int close(int fd)
{
    REAL(int, close, (int));
    int r, w = fd >= 0 && fd < NF && ofd[fd];
    r = real(fd);
    if (w) ofd[fd] = 0;
    return r;
}
FILE *fopen(const char *p, const char *m)
{
    REAL(FILE *, fopen, (const char *, const char *));
    FILE *f;
    int wr = strpbrk(m, "wa+") != NULL;
    if (wr && point(0)) return NULL;
    f = real(p, m);
    if (f && wr) { opened(fileno(f), O_WRONLY | (*m == 'w' ? O_TRUNC : 0)); after(); }
    return f;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *));
    size_t r;
    int fd = fileno(f);
    if (!armed || fd < 0 || fd >= NF || !ofd[fd]) return real(b, s, n, f);
    if (point(0) == 1) return 0;
    r = real(b, s, n, f);
    after();
    return r;
}
int fflush(FILE *f)
{
    REAL(int, fflush, (FILE *));
    int r, fd = f ? fileno(f) : -1;
    if (!armed || fd < 0 || fd >= NF || !ofd[fd]) return real(f);
    if (point(0)) return EOF;
    r = real(f);
    after();
    return r;
}
int fclose(FILE *f)
{
    REAL(int, fclose, (FILE *));
    int r, fd = fileno(f), w = armed && fd >= 0 && fd < NF && ofd[fd];
    if (w && point(0) == 1) { real(f); ofd[fd] = 0; errno = err; return EOF; }
    r = real(f);
    if (w) { ofd[fd] = 0; after(); }
    return r;
}

/* ---------------------------------------------------------------- protocol */
static void put(const char *s, size_t n)
{
    ssize_t (*w)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    while (n) { ssize_t k = w(1, s, n); if (k <= 0) _exit(98); s += k; n -= k; }
}
static char out[1 << 23];
static size_t on;
static void o(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    on += vsnprintf(out + on, sizeof out - on, fmt, a);
    va_end(a);
}
static void ohex(const void *p, long n)
{
    static const char d[] = "0123456789abcdef";
    const unsigned char *b = p;
    if (!p) { o("-"); return; }
    if (n == 0) { o("."); return; }
    if (on + 2 * n + 8 > sizeof out) _exit(97);
    for (; n > 0; n--, b++) { out[on++] = d[*b >> 4]; out[on++] = d[*b & 15]; }
    out[on] = 0;
}
static void nl(void) { out[on++] = '\n'; put(out, on); on = 0; }

struct arg { char *p; long n; };
static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* exact-size heap copies, with a NUL the length does not count, so that overruns show */
static struct arg hexarg(const char *s)
{
    struct arg a = { NULL, 0 };
    long i, n;
    if (*s == '-') return a;
    n = *s == '.' ? 0 : (long)strlen(s) / 2;
    a.p = malloc(n + 1);
    a.n = n;
    for (i = 0; i < n; i++) a.p[i] = (char)(nib(s[2 * i]) << 4 | nib(s[2 * i + 1]));
    a.p[n] = 0;
    return a;
}
#ifdef U_DB
/* without the NUL */
static datum datx(struct arg a)
{
    datum d = { NULL, 0 };
    if (!a.p) return d;
    d.dptr = malloc(a.n ? a.n : 1);
    memcpy(d.dptr, a.p, a.n);
    d.dsize = (int)a.n;
    return d;
}

static DBM *H[8];
static datum held;
#endif

static int nfds(void)
{
    DIR *d = opendir("/proc/self/fd");
    int n = 0;
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
#ifdef U_LIST
static NAMLIST NL[4];
static STRLIST *SH, *ST;
static void nldump(NAMLIST *l)
{
    STRLIST *s, *prev = NULL;
    int n = 0, ok = 1;
    for (s = l->head; s && n < 10000; prev = s, s = s->next, n++) if (s->prev != prev) ok = 0;
    if (l->tail != prev) ok = 0;
    o("%d %d %d", (int)nlcount(*l), n, ok);
    for (s = l->head; s; s = s->next) { o(" "); ohex(s->str, strlen(s->str)); }
}
#endif
static int eq(const char *a, const char *b) { return !strcmp(a, b); }

static void run(char *line)
{
    char *w[24] = {0}, *p;
    struct arg a[24];
    int n = 0, i;
    for (p = strtok(line, " "); p && n < 24; p = strtok(NULL, " ")) w[n++] = p;
    if (!n) { o("?"); return; }
    memset(a, 0, sizeof a);
#define HEX(k) (a[k] = hexarg(w[k]))
#define INT(k) atoi(w[k])
    const char *c = w[0];
    if (eq(c, "cd")) { o("%d", chdir(HEX(1).p)); }
    else if (eq(c, "arm")) { armed = 1; count = 0; at = INT(1); last = INT(2); action = INT(3); err = INT(4); power = INT(5); o("ok"); }
    else if (eq(c, "disarm")) { armed = 0; o("%d", count); }
    else if (eq(c, "exit")) { nl(); die(); }
    else if (eq(c, "fds")) { o("%d", nfds()); }
#ifdef U_DB
    else if (eq(c, "open")) { H[INT(1)] = dbm_open(HEX(2).p, O_RDWR, INT(3)); o("%d", H[INT(1)] != NULL); }
    else if (eq(c, "store")) { datum v = datx(HEX(3)); if (n > 5) v.dsize = INT(5); o("%d", dbm_store(H[INT(1)], datx(HEX(2)), v, INT(4) ? DBM_REPLACE : DBM_INSERT)); }
    else if (eq(c, "fetch")) { held = dbm_fetch(H[INT(1)], datx(HEX(2))); ohex(held.dptr, held.dsize); }
    else if (eq(c, "held")) { ohex(held.dptr, held.dsize); }
    else if (eq(c, "delete")) { o("%d", dbm_delete(H[INT(1)], datx(HEX(2)))); }
    else if (eq(c, "sync")) { o("%d", dbm_sync(H[INT(1)])); }
    else if (eq(c, "close")) { dbm_close(H[INT(1)]); H[INT(1)] = NULL; o("ok"); }
#endif
#ifdef U_LIST
    else if (eq(c, "nlinit")) { nlinit(&NL[INT(1)], INT(2)); o("ok"); }
    else if (eq(c, "nlput")) { nlput(&NL[INT(1)], HEX(2).p); o("ok"); }
    else if (eq(c, "nldel")) { o("%d", nldelete(&NL[INT(1)], HEX(2).p)); }
    else if (eq(c, "nlget")) { p = nlget(&NL[INT(1)]); ohex(p, strlen(p)); }
    else if (eq(c, "nlclear")) { nlclear(&NL[INT(1)]); o("ok"); }
    else if (eq(c, "nlpresent")) { o("%d", !!nlpresent(HEX(2).p, NL[INT(1)])); }
    else if (eq(c, "nlmatch")) { o("%d", !!nlmatch(HEX(2).p, NL[INT(1)])); }
    else if (eq(c, "nldump")) { nldump(&NL[INT(1)]); }
    else if (eq(c, "salpha")) { STRLIST *s; HEX(1); s = strmakenode(a[1].n + 1); strcpy(s->str, a[1].p); strlinkalpha(s, &SH, &ST, INT(2)); o("ok"); }
    else if (eq(c, "shead")) { STRLIST *s; HEX(1); s = strmakenode(a[1].n + 1); strcpy(s->str, a[1].p); strlinkhead(s, &SH, &ST); o("ok"); }
    else if (eq(c, "stail")) { STRLIST *s; HEX(1); s = strmakenode(a[1].n + 1); strcpy(s->str, a[1].p); strlinktail(s, &SH, &ST); o("ok"); }
    else if (eq(c, "srel")) { STRLIST *s, *x; HEX(1); x = strgetnode(HEX(2).p, SH, 0, 0); if (!x) { o("none"); } else {
        s = strmakenode(a[1].n + 1); strcpy(s->str, a[1].p); if (INT(3)) strlinkafter(s, x, &SH, &ST); else strlinkbefore(s, x, &SH, &ST); o("ok"); } }
    else if (eq(c, "sdel")) { STRLIST *x = strgetnode(HEX(1).p, SH, INT(2), 0); if (!x) o("none"); else { strunlink(x, &SH, &ST); ohex(x->str, strlen(x->str)); free(x); } }
    else if (eq(c, "sfind")) { STRLIST *x = strgetnode(HEX(1).p, SH, INT(2), INT(3)); if (!x) o("none"); else ohex(x->str, strlen(x->str)); }
    else if (eq(c, "sdump")) { NAMLIST t; memset(&t, 0, sizeof t); t.head = SH; t.tail = ST; nldump(&t); }
#endif
#ifdef U_TEXT
    else if (eq(c, "nickname")) { filternickname(HEX(1).p); ohex(a[1].p, strlen(a[1].p)); }
    else if (eq(c, "group")) { filtergroupname(HEX(1).p); ohex(a[1].p, strlen(a[1].p)); }
    else if (eq(c, "lcase")) { lcaseit(HEX(1).p); ohex(a[1].p, strlen(a[1].p)); }
    else if (eq(c, "ucase")) { ucaseit(HEX(1).p); ohex(a[1].p, strlen(a[1].p)); }
    else if (eq(c, "text")) { long len = INT(2); char *d = malloc(len); memset(d, 'Z', len); filtertext(HEX(1).p, d, len); ohex(d, strnlen(d, len)); free(d); }
    else if (eq(c, "fmt")) { i = INT(2); p = filterfmt(HEX(1).p, &i); o("%d %d ", p == NULL, i); if (p) ohex(p, strlen(p)); else o("-"); }
    else if (eq(c, "word")) { p = getword(HEX(1).p); ohex(p, strlen(p)); }
    else if (eq(c, "tail")) { p = get_tail(HEX(1).p); ohex(p, strlen(p)); }
    else if (eq(c, "split")) { int k; i = split(HEX(1).p); o("%d", i); for (k = 0; k < 20; k++) { o(" "); ohex(fields[k], strlen(fields[k])); } }
#endif
#ifdef U_WILD
    else if (eq(c, "wild")) { o("%d", wildmat(HEX(1).p, HEX(2).p)); }
#endif
    else o("?");
    for (i = 1; i < n; i++) if (a[i].p) free(a[i].p);
}

static char *getln(FILE *f)
{
    static char *b;
    static size_t cap;
    ssize_t n = getline(&b, &cap, f);
    if (n <= 0) return NULL;
    if (b[n - 1] == '\n') b[n - 1] = 0;
    return b;
}

int main(void)
{
    char *l, **v;
    int n, i, st;
    pid_t pid;
    while ((l = getln(stdin))) {
        if (sscanf(l, "RUN %d", &n) != 1) return 3;
        v = calloc(n + 1, sizeof *v);
        for (i = 0; i < n; i++) { if (!(l = getln(stdin))) return 3; v[i] = strdup(l); }
        pid = fork();
        if (pid == 0) {
            alarm(60);
            for (i = 0; i < n; i++) { run(v[i]); nl(); }
            _exit(0);
        }
        waitpid(pid, &st, 0);
        on = 0;
        o("END %d", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
        nl();
        for (i = 0; i < n; i++) free(v[i]);
        free(v);
    }
    return 0;
}
