ID="near-addr"; PROPERTY="C34"
NEEDS="a host whose name leads to an address whose digits begin with those of the address it connects from, or the other way round"
BREAKS="a host passes for another one by controlling the name its address has"
EDITS=[("pktserv/getrname.c","if (strcmp(orig_numeric, cand_numeric) == 0) {","if (strncmp(orig_numeric, cand_numeric, strlen(cand_numeric)) == 0) {")]
EXTRA=["pre.c"]
DEMO='''
# host.example is the name of 127.0.0.23, and leads to 127.0.0.2
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix="icbdemo-")
open(d + "/r.c", "w").write(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netdb.h>
#include <string.h>
#include <arpa/inet.h>
int getnameinfo(const struct sockaddr *sa, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int f)
{
    int (*o)(const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int) = dlsym(RTLD_NEXT, "getnameinfo");
    char b[200];
    if (!(f & NI_NUMERICHOST) && o(sa, l, b, sizeof b, 0, 0, NI_NUMERICHOST) == 0 && !strcmp(b, "127.0.0.23")) { strcpy(h, "host.example"); return 0; }
    return o(sa, l, h, hl, s, sl, f);
}
int getaddrinfo(const char *n, const char *s, const struct addrinfo *hi, struct addrinfo **r)
{
    int (*o)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = dlsym(RTLD_NEXT, "getaddrinfo");
    if (n && !strcmp(n, "host.example")) n = "127.0.0.2";
    return o(n, s, hi, r);
}
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", d + "/r.so", d + "/r.c", "-ldl"])
s = Srv(preload=d + "/r.so")
shutil.rmtree(d, ignore_errors=True) if False else None
a = C(s, "ann", "1", addr="127.0.0.23")
f = a.cmd("w", ".")
s.close()
shutil.rmtree(d, ignore_errors=True)
check(has(f, "[127.0.0.23]") and not has(f, "host.example"), "shown as %r" % f)
'''
