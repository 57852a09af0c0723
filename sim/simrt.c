/* simrt.c -- deterministic simulation layer under the SML/NJ runtime system.
 *
 * Linked with the runtime built from /repo's working tree by means of the linker's
 * --wrap option (no change to the runtime's sources).  It owns
 *   - every transition between ML and C code (wrapper around restoreregs): a run is
 *     cut into slices measured by an "allocation clock" (bytes allocated by ML code);
 *     at slice ends the simulator may force a collection of any depth, deliver a
 *     signal, stall or step the clock;
 *   - the arrival of signals at an exact machine instruction (trap flag);
 *   - the clock, interval timers, pause/nanosleep/select and blocking reads
 *     (discrete event time);
 *   - the outcome of system calls and memory requests (errors, short transfers,
 *     interruption, crash).
 * All decisions are read from an explicit plan file; nothing is random here.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <ucontext.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <time.h>

#include "ml-base.h"
#include "ml-limits.h"
#include "ml-values.h"
#include "vproc-state.h"
#include "ml-state.h"
#include "tags.h"
#include "ml-request.h"
#include "ml-objects.h"
#include "c-library.h"
#include "gc.h"

typedef int64_t i64;

/* ------------------------------------------------------------------ state */
static int	sim_on = 0;		/* a plan was given */
static int	started = 0;		/* the workload called Sim.start */
static int	logfd = -1;
static i64	clk = 0;		/* allocation clock (bytes) since start */
static i64	ncalls = 0;		/* ML<->C transitions since start */
static i64	extra_ns = 0;		/* virtual time from jumps */
static i64	wall_off = 0;		/* wall clock adjustments, ns */
static i64	epoch_s = 1000000000;
static i64	nspb = 10, nspc = 400;
static i64	lim_clk = -1, lim_calls = -1, lim_vt = -1;
static uint64_t	hash = 1469598103934665603ULL;
static i64	ev_seq = 0;
static int	quiet_log = 0;
static pid_t	sim_pid;

enum { A_GC, A_SIG, A_SIGX, A_JUMP, A_ADV };
typedef struct { i64 pos; int kind; i64 a, b; } aev_t;
static aev_t	*aev; static int naev, iaev;

#define MAXCLS 80
static const char *cls_name[MAXCLS]; static i64 cls_cnt[MAXCLS]; static int ncls;
enum { C_ERR, C_SHORT, C_KILL, C_SIG, C_EINTR };
typedef struct { int cls; i64 n; int kind; i64 a; int used; } cev_t;
static cev_t	*cev; static int ncev;
static i64	*nev; static int nnev; static i64 need_cnt; /* NeedGC events */

typedef struct { i64 t; int kind, fd; i64 n; char *data; i64 seq; } pev_t;  /* peers */
enum { P_WRITE, P_CLOSE, P_READ, P_SIG, P_CHILD };
static pev_t	pev[65536]; static int npev, ipev; static i64 pseq;

typedef struct { i64 delay; int status; } child_t;
static child_t	childplan[256]; static int nchildplan;
typedef struct { int pid; int status; int state; } vchild_t; /* state 0 running 1 zombie 2 reaped */
static vchild_t	vch[4096]; static int nvch;

/* fault statistics */
#define NST 64
static char st_name[NST][24]; static i64 st_cnt[NST]; static int nst;
static void stat_inc (const char *n) {
    for (int i = 0; i < nst; i++) if (!strcmp(st_name[i], n)) { st_cnt[i]++; return; }
    if (nst < NST) { strncpy (st_name[nst], n, 23); st_cnt[nst++] = 1; }
}

static void mix (uint64_t x) { for (int i = 0; i < 8; i++) { hash ^= (x >> (8*i)) & 255; hash *= 1099511628211ULL; } }
static void mixs (const char *s, size_t n) { for (size_t i = 0; i < n; i++) { hash ^= (unsigned char)s[i]; hash *= 1099511628211ULL; } }

static void rawlog (const char *s, size_t n) {
    if (logfd < 0) return;
    while (n > 0) { ssize_t k = syscall (SYS_write, logfd, s, n); if (k <= 0) break; s += k; n -= k; }
}
static void simlog (const char *fmt, ...) {
    char buf[512]; va_list ap; va_start (ap, fmt);
    int n = vsnprintf (buf, sizeof buf - 1, fmt, ap); va_end (ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    mixs (buf, n);
    rawlog (buf, n);
}

static i64 vtime (void) { return started ? clk*nspb + ncalls*nspc + extra_ns : 0; }
static i64 wall_ns (void) { return epoch_s*1000000000LL + vtime() + wall_off; }

static long long disk_used = 0;
static void dump_stats (const char *how, int code) {
    static int done = 0; char b[4096]; int n;
    if (done || !sim_on || (pid_t)syscall (SYS_getpid) != sim_pid) return;
    done = 1;
    n = snprintf (b, sizeof b, "#END how=%s code=%d clk=%lld calls=%lld vt=%lld seq=%lld hash=%016llx st=",
	how, code, (long long)clk, (long long)ncalls, (long long)vtime(), (long long)ev_seq, (unsigned long long)hash);
    for (int i = 0; i < nst; i++) n += snprintf (b+n, sizeof b - n, "%s:%lld,", st_name[i], (long long)st_cnt[i]);
    n += snprintf (b+n, sizeof b - n, " cc=");
    for (int i = 0; i < ncls && n < (int)sizeof b - 64; i++) if (cls_cnt[i]) n += snprintf (b+n, sizeof b - n, "%s:%lld,", cls_name[i], (long long)cls_cnt[i]);
    n += snprintf (b+n, sizeof b - n, " need=%lld dw=%lld\n", (long long)need_cnt, disk_used);
    rawlog (b, n);
}
static void sim_exit (const char *how, int code) {
    dump_stats (how, code);
    syscall (SYS_exit_group, code);
    for (;;) ;
}

static int cls_id (const char *n) {
    for (int i = 0; i < ncls; i++) if (!strcmp (cls_name[i], n)) return i;
    if (ncls == MAXCLS) abort ();
    cls_name[ncls] = strdup (n); return ncls++;
}

/* ------------------------------------------------------- virtual signals */
typedef struct { void (*h)(int, siginfo_t *, void *); struct sigaction sa; } vsig_t;
static vsig_t	vsig[65];
static sigset_t	vmask;
static unsigned char vpend[65];
static int	is_real_sig (int s) { return s==SIGSEGV||s==SIGFPE||s==SIGILL||s==SIGBUS||s==SIGTRAP||s==SIGABRT||s==SIGKILL||s==SIGSTOP; }

static int default_ignored (int s) { return s==SIGCHLD||s==SIGCONT||s==SIGURG||s==SIGWINCH; }

/* deliver a virtual signal now; uc may be NULL (then we are in C code).
 * returns 1 if a handler ran, 0 if ignored or left pending */
static int logsig = 0;
#define LOGSIG(how) do { if (logsig) simlog ("@S %d %s", s, how); } while (0)
static int deliver_how (int s, ucontext_t *uc, const char *how) {
    static ucontext_t dummy;
    siginfo_t si; memset (&si, 0, sizeof si); si.si_signo = s;
    if (sigismember (&vmask, s)) { LOGSIG (vpend[s] ? "again" : "masked"); vpend[s] = 1; return 0; }
    void *h = (void *)vsig[s].sa.sa_handler;
    if (vsig[s].sa.sa_flags & SA_SIGINFO) h = (void *)vsig[s].sa.sa_sigaction;
    if (h == (void *)SIG_IGN) { LOGSIG ("ignored"); return 0; }
    if (h == (void *)SIG_DFL) {
	if (default_ignored (s)) { LOGSIG ("ignored"); return 0; }
	simlog ("@KILLEDBY sig=%d", s);
	sim_exit ("sigdfl", 128+s);
    }
    mix (s); mix (clk); ev_seq++;
    LOGSIG (how);
    if (uc == NULL) { memset (&dummy, 0, sizeof dummy); uc = &dummy; }
    ((void (*)(int, siginfo_t *, void *))h)(s, &si, uc);
    return 1;
}
static int deliver (int s, ucontext_t *uc) { return deliver_how (s, uc, "now"); }
static int deliver_pending (void) {
    int n = 0;
    for (int s = 1; s < 65; s++)
	if (vpend[s] && !sigismember (&vmask, s)) { vpend[s] = 0; n += deliver_how (s, NULL, "late"); }
    return n;
}

int __real_sigaction (int, const struct sigaction *, struct sigaction *);
int __wrap_sigaction (int s, const struct sigaction *sa, struct sigaction *old) {
    if (!sim_on || s < 1 || s > 64 || is_real_sig (s)) return __real_sigaction (s, sa, old);
    if (old) *old = vsig[s].sa;
    if (sa) {
	vsig[s].sa = *sa;
	if (!(sa->sa_flags & SA_SIGINFO) && sa->sa_handler == SIG_IGN) vpend[s] = 0;
    }
    return 0;
}
int __real_sigprocmask (int, const sigset_t *, sigset_t *);
int __wrap_sigprocmask (int how, const sigset_t *set, sigset_t *old) {
    if (!sim_on) return __real_sigprocmask (how, set, old);
    if (old) *old = vmask;
    if (set) {
	if (how == SIG_SETMASK) vmask = *set;
	else for (int s = 1; s < 65; s++) if (sigismember (set, s)) { if (how == SIG_BLOCK) sigaddset (&vmask, s); else sigdelset (&vmask, s); }
	deliver_pending ();
    }
    return 0;
}

/* ------------------------------------------------------- timers and peers */
static i64	it_next = -1, it_int = 0;
static int run_due (void);

static void it_get (struct itimerval *old) {
    i64 r = it_next < 0 ? 0 : it_next - vtime (); if (it_next >= 0 && r < 1000) r = 1000;
    old->it_value.tv_sec = r/1000000000; old->it_value.tv_usec = (r%1000000000)/1000;
    old->it_interval.tv_sec = it_int/1000000000; old->it_interval.tv_usec = (it_int%1000000000)/1000;
}
int __real_getitimer (int, struct itimerval *);
int __wrap_getitimer (int which, struct itimerval *old) {
    if (!sim_on) return __real_getitimer (which, old);
    if (which != ITIMER_REAL) memset (old, 0, sizeof *old);
    else { run_due (); it_get (old); }
    return 0;
}
int __real_setitimer (int, const struct itimerval *, struct itimerval *);
int __wrap_setitimer (int which, const struct itimerval *v, struct itimerval *old) {
    if (!sim_on) return __real_setitimer (which, v, old);
    if (which != ITIMER_REAL) return 0;
    run_due ();	/* the old timer may expire just before the call takes effect */
    if (old) it_get (old);
    if (v) {
	i64 d = v->it_value.tv_sec*1000000000LL + v->it_value.tv_usec*1000LL;
	it_int = v->it_interval.tv_sec*1000000000LL + v->it_interval.tv_usec*1000LL;
	it_next = d == 0 ? -1 : vtime () + d;
	if (logsig) simlog ("@IT set %lld %lld %lld", (long long)d, (long long)it_int, (long long)vtime ());
    }
    return 0;
}
unsigned __real_alarm (unsigned);
unsigned __wrap_alarm (unsigned s) {
    if (!sim_on) return __real_alarm (s);
    i64 r = it_next < 0 ? 0 : (it_next - vtime () + 999999999LL)/1000000000LL;
    it_int = 0; it_next = s == 0 ? -1 : vtime () + s*1000000000LL;
    if (logsig) simlog ("@IT set %lld 0 %lld", s*1000000000LL, (long long)vtime ());
    return r;
}

void *__real_malloc (size_t);
static void add_peer (i64 t, int kind, int fd, i64 n, const char *data) {
    if (npev == 65536) { simlog ("@SIMERR too many peer events"); sim_exit ("simerr", 99); }
    int i = npev++;
    while (i > ipev && pev[i-1].t > t) { pev[i] = pev[i-1]; i--; }
    pev[i].t = t; pev[i].kind = kind; pev[i].fd = fd; pev[i].n = n; pev[i].seq = pseq++;
    pev[i].data = NULL;
    if (data) { pev[i].data = __real_malloc (n+1); memcpy (pev[i].data, data, n); pev[i].data[n] = 0; }
}

static int run_peer (pev_t *p) {	/* returns whether a signal handler ran */
    char buf[65536]; i64 n; int sg = 0;
    ev_seq++;
    switch (p->kind) {
      case P_WRITE:
	n = syscall (SYS_write, p->fd, p->data, p->n);
	simlog ("@PW fd=%d n=%lld/%lld", p->fd, (long long)n, (long long)p->n); stat_inc ("peer_write");
	break;
      case P_CLOSE:
	syscall (SYS_close, p->fd); simlog ("@PC fd=%d", p->fd); stat_inc ("peer_close");
	break;
      case P_READ: {
	struct pollfd pf = { p->fd, POLLIN, 0 };
	i64 want = p->n < (i64)sizeof buf ? p->n : (i64)sizeof buf;
	n = -1;
	if (syscall (SYS_poll, &pf, 1, 0) > 0) n = syscall (SYS_read, p->fd, buf, want);
	{ static const char hx[] = "0123456789abcdef"; static char o[140000]; int k = sprintf (o, "@PR fd=%d n=%lld ", p->fd, (long long)n);
	  for (i64 i = 0; i < n; i++) { o[k++] = hx[(buf[i]>>4)&15]; o[k++] = hx[buf[i]&15]; }
	  o[k++] = '\n'; mixs (o, k); rawlog (o, k); }
	stat_inc ("peer_read");
	break; }
      case P_SIG:
	stat_inc ("peer_sig"); sg = deliver (p->fd, NULL);
	break;
      case P_CHILD:
	for (int i = 0; i < nvch; i++) if (vch[i].pid == p->fd && vch[i].state == 0) {
	    vch[i].state = 1; stat_inc ("child_exit"); simlog ("@CHILD pid=%d", p->fd); sg = deliver (SIGCHLD, NULL); }
	break;
    }
    free (p->data); p->data = NULL;
    return sg;
}

static i64 next_vt (void) {	/* virtual time of the next timer or peer event, or -1 */
    i64 t = it_next;
    if (ipev < npev && (t < 0 || pev[ipev].t < t)) t = pev[ipev].t;
    return t;
}
/* run everything due by now; returns number of signal handlers run */
static int run_due (void) {
    int n = 0;
    for (;;) {
	i64 v = vtime ();
	if (it_next >= 0 && it_next <= v && (ipev >= npev || it_next <= pev[ipev].t)) {
	    if (it_int > 0) { it_next += it_int; if (it_next <= v) it_next = v + it_int - (v - it_next) % it_int; }
	    else it_next = -1;
	    stat_inc ("timer");
	    if (logsig) simlog ("@IT fire %lld", (long long)v);
	    n += deliver (SIGALRM, NULL);
	}
	else if (ipev < npev && pev[ipev].t <= v) {
	    pev_t p = pev[ipev++]; n += run_peer (&p);
	}
	else break;
    }
    n += deliver_pending ();
    if (lim_vt >= 0 && vtime () > lim_vt) { simlog ("@LIMIT vt"); sim_exit ("limit", 97); }
    return n;
}
/* nothing can happen before the next event: jump to it. 0 if there is none */
static int jump_next (i64 deadline) {
    i64 t = next_vt ();
    if (deadline >= 0 && (t < 0 || deadline < t)) t = deadline;
    if (t < 0) return 0;
    i64 d = t - vtime (); if (d > 0) extra_ns += d;
    return 1;
}
static void stuck (const char *where) { simlog ("@STUCK in %s", where); sim_exit ("stuck", 98); }

/* ----------------------------------------------------------- fault points */
static cev_t none_ev = { -1, 0, -1, 0, 0 };
static cev_t *call_ev (const char *cls) {
    static int any = -1; int id;
    cev_t *r = &none_ev;
    if (!sim_on || !started) return r;
    if (any < 0) any = cls_id ("any");
    id = cls_id (cls);
    i64 n = cls_cnt[id]++, na = cls_cnt[any]++;
    for (int i = 0; i < ncev; i++)
	if (!cev[i].used && ((cev[i].cls == id && cev[i].n == n) || (cev[i].cls == any && cev[i].n == na))) {
	    char nm[24]; static const char *kn[] = { "err", "short", "kill", "sig", "eintr" };
	    cev[i].used = 1; r = &cev[i];
	    snprintf (nm, sizeof nm, "%s:%s", kn[r->kind], cls); stat_inc (nm);
	    simlog ("@F %s %lld %s %lld", cls, (long long)n, kn[r->kind], (long long)r->a);
	    ev_seq++;
	    break;
	}
    if (r->kind == C_SIG) { deliver ((int)r->a, NULL); }
    return r;
}
/* standard treatment: returns 1 if the call must return -1 with errno set */
static int std_fault (const char *cls) {
    cev_t *e = call_ev (cls);
    if (e->kind == C_ERR) { errno = (int)e->a; return 1; }
    if (e->kind == C_EINTR) { deliver ((int)e->a, NULL); errno = EINTR; return 1; }
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    return 0;
}

#include "simos.c"

static int fd_nonblock (int fd) { int fl = syscall (SYS_fcntl, fd, F_GETFL, 0); return fl >= 0 && (fl & O_NONBLOCK); }
int __real_fstat (int, struct stat *);
static int fd_plain (int fd) { struct stat st; if (__real_fstat (fd, &st) < 0) return 1; return !(S_ISFIFO (st.st_mode) || S_ISSOCK (st.st_mode)); }

/* block (in virtual time) until fd is ready; returns 0 ready, -1 interrupted */
static int wait_ready (int fd, int ev, const char *where) {
    if (!sim_on || !started || fd_plain (fd) || fd_nonblock (fd)) return 0;
    for (;;) {
	struct pollfd p = { fd, ev, 0 };
	if (syscall (SYS_poll, &p, 1, 0) != 0) return 0;
	if (run_due () > 0) return -1;
	if (syscall (SYS_poll, &p, 1, 0) != 0) return 0;
	if (!jump_next (-1)) stuck (where);
	if (run_due () > 0) return -1;
    }
}

ssize_t __real_read (int, void *, size_t);
ssize_t __wrap_read (int fd, void *buf, size_t n) {
    if (OSV) return os_read ("read", fd, buf, n);
    if (!sim_on || !started) return __real_read (fd, buf, n);
    cev_t *e = call_ev ("read");
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    if (e->kind == C_EINTR) { deliver ((int)e->a, NULL); errno = EINTR; return -1; }
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (e->kind == C_SHORT && (size_t)e->a < n && e->a > 0) n = e->a;
    if (wait_ready (fd, POLLIN, "read") < 0) { errno = EINTR; return -1; }
    return __real_read (fd, buf, n);
}
ssize_t __real_write (int, const void *, size_t);
static long long disk_left = -1;	/* space left on the simulated disk; -1: no limit */
static int on_disk (int fd) { struct stat st; return fd > 2 && syscall (SYS_fstat, fd, &st) == 0 && S_ISREG (st.st_mode); }
static ssize_t do_write (const char *cls, int fd, const void *buf, size_t n) {
    cev_t *e = call_ev (cls);
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    if (e->kind == C_EINTR) { deliver ((int)e->a, NULL); errno = EINTR; return -1; }
    if (e->kind == C_KILL) {
	size_t k = (size_t)e->a < n ? (size_t)e->a : n;
	if (e->a > 0) { ssize_t w = __real_write (fd, buf, k); (void)w; }
	sim_exit ("kill", 66);
    }
    if (e->kind == C_SHORT && (size_t)e->a < n && e->a > 0) n = e->a;
    if (wait_ready (fd, POLLOUT, "write") < 0) { errno = EINTR; return -1; }
    if (disk_left >= 0 && on_disk (fd)) {
	if (disk_left == 0 && n > 0) { stat_inc ("disk_full"); errno = ENOSPC; return -1; }
	if ((long long)n > disk_left) n = disk_left;
	disk_left -= n;
    }
    if (*cls == 'f') disk_used += n;
    ssize_t r = __real_write (fd, buf, n);
    if (r < 0 && errno == EPIPE) { deliver (SIGPIPE, NULL); errno = EPIPE; }
    return r;
}
ssize_t __wrap_write (int fd, const void *buf, size_t n) {
    if (OSV) return os_write (fd, buf, n);
    if (!sim_on || !started) return __real_write (fd, buf, n);
    return do_write ("write", fd, buf, n);
}
ssize_t __real_send (int, const void *, size_t, int);
ssize_t __wrap_send (int fd, const void *buf, size_t n, int fl) {
    if (OSV) return os_send (fd, buf, n, fl);
    if (!sim_on || !started) return __real_send (fd, buf, n, fl);
    cev_t *e = call_ev ("send");
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    if (e->kind == C_EINTR) { deliver ((int)e->a, NULL); errno = EINTR; return -1; }
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (e->kind == C_SHORT && (size_t)e->a < n && e->a > 0) n = e->a;
    if (!(fl & MSG_DONTWAIT) && wait_ready (fd, POLLOUT, "send") < 0) { errno = EINTR; return -1; }
    ssize_t r = __real_send (fd, buf, n, fl|MSG_NOSIGNAL);
    if (r < 0 && errno == EPIPE) { deliver (SIGPIPE, NULL); errno = EPIPE; }
    return r;
}
ssize_t __real_recv (int, void *, size_t, int);
ssize_t __wrap_recv (int fd, void *buf, size_t n, int fl) {
    if (OSV) return os_recv (fd, buf, n, fl);
    if (!sim_on || !started) return __real_recv (fd, buf, n, fl);
    cev_t *e = call_ev ("recv");
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    if (e->kind == C_EINTR) { deliver ((int)e->a, NULL); errno = EINTR; return -1; }
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (e->kind == C_SHORT && (size_t)e->a < n && e->a > 0) n = e->a;
    if (!(fl & MSG_DONTWAIT) && wait_ready (fd, POLLIN, "recv") < 0) { errno = EINTR; return -1; }
    return __real_recv (fd, buf, n, fl);
}
ssize_t __real_recvfrom (int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __wrap_recvfrom (int fd, void *buf, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    if (OSV) return os_recvfrom (fd, buf, n, fl, a, l);
    if (!sim_on || !started) return __real_recvfrom (fd, buf, n, fl, a, l);
    if (std_fault ("recvfrom")) return -1;
    if (!(fl & MSG_DONTWAIT) && wait_ready (fd, POLLIN, "recvfrom") < 0) { errno = EINTR; return -1; }
    return __real_recvfrom (fd, buf, n, fl, a, l);
}
int __real_accept (int, struct sockaddr *, socklen_t *);
int __wrap_accept (int fd, struct sockaddr *a, socklen_t *l) {
    if (OSV) return os_accept (fd, a, l);
    if (!sim_on || !started) return __real_accept (fd, a, l);
    if (std_fault ("accept")) return -1;
    if (wait_ready (fd, POLLIN, "accept") < 0) { errno = EINTR; return -1; }
    return __real_accept (fd, a, l);
}
int __real_connect (int, const struct sockaddr *, socklen_t);
int __wrap_connect (int fd, const struct sockaddr *a, socklen_t l) {
    if (OSV) return os_connect (fd, a, l);
    if (!sim_on || !started) return __real_connect (fd, a, l);
    if (std_fault ("connect")) return -1;
    return __real_connect (fd, a, l);
}

/* simple calls with error injection only; after a mutation the file's times are
 * set from the virtual clock so that time stamps are part of the simulation */
static void stamp_fd (int fd) {
    if (!started) return;
    i64 w = wall_ns (); struct timespec ts[2] = { { w/1000000000, w%1000000000 }, { w/1000000000, w%1000000000 } };
    struct stat st; if (__real_fstat (fd, &st) == 0 && S_ISREG (st.st_mode)) futimens (fd, ts);
}
static char dirty_fd[4096];
int __real_open (const char *, int, ...);
int __wrap_open (const char *p, int fl, ...) {
    va_list ap; va_start (ap, fl); int mode = va_arg (ap, int); va_end (ap);
    if (OSV) return os_open (p, fl, mode);
    if (!sim_on || !started) return __real_open (p, fl, mode);
    if (std_fault ("open")) return -1;
    int fd = __real_open (p, fl, mode);
    if (fd >= 0 && fd < 4096) { dirty_fd[fd] = (fl & O_ACCMODE) != O_RDONLY; if (dirty_fd[fd]) stamp_fd (fd); }
    return fd;
}
int __real_close (int);
int __wrap_close (int fd) {
    if (OSV) return os_close (fd);
    if (!sim_on || !started) return __real_close (fd);
    cev_t *e = call_ev ("close");
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (fd >= 0 && fd < 4096 && dirty_fd[fd]) { stamp_fd (fd); dirty_fd[fd] = 0; }
    int r = __real_close (fd);
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    return r;
}
#define SIMPLE2(name, T1, T2) \
int __real_##name (T1, T2); \
int __wrap_##name (T1 a, T2 b) { if (OSV) return os_##name (a, b); if (std_fault (#name)) return -1; return __real_##name (a, b); }
#define SIMPLE1(name, T1) \
int __real_##name (T1); \
int __wrap_##name (T1 a) { if (OSV) return os_##name (a); if (std_fault (#name)) return -1; return __real_##name (a); }
SIMPLE2(rename, const char *, const char *)
SIMPLE1(unlink, const char *)
SIMPLE2(mkdir, const char *, mode_t)
SIMPLE1(rmdir, const char *)
SIMPLE1(fsync, int)
SIMPLE2(ftruncate, int, off_t)
SIMPLE2(utimes, const char *, const struct timeval *)
/* what the simulation does not control is made the same in every run: file numbers and the times of devices */
static void norm_stat (struct stat *st) {
    static struct { dev_t d; ino_t i; } seen[8192]; static int nseen; int k;
    for (k = 0; k < nseen; k++) if (seen[k].d == st->st_dev && seen[k].i == st->st_ino) break;
    if (k == nseen && nseen < 8192) { seen[nseen].d = st->st_dev; seen[nseen].i = st->st_ino; nseen++; }
    st->st_dev = 1; st->st_ino = 1000 + k;
    if (!S_ISREG (st->st_mode)) { st->st_mtim.tv_sec = epoch_s; st->st_mtim.tv_nsec = 0; }
    st->st_atim = st->st_ctim = st->st_mtim;
}
#define STAT(name, T1) \
int __real_##name (T1, struct stat *); \
int __wrap_##name (T1 a, struct stat *b) { \
    if (OSV) return os_stat (#name, a, 0, b); \
    if (std_fault ("stat")) return -1; \
    int r = __real_##name (a, b); if (sim_on && r == 0) norm_stat (b); return r; }
int __wrap_stat (const char *, struct stat *);
int __wrap_fstat (int, struct stat *);
int __wrap_lstat (const char *, struct stat *);
STAT(stat, const char *)
int __real_fstat (int, struct stat *);
int __wrap_fstat (int a, struct stat *b) {
    if (OSV) return os_stat ("fstat", NULL, a, b);
    if (std_fault ("stat")) return -1;
    int r = __real_fstat (a, b);
    if (sim_on && r == 0) {
	norm_stat (b);
	if (a <= 2) { b->st_mtim.tv_sec = epoch_s; b->st_mtim.tv_nsec = 0; b->st_atim = b->st_ctim = b->st_mtim; }
    }
    return r;
}
STAT(lstat, const char *)
SIMPLE2(access, const char *, int)

/* stdio: the runtime's FILE streams go through cookies so that faults act on the
 * system calls below the real stdio buffering */
static ssize_t ck_read (void *c, char *b, size_t n) {
    int fd = (int)(intptr_t)c; cev_t *e = call_ev ("fread");
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (e->kind == C_SHORT && (size_t)e->a < n && e->a > 0) n = e->a;
    return __real_read (fd, b, n);
}
static ssize_t ck_write (void *c, const char *b, size_t n) {
  /* as stdio does on a file descriptor: go on after a partial transfer until all is written or a write fails */
    int fd = (int)(intptr_t)c; size_t k = 0;
    while (k < n) {
	ssize_t r = do_write ("fwrite", fd, b + k, n - k);
	if (r <= 0) break;
	k += r;
    }
    return k;
}
static int ck_seek (void *c, off64_t *o, int w) {
    int fd = (int)(intptr_t)c; cev_t *e = call_ev ("fseek");
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    off64_t r = lseek64 (fd, *o, w); if (r < 0) return -1; *o = r; return 0;
}
static int ck_close (void *c) {
    int fd = (int)(intptr_t)c; cev_t *e = call_ev ("fclose");
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    int r = __real_close (fd);
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    return r;
}
FILE *__real_fopen (const char *, const char *);
FILE *__wrap_fopen (const char *p, const char *m) {
    if (!sim_on) return __real_fopen (p, m);
    if (std_fault ("fopen")) return NULL;
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY|O_CREAT|O_TRUNC : O_WRONLY|O_CREAT|O_APPEND;
    if (strchr (m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = __real_open (p, fl, 0666);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie ((void *)(intptr_t)fd, m, io);
    if (!f) __real_close (fd);
    return f;
}

/* memory */
void *__real_mmap (void *, size_t, int, int, int, off_t);
int __real_munmap (void *, size_t);
static i64 mem_now, mem_cap = -1, mem_max = -1;	/* bytes mapped; most that may be mapped; largest request granted */
void *__wrap_mmap (void *a, size_t n, int p, int f, int fd, off_t o) {
    if (sim_on && started) {
	cev_t *e = call_ev ("mmap");
	if (e->kind == C_ERR) { errno = (int)e->a; return MAP_FAILED; }
	if ((mem_cap >= 0 && mem_now + (i64)n > mem_cap) || (mem_max >= 0 && (i64)n > mem_max)) {
	    stat_inc ("refused:mmap"); simlog ("@MEM refused"); ev_seq++;
	    errno = ENOMEM; return MAP_FAILED;
	}
    }
    void *r = __real_mmap (a, n, p, f, fd, o);
    if (r != MAP_FAILED) mem_now += n;
    return r;
}
int __wrap_munmap (void *a, size_t n) {
    int r = __real_munmap (a, n);
    if (r == 0) mem_now -= n;
    return r;
}
void *__real_malloc (size_t);
void *__wrap_malloc (size_t n) {
    if (sim_on && started) { cev_t *e = call_ev ("malloc"); if (e->kind == C_ERR) { errno = ENOMEM; return NULL; } }
    return __real_malloc (n);
}
void *__real_calloc (size_t, size_t);
void *__wrap_calloc (size_t m, size_t n) {
    if (sim_on && started) { cev_t *e = call_ev ("malloc"); if (e->kind == C_ERR) { errno = ENOMEM; return NULL; } }
    return __real_calloc (m, n);
}

/* clocks */
int __real_gettimeofday (struct timeval *, void *);
int __wrap_gettimeofday (struct timeval *tv, void *tz) {
    if (!sim_on) return __real_gettimeofday (tv, tz);
    i64 w = wall_ns (); tv->tv_sec = w/1000000000; tv->tv_usec = (w%1000000000)/1000; return 0;
}
time_t __real_time (time_t *);
time_t __wrap_time (time_t *t) {
    if (OSV) { VV ("time"); oarrow (); time_t r = (time_t)rbits (31); oi (r); oend (); if (t) *t = r; return r; }
    if (!sim_on) return __real_time (t);
    time_t w = wall_ns ()/1000000000; if (t) *t = w; return w;
}
int __real_getrusage (int, struct rusage *);
static i64 rucost, cpu0;
int __wrap_getrusage (int who, struct rusage *ru) {
    if (!sim_on) return __real_getrusage (who, ru);
    /* a quarter of the time is the system's; asking costs time, so that a collection does */
    if (started) extra_ns += rucost;
    memset (ru, 0, sizeof *ru); i64 v = vtime () + cpu0, y = v/4; v -= y;
    ru->ru_utime.tv_sec = v/1000000000; ru->ru_utime.tv_usec = (v%1000000000)/1000;
    ru->ru_stime.tv_sec = y/1000000000; ru->ru_stime.tv_usec = (y%1000000000)/1000; return 0;
}
clock_t __real_times (struct tms *);
clock_t __wrap_times (struct tms *t) {
    if (OSV) return os_times (t);
    if (!sim_on) return __real_times (t);
    memset (t, 0, sizeof *t); t->tms_utime = vtime ()/10000000; return vtime ()/10000000;
}
int __real_pause (void);
int __wrap_pause (void) {
    if (!sim_on || !started) return __real_pause ();
    cev_t *e = call_ev ("pause");
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (e->kind == C_EINTR) { deliver ((int)e->a, NULL); errno = EINTR; return -1; }
    for (;;) {
	if (run_due () > 0) break;
	if (!jump_next (-1)) stuck ("pause");
	if (run_due () > 0) break;
    }
    errno = EINTR; return -1;
}
int __real_nanosleep (const struct timespec *, struct timespec *);
int __wrap_nanosleep (const struct timespec *a, struct timespec *rem) {
    if (!sim_on || !started) return __real_nanosleep (a, rem);
    i64 end = vtime () + a->tv_sec*1000000000LL + a->tv_nsec;
    cev_t *e = call_ev ("nanosleep");
    int intr = 0;
    if (a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999) { errno = EINVAL; return -1; }
    if (e->kind == C_EINTR) {	/* interrupted somewhere in the middle */
	i64 d = (end - vtime ())/2, t = next_vt (); if (t >= 0 && t - vtime () < d) d = t - vtime ();
	if (d > 0) extra_ns += d;
	run_due (); deliver ((int)e->a, NULL); intr = 1;
    }
    while (!intr) {
	if (run_due () > 0) { intr = 1; break; }
	if (vtime () >= end) break;
	jump_next (end);
	if (run_due () > 0) { intr = 1; break; }
    }
    if (intr) {
	i64 r = end - vtime (); if (r < 0) r = 0;
	if (rem) { rem->tv_sec = r/1000000000; rem->tv_nsec = r%1000000000; }
	errno = EINTR; return -1;
    }
    return 0;
}
int __real_select (int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select (int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    if (OSV) return os_select (n, r, w, x, tv);
    if (!sim_on || !started) return __real_select (n, r, w, x, tv);
    if (std_fault ("select")) return -1;
    fd_set r0, w0, x0; if (r) r0 = *r; if (w) w0 = *w; if (x) x0 = *x;
    i64 end = tv ? vtime () + tv->tv_sec*1000000000LL + tv->tv_usec*1000LL : -1;
    for (;;) {
	struct timeval z = { 0, 0 };
	if (r) *r = r0;
	if (w) *w = w0;
	if (x) *x = x0;
	int k = __real_select (n, r, w, x, &z);
	if (k != 0) return k;
	if (end >= 0 && vtime () >= end) return 0;
	if (run_due () > 0) { errno = EINTR; return -1; }
	struct timeval z2 = { 0, 0 };
	if (r) *r = r0;
	if (w) *w = w0;
	if (x) *x = x0;
	k = __real_select (n, r, w, x, &z2); if (k != 0) return k;
	if (!jump_next (end)) stuck ("select");
	if (run_due () > 0) { errno = EINTR; return -1; }
    }
}

/* a group with as many members as the plan says (name service stub) */
#include <grp.h>
static int grp_n = 0, grp_len = 8;
static struct group *mkgrp (struct group *g) {
    static struct group r; static char **v;
    if (!sim_on || !started || grp_n == 0 || !g) return g;
    r = *g;
    if (!v) {
	v = calloc (grp_n + 1, sizeof *v);
	for (int i = 0; i < grp_n; i++) { v[i] = calloc (1, grp_len + 16); int k = sprintf (v[i], "m%d", i); while (k < grp_len) { v[i][k] = 'a' + (k + i) % 26; k++; } }
    }
    r.gr_mem = v; return &r;
}
struct group *__real_getgrnam (const char *);
struct group *__wrap_getgrnam (const char *n) { if (OSV) { VV ("getgrnam"); ostr (n); return os_gr (); } return mkgrp (__real_getgrnam (n)); }
struct group *__real_getgrgid (gid_t);
struct group *__wrap_getgrgid (gid_t g) { if (OSV) { VV ("getgrgid"); ou (g); return os_gr (); } return mkgrp (__real_getgrgid (g)); }

/* processes: children are stubs whose life time and status come from the plan */
pid_t __real_fork (void);
pid_t __wrap_fork (void) {
    if (OSV) return os_fork ();
    if (!sim_on || !started) return __real_fork ();
    if (std_fault ("fork")) return -1;
    int i = nvch++; if (i >= 4096) { errno = EAGAIN; return -1; }
    child_t c = nchildplan ? childplan[i % nchildplan] : (child_t){ 1000000, 0 };
    vch[i].pid = 100001 + i; vch[i].status = c.status; vch[i].state = 0;
    add_peer (vtime () + c.delay, P_CHILD, vch[i].pid, 0, NULL);
    simlog ("@FORK pid=%d status=%d", vch[i].pid, c.status);
    return vch[i].pid;
}
pid_t __real_waitpid (pid_t, int *, int);
pid_t __wrap_waitpid (pid_t pid, int *st, int opt) {
    if (OSV) return os_waitpid (pid, st, opt);
    if (!sim_on || !started) return __real_waitpid (pid, st, opt);
    /* a signal interrupts the wait only if it is handled, and if the wait has to wait */
    cev_t *e = call_ev ("waitpid"); int cut = 0;
    if (e->kind == C_ERR) { errno = (int)e->a; return -1; }
    if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (e->kind == C_EINTR) cut = deliver ((int)e->a, NULL) > 0;
    for (;;) {
	int live = 0;
	for (int i = 0; i < nvch; i++) if (pid == -1 || pid == 0 || vch[i].pid == pid) {
	    if (vch[i].state == 1) { vch[i].state = 2; if (st) *st = vch[i].status; simlog ("@REAP pid=%d", vch[i].pid); return vch[i].pid; }
	    if (vch[i].state == 0) live = 1;
	}
	if (!live) { errno = ECHILD; return -1; }
	if (opt & WNOHANG) return 0;
	if (cut) { errno = EINTR; return -1; }
	if (run_due () > 0) {
	    /* a blocking wait interrupted by a handled signal other than by a ready child */
	    int rdy = 0; for (int i = 0; i < nvch; i++) if ((pid == -1 || pid == 0 || vch[i].pid == pid) && vch[i].state == 1) rdy = 1;
	    if (rdy) continue;
	    errno = EINTR; return -1;
	}
	int rdy = 0; for (int i = 0; i < nvch; i++) if ((pid == -1 || pid == 0 || vch[i].pid == pid) && vch[i].state == 1) rdy = 1;
	if (rdy) continue;
	if (!jump_next (-1)) stuck ("waitpid");
    }
}
int __real_kill (pid_t, int);
int __wrap_kill (pid_t pid, int s) {
    if (OSV) return os_kill (pid, s);
    if (!sim_on || !started) return __real_kill (pid, s);
    if (pid == sim_pid) { if (s) deliver (s, NULL); return 0; }
    for (int i = 0; i < nvch; i++) if (vch[i].pid == pid && vch[i].state < 2) {
	simlog ("@KILL pid=%d sig=%d", pid, s);
	if (s && vch[i].state == 0) { vch[i].status = s; vch[i].state = 1; deliver (SIGCHLD, NULL); }
	return 0;
    }
    errno = ESRCH; return -1;
}

/* ------------------------------------------------------ exact signal arrival */
static volatile i64 tf_left = -1; static int tf_sig; static volatile int tf_armed = 0;
static i64 tf_inml, tf_inc;
extern vproc_state_t *VProc[];
static void on_trap (int s, siginfo_t *si, void *c) {
    ucontext_t *uc = (ucontext_t *)c;
    if (!tf_armed) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; return; }
    if (tf_left-- <= 0) {
	uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
	tf_armed = 0;
	if (VProc[0]->vp_inMLFlag) tf_inml++; else tf_inc++;
	deliver (tf_sig, uc);
	return;
    }
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void arm_tf (int sig, i64 n) {
    static int inst = 0;
    if (!inst) {
	struct sigaction sa; memset (&sa, 0, sizeof sa);
	sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = on_trap; __real_sigaction (SIGTRAP, &sa, NULL); inst = 1;
    }
    if (tf_armed) return;	/* one at a time */
    tf_sig = sig; tf_left = n; tf_armed = 1;
    raise (SIGTRAP);
}

/* ------------------------------------------------------------ ML <-> C */
static i64 trap_req_sig = -1, trap_req_n;
extern int __real_restoreregs (ml_state_t *);

static void fire_alloc (ml_state_t *msp, aev_t *e) {
    ev_seq++; mix (e->kind); mix (clk);
    switch (e->kind) {
      case A_SIG: stat_inc ("sig"); deliver ((int)e->a, NULL); break;
      case A_JUMP: stat_inc ("clockjump"); wall_off += e->a; if (logsig) simlog ("@J %lld", (long long)wall_off); break;
      case A_ADV: stat_inc ("stall"); extra_ns += e->a; break;
      default: break;
    }
}

int __wrap_restoreregs (ml_state_t *msp)
{
    int req, at_trap = 0;
    static int pend_gc = -1;
    if (!sim_on || !started) return __real_restoreregs (msp);
    ncalls++;
    if (lim_calls >= 0 && ncalls > lim_calls) { simlog ("@LIMIT calls"); sim_exit ("limit", 97); }
    for (;;) {
	int want_tf = 0; i64 tfn = 0; int tfs = 0;
	run_due ();
	while (iaev < naev && aev[iaev].pos <= clk) {
	    aev_t *e = &aev[iaev++];
	    if (e->kind == A_GC) { if ((int)e->a > pend_gc) pend_gc = (int)e->a; }
	    else if (e->kind == A_SIGX) { want_tf = 1; tfs = (int)e->a; tfn = e->b; ev_seq++; mix (clk); stat_inc ("sigx"); }
	    else fire_alloc (msp, e);
	}
	if (trap_req_sig >= 0) {
	    if (tf_armed) { tf_armed = 0; deliver (tf_sig, NULL); }
	    if (want_tf) deliver (tfs, NULL); want_tf = 1; tfs = (int)trap_req_sig; tfn = trap_req_n; trap_req_sig = -1; stat_inc ("trap"); }
	if (pend_gc >= 0 && at_trap) {
	    int level = pend_gc; pend_gc = -1;
	    ev_seq++; mix (clk); stat_inc (level == 0 ? "gc_minor" : "gc_major");
	    InvokeGC (msp, level);
	    if (logsig && level > 0) simlog ("@COL");	/* minor ones are not timed */
	}
	run_due ();
	if (lim_clk >= 0 && clk > lim_clk) { simlog ("@LIMIT alloc"); sim_exit ("limit", 97); }
	/* how far may ML run? */
	i64 k = (i64)1 << 40;
	if (iaev < naev && aev[iaev].pos - clk < k) k = aev[iaev].pos - clk;
	if (lim_clk >= 0 && lim_clk + 1 - clk < k) k = lim_clk + 1 - clk;
	{ i64 t = next_vt (); if (t >= 0) { i64 d = t - vtime (); i64 b = d <= 0 ? 8 : d/nspb + 1; if (b < k) k = b; } }
	if (pend_gc >= 0 || k < 8) k = 8;
	k = (k + 7) & ~(i64)7;
	ml_val_t *real_lim = msp->ml_limitPtr, *a0 = msp->ml_allocPtr;
	ml_val_t *my_lim = real_lim;
	if (real_lim > a0 && (ml_val_t *)((char *)a0 + k) < real_lim) my_lim = (ml_val_t *)((char *)a0 + k);
	msp->ml_limitPtr = my_lim;
	if (want_tf) arm_tf (tfs, tfn);
	req = __real_restoreregs (msp);
	clk += (char *)msp->ml_allocPtr - (char *)a0;
	if (my_lim != real_lim && msp->ml_limitPtr == my_lim) {
	    msp->ml_limitPtr = real_lim;
	    if (req == REQ_GC && !msp->ml_vproc->vp_handlerPending && msp->ml_allocPtr < real_lim) {
		at_trap = 1;	/* a trap made by the simulator at a safe point */
		ncalls++;
		continue;
	    }
	}
	mix (req);
	return req;
    }
}

bool_t __real_NeedGC (ml_state_t *, Word_t);
bool_t __wrap_NeedGC (ml_state_t *msp, Word_t n) {
    /* the runtime guarantees 8 KB before a C call, so smaller requests never have to collect */
    if (sim_on && started && n >= 8*ONE_K) {
	i64 k = need_cnt++;
	for (int i = 0; i < nnev; i++) if (nev[i] == k) { stat_inc ("gc_needgc"); ev_seq++; mix (clk); return TRUE; }
    }
    return __real_NeedGC (msp, n);
}

/* the collector's signal */
void __real_GCSignal (vproc_state_t *, int);
void __wrap_GCSignal (vproc_state_t *vsp, int n) {
    if (sim_on && started && logsig) simlog ("@G %d", n);
    __real_GCSignal (vsp, n);
}

/* --------------------------------------------------- functions called by ML */
static ml_val_t f_log (ml_state_t *msp, ml_val_t arg) {
    static char b[1<<16]; int n = GET_SEQ_LEN(arg); if (n > (1<<16) - 2) n = (1<<16) - 2;
    memcpy (b, STR_MLtoC(arg), n); b[n] = '\n';
    ev_seq++; mixs (b, n+1); rawlog (b, n+1);
    return ML_unit;
}
static ml_val_t f_start (ml_state_t *msp, ml_val_t arg) {
    if (sim_on && !started) { started = 1; clk = 0; ncalls = 0; simlog ("#START %lld", (long long)((char *)msp->ml_limitPtr - (char *)msp->ml_allocPtr)); }
    return ML_unit;
}
static ml_val_t f_stop (ml_state_t *msp, ml_val_t arg) {	/* end of the faulty phase */
    iaev = naev; ncev = 0; nnev = 0; osv = 0;
    return ML_unit;
}
static ml_val_t f_now (ml_state_t *msp, ml_val_t arg) { return INT_CtoML(vtime ()/1000); }
static ml_val_t f_seq (ml_state_t *msp, ml_val_t arg) { return INT_CtoML(++ev_seq); }
static ml_val_t f_clk (ml_state_t *msp, ml_val_t arg) { return INT_CtoML(clk); }
static ml_val_t f_peerw (ml_state_t *msp, ml_val_t arg) {	/* (fd, us from now, data) */
    ml_val_t s = REC_SEL(arg, 2);
    add_peer (vtime () + REC_SELINT(arg, 1)*1000LL, P_WRITE, REC_SELINT(arg, 0), GET_SEQ_LEN(s), STR_MLtoC(s));
    return ML_unit;
}
static ml_val_t f_peerc (ml_state_t *msp, ml_val_t arg) {	/* (fd, us) */
    add_peer (vtime () + REC_SELINT(arg, 1)*1000LL, P_CLOSE, REC_SELINT(arg, 0), 0, NULL);
    return ML_unit;
}
static ml_val_t f_peerr (ml_state_t *msp, ml_val_t arg) {	/* (fd, us, n) */
    add_peer (vtime () + REC_SELINT(arg, 1)*1000LL, P_READ, REC_SELINT(arg, 0), REC_SELINT(arg, 2), NULL);
    return ML_unit;
}
static ml_val_t f_peers (ml_state_t *msp, ml_val_t arg) {	/* (sig, us) */
    add_peer (vtime () + REC_SELINT(arg, 1)*1000LL, P_SIG, REC_SELINT(arg, 0), 0, NULL);
    return ML_unit;
}
static ml_val_t f_trap (ml_state_t *msp, ml_val_t arg) {	/* (sig, instructions): exact arrival after the return to ML */
    trap_req_sig = REC_SELINT(arg, 0); trap_req_n = REC_SELINT(arg, 1); return ML_unit;
}
static ml_val_t f_gc (ml_state_t *msp, ml_val_t arg) { return ML_unit; }
static cfunc_binding_t simfuns[] = {
    { "log", f_log }, { "start", f_start }, { "stop", f_stop }, { "now", f_now }, { "seq", f_seq }, { "clk", f_clk },
    { "peerw", f_peerw }, { "peerc", f_peerc }, { "peerr", f_peerr }, { "peers", f_peers }, { "gc", f_gc }, { "trap", f_trap },
    { NULL, NULL }
};
ml_val_t __real_BindCFun (char *, char *);
ml_val_t __wrap_BindCFun (char *m, char *f) {
    if (!strcmp (m, "SIM"))
	for (int i = 0; simfuns[i].name; i++) if (!strcmp (simfuns[i].name, f)) return PTR_CtoML(&simfuns[i]);
    return __real_BindCFun (m, f);
}

/* ---------------------------------------------------------------- start up */
static void at_exit_fn (void) { dump_stats ("exit", -1); }
void __real_exit (int) __attribute__((noreturn));
void __wrap_exit (int c) { dump_stats ("exit", c); __real_exit (c); }

static void parse_plan (const char *path) {
    int fd = syscall (SYS_open, path, O_RDONLY, 0); if (fd < 0) { dprintf (2, "simrt: no plan %s\n", path); _exit (99); }
    struct stat st; __real_fstat (fd, &st);
    char *b = malloc (st.st_size + 2); ssize_t n = 0;
    while (n < st.st_size) { ssize_t k = syscall (SYS_read, fd, b+n, st.st_size-n); if (k <= 0) break; n += k; }
    b[n] = 0; syscall (SYS_close, fd);
    int lines = 1; for (ssize_t i = 0; i < n; i++) if (b[i] == '\n') lines++;
    aev = calloc (lines, sizeof *aev); cev = calloc (lines, sizeof *cev); nev = calloc (lines, sizeof *nev);
    char *save, *l = strtok_r (b, "\n", &save);
    for (; l; l = strtok_r (NULL, "\n", &save)) {
	char c1[64], c2[64]; long long x = 0, y = 0, z = 0;
	if (sscanf (l, "A %lld %63s %lld %lld", &x, c1, &y, &z) >= 2) {
	    aev_t *e = &aev[naev++]; e->pos = x; e->a = y; e->b = z;
	    e->kind = !strcmp(c1,"gc")?A_GC:!strcmp(c1,"sig")?A_SIG:!strcmp(c1,"sigx")?A_SIGX:!strcmp(c1,"jump")?A_JUMP:A_ADV;
	}
	else if (sscanf (l, "C %63s %lld %63s %lld", c1, &x, c2, &y) >= 3) {
	    cev_t *e = &cev[ncev++]; e->cls = cls_id (c1); e->n = x; e->a = y; e->used = 0;
	    e->kind = !strcmp(c2,"err")?C_ERR:!strcmp(c2,"short")?C_SHORT:!strcmp(c2,"kill")?C_KILL:!strcmp(c2,"sig")?C_SIG:C_EINTR;
	}
	else if (sscanf (l, "N %lld", &x) == 1) nev[nnev++] = x;
	else if (sscanf (l, "K %lld %lld", &x, &y) == 2 && nchildplan < 256) { childplan[nchildplan].delay = x*1000; childplan[nchildplan++].status = (int)y; }
	else if (sscanf (l, "P %lld sig %lld", &x, &y) == 2) add_peer (x*1000, P_SIG, (int)y, 0, NULL);
	else if (sscanf (l, "grp %lld %lld", &x, &y) == 2) { grp_n = (int)x; grp_len = (int)y; }
	else if (sscanf (l, "vals %lld", &x) == 1) { osv = 1; os_rng = (uint64_t)x * 2654435761ULL + 88172645463325252ULL; rv (); rv (); }
	else if (sscanf (l, "nspb %lld", &x) == 1) nspb = x;
	else if (sscanf (l, "nspc %lld", &x) == 1) nspc = x;
	else if (sscanf (l, "epoch %lld", &x) == 1) epoch_s = x;
	else if (sscanf (l, "limit_alloc %lld", &x) == 1) lim_clk = x;
	else if (sscanf (l, "rucost %lld", &x) == 1) rucost = x;
	else if (sscanf (l, "cpu0 %lld", &x) == 1) cpu0 = x;
	else if (sscanf (l, "memcap %lld", &x) == 1) mem_cap = x;
	else if (sscanf (l, "memmax %lld", &x) == 1) mem_max = x;
	else if (sscanf (l, "limit_calls %lld", &x) == 1) lim_calls = x;
	else if (sscanf (l, "limit_vt %lld", &x) == 1) lim_vt = x*1000;
	else if (sscanf (l, "disk %lld", &x) == 1) disk_left = x;
	else if (!strncmp (l, "ign ", 4)) { char *q = l + 4; while (*q) { long v = strtol (q, &q, 10); if (v > 0 && v < 65) vsig[v].sa.sa_handler = SIG_IGN; else break; } }
	else if (!strcmp (l, "autostart")) started = 1;
	else if (!strcmp (l, "logsig")) logsig = 1;
    }
}

__attribute__((constructor)) static void sim_init (int argc, char **argv, char **envp) {
    const char *p = getenv ("SIM_PLAN"), *o = getenv ("SIM_OUT");
    if (!p) return;
    int pers = personality (0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv ("SIM_REEXEC")) {
	if (personality (pers | ADDR_NO_RANDOMIZE) != -1) {
	    setenv ("SIM_REEXEC", "1", 1); execve ("/proc/self/exe", argv, environ);
	}
    }
    sim_on = 1; sim_pid = (pid_t)syscall (SYS_getpid);
    static char pbuf[4096], obuf[4096];
    snprintf (pbuf, sizeof pbuf, "%s", p); p = pbuf; if (o) { snprintf (obuf, sizeof obuf, "%s", o); o = obuf; }
    unsetenv ("SIM_PLAN"); unsetenv ("SIM_OUT"); unsetenv ("SIM_REEXEC");
    sigemptyset (&vmask);
    for (int s = 1; s < 65; s++) { memset (&vsig[s], 0, sizeof vsig[s]); vsig[s].sa.sa_handler = SIG_DFL; }
    signal (SIGPIPE, SIG_IGN);
    parse_plan (p);
    if (o) { int fd = syscall (SYS_open, o, O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC, 0644); logfd = dup2 (fd, 900); if (logfd >= 0) syscall (SYS_close, fd); else logfd = fd; }
    atexit (at_exit_fn);
}
