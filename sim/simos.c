/* simos.c -- a simulated operating system interface (included by simrt.c).
 *
 * With the plan header "vals SEED" every system call listed here is answered by the simulator while the
 * workload runs (between Sim.start and Sim.stop): the values handed back are drawn from the seed, and each call is
 * logged with the arguments that reached the system and the answer that was given:
 *	@O <call> <arguments> -> <results>
 * The workload logs the same line (M <call> ...) with the arguments it passed and the results it got; the check
 * compares the two.  Errors are injected by plan events of class "os".
 */
#include <dirent.h>
#include <pwd.h>
#include <grp.h>
#include <termios.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <sys/utsname.h>

static int	osv = 0;		/* stubs active (once started) */
static uint64_t	os_rng = 88172645463325252ULL;
static int	os_fat = 1;		/* size factor of returned strings */

static uint64_t rv (void) {
    os_rng ^= os_rng << 13; os_rng ^= os_rng >> 7; os_rng ^= os_rng << 17;
    return os_rng * 2685821657736338717ULL >> 11;
}
static i64 rn (i64 n) { return (i64)(rv () % (uint64_t)n); }
/* numbers of all magnitudes up to 2^bits - 1 */
static uint64_t rbits (int bits) { int b = 1 + (int)rn (bits); return rv () & ((b >= 53) ? ~0ULL : ((1ULL << b) - 1)) & (((uint64_t)1 << bits) - 1); }
static const char *lits[] = { "abc", "abcd", "x", "abcdefghi", "q2345678", "q2345678q2345678" };
static int rlit (char *b, size_t lo, size_t hi) {	/* one of some fixed strings, now and then: its length or -1 */
    if (rn (6)) return -1;
    const char *s = lits[rn (6)]; size_t k = strlen (s);
    if (k < lo || k > hi) return -1;
    memcpy (b, s, k); return (int)k;
}
static char *rstr (char *b, int lo, int hi) {
    int z = rlit (b, lo, hi); if (z >= 0) { b[z] = 0; return b; }
    int n = lo + (int)rn (hi - lo + 1), i;
    for (i = 0; i < n; i++) { int c = 1 + (int)rn (255); if (c == '/') c = '_'; b[i] = (char)c; }
    b[n] = 0; return b;
}

static char	ob[1<<17]; static int on;
static void ostart (const char *nm) { on = sprintf (ob, "@O %s", nm); }
static void oi (i64 v) { on += sprintf (ob + on, " %lld", (long long)v); }
static void ou (uint64_t v) { on += sprintf (ob + on, " %llu", (unsigned long long)v); }
static void ow (const char *w) { on += sprintf (ob + on, " %s", w); }
static void obytes (const void *p, size_t n) {
    const unsigned char *s = p;
    if (n <= 24) { ob[on++] = ' '; ob[on++] = 'x'; for (size_t i = 0; i < n; i++) on += sprintf (ob + on, "%02x", s[i]); ob[on] = 0; }
    else { uint64_t h = 7; for (size_t i = 0; i < n; i++) h = (h * 257 + s[i]) % 1000003; on += sprintf (ob + on, " h%zu:%llu", n, (unsigned long long)h); }
}
static void ostr (const char *s) { obytes (s, strlen (s)); }
static void oarrow (void) { on += sprintf (ob + on, " ->"); }
static void oend (void) { ob[on++] = '\n'; mixs (ob, on); rawlog (ob, on); ev_seq++; }

#define OSV (osv && started)
/* the fault, if any, of this call: 1 = fail with errno set (logged) */
static int alt_a, alt_b;
static void os_alt (int a, int b) { alt_a = a; alt_b = b; }	/* error a has a special meaning for this call: use b */
static int osfault (void) {
    cev_t *e = call_ev ("os"); int er = 0;
    if (e->kind == C_ERR) er = (int)e->a;
    else if (e->kind == C_EINTR) { deliver ((int)e->a, NULL); er = EINTR; }
    else if (e->kind == C_KILL) sim_exit ("kill", 66);
    if (er && er == alt_a) er = alt_b;
    alt_a = 0;
    if (!er) { oarrow (); return 0; }
    on += sprintf (ob + on, " -> err %d", er); ostr (strerror (er)); oend ();
    errno = er; return 1;
}
/* what a successful call leaves in errno is not specified */
static void osgarb (void) { errno = (int)rn (30) + 1; }

/* calls without a result */
int __real_chdir (const char *);
int __wrap_chdir (const char *p) { if (OSV) { ostart ("chdir"); ostr (p); if (osfault ()) return -1; ow ("ok"); oend (); osgarb (); return 0; }
    if (std_fault ("chdir")) return -1;
    return __real_chdir (p); }
#define VV(nm) ostart (nm)
#define VEND do { if (osfault ()) return -1; ow ("ok"); oend (); osgarb (); return 0; } while (0)
int __real_chmod (const char *, mode_t);
int __wrap_chmod (const char *p, mode_t m) { if (OSV) { VV ("chmod"); ostr (p); ou (m); VEND; } if (std_fault ("chmod")) return -1; return __real_chmod (p, m); }
int __real_fchmod (int, mode_t);
int __wrap_fchmod (int f, mode_t m) { if (OSV) { VV ("fchmod"); oi (f); ou (m); VEND; } if (std_fault ("chmod")) return -1; return __real_fchmod (f, m); }
int __real_chown (const char *, uid_t, gid_t);
int __wrap_chown (const char *p, uid_t u, gid_t g) { if (OSV) { VV ("chown"); ostr (p); ou (u); ou (g); VEND; } if (std_fault ("chown")) return -1; return __real_chown (p, u, g); }
int __real_fchown (int, uid_t, gid_t);
int __wrap_fchown (int f, uid_t u, gid_t g) { if (OSV) { VV ("fchown"); oi (f); ou (u); ou (g); VEND; } if (std_fault ("chown")) return -1; return __real_fchown (f, u, g); }
int __real_link (const char *, const char *);
int __wrap_link (const char *a, const char *b) { if (OSV) { VV ("link"); ostr (a); ostr (b); VEND; } if (std_fault ("link")) return -1; return __real_link (a, b); }
int __real_symlink (const char *, const char *);
int __wrap_symlink (const char *a, const char *b) { if (OSV) { VV ("symlink"); ostr (a); ostr (b); VEND; } if (std_fault ("symlink")) return -1; return __real_symlink (a, b); }
int __real_mkfifo (const char *, mode_t);
int __wrap_mkfifo (const char *p, mode_t m) { if (OSV) { VV ("mkfifo"); ostr (p); ou (m); VEND; } if (std_fault ("mkfifo")) return -1; return __real_mkfifo (p, m); }

static int os_rename (const char *a, const char *b) { VV ("rename"); ostr (a); ostr (b); VEND; }
static int os_unlink (const char *a) { VV ("unlink"); ostr (a); VEND; }
static int os_rmdir (const char *a) { VV ("rmdir"); ostr (a); VEND; }
static int os_mkdir (const char *a, mode_t m) { VV ("mkdir"); ostr (a); ou (m); VEND; }
static int os_fsync (int f) { VV ("fsync"); oi (f); VEND; }
static int os_ftruncate (int f, off_t n) { VV ("ftruncate"); oi (f); oi (n); VEND; }
static int os_close (int f) { VV ("close"); oi (f); VEND; }
static int os_utimes (const char *p, const struct timeval *t) {
    VV ("utimes"); ostr (p);
    if (!t) ow ("now"); else { ou (t[0].tv_sec*1000000ULL + t[0].tv_usec); ou (t[1].tv_sec*1000000ULL + t[1].tv_usec); if (t[0].tv_usec > 999999 || t[1].tv_usec > 999999) ow ("BADUSEC"); }
    VEND;
}
static int os_access (const char *p, int m) {
    VV ("access"); ostr (p); oi (m);
    cev_t *e = call_ev ("os"); oarrow ();
    int r = e->kind == C_ERR ? -1 : rn (2) ? 0 : -1;
    oi (r == 0); oend (); if (r) errno = e->kind == C_ERR ? (int)e->a : EACCES; else osgarb ();
    return r;
}
static int os_open (const char *p, int fl, int mode) {
    VV ("open"); ostr (p); oi (fl); oi (fl & O_CREAT ? mode : 0); if (osfault ()) return -1;
    int fd = (int)rbits (20); oi (fd); oend (); osgarb (); return fd;
}
static int os_stat (const char *nm, const char *p, int fd, struct stat *b) {
    static const int ty[] = { S_IFDIR, S_IFCHR, S_IFBLK, S_IFREG, S_IFIFO, S_IFLNK, S_IFSOCK };
    VV (nm); if (p) ostr (p); else oi (fd);
    if (osfault ()) return -1;
    memset (b, 0x5a, sizeof *b);
    b->st_mode = ty[rn (7)] | (mode_t)rn (07777 + 1); b->st_ino = rbits (62); b->st_dev = rbits (40); b->st_nlink = rbits (30);
    b->st_uid = rbits (32); b->st_gid = rbits (32); b->st_size = rbits (55);
    b->st_atim.tv_sec = rbits (33); b->st_atim.tv_nsec = rn (1000000000); b->st_mtim.tv_sec = rbits (33); b->st_mtim.tv_nsec = rn (1000000000);
    b->st_ctim.tv_sec = rbits (33); b->st_ctim.tv_nsec = rn (1000000000);
    ou (b->st_mode & S_IFMT); ou (b->st_mode & 06777); ou (b->st_ino); ou (b->st_dev); ou (b->st_nlink); ou (b->st_uid); ou (b->st_gid); oi (b->st_size);
    ou (b->st_atim.tv_sec*1000000000ULL + b->st_atim.tv_nsec/1000*1000); ou (b->st_mtim.tv_sec*1000000000ULL + b->st_mtim.tv_nsec/1000*1000); ou (b->st_ctim.tv_sec*1000000000ULL + b->st_ctim.tv_nsec/1000*1000);
    oend (); osgarb (); return 0;
}
char *__real_getcwd (char *, size_t);
char *__wrap_getcwd (char *b, size_t n) {
    static char path[40000]; static int have = 0;
    if (!OSV) { if (std_fault ("getcwd")) return NULL; return __real_getcwd (b, n); }
    if (!have) { static const int mx[] = { 1, 30, 250, 4090, 4096, 4100, 9000, 20000 }; rstr (path + 1, 0, mx[rn (8)]); path[0] = '/'; }
    if (strlen (path) + 1 > n) { have = 1; errno = ERANGE; return NULL; }
    have = 0;
    VV ("getcwd"); os_alt (ERANGE, ENOENT); if (osfault ()) return NULL;
    ostr (path); oend (); strcpy (b, path); osgarb (); return b;
}
ssize_t __real_readlink (const char *, char *, size_t);
ssize_t __wrap_readlink (const char *p, char *b, size_t n) {
    static char path[5000];
    if (!OSV) { if (std_fault ("readlink")) return -1; return __real_readlink (p, b, n); }
    VV ("readlink"); ostr (p); if (osfault ()) return -1;
    { static const int mx[] = { 3, 60, 1000, 4095 }; rstr (path, 1, mx[rn (4)]); }
    ostr (path); oend (); osgarb ();
    size_t k = strlen (path); if (k > n) k = n; memcpy (b, path, k);
    for (size_t i = k; i < n && i < k + 16; i++) b[i] = '#';	/* not terminated */
    return k;
}
mode_t __real_umask (mode_t);
mode_t __wrap_umask (mode_t m) {
    if (!OSV) return __real_umask (m);
    VV ("umask"); ou (m); oarrow (); mode_t r = rn (01000); ou (r); oend (); return r;
}
static const char *pcname (int n) {
    switch (n) { case _PC_LINK_MAX: return "LINK_MAX"; case _PC_NAME_MAX: return "NAME_MAX"; case _PC_PATH_MAX: return "PATH_MAX"; case _PC_PIPE_BUF: return "PIPE_BUF";
      case _PC_MAX_CANON: return "MAX_CANON"; case _PC_MAX_INPUT: return "MAX_INPUT"; case _PC_NO_TRUNC: return "NO_TRUNC"; case _PC_CHOWN_RESTRICTED: return "CHOWN_RESTRICTED"; case _PC_VDISABLE: return "VDISABLE"; }
    return "?";
}
static long pc (int n) {
    if (osfault ()) return -1;
    if (rn (4) == 0) { ow ("none"); oend (); return -1; }	/* no limit: errno is left alone */
    long v = rbits (31); oi (v); oend (); return v;
}
long __real_pathconf (const char *, int);
long __wrap_pathconf (const char *p, int n) { if (!OSV) return __real_pathconf (p, n); VV ("pathconf"); ostr (p); ow (pcname (n)); return pc (n); }
long __real_fpathconf (int, int);
long __wrap_fpathconf (int f, int n) { if (!OSV) return __real_fpathconf (f, n); VV ("fpathconf"); oi (f); ow (pcname (n)); return pc (n); }

/* directory streams */
typedef struct { long pad; int n, i; uint64_t seed; struct dirent de; } vdir_t;
static vdir_t	vdirs[64]; static int nvdirs;
static int vdir_of (void *d) { for (int i = 0; i < nvdirs; i++) if (d == (void *)&vdirs[i]) return i; return -1; }
DIR *__real_opendir (const char *);
DIR *__wrap_opendir (const char *p) {
    if (!OSV) { if (std_fault ("opendir")) return NULL; return __real_opendir (p); }
    VV ("opendir"); ostr (p); if (osfault ()) return NULL;
    ow ("ok"); oend (); int k = nvdirs < 64 ? nvdirs++ : (int)rn (64);
    vdirs[k].n = (int)rn (rn (4) ? 6 : 40); vdirs[k].i = 0; vdirs[k].seed = rv () | 1; osgarb ();
    return (DIR *)&vdirs[k];
}
static void vname (vdir_t *d, int i, char *b) {
    uint64_t s = os_rng; os_rng = d->seed + 77*i; rv (); rv ();
    int t = (int)rn (12);
    if (t == 0) strcpy (b, "."); else if (t == 1) strcpy (b, ".."); else if (t == 2) strcpy (b, "..."); else if (t == 3) strcpy (b, ".x"); else if (t == 4) strcpy (b, "..y");
    else rstr (b, 1, t == 5 ? 255 : 20);
    os_rng = s;
}
struct dirent *__real_readdir (DIR *);
struct dirent *__wrap_readdir (DIR *dp) {
    if (!OSV) { if (std_fault ("readdir")) return NULL; return __real_readdir (dp); }
    int k = vdir_of (dp); if (k < 0) { simlog ("@O readdir BADDIR"); return NULL; }
    vdir_t *d = &vdirs[k];
    if (d->i < d->n) {
	vname (d, d->i, d->de.d_name);
	if (!strcmp (d->de.d_name, ".") || !strcmp (d->de.d_name, "..")) { d->i++; return &d->de; }
    }
    VV ("readdir"); if (osfault ()) return NULL;
    if (d->i >= d->n) { ow ("end"); oend (); return NULL; }
    d->i++; ostr (d->de.d_name); oend (); osgarb (); return &d->de;
}
void __real_rewinddir (DIR *);
void __wrap_rewinddir (DIR *dp) {
    if (!OSV) { __real_rewinddir (dp); return; }
    int k = vdir_of (dp); simlog ("@O rewinddir -> %s", k < 0 ? "BADDIR" : "ok"); if (k >= 0) vdirs[k].i = 0;
}
int __real_closedir (DIR *);
int __wrap_closedir (DIR *dp) {
    if (!OSV) { if (std_fault ("closedir")) return -1; return __real_closedir (dp); }
    VV ("closedir"); if (vdir_of (dp) < 0) ow ("BADDIR"); VEND;
}

/* descriptors */
int __real_dup (int);
int __wrap_dup (int f) { if (!OSV) { if (std_fault ("dup")) return -1; return __real_dup (f); } VV ("dup"); oi (f); if (osfault ()) return -1; int r = rbits (20); oi (r); oend (); osgarb (); return r; }
int __real_dup2 (int, int);
int __wrap_dup2 (int f, int g) { if (!OSV) { if (std_fault ("dup")) return -1; return __real_dup2 (f, g); } VV ("dup2"); oi (f); oi (g); if (osfault ()) return -1; ow ("ok"); oend (); osgarb (); return g; }
int __real_pipe (int *);
int __wrap_pipe (int *p) { if (!OSV) { if (std_fault ("pipe")) return -1; return __real_pipe (p); } VV ("pipe"); if (osfault ()) return -1; p[0] = rbits (20); p[1] = rbits (20); oi (p[0]); oi (p[1]); oend (); osgarb (); return 0; }
off_t __real_lseek (int, off_t, int);
off_t __wrap_lseek (int f, off_t o, int w) {
    if (!OSV) { if (std_fault ("lseek")) return -1; return __real_lseek (f, o, w); }
    VV ("lseek"); oi (f); oi (o); oi (w); if (osfault ()) return -1; off_t r = rbits (55); oi (r); oend (); osgarb (); return r;
}
int __real_fcntl (int, int, ...);
int __wrap_fcntl (int f, int c, ...) {
    va_list ap; va_start (ap, c); void *a = va_arg (ap, void *); va_end (ap);
    if (!OSV) { if (std_fault ("fcntl")) return -1; return __real_fcntl (f, c, a); }
    int r = 0; struct flock *l = a;
    switch (c) {
      case F_DUPFD: VV ("dupfd"); oi (f); oi ((int)(intptr_t)a); if (osfault ()) return -1; r = rbits (20); oi (r); break;
      case F_GETFD: VV ("getfd"); oi (f); if (osfault ()) return -1; r = rn (2); oi (r); break;
      case F_SETFD: VV ("setfd"); oi (f); oi ((int)(intptr_t)a); if (osfault ()) return -1; ow ("ok"); break;
      case F_GETFL: { static const int fl[] = { O_APPEND, O_NONBLOCK, O_SYNC, O_DSYNC };
	VV ("getfl"); oi (f); if (osfault ()) return -1; int m = rn (3); for (int i = 0; i < 4; i++) if (rn (2)) r |= fl[i]; oi (r); oi (m); r |= m; break; }
      case F_SETFL: VV ("setfl"); oi (f); oi ((int)(intptr_t)a); if (osfault ()) return -1; ow ("ok"); break;
      case F_GETLK: case F_SETLK: case F_SETLKW:
	VV (c == F_GETLK ? "getlk" : c == F_SETLK ? "setlk" : "setlkw"); oi (f); oi (l->l_type); oi (l->l_whence); oi (l->l_start); oi (l->l_len); if (osfault ()) return -1;
	if (c == F_GETLK) {
	    if (rn (3) == 0) l->l_type = F_UNLCK;
	    else { l->l_type = rn (2) ? F_RDLCK : F_WRLCK; l->l_whence = SEEK_SET; l->l_start = rbits (55) | 1; l->l_len = rbits (55) | 1; l->l_pid = rbits (22); }
	}
	oi (l->l_type); oi (l->l_whence); oi (l->l_start); oi (l->l_len); if (c == F_GETLK && l->l_type != F_UNLCK) oi (l->l_pid); break;
      default: VV ("fcntl"); oi (c); oarrow (); break;
    }
    oend (); osgarb (); return r;
}
static ssize_t os_read (const char *nm, int fd, void *b, size_t n) {
    VV (nm); oi (fd); oi (n); if (osfault ()) return -1;
    size_t k = rn (6) == 0 ? 0 : rn (3) == 0 ? n : (size_t)rn (n + 1);
    unsigned char *s = b; int z = rlit (b, 0, n); if (z >= 0) k = z; else for (size_t i = 0; i < k; i++) s[i] = (unsigned char)rv ();
    obytes (b, k); oend (); osgarb (); return k;
}
static ssize_t os_write (int fd, const void *b, size_t n) {
    VV ("write"); oi (fd); obytes (b, n); if (osfault ()) return -1;
    size_t k = rn (3) == 0 ? n : (size_t)rn (n + 1); oi (k); oend (); osgarb (); return k;
}

/* process environment */
#define GETID(T, nm) T __real_##nm (void); T __wrap_##nm (void) { if (!OSV) return __real_##nm (); VV (#nm); oarrow (); T r = (T)rbits (sizeof (T) == 4 && (T)-1 < 0 ? 22 : 32); ou ((uint64_t)r); oend (); return r; }
uid_t __wrap_getuid (void); uid_t __wrap_geteuid (void); gid_t __wrap_getgid (void); gid_t __wrap_getegid (void);
pid_t __wrap_getpid (void); pid_t __wrap_getppid (void); pid_t __wrap_getpgrp (void);
GETID(uid_t, getuid)
GETID(uid_t, geteuid)
GETID(gid_t, getgid)
GETID(gid_t, getegid)
GETID(pid_t, getpid)
GETID(pid_t, getppid)
GETID(pid_t, getpgrp)
int __real_setuid (uid_t);
int __wrap_setuid (uid_t u) { if (!OSV) return __real_setuid (u); VV ("setuid"); ou (u); VEND; }
int __real_setgid (gid_t);
int __wrap_setgid (gid_t u) { if (!OSV) return __real_setgid (u); VV ("setgid"); ou (u); VEND; }
int __real_setpgid (pid_t, pid_t);
int __wrap_setpgid (pid_t a, pid_t b) { if (!OSV) return __real_setpgid (a, b); VV ("setpgid"); oi (a); oi (b); VEND; }
pid_t __real_setsid (void);
pid_t __wrap_setsid (void) { if (!OSV) return __real_setsid (); VV ("setsid"); if (osfault ()) return -1; pid_t r = rbits (22); oi (r); oend (); osgarb (); return r; }
int __real_getgroups (int, gid_t *);
int __wrap_getgroups (int n, gid_t *g) {
    if (!OSV) return __real_getgroups (n, g);
    VV ("getgroups"); os_alt (EINVAL, EPERM); if (osfault ()) return -1;
    int k = (int)rn (rn (3) ? 5 : rn (4) ? 30 : 1500); if (k > n) k = n;
    for (int i = 0; i < k; i++) { g[i] = rbits (32); ou (g[i]); }
    oend (); osgarb (); return k;
}
long __real_sysconf (int);
static const char *scname (int n) {
    switch (n) { case _SC_ARG_MAX: return "ARG_MAX"; case _SC_CHILD_MAX: return "CHILD_MAX"; case _SC_CLK_TCK: return "CLK_TCK"; case _SC_NGROUPS_MAX: return "NGROUPS_MAX"; case _SC_OPEN_MAX: return "OPEN_MAX";
      case _SC_STREAM_MAX: return "STREAM_MAX"; case _SC_TZNAME_MAX: return "TZNAME_MAX"; case _SC_JOB_CONTROL: return "JOB_CONTROL"; case _SC_SAVED_IDS: return "SAVED_IDS"; case _SC_VERSION: return "VERSION"; case _SC_PAGESIZE: return "PAGESIZE"; }
    return "?";
}
long __wrap_sysconf (int n) {
    if (!OSV) return __real_sysconf (n);
    VV ("sysconf"); ow (scname (n)); if (osfault ()) return -1;
    if (rn (5) == 0) { ow ("none"); oend (); return -1; }
    long v = rbits (55); oi (v); oend (); return v;
}
int __real_uname (struct utsname *);
int __wrap_uname (struct utsname *u) {
    if (!OSV) { if (std_fault ("uname")) return -1; return __real_uname (u); }
    VV ("uname"); if (osfault ()) return -1;
    rstr (u->sysname, 0, 64); rstr (u->nodename, 0, 64); rstr (u->release, 0, 64); rstr (u->version, 0, 64); rstr (u->machine, 0, 64);
    ostr (u->sysname); ostr (u->nodename); ostr (u->release); ostr (u->version); ostr (u->machine); oend (); osgarb (); return 0;
}
static clock_t os_times (struct tms *t) {
    VV ("times"); if (osfault ()) return -1;
    clock_t e = rbits (31); t->tms_utime = rbits (31); t->tms_stime = rbits (31); t->tms_cutime = rbits (31); t->tms_cstime = rbits (31);
    oi (e); oi (t->tms_utime); oi (t->tms_stime); oi (t->tms_cutime); oi (t->tms_cstime); oend (); osgarb (); return e;
}
char *__real_getenv (const char *);
char *__wrap_getenv (const char *n) {
    static char b[70000];
    if (!OSV) return __real_getenv (n);
    VV ("getenv"); ostr (n); oarrow ();
    if (rn (4) == 0) { ow ("none"); oend (); return NULL; }
    { static const int mx[] = { 0, 10, 200, 6000, 60000 }; rstr (b, 0, mx[rn (5)]); }
    ostr (b); oend (); return b;
}
char *__real_getlogin (void);
char *__wrap_getlogin (void) { static char b[64]; if (!OSV) return __real_getlogin (); VV ("getlogin"); oarrow (); if (rn (4) == 0) { ow ("none"); oend (); errno = ENXIO; return NULL; } ostr (rstr (b, 1, 40)); oend (); return b; }
char *__real_ttyname (int);
char *__wrap_ttyname (int f) { static char b[128]; if (!OSV) return __real_ttyname (f); VV ("ttyname"); oi (f); oarrow (); if (rn (4) == 0) { ow ("none"); oend (); errno = ENOTTY; return NULL; } ostr (rstr (b, 1, 100)); oend (); return b; }
char *__real_ctermid (char *);
char *__wrap_ctermid (char *b) { if (!OSV) return __real_ctermid (b); VV ("ctermid"); oarrow (); if (rn (5) == 0) { b[0] = 0; ow ("none"); oend (); return b; } rstr (b, 1, L_ctermid - 1); ostr (b); oend (); return b; }
int __real_isatty (int);
int __wrap_isatty (int f) { if (!OSV) return __real_isatty (f); VV ("isatty"); oi (f); oarrow (); int r = rn (2); oi (r); oend (); if (!r) errno = ENOTTY; return r; }

/* user and group data base */
static char *pwstr (char *b) { return rstr (b, 0, (int)rn (2) ? 12 : 60); }
static struct passwd *os_pw (void) {
    static struct passwd p; static char nm[80], dir[80], sh[80], gec[80];
    if (osfault ()) return NULL;
    p.pw_name = pwstr (nm); p.pw_passwd = "x"; p.pw_gecos = pwstr (gec); p.pw_dir = pwstr (dir); p.pw_shell = pwstr (sh); p.pw_uid = rbits (32); p.pw_gid = rbits (32);
    ostr (nm); ou (p.pw_uid); ou (p.pw_gid); ostr (dir); ostr (sh); oend (); osgarb (); return &p;
}
struct passwd *__real_getpwnam (const char *);
struct passwd *__wrap_getpwnam (const char *n) { if (!OSV) return __real_getpwnam (n); VV ("getpwnam"); ostr (n); return os_pw (); }
struct passwd *__real_getpwuid (uid_t);
struct passwd *__wrap_getpwuid (uid_t u) { if (!OSV) return __real_getpwuid (u); VV ("getpwuid"); ou (u); return os_pw (); }
static char **rlist (int max, int len) {	/* a list of strings */
    static char pool[1<<20]; static char *v[4096]; static int at = 0; static int vi = 0;
    int n = (int)rn (max + 1); if (vi + n + 1 > 4096) vi = 0;
    char **r = v + vi; vi += n + 1;
    for (int i = 0; i < n; i++) { if (at + len + 2 > (int)sizeof pool) at = 0; r[i] = rstr (pool + at, 0, len); at += strlen (r[i]) + 1; }
    r[n] = NULL; return r;
}
static void olist (char **l) { int n; for (n = 0; l[n]; n++) ; oi (n); if (n <= 12) for (n = 0; l[n]; n++) ostr (l[n]); else { uint64_t h = 7; for (n = 0; l[n]; n++) { for (char *s = l[n]; *s; s++) h = (h * 257 + (unsigned char)*s) % 1000003; h = (h * 257 + 256) % 1000003; } on += sprintf (ob + on, " H%llu", (unsigned long long)h); } }
static struct group *os_gr (void) {
    static struct group g; static char nm[80];
    if (osfault ()) return NULL;
    g.gr_name = pwstr (nm); g.gr_passwd = "x"; g.gr_gid = rbits (32); g.gr_mem = rn (4) ? rlist (8, 20) : rlist (rn (2) ? 60 : 1500, 60);
    ostr (nm); ou (g.gr_gid); olist (g.gr_mem); oend (); osgarb (); return &g;
}

/* processes */
static void oargv (char *const *v) { olist ((char **)v); }
int __real_execv (const char *, char *const *);
int __wrap_execv (const char *p, char *const *v) { if (!OSV) return __real_execv (p, v); VV ("exec"); ostr (p); oargv (v); if (osfault ()) return -1; on += sprintf (ob + on, " err %d", ENOEXEC); ostr (strerror (ENOEXEC)); oend (); errno = ENOEXEC; return -1; }
int __real_execvp (const char *, char *const *);
int __wrap_execvp (const char *p, char *const *v) { if (!OSV) return __real_execvp (p, v); VV ("execp"); ostr (p); oargv (v); if (osfault ()) return -1; on += sprintf (ob + on, " err %d", ENOEXEC); ostr (strerror (ENOEXEC)); oend (); errno = ENOEXEC; return -1; }
int __real_execve (const char *, char *const *, char *const *);
int __wrap_execve (const char *p, char *const *v, char *const *e) { if (!OSV) return __real_execve (p, v, e); VV ("exece"); ostr (p); oargv (v); oargv (e); if (osfault ()) return -1; on += sprintf (ob + on, " err %d", ENOEXEC); ostr (strerror (ENOEXEC)); oend (); errno = ENOEXEC; return -1; }
static pid_t os_fork (void) { VV ("fork"); if (osfault ()) return -1; pid_t r = 1 + rbits (22); oi (r); oend (); osgarb (); return r; }
static pid_t os_waitpid (pid_t p, int *st, int opt) {
    VV ("waitpid"); oi (p); oi (opt); if (osfault ()) return -1;
    if ((opt & WNOHANG) && rn (3) == 0) { ow ("none"); oend (); if (st && rn (2)) *st = (int)rv (); osgarb (); return 0; }
    pid_t r = 1 + rbits (22); oi (r);
    switch (rn (opt & WUNTRACED ? 3 : 2)) {
      case 0: { int c = rn (3) ? (int)rn (256) : 0; *st = c << 8; ow ("exit"); oi (c); break; }
      case 1: { int s = 1 + (int)rn (64); *st = s | (rn (2) ? 0x80 : 0); ow ("sig"); oi (s); break; }
      case 2: { static const int ss[] = { SIGSTOP, SIGTSTP, SIGTTIN, SIGTTOU, SIGTRAP, 34, 50, 64 }; int s = ss[rn (8)]; *st = (s << 8) | 0x7f; ow ("stop"); oi (s); break; }
    }
    oend (); osgarb (); return r;
}
static int os_kill (pid_t p, int s) { VV ("kill"); oi (p); oi (s); VEND; }


/* terminals */
int __real_tcgetattr (int, struct termios *);
int __wrap_tcgetattr (int f, struct termios *t) {
    if (!OSV) return __real_tcgetattr (f, t);
    VV ("tcgetattr"); oi (f); if (osfault ()) return -1;
    static const speed_t sp[] = { B0, B50, B300, B1200, B9600, B38400 };
    memset (t, 0x5a, sizeof *t);
    t->c_iflag = rbits (31); t->c_oflag = rbits (32); t->c_cflag = rbits (32) & ~(CBAUD|CBAUDEX); t->c_lflag = rbits (32);
    for (int i = 0; i < NCCS; i++) t->c_cc[i] = (cc_t)rv ();
    speed_t is = sp[1 + rn (5)], os = is;
    cfsetispeed (t, is); cfsetospeed (t, os);
    is = cfgetispeed (t); os = cfgetospeed (t);
    ou (t->c_iflag); ou (t->c_oflag); ou (t->c_cflag); ou (t->c_lflag); obytes (t->c_cc, NCCS); ou (is); ou (os); oend (); osgarb (); return 0;
}
int __real_tcsetattr (int, int, const struct termios *);
int __wrap_tcsetattr (int f, int a, const struct termios *t) {
    if (!OSV) return __real_tcsetattr (f, a, t);
    VV ("tcsetattr"); oi (f); oi (a); ou (t->c_iflag); ou (t->c_oflag); ou (t->c_cflag & ~(CBAUD|CBAUDEX)); ou (t->c_lflag); obytes (t->c_cc, NCCS); ou (cfgetispeed (t)); ou (cfgetospeed (t)); VEND;
}
#define TTY2(nm) int __real_##nm (int, int); int __wrap_##nm (int f, int a) { if (!OSV) return __real_##nm (f, a); VV (#nm); oi (f); oi (a); VEND; }
int __wrap_tcsendbreak (int, int); int __wrap_tcflush (int, int); int __wrap_tcflow (int, int); int __wrap_tcdrain (int); int __wrap_tcsetpgrp (int, pid_t); pid_t __wrap_tcgetpgrp (int);
TTY2(tcsendbreak)
TTY2(tcflush)
TTY2(tcflow)
TTY2(tcsetpgrp)
int __real_tcdrain (int);
int __wrap_tcdrain (int f) { if (!OSV) return __real_tcdrain (f); VV ("tcdrain"); oi (f); VEND; }
pid_t __real_tcgetpgrp (int);
pid_t __wrap_tcgetpgrp (int f) { if (!OSV) return __real_tcgetpgrp (f); VV ("tcgetpgrp"); oi (f); oarrow (); pid_t r = rbits (22); oi (r); oend (); return r; }

/* sockets */
static void oaddr (const struct sockaddr *a, socklen_t l) {
    if (a->sa_family == AF_INET && l >= sizeof (struct sockaddr_in)) { const struct sockaddr_in *i = (const void *)a; unsigned char *b = (unsigned char *)&i->sin_addr; on += sprintf (ob + on, " in:%d.%d.%d.%d:%d", b[0], b[1], b[2], b[3], ntohs (i->sin_port)); }
    else if (a->sa_family == AF_UNIX) { const struct sockaddr_un *u = (const void *)a; int n = (int)l - (int)offsetof (struct sockaddr_un, sun_path); on += sprintf (ob + on, " un:"); on--; ob[on++] = ':'; obytes (u->sun_path, n > 0 ? strnlen (u->sun_path, n) : 0); }
    else on += sprintf (ob + on, " af%d:%d", a->sa_family, l);
}
static void raddr (struct sockaddr *a, socklen_t *l) {
    union { struct sockaddr s; struct sockaddr_in i; struct sockaddr_un u; } x; memset (&x, 0, sizeof x); socklen_t n;
    if (rn (2)) { x.i.sin_family = AF_INET; x.i.sin_port = htons (rbits (16)); x.i.sin_addr.s_addr = (in_addr_t)rv (); n = sizeof x.i; }
    else { x.u.sun_family = AF_UNIX; rstr (x.u.sun_path, 1, rn (2) ? 20 : 106); if (rn (3) == 0) { int k = 1 + (int)rn (3); while (k--) x.u.sun_path[k] = "/.@"[rn (3) % 3]; if (x.u.sun_path[1] == 0 || strlen (x.u.sun_path) < 4) strcpy (x.u.sun_path, "//./@x"); } n = offsetof (struct sockaddr_un, sun_path) + strlen (x.u.sun_path) + 1; }
    memcpy (a, &x, n < *l ? n : *l); *l = n; oaddr (&x.s, n);
}
int __real_socket (int, int, int);
int __wrap_socket (int d, int t, int p) { if (!OSV) { if (std_fault ("socket")) return -1; return __real_socket (d, t, p); } VV ("socket"); oi (d); oi (t); oi (p); if (osfault ()) return -1; int r = rbits (20); oi (r); oend (); osgarb (); return r; }
int __real_socketpair (int, int, int, int *);
int __wrap_socketpair (int d, int t, int p, int *v) { if (!OSV) { if (std_fault ("socket")) return -1; return __real_socketpair (d, t, p, v); } VV ("socketpair"); oi (d); oi (t); oi (p); if (osfault ()) return -1; v[0] = rbits (20); v[1] = rbits (20); oi (v[0]); oi (v[1]); oend (); osgarb (); return 0; }
int __real_bind (int, const struct sockaddr *, socklen_t);
int __wrap_bind (int f, const struct sockaddr *a, socklen_t l) { if (!OSV) { if (std_fault ("bind")) return -1; return __real_bind (f, a, l); } VV ("bind"); oi (f); oaddr (a, l); VEND; }
int __real_listen (int, int);
int __wrap_listen (int f, int n) { if (!OSV) { if (std_fault ("listen")) return -1; return __real_listen (f, n); } VV ("listen"); oi (f); oi (n); VEND; }
int __real_shutdown (int, int);
int __wrap_shutdown (int f, int n) { if (!OSV) { if (std_fault ("shutdown")) return -1; return __real_shutdown (f, n); } VV ("shutdown"); oi (f); oi (n); VEND; }
int __real_getsockname (int, struct sockaddr *, socklen_t *);
int __wrap_getsockname (int f, struct sockaddr *a, socklen_t *l) { if (!OSV) { if (std_fault ("getsockname")) return -1; return __real_getsockname (f, a, l); } VV ("getsockname"); oi (f); if (osfault ()) return -1; raddr (a, l); oend (); osgarb (); return 0; }
int __real_getpeername (int, struct sockaddr *, socklen_t *);
int __wrap_getpeername (int f, struct sockaddr *a, socklen_t *l) { if (!OSV) { if (std_fault ("getpeername")) return -1; return __real_getpeername (f, a, l); } VV ("getpeername"); oi (f); if (osfault ()) return -1; raddr (a, l); oend (); osgarb (); return 0; }
static int os_accept (int f, struct sockaddr *a, socklen_t *l) { VV ("accept"); oi (f); if (osfault ()) return -1; int r = rbits (20); oi (r); raddr (a, l); oend (); osgarb (); return r; }
static int os_connect (int f, const struct sockaddr *a, socklen_t l) { VV ("connect"); oi (f); oaddr (a, l); VEND; }
static void oflags (int fl) { oi (!!(fl & MSG_OOB)); oi (!!(fl & MSG_PEEK)); oi (!!(fl & MSG_DONTROUTE)); if (fl & ~(MSG_OOB|MSG_PEEK|MSG_DONTROUTE|MSG_DONTWAIT)) oi (fl); }
static ssize_t os_send (int f, const void *b, size_t n, int fl) { VV ("send"); oi (f); obytes (b, n); oflags (fl); if (osfault ()) return -1; i64 k = rn (3) == 0 ? (i64)n : rn (n + 1); oi (k); oend (); osgarb (); return k; }
static ssize_t os_recv (int f, void *b, size_t n, int fl) {
    VV ("recv"); oi (f); oi (n); oflags (fl); if (osfault ()) return -1;
    size_t k = rn (6) == 0 ? 0 : rn (3) == 0 ? n : (size_t)rn (n + 1); unsigned char *s = b; int z = rlit (b, 0, n); if (z >= 0) k = z; else for (size_t i = 0; i < k; i++) s[i] = (unsigned char)rv ();
    obytes (b, k); oend (); osgarb (); return k;
}
static ssize_t os_recvfrom (int f, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    VV ("recvfrom"); oi (f); oi (n); oflags (fl); if (osfault ()) return -1;
    size_t k = rn (6) == 0 ? 0 : rn (3) == 0 ? n : (size_t)rn (n + 1); unsigned char *s = b; int z = rlit (b, 0, n); if (z >= 0) k = z; else for (size_t i = 0; i < k; i++) s[i] = (unsigned char)rv ();
    obytes (b, k); raddr (a, l); oend (); osgarb (); return k;
}
ssize_t __real_sendto (int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_sendto (int f, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    if (!OSV) { if (std_fault ("sendto")) return -1; return __real_sendto (f, b, n, fl, a, l); }
    VV ("sendto"); oi (f); obytes (b, n); oflags (fl); oaddr (a, l); if (osfault ()) return -1; i64 k = rn (3) == 0 ? (i64)n : rn (n + 1); oi (k); oend (); osgarb (); return k;
}
static const char *soname (int lv, int o) {
    if (lv == IPPROTO_TCP && o == TCP_NODELAY) return "NODELAY";
    if (lv != SOL_SOCKET) return "?";
    switch (o) { case SO_DEBUG: return "DEBUG"; case SO_REUSEADDR: return "REUSEADDR"; case SO_KEEPALIVE: return "KEEPALIVE"; case SO_DONTROUTE: return "DONTROUTE"; case SO_BROADCAST: return "BROADCAST"; case SO_LINGER: return "LINGER";
      case SO_OOBINLINE: return "OOBINLINE"; case SO_SNDBUF: return "SNDBUF"; case SO_RCVBUF: return "RCVBUF"; case SO_ERROR: return "ERROR"; case SO_TYPE: return "TYPE"; }
    return "?";
}
static int so_isflag (const char *n) { return strcmp (n, "LINGER") && strcmp (n, "SNDBUF") && strcmp (n, "RCVBUF") && strcmp (n, "TYPE"); }
int __real_getsockopt (int, int, int, void *, socklen_t *);
int __wrap_getsockopt (int f, int lv, int o, void *v, socklen_t *l) {
    if (!OSV) { if (std_fault ("getsockopt")) return -1; return __real_getsockopt (f, lv, o, v, l); }
    const char *nm = soname (lv, o);
    VV ("getsockopt"); oi (f); ow (nm); if (osfault ()) return -1;
    if (!strcmp (nm, "LINGER")) { struct linger *g = v; g->l_onoff = rn (2); g->l_linger = rbits (15); if (g->l_onoff) oi (g->l_linger); else ow ("off"); *l = sizeof *g; }
    else if (!strcmp (nm, "TYPE")) { static const int ty[] = { SOCK_STREAM, SOCK_DGRAM }; int t = ty[rn (2)]; memcpy (v, &t, 4); *l = 4; oi (t); }
    else if (so_isflag (nm)) { int t = rn (2) ? 0 : rn (2) ? 1 : (int)(1 + rbits (8)); memcpy (v, &t, 4); *l = 4; oi (!!t); }
    else { int t = rbits (30); memcpy (v, &t, 4); *l = 4; oi (t); }
    oend (); osgarb (); return 0;
}
int __real_setsockopt (int, int, int, const void *, socklen_t);
int __wrap_setsockopt (int f, int lv, int o, const void *v, socklen_t l) {
    if (!OSV) { if (std_fault ("setsockopt")) return -1; return __real_setsockopt (f, lv, o, v, l); }
    const char *nm = soname (lv, o);
    VV ("setsockopt"); oi (f); ow (nm);
    if (!strcmp (nm, "LINGER")) { const struct linger *g = v; if (l != sizeof *g) ow ("BADLEN"); else if (g->l_onoff) oi (g->l_linger); else ow ("off"); }
    else if (l != 4) ow ("BADLEN");
    else { int t; memcpy (&t, v, 4); oi (so_isflag (nm) ? !!t : t); }
    VEND;
}
int __real_ioctl (int, unsigned long, ...);
int __wrap_ioctl (int f, unsigned long c, ...) {
    va_list ap; va_start (ap, c); int *a = va_arg (ap, int *); va_end (ap);
    if (!OSV) { if (std_fault ("ioctl")) return -1; return __real_ioctl (f, c, a); }
    if (c == FIONBIO) { VV ("nbio"); oi (f); oi (!!*a); VEND; }
    if (c == FIONREAD) { VV ("nread"); oi (f); if (osfault ()) return -1; *a = rbits (30); oi (*a); oend (); osgarb (); return 0; }
    if (c == SIOCATMARK) { VV ("atmark"); oi (f); if (osfault ()) return -1; *a = rn (2); oi (*a); oend (); osgarb (); return 0; }
    if (c == TIOCGWINSZ) { struct winsize *z = (void *)a; VV ("winsz"); oi (f); if (rn (4) == 0) { oarrow (); ow ("none"); oend (); osgarb (); errno = ENOTTY; return -1; } oarrow (); z->ws_row = rbits (16); z->ws_col = rbits (16); z->ws_xpixel = rbits (16); z->ws_ypixel = rbits (16); oi (z->ws_row); oi (z->ws_col); oend (); osgarb (); return 0; }
    VV ("ioctl"); ou (c); oarrow (); oend (); errno = ENOTTY; return -1;
}
int __real_gethostname (char *, size_t);
int __wrap_gethostname (char *b, size_t n) { if (!OSV) return __real_gethostname (b, n); VV ("gethostname"); if (osfault ()) return -1; rstr (b, 0, 63 < n ? 63 : n - 1); ostr (b); oend (); osgarb (); return 0; }
static char **raddrs (void) {
    static char pool[4096]; static char *v[1024]; int n = (int)rn (rn (3) ? 5 : rn (4) ? 36 : 900), i; 
    for (i = 0; i < n; i++) { uint32_t a = (uint32_t)rv (); v[i] = pool + 4*i; memcpy (v[i], &a, 4); }
    v[n] = NULL; return v;
}
static struct hostent *os_host (void) {
    static struct hostent h; static char nm[260]; int i;
    oarrow ();
    if (call_ev ("os")->kind == C_ERR || rn (5) == 0) { ow ("none"); oend (); h_errno = HOST_NOT_FOUND; return NULL; }
    h.h_name = rstr (nm, 0, rn (2) ? 20 : 255); h.h_aliases = rlist (rn (3) ? 4 : 35, rn (3) ? 20 : 250); h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = raddrs ();
    ostr (nm); olist (h.h_aliases); for (i = 0; h.h_addr_list[i]; i++) ; oi (i);
    for (i = 0; h.h_addr_list[i]; i++) { unsigned char *b = (unsigned char *)h.h_addr_list[i]; on += sprintf (ob + on, " %d.%d.%d.%d", b[0], b[1], b[2], b[3]); }
    oend (); return &h;
}
struct hostent *__real_gethostbyname (const char *);
struct hostent *__wrap_gethostbyname (const char *n) { if (!OSV) return __real_gethostbyname (n); VV ("gethostbyname"); ostr (n); return os_host (); }
struct hostent *__real_gethostbyaddr (const void *, socklen_t, int);
struct hostent *__wrap_gethostbyaddr (const void *a, socklen_t l, int t) { if (!OSV) return __real_gethostbyaddr (a, l, t); const unsigned char *b = a; VV ("gethostbyaddr"); on += sprintf (ob + on, " %d.%d.%d.%d", b[0], b[1], b[2], b[3]); if (l != 4 || t != AF_INET) ow ("BAD"); return os_host (); }
static struct servent *os_serv (void) {
    static struct servent s; static char nm[80], pr[40];
    oarrow ();
    if (call_ev ("os")->kind == C_ERR || rn (5) == 0) { ow ("none"); oend (); return NULL; }
    s.s_name = rstr (nm, 0, 60); s.s_proto = rstr (pr, 0, 10); s.s_aliases = rlist (rn (3) ? 4 : 35, 60); s.s_port = htons (rbits (16));
    ostr (nm); olist (s.s_aliases); oi (ntohs (s.s_port)); ostr (pr); oend (); return &s;
}
struct servent *__real_getservbyname (const char *, const char *);
struct servent *__wrap_getservbyname (const char *n, const char *p) { if (!OSV) return __real_getservbyname (n, p); VV ("getservbyname"); ostr (n); if (p) ostr (p); else ow ("none"); return os_serv (); }
struct servent *__real_getservbyport (int, const char *);
struct servent *__wrap_getservbyport (int n, const char *p) { if (!OSV) return __real_getservbyport (n, p); VV ("getservbyport"); oi (ntohs (n)); if (p) ostr (p); else ow ("none"); return os_serv (); }
static struct protoent *os_proto (void) {
    static struct protoent s; static char nm[80];
    oarrow ();
    if (call_ev ("os")->kind == C_ERR || rn (5) == 0) { ow ("none"); oend (); return NULL; }
    s.p_name = rstr (nm, 0, 60); s.p_aliases = rlist (rn (3) ? 4 : 35, 60); s.p_proto = rbits (8);
    ostr (nm); olist (s.p_aliases); oi (s.p_proto); oend (); return &s;
}
struct protoent *__real_getprotobyname (const char *);
struct protoent *__wrap_getprotobyname (const char *n) { if (!OSV) return __real_getprotobyname (n); VV ("getprotobyname"); ostr (n); return os_proto (); }
struct protoent *__real_getprotobynumber (int);
struct protoent *__wrap_getprotobynumber (int n) { if (!OSV) return __real_getprotobynumber (n); VV ("getprotobynumber"); oi (n); return os_proto (); }
static struct netent *os_net (void) {
    static struct netent s; static char nm[80];
    oarrow ();
    if (call_ev ("os")->kind == C_ERR || rn (5) == 0) { ow ("none"); oend (); return NULL; }
    s.n_name = rstr (nm, 0, 60); s.n_aliases = rlist (rn (3) ? 4 : 35, 60); s.n_addrtype = AF_INET; s.n_net = rbits (32);
    ostr (nm); olist (s.n_aliases); ou (s.n_net); oend (); return &s;
}
struct netent *__real_getnetbyname (const char *);
struct netent *__wrap_getnetbyname (const char *n) { if (!OSV) return __real_getnetbyname (n); VV ("getnetbyname"); ostr (n); return os_net (); }
struct netent *__real_getnetbyaddr (uint32_t, int);
struct netent *__wrap_getnetbyaddr (uint32_t n, int t) { if (!OSV) return __real_getnetbyaddr (n, t); VV ("getnetbyaddr"); ou (n); if (t != AF_INET) oi (t); return os_net (); }

static int os_select (int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    int k = 0, i;
    VV ("select");
    for (i = 0; i < n && i < FD_SETSIZE; i++) { int f = (r && FD_ISSET (i, r) ? 1 : 0) | (w && FD_ISSET (i, w) ? 2 : 0) | (x && FD_ISSET (i, x) ? 4 : 0); if (f) on += sprintf (ob + on, " %d/%d", i, f); }
    if (tv) oi (tv->tv_sec*1000000LL + tv->tv_usec); else ow ("inf");
    if (osfault ()) return -1;
    int none = rn (5) == 0;
    for (i = 0; i < n && i < FD_SETSIZE; i++) {
	int f = 0; fd_set *s[3] = { r, w, x };
	for (int j = 0; j < 3; j++) if (s[j] && FD_ISSET (i, s[j])) { if (none || rn (2)) FD_CLR (i, s[j]); else { f |= 1 << j; k++; } }
	if (f) on += sprintf (ob + on, " %d/%d", i, f);
    }
    oend (); osgarb (); return k;
}

/* the checked variants the compiler may select */
ssize_t __wrap_read (int, void *, size_t);
ssize_t __wrap_recv (int, void *, size_t, int);
ssize_t __wrap_recvfrom (int, void *, size_t, int, struct sockaddr *, socklen_t *);
#define CHKLEN(n, l) do { if ((size_t)(n) > (size_t)(l)) { simlog ("!BAD overflow a system call was given a buffer of %lld bytes as %lld", (long long)(l), (long long)(n)); abort (); } } while (0)
char *__wrap___getcwd_chk (char *b, size_t n, size_t l) { CHKLEN (n, l); return __wrap_getcwd (b, n); }
int __wrap___getgroups_chk (int n, gid_t *g, size_t l) { CHKLEN (n * sizeof (gid_t), l); return __wrap_getgroups (n, g); }
ssize_t __wrap___readlink_chk (const char *p, char *b, size_t n, size_t l) { CHKLEN (n, l); return __wrap_readlink (p, b, n); }
ssize_t __wrap___read_chk (int f, void *b, size_t n, size_t l) { CHKLEN (n, l); return __wrap_read (f, b, n); }
ssize_t __wrap___recv_chk (int f, void *b, size_t n, size_t l, int fl) { CHKLEN (n, l); return __wrap_recv (f, b, n, fl); }
ssize_t __wrap___recvfrom_chk (int f, void *b, size_t n, size_t l, int fl, struct sockaddr *a, socklen_t *al) { CHKLEN (n, l); return __wrap_recvfrom (f, b, n, fl, a, al); }
int __wrap___gethostname_chk (char *b, size_t n, size_t l) { CHKLEN (n, l); return __wrap_gethostname (b, n); }
