/* The simulated disk: an LD_PRELOAD layer over the C library's file calls.
 *
 * Only paths below one scratch root are simulated; everything else passes through. Below the root
 * each call consults a list of armed faults (one shot, or sticky), so the simulator decides what
 * the nth open / read / write / close of a run does. Nothing in here draws random numbers or
 * reads a clock: behaviour is a pure function of the armed faults and the calls made.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN_R, OPEN_W, READ, WRITE, CLOSE, FSYNC, TRUNC, RENAME, UNLINK, MKDIR, NOPS };
enum { A_ERRNO = 1, A_SHORT = 2, A_EOF = 3, A_DIE = 4, A_QUOTA = 5, A_TRICKLE = 6, A_LOSE = 7, A_INTR = 8 };

#define MAXFD 4096
#define MAXF 32
#define LOGMAX 4096

static char root[PATH_MAX];
static size_t rootlen;
static unsigned char mine[MAXFD]; /* 1: simulated, 2: opened for writing */
static unsigned char ateof[MAXFD];
static int dead;
static long nops[NOPS];
static long fired[16];
static struct { int op, nth, action; long arg; int used; } faults[MAXF];
static int nfaults;
static struct { int op; long res; int err; } oplog[LOGMAX];
static int nlog;
static int watch, strays;
static char stray[PATH_MAX];
static long quota = -1, trickle = 0;

static void logop(int op, long res, int err) {
	if (nlog < LOGMAX) { oplog[nlog].op = op; oplog[nlog].res = res; oplog[nlog].err = err; nlog++; }
}

/* ---- control, called through ctypes ---- */
void sim_root(const char *p) { snprintf(root, sizeof root, "%s", p); rootlen = strlen(root); }
void sim_reset(void) {
	memset(nops, 0, sizeof nops); memset(fired, 0, sizeof fired); nfaults = 0; nlog = 0; dead = 0;
	strays = 0; stray[0] = 0; quota = -1; trickle = 0; memset(ateof, 0, sizeof ateof);
}
int sim_arm(int op, int nth, int action, long arg) {
	if (nfaults >= MAXF) return -1;
	faults[nfaults].op = op; faults[nfaults].nth = nth; faults[nfaults].action = action;
	faults[nfaults].arg = arg; faults[nfaults].used = 0; nfaults++;
	return 0;
}
void sim_disarm(void) { nfaults = 0; dead = 0; quota = -1; trickle = 0; memset(ateof, 0, sizeof ateof); memset(nops, 0, sizeof nops); }
long sim_fired(int action) { return fired[action]; }
long sim_nops(int op) { return nops[op]; }
int sim_dead(void) { return dead; }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += mine[i] != 0; return n; }
void sim_forget_fds(void) {
	static int (*rc)(int);
	if (!rc) rc = dlsym(RTLD_NEXT, "close");
	for (int i = 0; i < MAXFD; i++) if (mine[i]) { mine[i] = 0; rc(i); }
}
int sim_log_len(void) { return nlog; }
int sim_log_op(int i) { return oplog[i].op; }
long sim_log_res(int i) { return oplog[i].res; }
int sim_log_err(int i) { return oplog[i].err; }
void sim_watch(int on) { watch = on; strays = 0; stray[0] = 0; }
int sim_strays(void) { return strays; }
const char *sim_stray(void) { return stray; }

/* ---- helpers ---- */
static int below(int dfd, const char *p) {
	char buf[PATH_MAX];
	if (!rootlen || !p) return 0;
	if (p[0] != '/') {
		if (dfd != AT_FDCWD) return 0;
		if (!getcwd(buf, sizeof buf)) return 0;
		size_t n = strlen(buf);
		if (n + 1 + strlen(p) >= sizeof buf) return 0;
		buf[n] = '/'; strcpy(buf + n + 1, p);
		return !strncmp(buf, root, rootlen) && (buf[rootlen] == '/' || !buf[rootlen]);
	}
	return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}
static void note(const char *p) {
	if (!watch || !p || !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6)) return;
	strays++;
	if (!stray[0]) snprintf(stray, sizeof stray, "%s", p);
}
/* the fault that applies to this call of op, or -1 */
static int pick(int op) {
	nops[op]++;
	for (int i = 0; i < nfaults; i++)
		if (!faults[i].used && faults[i].op == op && nops[op] == faults[i].nth) { faults[i].used = 1; fired[faults[i].action]++; return i; }
	return -1;
}
#define FAIL(op, e) do { logop(op, -1, e); errno = e; return -1; } while (0)
#define REAL(name) static typeof(name) *real; if (!real) real = (typeof(name) *)dlsym(RTLD_NEXT, #name)

static int do_open(int dfd, const char *p, int fl, mode_t mode, int (*f)(int, const char *, int, ...)) {
	int w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
	if (!below(dfd, p)) { if (w) note(p); return f(dfd, p, fl, mode); }
	int op = w ? OPEN_W : OPEN_R;
	if (dead) FAIL(op, EIO);
	int k = pick(op);
	if (k >= 0) {
		if (faults[k].action == A_ERRNO) FAIL(op, (int)faults[k].arg);
		if (faults[k].action == A_INTR) { raise(SIGINT); FAIL(op, EINTR); }
		if (faults[k].action == A_DIE) { dead = 1; FAIL(op, EIO); }
	}
	int fd = f(dfd, p, fl, mode);
	if (fd >= 0 && fd < MAXFD) { mine[fd] = w ? 2 : 1; ateof[fd] = 0; }
	logop(op, fd >= 0 ? 0 : -1, fd >= 0 ? 0 : errno);
	return fd;
}
static int r_openat(int dfd, const char *p, int fl, ...) {
	static int (*real)(int, const char *, int, ...);
	va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap);
	if (!real) real = dlsym(RTLD_NEXT, "openat64");
	return real(dfd, p, fl, m);
}
#define MODE(fl) mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, m, r_openat); }
int open64(const char *p, int fl, ...) { MODE(fl) return do_open(AT_FDCWD, p, fl, m, r_openat); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, m, r_openat); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) return do_open(d, p, fl, m, r_openat); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, r_openat); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, r_openat); }

#define MINE(fd) ((fd) >= 0 && (fd) < MAXFD && mine[fd])

/* decides the size of a read; <0: fail with that errno */
static ssize_t plan_read(int fd, size_t n) {
	if (dead) return -EIO;
	int k = pick(READ);
	if (k >= 0) {
		if (faults[k].action == A_ERRNO) return -faults[k].arg;
		if (faults[k].action == A_INTR) { raise(SIGINT); return -EINTR; } /* the user hits Ctrl-C while the call waits */
		if (faults[k].action == A_SHORT && n > 0) return n > (size_t)faults[k].arg ? (faults[k].arg > 0 ? faults[k].arg : 1) : n;
		if (faults[k].action == A_EOF) ateof[fd] = 1;
		if (faults[k].action == A_TRICKLE) trickle = faults[k].arg > 0 ? faults[k].arg : 1;
		if (faults[k].action == A_DIE) { dead = 1; return -EIO; }
	}
	if (ateof[fd]) return 0;
	if (trickle && n > (size_t)trickle) return trickle;
	return n;
}
ssize_t read(int fd, void *b, size_t n) {
	REAL(read);
	if (!MINE(fd)) return real(fd, b, n);
	ssize_t q = plan_read(fd, n);
	if (q < 0) FAIL(READ, (int)-q);
	ssize_t r = q || !n ? real(fd, b, q) : 0;
	logop(READ, r, r < 0 ? errno : 0);
	return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
	REAL(pread64);
	if (!MINE(fd)) return real(fd, b, n, o);
	ssize_t q = plan_read(fd, n);
	if (q < 0) FAIL(READ, (int)-q);
	ssize_t r = q || !n ? real(fd, b, q, o) : 0;
	logop(READ, r, r < 0 ? errno : 0);
	return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
	REAL(readv);
	if (!MINE(fd)) return real(fd, v, c);
	return c ? read(fd, v[0].iov_base, v[0].iov_len) : 0;
}

/* decides how much of a write reaches the file; sets *err when the call must then fail */
static ssize_t plan_write(size_t n, int *err) {
	*err = 0;
	if (dead) { *err = EIO; return 0; }
	int k = pick(WRITE);
	if (k >= 0) {
		if (faults[k].action == A_ERRNO) { *err = (int)faults[k].arg; return 0; }
		if (faults[k].action == A_INTR) { raise(SIGINT); *err = EINTR; return 0; }
		if (faults[k].action == A_SHORT && n > 0) return n > (size_t)faults[k].arg ? (faults[k].arg > 0 ? faults[k].arg : 1) : n;
		if (faults[k].action == A_QUOTA) quota = faults[k].arg;
		if (faults[k].action == A_TRICKLE) trickle = faults[k].arg > 0 ? faults[k].arg : 1;
		if (faults[k].action == A_DIE) { dead = 1; *err = EIO; return n < (size_t)faults[k].arg ? n : faults[k].arg; }
	}
	if (quota >= 0) {
		if (quota == 0 && n > 0) { *err = ENOSPC; return 0; }
		if (n > (size_t)quota) n = quota;
		quota -= n;
	}
	if (trickle && n > (size_t)trickle) n = trickle;
	return n;
}
ssize_t write(int fd, const void *b, size_t n) {
	REAL(write);
	if (!MINE(fd)) return real(fd, b, n);
	int e; ssize_t q = plan_write(n, &e);
	ssize_t r = q > 0 || (!e && !n) ? real(fd, b, (size_t)q & SSIZE_MAX) : 0;
	if (e) FAIL(WRITE, e);
	logop(WRITE, r, r < 0 ? errno : 0);
	return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
	REAL(pwrite64);
	if (!MINE(fd)) return real(fd, b, n, o);
	int e; ssize_t q = plan_write(n, &e);
	ssize_t r = q > 0 || (!e && !n) ? real(fd, b, (size_t)q & SSIZE_MAX, o) : 0;
	if (e) FAIL(WRITE, e);
	logop(WRITE, r, r < 0 ? errno : 0);
	return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
	REAL(writev);
	if (!MINE(fd)) return real(fd, v, c);
	return c ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) {
	static ssize_t (*real)(int, int, off64_t *, size_t);
	if (!real) real = dlsym(RTLD_NEXT, "sendfile64");
	if (MINE(o) || MINE(i)) { errno = EINVAL; return -1; } /* callers fall back to read / write */
	return real(o, i, p, n);
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) { return sendfile64(o, i, (off64_t *)p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
	static ssize_t (*real)(int, off64_t *, int, off64_t *, size_t, unsigned);
	if (!real) real = dlsym(RTLD_NEXT, "copy_file_range");
	if (MINE(o) || MINE(i)) { errno = EXDEV; return -1; }
	return real(i, a, o, b, n, f);
}

int close(int fd) {
	REAL(close);
	if (!MINE(fd)) return real(fd);
	int w = mine[fd] == 2;
	mine[fd] = 0; ateof[fd] = 0;
	int k = dead ? -1 : pick(CLOSE);
	if (k >= 0 && faults[k].action == A_LOSE && w) { /* delayed allocation / NFS: the tail never made it */
		struct stat64 st;
		if (!fstat64(fd, &st)) {
			off64_t keep = st.st_size * (faults[k].arg % 100) / 100;
			static int (*ft)(int, off64_t);
			if (!ft) ft = dlsym(RTLD_NEXT, "ftruncate64");
			if (ft(fd, keep)) {}
		}
	}
	int r = real(fd); /* as on Linux: the descriptor is gone even when close reports an error */
	if (dead) FAIL(CLOSE, EIO);
	if (k >= 0) {
		if (faults[k].action == A_LOSE) FAIL(CLOSE, w ? EDQUOT : EIO);
		if (faults[k].action == A_ERRNO) FAIL(CLOSE, (int)faults[k].arg);
		if (faults[k].action == A_DIE) { dead = 1; FAIL(CLOSE, EIO); }
	}
	logop(CLOSE, r, 0);
	return r;
}
#define SIMPLE(op) do { if (dead) FAIL(op, EIO); int k = pick(op); if (k >= 0) { if (faults[k].action == A_ERRNO) FAIL(op, (int)faults[k].arg); if (faults[k].action == A_DIE) { dead = 1; FAIL(op, EIO); } } logop(op, 0, 0); } while (0)
int fsync(int fd) { REAL(fsync); if (MINE(fd)) SIMPLE(FSYNC); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (MINE(fd)) SIMPLE(FSYNC); return real(fd); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (MINE(fd)) SIMPLE(TRUNC); return real(fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) { REAL(truncate64); if (below(AT_FDCWD, p)) SIMPLE(TRUNC); else note(p); return real(p, n); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int rename(const char *a, const char *b) { REAL(rename); if (below(AT_FDCWD, a) || below(AT_FDCWD, b)) SIMPLE(RENAME); else note(b); return real(a, b); }
int renameat(int c, const char *a, int d, const char *b) { REAL(renameat); if (below(c, a) || below(d, b)) SIMPLE(RENAME); else note(b); return real(c, a, d, b); }
int renameat2(int c, const char *a, int d, const char *b, unsigned f) { REAL(renameat2); if (below(c, a) || below(d, b)) SIMPLE(RENAME); else note(b); return real(c, a, d, b, f); }
int link(const char *a, const char *b) { REAL(link); if (below(AT_FDCWD, b)) SIMPLE(RENAME); else note(b); return real(a, b); }
int linkat(int c, const char *a, int d, const char *b, int f) { REAL(linkat); if (below(d, b)) SIMPLE(RENAME); else note(b); return real(c, a, d, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); if (below(AT_FDCWD, b)) SIMPLE(RENAME); else note(b); return real(a, b); }
int unlink(const char *p) { REAL(unlink); if (below(AT_FDCWD, p)) SIMPLE(UNLINK); else note(p); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (below(d, p)) SIMPLE(UNLINK); else note(p); return real(d, p, f); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (below(AT_FDCWD, p)) SIMPLE(MKDIR); else note(p); return real(p, m); }

int dup(int fd) { REAL(dup); int r = real(fd); if (r >= 0 && r < MAXFD) mine[r] = MINE(fd) ? mine[fd] : 0; return r; }
int dup2(int a, int b) { REAL(dup2); int r = real(a, b); if (r >= 0 && r < MAXFD && r != a) mine[r] = MINE(a) ? mine[a] : 0; return r; }
int dup3(int a, int b, int f) { REAL(dup3); int r = real(a, b, f); if (r >= 0 && r < MAXFD) mine[r] = MINE(a) ? mine[a] : 0; return r; }
