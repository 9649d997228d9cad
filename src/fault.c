/*
 * LD_PRELOAD observer and fault injector for the file operations of one
 * program.
 *
 *  AWF_ROOT   only files below this path are observed (and fd 0 / fd 1 if
 *             AWF_STDIN / AWF_STDOUT is set)
 *  AWF_LOG    one line per operation is appended here
 *  AWF_AT     operation number (1...) at which something happens
 *  AWF_ACT    kill | kill_after | torn | err:ERRNO | short | stop
 *  AWF_FRAC   permille of a short or torn transfer which is done
 *  AWF_STICKY all later operations of the same name fail the same way (stop: all)
 *  AWF_FROM   act on the first operation with number >= AWF_AT which is
 *             named in this comma separated list
 *  AWF_DELAY  "seed:permille:maxmicroseconds" random delays
 *
 * stdio streams on observed files are built with fopencookie(3) so that what
 * stdio does to the file goes through the same funnel.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char *fdname[MAXFD];
static int inited, busy;
static const char *root;
static size_t rootlen;
static int logfd = -1;
static long at, count;
static enum { A_NONE, A_KILL, A_KILL_AFTER, A_TORN, A_ERR, A_SHORT, A_STOP } act;
static int acterr, sticky, fired;
static char firedop[32];
static const char *only;
static uint64_t rnd;
static unsigned permille, maxus, frac = 500;

#define REAL(ret, name, ...) \
	static ret (*real_##name)(__VA_ARGS__); \
	if (real_##name == NULL) real_##name = dlsym(RTLD_NEXT, #name)

static void
init(void)
{
	const char *p;

	if (inited)
		return;
	inited = 1;
	root = getenv("AWF_ROOT");
	if (root != NULL)
		rootlen = strlen(root);
	p = getenv("AWF_LOG");
	if (p != NULL) {
		logfd = syscall(SYS_openat, AT_FDCWD, p,
		    O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		if (logfd >= 0) {
			/* Out of the way of closefrom() and of small numbers */
			int fd2 = fcntl(logfd, F_DUPFD_CLOEXEC, 900);
			if (fd2 >= 0) {
				syscall(SYS_close, logfd);
				logfd = fd2;
			}
		}
	}
	p = getenv("AWF_AT");
	if (p != NULL)
		at = atol(p);
	only = getenv("AWF_FROM");
	p = getenv("AWF_ACT");
	if (p != NULL) {
		if (!strcmp(p, "kill")) act = A_KILL;
		else if (!strcmp(p, "kill_after")) act = A_KILL_AFTER;
		else if (!strcmp(p, "torn")) act = A_TORN;
		else if (!strcmp(p, "short")) act = A_SHORT;
		else if (!strcmp(p, "stop")) act = A_STOP;
		else if (!strncmp(p, "err:", 4)) { act = A_ERR; acterr = atoi(p + 4); }
	}
	sticky = getenv("AWF_STICKY") != NULL;
	p = getenv("AWF_DELAY");
	if (p != NULL) {
		unsigned long long s;
		if (sscanf(p, "%llu:%u:%u", &s, &permille, &maxus) == 3)
			rnd = s * 6364136223846793005ULL + 1442695040888963407ULL +
			    (uint64_t)getpid();
	}
	p = getenv("AWF_FRAC");
	if (p != NULL)
		frac = atoi(p);
	if (getenv("AWF_STDIN") != NULL)
		fdname[0] = "<stdin>";
	if (getenv("AWF_STDOUT") != NULL)
		fdname[1] = "<stdout>";
}

/* How much of a short or torn transfer is done */
static size_t
part(size_t len)
{
	size_t l = (size_t)((double)len * frac / 1000.);

	if (l < 1)
		l = 1;
	if (l >= len)
		l = len - 1;
	return (l);
}

static int
mine(const char *path)
{
	init();
	return (root != NULL && path != NULL && !strncmp(path, root, rootlen));
}

static int
minefd(int fd)
{
	init();
	return (fd >= 0 && fd < MAXFD && fdname[fd] != NULL);
}

static void
track(int fd, const char *path)
{
	if (fd >= 0 && fd < MAXFD)
		fdname[fd] = strdup(path);
}

static void
untrack(int fd)
{
	if (fd >= 0 && fd < MAXFD)
		fdname[fd] = NULL;
}

static void
logit(long n, const char *op, const char *path, long arg, const char *what)
{
	char buf[700];
	int l;

	if (logfd < 0)
		return;
	l = snprintf(buf, sizeof buf, "%ld %s %s %ld%s%s\n", n, op, path + (
	    !strncmp(path, root ? root : "", rootlen) ? rootlen : 0), arg,
	    *what ? " " : "", what);
	if (l > (int)sizeof buf)
		l = sizeof buf;
	(void)!syscall(SYS_write, logfd, buf, l);
}

/* What to do about this operation: A_NONE, A_KILL_AFTER, A_TORN, A_ERR, A_SHORT */
static int
op(const char *name, const char *path, long arg)
{
	long n;
	size_t l;
	const char *p;
	int hit = 0, e = errno;

	init();
	if (busy)
		return (A_NONE);
	n = ++count;
	if (permille) {
		rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
		if ((rnd >> 33) % 1000 < permille)
			usleep((rnd >> 40) % (maxus + 1));
	}
	if (act != A_NONE) {
		if (fired && sticky && (act == A_STOP || !strcmp(name, firedop)))
			hit = 1;
		else if (!fired && at > 0 && only == NULL && n == at)
			hit = 1;
		else if (!fired && at > 0 && only != NULL && n >= at) {
			l = strlen(name);
			for (p = only; p != NULL && *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL)
				if (!strncmp(p, name, l) && (p[l] == ',' || p[l] == '\0'))
					hit = 1;
		}
	}
	if (!hit) {
		logit(n, name, path, arg, "");
		errno = e;
		return (A_NONE);
	}
	if (!fired) {
		fired = 1;
		snprintf(firedop, sizeof firedop, "%s", name);
	}
	logit(n, name, path, arg, "<== FAULT");
	if (act == A_KILL) {
		kill(getpid(), SIGKILL);
		_exit(99);
	}
	if (act == A_STOP) {
		kill(getpid(), SIGSTOP);
		errno = e;
		return (A_NONE);
	}
	errno = e;
	return (act);
}

static void
after(int a)
{
	if (a == A_KILL_AFTER) {
		kill(getpid(), SIGKILL);
		_exit(99);
	}
}

/* The funnel -------------------------------------------------------------*/

static ssize_t
do_read(int fd, void *buf, size_t len)
{
	ssize_t r;
	int a = op("read", fdname[fd], (long)len);

	if (a == A_ERR) { errno = acterr; return (-1); }
	if (a == A_SHORT && len > 1)
		len = part(len);
	r = syscall(SYS_read, fd, buf, len);
	after(a);
	return (r);
}

static ssize_t
do_write(int fd, const void *buf, size_t len)
{
	ssize_t r;
	int a = op("write", fdname[fd], (long)len);

	if (a == A_ERR) { errno = acterr; return (-1); }
	if ((a == A_SHORT || a == A_TORN) && len > 1)
		len = part(len);
	r = syscall(SYS_write, fd, buf, len);
	if (a == A_TORN)
		a = A_KILL_AFTER;
	after(a);
	return (r);
}

static int
do_open(int dfd, const char *path, int flags, mode_t mode)
{
	int a, fd;

	a = op((flags & O_CREAT) ? ((flags & O_EXCL) ? "create" : "opencreat") :
	    "open", path, flags & O_ACCMODE);
	if (a == A_ERR) { errno = acterr; return (-1); }
	fd = syscall(SYS_openat, dfd, path, flags, mode);
	if (fd >= 0)
		track(fd, path);
	after(a);
	return (fd);
}

static int
do_close(int fd)
{
	int a, r;

	a = op("close", fdname[fd], 0);
	untrack(fd);
	r = syscall(SYS_close, fd);
	if (a == A_ERR) { errno = acterr; return (-1); }
	after(a);
	return (r);
}

static off_t
do_lseek(int fd, off_t off, int wh)
{
	off_t r;
	int a = op("lseek", fdname[fd], (long)off);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_lseek, fd, off, wh);
	after(a);
	return (r);
}

/* System calls -----------------------------------------------------------*/

int
open(const char *path, int flags, ...)
{
	va_list ap;
	mode_t mode;

	va_start(ap, flags);
	mode = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	if (!mine(path))
		return (syscall(SYS_openat, AT_FDCWD, path, flags, mode));
	return (do_open(AT_FDCWD, path, flags, mode));
}

int
open64(const char *path, int flags, ...)
{
	va_list ap;
	mode_t mode;

	va_start(ap, flags);
	mode = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	return (open(path, flags, mode));
}

int __open_2(const char *path, int flags) { return (open(path, flags)); }

int
creat(const char *path, mode_t mode)
{
	return (open(path, O_CREAT | O_WRONLY | O_TRUNC, mode));
}

int
openat(int dfd, const char *path, int flags, ...)
{
	va_list ap;
	mode_t mode;

	va_start(ap, flags);
	mode = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	if (!mine(path))
		return (syscall(SYS_openat, dfd, path, flags, mode));
	return (do_open(dfd, path, flags, mode));
}

int __openat_2(int dfd, const char *path, int flags) { return (openat(dfd, path, flags)); }

ssize_t
read(int fd, void *buf, size_t len)
{
	if (!minefd(fd))
		return (syscall(SYS_read, fd, buf, len));
	return (do_read(fd, buf, len));
}

ssize_t
__read_chk(int fd, void *buf, size_t len, size_t bl)
{
	if (len > bl)
		abort();
	return (read(fd, buf, len));
}

ssize_t
write(int fd, const void *buf, size_t len)
{
	if (!minefd(fd))
		return (syscall(SYS_write, fd, buf, len));
	return (do_write(fd, buf, len));
}

ssize_t
writev(int fd, const struct iovec *iov, int n)
{
	struct iovec v[16];
	size_t tot = 0, lim;
	ssize_t r;
	int i, a;

	if (!minefd(fd) || n > 16)
		return (syscall(SYS_writev, fd, iov, n));
	for (i = 0; i < n; i++)
		tot += iov[i].iov_len;
	a = op("writev", fdname[fd], (long)tot);
	if (a == A_ERR) { errno = acterr; return (-1); }
	lim = tot;
	if ((a == A_SHORT || a == A_TORN) && tot > 1)
		lim = part(tot);
	for (i = 0; i < n; i++) {
		v[i] = iov[i];
		if (v[i].iov_len > lim)
			v[i].iov_len = lim;
		lim -= v[i].iov_len;
	}
	r = syscall(SYS_writev, fd, v, n);
	if (a == A_TORN)
		a = A_KILL_AFTER;
	after(a);
	return (r);
}

ssize_t
pwrite(int fd, const void *buf, size_t len, off_t off)
{
	ssize_t r;
	int a;

	if (!minefd(fd))
		return (syscall(SYS_pwrite64, fd, buf, len, off));
	a = op("pwrite", fdname[fd], (long)len);
	if (a == A_ERR) { errno = acterr; return (-1); }
	if ((a == A_SHORT || a == A_TORN) && len > 1)
		len = part(len);
	r = syscall(SYS_pwrite64, fd, buf, len, off);
	if (a == A_TORN)
		a = A_KILL_AFTER;
	after(a);
	return (r);
}

ssize_t pwrite64(int fd, const void *buf, size_t len, off_t off) { return (pwrite(fd, buf, len, off)); }

ssize_t
pread(int fd, void *buf, size_t len, off_t off)
{
	ssize_t r;
	int a;

	if (!minefd(fd))
		return (syscall(SYS_pread64, fd, buf, len, off));
	a = op("pread", fdname[fd], (long)len);
	if (a == A_ERR) { errno = acterr; return (-1); }
	if (a == A_SHORT && len > 1)
		len = part(len);
	r = syscall(SYS_pread64, fd, buf, len, off);
	after(a);
	return (r);
}

ssize_t pread64(int fd, void *buf, size_t len, off_t off) { return (pread(fd, buf, len, off)); }

int
close(int fd)
{
	if (fd == logfd && fd >= 0)
		return (0);
	if (!minefd(fd))
		return (syscall(SYS_close, fd));
	return (do_close(fd));
}

off_t
lseek(int fd, off_t off, int wh)
{
	if (!minefd(fd))
		return (syscall(SYS_lseek, fd, off, wh));
	return (do_lseek(fd, off, wh));
}

off_t lseek64(int fd, off_t off, int wh) { return (lseek(fd, off, wh)); }

int
ftruncate(int fd, off_t len)
{
	int a, r;

	if (!minefd(fd))
		return (syscall(SYS_ftruncate, fd, len));
	a = op("ftruncate", fdname[fd], (long)len);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_ftruncate, fd, len);
	after(a);
	return (r);
}

int ftruncate64(int fd, off_t len) { return (ftruncate(fd, len)); }

int
flock(int fd, int o)
{
	int a, r;

	if (!minefd(fd))
		return (syscall(SYS_flock, fd, o));
	a = op("flock", fdname[fd], o);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_flock, fd, o);
	after(a);
	return (r);
}

int
fsync(int fd)
{
	int a, r;

	if (!minefd(fd))
		return (syscall(SYS_fsync, fd));
	a = op("fsync", fdname[fd], 0);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_fsync, fd);
	after(a);
	return (r);
}

int
fdatasync(int fd)
{
	int a, r;

	if (!minefd(fd))
		return (syscall(SYS_fdatasync, fd));
	a = op("fsync", fdname[fd], 0);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_fdatasync, fd);
	after(a);
	return (r);
}

int
mkstemp(char *t)
{
	REAL(int, mkstemp, char *);
	int fd, a;

	if (!mine(t))
		return (real_mkstemp(t));
	a = op("open", t, O_RDWR | O_CREAT | O_EXCL);
	if (a == A_ERR) { errno = acterr; return (-1); }
	fd = real_mkstemp(t);
	track(fd, t);
	after(a);
	return (fd);
}

int mkstemp64(char *t) { return (mkstemp(t)); }

int
dup2(int o, int n)
{
	int r = syscall(SYS_dup3, o, n, 0);

	init();
	if (o == n)
		return (n);
	if (r >= 0 && n >= 0 && n < MAXFD)
		fdname[n] = minefd(o) ? fdname[o] : NULL;
	return (r);
}

#define PATHOP2(nm, sysno) \
int \
nm(const char *p1, const char *p2) \
{ \
	int a, r; \
	if (!mine(p1) && !mine(p2)) \
		return (syscall(sysno, p1, p2)); \
	a = op(#nm, p2, 0); \
	if (a == A_ERR) { errno = acterr; return (-1); } \
	r = syscall(sysno, p1, p2); \
	after(a); \
	return (r); \
}

PATHOP2(link, SYS_link)
PATHOP2(rename, SYS_rename)
PATHOP2(symlink, SYS_symlink)

int
unlink(const char *p)
{
	int a, r;

	if (!mine(p))
		return (syscall(SYS_unlink, p));
	a = op("unlink", p, 0);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_unlink, p);
	after(a);
	return (r);
}

int
remove(const char *p)
{
	return (unlink(p));
}

int
mkdir(const char *p, mode_t m)
{
	int a, r;

	if (!mine(p))
		return (syscall(SYS_mkdir, p, m));
	a = op("mkdir", p, 0);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_mkdir, p, m);
	after(a);
	return (r);
}

int
chmod(const char *p, mode_t m)
{
	int a, r;

	if (!mine(p))
		return (syscall(SYS_chmod, p, m));
	a = op("chmod", p, m);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_chmod, p, m);
	after(a);
	return (r);
}

int
stat(const char *p, struct stat *st)
{
	int a, r;

	if (!mine(p))
		return (syscall(SYS_newfstatat, AT_FDCWD, p, st, 0));
	a = op("stat", p, 0);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
	after(a);
	return (r);
}

int stat64(const char *p, struct stat64 *st) { return (stat(p, (struct stat *)st)); }

int
lstat(const char *p, struct stat *st)
{
	int a, r;

	if (!mine(p))
		return (syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW));
	a = op("lstat", p, 0);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
	after(a);
	return (r);
}

int
access(const char *p, int m)
{
	int a, r;

	if (!mine(p))
		return (syscall(SYS_access, p, m));
	a = op("access", p, m);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_access, p, m);
	after(a);
	return (r);
}

int
fstat(int fd, struct stat *st)
{
	int a, r;

	if (!minefd(fd))
		return (syscall(SYS_fstat, fd, st));
	a = op("fstat", fdname[fd], 0);
	if (a == A_ERR) { errno = acterr; return (-1); }
	r = syscall(SYS_fstat, fd, st);
	after(a);
	return (r);
}

int fstat64(int fd, struct stat64 *st) { return (fstat(fd, (struct stat *)st)); }

void *
mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	int a;

	if (fd >= 0 && inited && minefd(fd)) {
		a = op("mmap", fdname[fd], (long)len);
		if (a == A_ERR) { errno = acterr; return (MAP_FAILED); }
		after(a);
	}
	return ((void *)syscall(SYS_mmap, addr, len, prot, flags, fd, off));
}

/* stdio ------------------------------------------------------------------*/

static ssize_t
ck_read(void *c, char *buf, size_t len)
{
	return (do_read((int)(intptr_t)c, buf, len));
}

static ssize_t
ck_write(void *c, const char *buf, size_t len)
{
	size_t done = 0;
	ssize_t r;

	/* As glibc does for real files */
	while (done < len) {
		r = do_write((int)(intptr_t)c, buf + done, len - done);
		if (r < 0)
			return (done);
		done += r;
	}
	return (done);
}

static int
ck_seek(void *c, off64_t *off, int wh)
{
	off_t r = do_lseek((int)(intptr_t)c, *off, wh);
	if (r < 0)
		return (-1);
	*off = r;
	return (0);
}

/* What stdio itself does not know: which descriptor is behind a stream */
static FILE *fdfile[MAXFD];

static int
ck_close(void *c)
{
	int fd = (int)(intptr_t)c;

	if (fd >= 0 && fd < MAXFD)
		fdfile[fd] = NULL;
	return (do_close(fd));
}

static FILE *
ck_open(int fd, const char *mode)
{
	cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
	FILE *fp = fopencookie((void *)(intptr_t)fd, mode, f);

	if (fd >= 0 && fd < MAXFD)
		fdfile[fd] = fp;
	return (fp);
}

int
fileno(FILE *fp)
{
	REAL(int, fileno, FILE *);
	int i;

	for (i = 0; i < MAXFD; i++)
		if (fdfile[i] == fp)
			return (i);
	return (real_fileno(fp));
}

int fileno_unlocked(FILE *fp) { return (fileno(fp)); }

FILE *
fdopen(int fd, const char *mode)
{
	REAL(FILE *, fdopen, int, const char *);

	if (!minefd(fd) || fd <= 2)
		return (real_fdopen(fd, mode));
	return (ck_open(fd, mode));
}

FILE *
fopen(const char *path, const char *mode)
{
	REAL(FILE *, fopen, const char *, const char *);
	int flags, fd;

	if (!mine(path))
		return (real_fopen(path, mode));
	switch (mode[0]) {
	case 'r': flags = strchr(mode, '+') ? O_RDWR : O_RDONLY; break;
	case 'w': flags = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
	case 'a': flags = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
	default: errno = EINVAL; return (NULL);
	}
	fd = do_open(AT_FDCWD, path, flags, 0666);
	if (fd < 0)
		return (NULL);
	return (ck_open(fd, mode));
}

FILE *fopen64(const char *path, const char *mode) { return (fopen(path, mode)); }
