/* Accounts for the heap and the descriptors of a command, for C27 */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static size_t live, peak, nlive, npeak, ncall;

static void *
add(void *p)
{
	if (p != NULL) {
		live += malloc_usable_size(p);
		nlive++;
		ncall++;
		if (live > peak)
			peak = live;
		if (nlive > npeak)
			npeak = nlive;
	}
	return (p);
}

static void
sub(void *p)
{
	if (p != NULL) {
		live -= malloc_usable_size(p);
		nlive--;
	}
}

void *malloc(size_t n) { return (add(__libc_malloc(n))); }
void *calloc(size_t a, size_t b) { return (add(__libc_calloc(a, b))); }
void free(void *p) { sub(p); __libc_free(p); }

void *
realloc(void *o, size_t n)
{
	void *p;
	size_t l = o == NULL ? 0 : malloc_usable_size(o);

	p = __libc_realloc(o, n);
	if (p == NULL && n > 0)
		return (p);
	if (o != NULL) {
		live -= l;
		nlive--;
	}
	return (add(p));
}

void *
memalign(size_t a, size_t n)
{
	return (add(__libc_memalign(a, n)));
}

void *
aligned_alloc(size_t a, size_t n)
{
	return (add(__libc_memalign(a, n)));
}

int
posix_memalign(void **pp, size_t a, size_t n)
{
	*pp = add(__libc_memalign(a, n));
	return (*pp == NULL ? 12 : 0);
}

__attribute__((destructor)) static void
fini(void)
{
	char b[256];
	const char *f = getenv("AWR_LOG");
	struct rusage ru;
	int i, fd, l, fds = 0;
	long stk = 0;
	ssize_t n;
	char sb[4096], *p;

	if (f == NULL)
		return;
	for (i = 3; i < 256; i++)
		if (fcntl(i, F_GETFD) >= 0)
			fds++;
	/*
	 * Stacks do not shrink.
	 * There may be no descriptor left, but standard input is not needed any more.
	 */
	(void)close(0);
	fd = open("/proc/self/status", O_RDONLY);
	if (fd >= 0) {
		n = read(fd, sb, sizeof sb - 1);
		if (n > 0) {
			sb[n] = '\0';
			p = strstr(sb, "VmStk:");
			if (p != NULL)
				stk = atol(p + 6) * 1024;
		}
		(void)close(fd);
	}
	(void)getrusage(RUSAGE_SELF, &ru);
	fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
	l = snprintf(b, sizeof b, "%d %zu %zu %zu %zu %zu %d %ld %ld\n", (int)getpid(), peak, live, npeak, nlive, ncall, fds, ru.ru_maxrss, stk);
	if (fd >= 0 && write(fd, b, l) != l)
		abort();
}
