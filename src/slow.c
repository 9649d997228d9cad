/*
 * LD_PRELOAD: delays the start and the end of the children a program forks
 *
 *  AWS_SEED   for the random numbers
 *  AWS_SPEC   "start:end" maximum of the microseconds before a child begins
 *             and before it exits (with all it has printed on its way already)
 *  AWS_LOG    one line for each
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static unsigned long endus;
static unsigned long long count;

static void
note(const char *when, unsigned long us)
{
	const char *p = getenv("AWS_LOG");
	char buf[128];
	int fd, l;

	if (p == NULL)
		return;
	fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
	if (fd < 0)
		return;
	l = snprintf(buf, sizeof buf, "%s %lu\n", when, us);
	if (syscall(SYS_write, fd, buf, (size_t)l) < 0)
		l = 0;
	syscall(SYS_close, fd);
}

pid_t
fork(void)
{
	static pid_t (*real)(void);
	const char *p = getenv("AWS_SPEC"), *q = getenv("AWS_SEED");
	unsigned long long x = 88172645463325252ULL;
	unsigned long s, e;
	pid_t pid;
	char *r;
	int i;

	if (real == NULL)
		real = (pid_t (*)(void))dlsym(RTLD_NEXT, "fork");
	count++;
	pid = real();
	if (pid != 0 || p == NULL)
		return (pid);
	if (q != NULL)
		x ^= strtoull(q, NULL, 0) * 0x9E3779B97F4A7C15ULL;
	x += count * 0xD1342543DE82EF95ULL;
	for (i = 0; i < 8; i++) {
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
	}
	s = strtoul(p, &r, 10);
	e = *r == ':' ? strtoul(r + 1, NULL, 10) : 0;
	endus = e ? (x >> 20) % e : 0;
	if (s) {
		s = (x >> 33) % s;
		note("start", s);
		usleep(s);
	}
	return (pid);
}

__attribute__((destructor)) static void
slow_end(void)
{
	if (!endus)
		return;
	fflush(NULL);
	note("end", endus);
	usleep(endus);
}
