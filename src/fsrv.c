/*
 * Fork server around AardWARC's main(), which is renamed to aw_main().
 *
 * With $AW_FSRV set, commands are read from fd 198, executed in forked
 * children, and their fate reported on fd 199.  Otherwise this is just
 * an ordinary main().
 *
 * Coverage (edge counters from -fsanitize-coverage=trace-pc-guard) goes
 * to the file $AW_COV, shared with whoever asks.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#define NOSAN __attribute__((no_sanitize("all")))

int aw_main(int argc, char **argv);

#define MAPSIZE (1 << 16)
static uint8_t dummy[MAPSIZE];
static uint8_t *map = dummy;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop);
void __sanitizer_cov_trace_pc_guard(uint32_t *guard);

NOSAN void
__sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
	static uint32_t n;

	if (start == stop || *start)
		return;
	for (; start < stop; start++)
		*start = ++n & (MAPSIZE - 1);
}

NOSAN void
__sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
	uint8_t *p = map + *guard;

	if (*p < 255)
		++*p;
}

static int
rd(void *p, size_t l)
{
	char *b = p;
	ssize_t i;

	while (l > 0) {
		i = read(198, b, l);
		if (i < 0 && errno == EINTR)
			continue;
		if (i <= 0)
			return (-1);
		b += i;
		l -= i;
	}
	return (0);
}

static void
lim(int what, rlim_t soft)
{
	struct rlimit rl;

	rl.rlim_cur = rl.rlim_max = soft;
	(void)setrlimit(what, &rl);
}

static void
child(char *buf, char *end, const uint32_t *h)
{
	char **av, **ev;
	char *fn[3];
	uint32_t u;
	int fd;

	/* strings: 3 file names, argv, environment */
	for (u = 0; u < 3; u++) {
		fn[u] = buf;
		buf += strlen(buf) + 1;
	}
	av = calloc(h[1] + 1, sizeof *av);
	ev = calloc(h[2] + 1, sizeof *ev);
	if (av == NULL || ev == NULL)
		_exit(120);
	for (u = 0; u < h[1]; u++) {
		av[u] = buf;
		buf += strlen(buf) + 1;
	}
	for (u = 0; u < h[2]; u++) {
		ev[u] = buf;
		buf += strlen(buf) + 1;
	}
	if (buf != end)
		_exit(121);
	(void)setsid();
	(void)close(198);
	(void)close(199);
	fd = open(fn[0], O_RDONLY);
	if (fd < 0 || dup2(fd, 0) < 0)
		_exit(122);
	if (fd > 2)
		(void)close(fd);
	fd = open(fn[1], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	if (fd < 0 || dup2(fd, 1) < 0)
		_exit(123);
	if (fd > 2)
		(void)close(fd);
	fd = open(fn[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	if (fd < 0 || dup2(fd, 2) < 0)
		_exit(124);
	if (fd > 2)
		(void)close(fd);
	clearenv();
	for (u = 0; u < h[2]; u++)
		if (strchr(ev[u], '=') != NULL)
			(void)putenv(ev[u]);
	lim(RLIMIT_CPU, h[3]);
	lim(RLIMIT_FSIZE, 8 << 20);
	lim(RLIMIT_CORE, 0);
	exit(aw_main(h[1], av));
}

static void
serve(void)
{
	uint32_t h[5], rep[2];
	struct pollfd pfd;
	char *buf;
	const char *p;
	pid_t pid;
	int fd, i, st, pf;

	p = getenv("AW_COV");
	if (p != NULL) {
		fd = open(p, O_RDWR);
		if (fd < 0)
			_exit(125);
		map = mmap(NULL, MAPSIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (map == MAP_FAILED)
			_exit(125);
		(void)close(fd);
	}
	p = getenv("AW_UID");
	if (p != NULL && geteuid() == 0) {
		if (setgroups(0, NULL) || setgid(atoi(p)) || setuid(atoi(p)))
			_exit(126);
	}
	/* What commands leave running is ours to clean up */
	(void)prctl(PR_SET_CHILD_SUBREAPER, 1);
	(void)prctl(PR_SET_PDEATHSIG, SIGKILL);
	/* h: length of strings, argc, envc, CPU seconds, milliseconds */
	while (!rd(h, sizeof h)) {
		buf = malloc(h[0] + 1);
		if (buf == NULL || rd(buf, h[0]))
			break;
		buf[h[0]] = '\0';
		pid = fork();
		if (pid < 0)
			_exit(127);
		if (pid == 0)
			child(buf, buf + h[0], h);
		free(buf);
		rep[0] = rep[1] = 0;
		pf = syscall(SYS_pidfd_open, pid, 0);
		if (pf >= 0) {
			pfd.fd = pf;
			pfd.events = POLLIN;
			i = poll(&pfd, 1, h[4]);
			(void)close(pf);
			if (i == 0) {
				rep[1] = 1;
				(void)kill(pid, SIGKILL);
			}
		}
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			continue;
		(void)kill(-pid, SIGKILL);
		while (waitpid(-1, NULL, WNOHANG) > 0)
			continue;
		rep[0] = st;
		if (write(199, rep, sizeof rep) != sizeof rep)
			break;
	}
	_exit(0);
}

int
main(int argc, char **argv)
{

	if (getenv("AW_FSRV") != NULL)
		serve();
	return (aw_main(argc, argv));
}
