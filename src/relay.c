/*
 * relay seed maxchunk maxdelay_us direction:bytes:exitcode command...
 *
 * Runs command and relays between it and the own stdin and stdout in
 * fragments of random size.  With direction "in" or "out" the connection is
 * cut after that many bytes; with "none" it is not.
 * The exit code is that of the command, if it is not cut.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static uint64_t rnd;
static unsigned
rn(unsigned n)
{
	rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
	return ((rnd >> 33) % n);
}

struct dir {
	int from, to;
	char buf[65536];
	size_t len, off;
	long total;
};

static struct dir d[2];

int
main(int argc, char **argv)
{
	unsigned maxchunk, maxdelay, n;
	char which[16];
	long cutat;
	int code, cut = -1, i, st, fi[2], fo[2];
	pid_t pid;
	ssize_t s;

	if (argc < 6)
		return (99);
	rnd = strtoull(argv[1], NULL, 0) * 2654435761u + 12345;
	maxchunk = atoi(argv[2]);
	maxdelay = atoi(argv[3]);
	if (sscanf(argv[4], "%15[^:]:%ld:%d", which, &cutat, &code) != 3)
		return (98);
	if (!strcmp(which, "in"))
		cut = 0;
	else if (!strcmp(which, "out"))
		cut = 1;
	if (pipe(fi) || pipe(fo))
		return (97);
	pid = fork();
	if (pid == 0) {
		dup2(fi[0], 0);
		dup2(fo[1], 1);
		close(fi[0]); close(fi[1]); close(fo[0]); close(fo[1]);
		execvp(argv[5], argv + 5);
		_exit(96);
	}
	close(fi[0]);
	close(fo[1]);
	signal(SIGPIPE, SIG_IGN);
	d[0].from = 0; d[0].to = fi[1];
	d[1].from = fo[0]; d[1].to = 1;
	fcntl(fi[1], F_SETFL, O_NONBLOCK);
	while (d[1].from >= 0 || d[1].len > 0) {
		struct pollfd p[2];
		int k = 0, idx[2];
		for (i = 0; i < 2; i++) {
			if (d[i].len > 0) {
				p[k].fd = d[i].to; p[k].events = POLLOUT;
			} else if (d[i].from >= 0) {
				p[k].fd = d[i].from; p[k].events = POLLIN;
			} else
				continue;
			idx[k++] = i;
		}
		if (k == 0 || poll(p, k, -1) < 0)
			break;
		for (int q = 0; q < k; q++) {
			struct dir *x = &d[idx[q]];
			if (!p[q].revents)
				continue;
			if (x->len == 0) {
				n = 1 + rn(maxchunk);
				if (n > sizeof x->buf)
					n = sizeof x->buf;
				s = read(x->from, x->buf, n);
				if (s <= 0) {
					close(x->from);
					x->from = -1;
					if (idx[q] == 0) {
						close(x->to);
						x->to = -1;
					}
					continue;
				}
				x->off = 0;
				x->len = s;
				if (idx[q] == cut && x->total + s >= cutat) {
					kill(pid, SIGKILL);
					waitpid(pid, &st, 0);
					if (cutat > x->total && cut == 1)
						(void)!write(x->to, x->buf, cutat - x->total);
					return (code);
				}
				x->total += s;
				if (maxdelay)
					usleep(rn(maxdelay));
			} else {
				s = write(x->to, x->buf + x->off, x->len);
				if (s < 0 && errno == EAGAIN)
					continue;
				if (s <= 0) {
					x->len = 0;
					if (x->from >= 0)
						close(x->from);
					x->from = -1;
					close(x->to);
					continue;
				}
				x->off += s;
				x->len -= s;
			}
		}
	}
	close(1);
	if (waitpid(pid, &st, 0) != pid)
		return (95);
	if (WIFSIGNALED(st))
		return (128 + WTERMSIG(st));
	return (WEXITSTATUS(st));
}
