/*
 * A peer which does not care what it is told: sends the chunks in the
 * file (4 byte big endian length, data) each whenever it has not been
 * told anything new for some milliseconds.  A length with the top bit
 * set is a number of milliseconds without anything to send.
 */
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>

int
main(int argc, char **argv)
{
	static char junk[1 << 16], buf[1 << 20];
	uint8_t h[4];
	uint32_t l;
	struct pollfd p;
	int fd, ms, open0 = 1, r, budget = 3000;

	if (argc != 3 || (fd = open(argv[1], O_RDONLY)) < 0)
		return (9);
	ms = atoi(argv[2]);
	while (read(fd, h, 4) == 4) {
		l = (uint32_t)h[0] << 24 | h[1] << 16 | h[2] << 8 | h[3];
		r = ms;
		if (l & 0x80000000) {
			r = l & 0xff;
			if (budget < r)
				r = 0;
			budget -= r;
			l = 0;
		}
		while (open0) {
			p.fd = 0;
			p.events = POLLIN;
			if (poll(&p, 1, r) == 0)
				break;
			if (read(0, junk, sizeof junk) <= 0)
				open0 = 0;
		}
		if (l > sizeof buf)
			return (8);
		if (read(fd, buf, l) != (ssize_t)l)
			return (7);
		if (l > 0 && write(1, buf, l) != (ssize_t)l)
			return (6);
	}
	while (open0) {
		p.fd = 0;
		p.events = POLLIN;
		if (poll(&p, 1, ms) == 0)
			break;
		if (read(0, junk, sizeof junk) <= 0)
			open0 = 0;
	}
	return (0);
}
