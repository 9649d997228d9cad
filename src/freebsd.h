/*
 * Forced include (-include) that supplies, on Linux, what the FreeBSD
 * headers give AardWARC.  It contains no AardWARC code.
 */
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <stddef.h>
#include <stdint.h>

/* FreeBSD's <sha256.h> tags its context struct; libmd's has another tag */
#define SHA256Context	_SHA2_CTX

/* Only keeps a mapping out of core dumps */
#ifndef MAP_NOCORE
#define MAP_NOCORE	0
#endif

/* Linux wait4() says EINVAL to WEXITED, which is its default anyway */
#undef WEXITED
#define WEXITED	0

/*
 * glibc's getopt() moves options in front of operands, FreeBSD's stops at
 * the first operand.  libbsd's only adds optreset, so ask for the latter.
 */
#include <unistd.h>
#undef getopt
#define getopt(argc, argv, opts)	bsd_getopt(argc, argv, "+" opts)
