/*
 * The libraries are not instrumented: tell MemorySanitizer what they
 * have written.  Linked with -Wl,--wrap=...
 */
#include <sanitizer/msan_interface.h>
#include <stdint.h>
#include <string.h>
#include <sys/types.h>
#include <sha2.h>
#include <zlib.h>

#define DATA(p, l) __msan_check_mem_is_initialized(p, l)

int __real_inflateInit2_(z_streamp, int, const char *, int);
int __real_inflate(z_streamp, int);
int __real_inflateEnd(z_streamp);
int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char *, int);
int __real_deflate(z_streamp, int);
int __real_deflateEnd(z_streamp);

int
__wrap_inflateInit2_(z_streamp s, int w, const char *v, int z)
{
	int i = __real_inflateInit2_(s, w, v, z);

	__msan_unpoison(s, sizeof *s);
	return (i);
}

int
__wrap_inflate(z_streamp s, int f)
{
	const uint8_t *ib = s->next_in;
	uint8_t *ob = s->next_out;
	int i = __real_inflate(s, f);

	__msan_unpoison(s, sizeof *s);
	if (s->next_in > ib)
		DATA(ib, s->next_in - ib);
	if (s->next_out > ob)
		__msan_unpoison(ob, s->next_out - ob);
	return (i);
}

int
__wrap_inflateEnd(z_streamp s)
{
	int i = __real_inflateEnd(s);

	__msan_unpoison(s, sizeof *s);
	return (i);
}

int
__wrap_deflateInit2_(z_streamp s, int l, int m, int w, int mm, int st, const char *v, int z)
{
	int i = __real_deflateInit2_(s, l, m, w, mm, st, v, z);

	__msan_unpoison(s, sizeof *s);
	return (i);
}

int
__wrap_deflate(z_streamp s, int f)
{
	const uint8_t *ib = s->next_in;
	uint8_t *ob = s->next_out;
	int i = __real_deflate(s, f);

	__msan_unpoison(s, sizeof *s);
	if (s->next_in > ib)
		DATA(ib, s->next_in - ib);
	if (s->next_out > ob)
		__msan_unpoison(ob, s->next_out - ob);
	return (i);
}

int
__wrap_deflateEnd(z_streamp s)
{
	int i = __real_deflateEnd(s);

	__msan_unpoison(s, sizeof *s);
	return (i);
}

uLong __real_crc32(uLong, const Bytef *, uInt);

uLong
__wrap_crc32(uLong c, const Bytef *p, uInt l)
{
	if (p != NULL)
		DATA(p, l);
	return (__real_crc32(c, p, l));
}

void __real_SHA256Init(SHA2_CTX *);
void __real_SHA256Update(SHA2_CTX *, const uint8_t *, size_t);
void __real_SHA256Final(uint8_t *, SHA2_CTX *);
char *__real_SHA256End(SHA2_CTX *, char *);
char *__real_SHA256Data(const uint8_t *, size_t, char *);

void
__wrap_SHA256Init(SHA2_CTX *c)
{
	__real_SHA256Init(c);
	__msan_unpoison(c, sizeof *c);
}

void
__wrap_SHA256Update(SHA2_CTX *c, const uint8_t *p, size_t l)
{
	DATA(c, sizeof *c);
	if (l > 0)
		DATA(p, l);
	__real_SHA256Update(c, p, l);
	__msan_unpoison(c, sizeof *c);
}

void
__wrap_SHA256Final(uint8_t *d, SHA2_CTX *c)
{
	__real_SHA256Final(d, c);
	__msan_unpoison(d, 32);
	__msan_unpoison(c, sizeof *c);
}

char *
__wrap_SHA256End(SHA2_CTX *c, char *b)
{
	char *p = __real_SHA256End(c, b);

	__msan_unpoison(c, sizeof *c);
	if (p != NULL)
		__msan_unpoison(p, 65);
	return (p);
}

char *
__wrap_SHA256Data(const uint8_t *d, size_t l, char *b)
{
	char *p;

	DATA(d, l);
	p = __real_SHA256Data(d, l, b);
	if (p != NULL)
		__msan_unpoison(p, 65);
	return (p);
}

size_t __real_strlcpy(char *, const char *, size_t);

size_t
__wrap_strlcpy(char *d, const char *s, size_t l)
{
	size_t n = __real_strlcpy(d, s, l);

	if (l > 0)
		__msan_unpoison(d, (n < l ? n : l - 1) + 1);
	return (n);
}

int __real_strnunvis_netbsd(char *, size_t, const char *);

int
__wrap_strnunvis_netbsd(char *d, size_t l, const char *s)
{
	int i;

	DATA(s, strlen(s) + 1);
	i = __real_strnunvis_netbsd(d, l, s);
	if (i >= 0)
		__msan_unpoison(d, i + 1L);
	return (i);
}
