/* Library functions, as far as the analysed code relies on them. Compiled with -fno-builtin. */
#define _GNU_SOURCE
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <regex.h>
#include <errno.h>
#include "v.h"

int __v_errno;

char *strndup(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	char *p = malloc(l + 1);
	memcpy(p, s, l);
	p[l] = 0;
	return p;
}
char *strdup(const char *s)
{
	size_t l = strlen(s);
	char *p = malloc(l + 1);
	memcpy(p, s, l);
	p[l] = 0;
	return p;
}
char *strncpy(char *d, const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	memcpy(d, s, l);
	memset(d + l, 0, n - l);
	return d;
}
char *strcpy(char *d, const char *s)
{
	size_t l = strlen(s);
	memcpy(d, s, l);
	d[l] = 0;
	return d;
}
char *stpcpy(char *d, const char *s)
{
	size_t l = strlen(s);
	memcpy(d, s, l);
	d[l] = 0;
	return d + l;
}
char *strcat(char *d, const char *s)
{
	size_t k = strlen(d), l = strlen(s);
	memcpy(d + k, s, l);
	d[k + l] = 0;
	return d;
}
char *strncat(char *d, const char *s, size_t n)
{
	size_t k = strlen(d), l = strnlen(s, n);
	memcpy(d + k, s, l);
	d[k + l] = 0;
	return d;
}
char *strchr(const char *s, int c)
{
	size_t l = strlen(s);
	if (c == 0)
		return (char *)s + l;
	if (l == 0 || __v_choose(2) == 0)
		return 0;
	size_t k = __v_range(0, INT64_MAX);
	__v_assume(k < l);
	__v_assume(s[k] == (char)c);
	return (char *)s + k;
}
char *strrchr(const char *s, int c) { return strchr(s, c); }
char *strchrnul(const char *s, int c)
{
	char *r = strchr(s, c);
	return r ? r : (char *)s + strlen(s);
}
void *memchr(const void *s, int c, size_t n)
{
	__v_check_init(s, n, "uninit", "memchr looks at bytes that were written");
	if (n == 0 || __v_choose(2) == 0)
		return 0;
	size_t k = __v_range(0, INT64_MAX);
	__v_assume(k < n);
	__v_assume(((const char *)s)[k] == (char)c);
	return (char *)s + k;
}
char *strstr(const char *h, const char *n)
{
	size_t hl = strlen(h), nl = strlen(n);
	if (hl < nl || __v_choose(2) == 0)
		return 0;
	size_t k = __v_range(0, INT64_MAX);
	__v_assume(k + nl <= hl);
	return (char *)h + k;
}
void *memmem(const void *h, size_t hl, const void *n, size_t nl)
{
	__v_check_init(h, hl, "uninit", "memmem looks at bytes that were written");
	if (hl < nl || __v_choose(2) == 0)
		return 0;
	size_t k = __v_range(0, INT64_MAX);
	__v_assume(k + nl <= hl);
	return (char *)h + k;
}
size_t strspn(const char *s, const char *a)
{
	size_t l = strlen(s), k = __v_range(0, INT64_MAX);
	strlen(a);
	__v_assume(k <= l);
	return k;
}
size_t strcspn(const char *s, const char *a) { return strspn(s, a); }

static int outcome(const char *a, const char *b, size_t n, int exact)
{
	if (exact) {
		int k = __v_known_cmp(a, b, n);
		if (k == 1)
			return 0;
		if (k == 2)
			return -1;
		if (k == 3)
			return 1;
	}
	return __v_choose(3) - 1;
}
int strcmp(const char *a, const char *b)
{
	size_t x = strlen(a), y = strlen(b);
	int r = outcome(a, b, SIZE_MAX >> 1, 1);
	if (r == 0) {
		__v_assume(x == y);
		if (__v_literal_len(b) >= 0)
			__v_set_literal((char *)a, b);
		else if (__v_literal_len(a) >= 0)
			__v_set_literal((char *)b, a);
	}
	return r;
}
int strncmp(const char *a, const char *b, size_t n)
{
	if (n == 0)
		return 0;
	size_t x = strnlen(a, n), y = strnlen(b, n);
	int r = outcome(a, b, n, 1);
	if (r == 0)
		__v_assume(x == y);
	return r;
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int casecmp(const char *a, const char *b, size_t x, size_t y, size_t n)
{
	if (__v_literal_len(a) >= 0 && __v_literal_len(b) >= 0) {
		for (size_t i = 0; i < n; i++) {
			int c = lower(a[i]), d = lower(b[i]);
			if (c != d)
				return c < d ? -1 : 1;
			if (c == 0)
				return 0;
		}
		return 0;
	}
	int r = __v_choose(3) - 1;
	if (r == 0)
		__v_assume(x == y);
	return r;
}
int strcasecmp(const char *a, const char *b)
{
	size_t x = strlen(a), y = strlen(b);
	return casecmp(a, b, x, y, SIZE_MAX);
}
int strncasecmp(const char *a, const char *b, size_t n)
{
	if (n == 0)
		return 0;
	size_t x = strnlen(a, n), y = strnlen(b, n);
	return casecmp(a, b, x, y, n);
}
int memcmp(const void *a, const void *b, size_t n)
{
	if (n == 0)
		return 0;
	__v_check_init(a, n, "uninit", "memcmp looks at bytes that were written");
	__v_check_init(b, n, "uninit", "memcmp looks at bytes that were written");
	int k = __v_known_memcmp(a, b, n);
	if (k == 1)
		return 0;
	if (k == 2)
		return -1;
	if (k == 3)
		return 1;
	return __v_choose(3) - 1;
}
char *strsep(char **p, const char *delim)
{
	char *s = *p;
	if (!s)
		return 0;
	size_t l = strlen(s);
	strlen(delim);
	if (l == 0 || __v_choose(2) == 0) {
		*p = 0;
		return s;
	}
	size_t k = __v_range(0, INT64_MAX);
	__v_assume(k < l);
	s[k] = 0;
	*p = s + k + 1;
	return s;
}
char *strtok_r(char *s, const char *delim, char **save)
{
	if (!s)
		s = *save;
	if (!s || __v_choose(2) == 0)
		return 0;
	return strsep(&s, delim);
}
/* not reentrant: callers reachable from workers are flagged by a rule of their own */
char *strtok(char *s, const char *delim)
{
	static char *keep;
	return strtok_r(s, delim, &keep);
}
