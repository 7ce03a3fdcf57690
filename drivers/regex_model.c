/* regcomp/regexec/regfree: a compiled expression is a resource; a match is a list of non-empty or empty spans. */
#include <regex.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "v.h"
int __v_regex_fail;
int regcomp(regex_t *r, const char *pat, int flags)
{
	(void)flags;
	strlen(pat);
	memset(r, 0, sizeof(*r));
	if (__v_regex_fail && __v_choose(2) == 1)
		return REG_ESPACE;
	*(void **)r = malloc(1);
	return 0;
}
void regfree(regex_t *r)
{
	free(*(void **)r);
	*(void **)r = 0;
}
size_t regerror(int e, const regex_t *r, char *b, size_t n)
{
	(void)e; (void)r;
	size_t k = __v_range(0, 200);
	__v_assume(k < n);
	__v_mkstr(b, k);
	return k + 1;
}
int regexec(const regex_t *r, const char *s, size_t nm, regmatch_t m[], int flags)
{
	(void)flags;
	__v_check(*(void *const *)r != 0, "life", "regexec uses a compiled expression that was not released");
	size_t l = strlen(s);
	if (__v_choose(2) == 0)
		return REG_NOMATCH;
	if (nm) {
		long a = __v_range(0, INT32_MAX), b = __v_range(0, INT32_MAX);
		__v_assume(a <= b);
		__v_assume(b <= (long)l);
		for (size_t i = 0; i < nm; i++) {
			if (i == 0) {
				m[0].rm_so = a;
				m[0].rm_eo = b;
			} else {
				long x = __v_range(0, INT32_MAX), y = __v_range(0, INT32_MAX);
				__v_assume(a <= x);
				__v_assume(x <= y);
				__v_assume(y <= b);
				m[i].rm_so = x;
				m[i].rm_eo = y;
			}
		}
	}
	return 0;
}
