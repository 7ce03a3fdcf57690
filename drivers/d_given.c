/* What a handler is given is what the client sent: the parts of a request are compared with the bytes they stand for. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "grengine.h"
#include "parse.h"
#include "utils.h"
#include "v.h"

static char *bytes(size_t n)
{
	char *s = malloc(n + 1);
	__v_havoc(s, n);
	s[n] = 0;
	return s;
}
static char *str(size_t max, size_t *len)
{
	size_t n = __v_range(0, 1 << 30);
	__v_assume(n <= max);
	char *s = malloc(n + 1);
	__v_mkstr(s, n);
	*len = n;
	return s;
}

/* where the name looked for and the ends of its value were found (a function that searches in another way is not compared) */
static const char *wanted, *name_at, *line_at, *equals_at, *semi_at, *space_at, *first_space;
char *c_find(const char *h, const char *n, size_t len)
{
	size_t nl = strlen(n);
	if (nl == 0) {
		if (n == wanted)
			name_at = h;
		return (char *)h;
	}
	size_t hl = strnlen(h, len);
	if (hl < nl || __v_choose(2) == 0)
		return NULL;
	size_t k = __v_range(0, INT32_MAX);
	__v_assume(k + nl <= hl);
	const char *r = h + k;
	if (n == wanted)
		name_at = r;
	else if (nl == 2)
		line_at = r;
	else if (nl == 1 && n[0] == '=')
		equals_at = r;
	else if (nl == 1 && n[0] == ';')
		semi_at = r;
	else if (nl == 1 && n[0] == ' ') {
		if (!first_space)
			first_space = r;
		space_at = r;
	}
	return (char *)r;
}

void e_given_header(void)
{
	size_t n = __v_range(0, MAX_REQUEST_SIZE + MAX_READ_LEN), nl;
	char *t = str(n, &n), *name = str(128, &nl);
	__v_freeze(t, "C30");
	wanted = name;
	char *v = m38_get_header_value_raw(t, n, name);
	if (v) {
		size_t l = strlen(v);
		if (name_at) {
			const char *from = name_at + nl + 2;
			__v_check_same(v, from, l, "C30", "a header's value is what follows its name");
			if (line_at)
				__v_check(line_at == from + l, "C30", "a header's value goes to the end of its line");
		}
		__v_reach("C30", "a header is found");
	}
	free(v);
	__v_freeze(t, "-");
	free(t);
	free(name);
}
void e_given_cookie(void)
{
	size_t n, nl;
	char *t = str(1 << 20, &n), *name = str(1 << 10, &nl);
	__v_freeze(t, "C30");
	wanted = name;
	char *v = m38_get_cookie_value(t, n, name);
	if (v) {
		size_t l = strlen(v);
		if (name_at && equals_at) {
			__v_check_same(v, equals_at + 1, l, "C30", "a cookie's value is what follows the equals sign");
			const char *end = semi_at ? semi_at : space_at ? space_at : t + n;
			__v_check(end == equals_at + 1 + l, "C30", "a cookie's value goes to its end");
		}
		__v_reach("C30", "a cookie is found");
	}
	free(v);
	__v_freeze(t, "-");
	free(t);
	free(name);
}
void e_given_request(void)
{
	size_t n = __v_range(0, MAX_REQUEST_SIZE + MAX_READ_LEN);
	char *t = bytes(n);
	__v_freeze(t, "C30");
	m38_http_request *q = calloc(1, sizeof(*q));
	if (m38_parse_request((unsigned char *)t, n, q) == 0) {
		size_t v = strlen(q->verb), r = strlen(q->resource);
		__v_check_same(q->verb, t, v, "C30", "the verb is what the request starts with");
		__v_check_same(q->full_header, t, q->header_len, "C30", "the header block is what the request starts with");
		if (v < sizeof(q->verb) - 1)
			__v_check_same(q->resource, t + v + 1, r, "C30", "the path is what follows the verb");
		if (first_space && space_at != first_space) {
			__v_check((size_t)(first_space - t) == v || v == sizeof(q->verb) - 1, "C30", "the verb goes to the first space");
			__v_check(space_at == first_space + 1 + r, "C30", "the path goes from the first space to the second");
			__v_check_same(q->resource, first_space + 1, r, "C30", "the path is what follows the verb");
		}
		__v_reach("C30", "a request is given");
	}
	free(q->full_header);
	free(q);
	__v_freeze(t, "-");
	free(t);
}
void e_given_body(void)
{
	size_t hl = __v_range(0, 1 << 20), bl = __v_range(0, 1 << 20), cl = __v_range(0, (1L << 31) - 1);
	char *t = bytes(hl + bl);
	__v_freeze(t, "C30");
	m38_http_request *q = calloc(1, sizeof(*q));
	q->header_len = hl;
	if (m38_parse_body(bl, cl, (unsigned char *)t, q) == 0) {
		__v_check(q->body_len == (cl < bl ? cl : bl), "C30", "a body is as long as announced, or as what arrived");
		__v_check_same(q->full_body, t + hl, q->body_len, "C30", "the body is what follows the header block");
		__v_reach("C30", "a body is given");
	} else
		__v_check(cl == 0 && bl > 0, "C30", "a body that was announced is given");
	free(q->full_body);
	free(q);
	__v_freeze(t, "-");
	free(t);
}
