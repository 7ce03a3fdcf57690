/* Parsing helpers, on inputs of every length and content. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "grengine.h"
#include "parse.h"
#include "utils.h"
#include "simple_sparsehash.h"
#include "v.h"

static char *str(size_t max, size_t *len)
{
	size_t n = __v_range(0, 1 << 30);
	__v_assume(n <= max);
	char *s = malloc(n + 1);
	__v_mkstr(s, n);
	*len = n;
	return s;
}
/* n arbitrary bytes (zero bytes included) followed by a zero */
static char *bytes(size_t n)
{
	char *s = malloc(n + 1);
	__v_havoc(s, n);
	s[n] = 0;
	return s;
}
static void check_text(const char *r, const char *who)
{
	if (r) {
		size_t l = strlen(r);
		__v_check(l + 1 <= (size_t)__v_objsize(r), "C01", "an extracted value is terminated inside its block");
	}
}
void e_strnstr(void)
{
	size_t hl, nl, lim = __v_range(0, 1 << 30);
	char *h = str(1 << 30, &hl), *n = str(1 << 20, &nl);
	char *r = strnstr(h, n, lim);
	if (r) {
		__v_check(r >= h, "C24", "a substring search answers with a position inside the text");
		__v_check((size_t)(r - h) + nl <= hl, "C24", "a substring search answers with a position inside the text");
		__v_check((size_t)(r - h) + nl <= lim || nl == 0, "C24", "a bounded search does not look beyond its bound");
	}
	free(h);
	free(n);
	__v_reach("C13", "strnstr finishes");
}
/* a search in a region that is exactly as long as the bound, with no terminator */
void e_strnstr_region(void)
{
	size_t nl, lim = __v_range(0, 1 << 30);
	char *h = malloc(lim), *n = str(1 << 20, &nl);
	__v_havoc(h, lim);
	char *r = strnstr(h, n, lim);
	if (r)
		__v_check((size_t)(r - h) + nl <= lim || nl == 0, "C24", "a bounded search does not look beyond its bound");
	free(h);
	free(n);
	__v_reach("C13", "strnstr finishes on a region without terminator");
}
void e_header_value(void)
{
	size_t n = __v_range(0, MAX_REQUEST_SIZE + MAX_READ_LEN), nl;
	char *t = bytes(n), *name = str(128, &nl);
	char *v = m38_get_header_value_raw(t, n, name);
	check_text(v, "header");
	free(v);
	free(t);
	free(name);
	__v_reach("C13", "reading a header value finishes");
}
void e_cookie(void)
{
	size_t n, nl;
	char *t = str(1 << 20, &n), *name = str(1 << 10, &nl);
	size_t lim = __v_range(0, 1 << 20);
	__v_assume(lim <= n);
	char *v = m38_get_cookie_value(t, lim, name);
	check_text(v, "cookie");
	free(v);
	free(t);
	free(name);
	__v_reach("C13", "reading a cookie finishes");
}
void e_range(void)
{
	size_t n;
	char *t = str(1 << 20, &n);
	m38_range_header h = m38_parse_range_header(t);
	__v_check(h.limit == 0 || h.limit >= h.offset, "C03", "a parsed range has no end or an end that is not before its start");
	free(t);
	__v_reach("C13", "parsing a range finishes");
}
void e_url_decode(void)
{
	size_t n;
	char *t = str(1 << 20, &n);
	char *d = malloc(n + 1);
	memset(d, 0, n + 1);
	int k = m38_url_decode(t, d);
	__v_check(k <= (long)n + 1, "C24", "decoding never makes a text longer");
	free(t);
	free(d);
	__v_reach("C13", "decoding finishes");
}
void e_endswith(void)
{
	size_t n, m;
	char *t = str(1 << 20, &n), *u = str(1 << 20, &m);
	int r = endswith(t, u);
	if (r)
		__v_check(m <= n, "C24", "a text ends only with texts that are not longer");
	free(t);
	free(u);
	__v_reach("C13", "comparing endings finishes");
}
void e_hash(void)
{
	size_t n = __v_range(0, 1 << 30);
	unsigned char *k = malloc(n);
	__v_havoc(k, n);
	char *out = malloc(HASH_STR_SIZE);
	hash_string_fnv1a(k, n, out);
	check_text(out, "hash");
	free(k);
	free(out);
	__v_reach("C13", "hashing finishes");
}
void e_parse_request(void)
{
	size_t n = __v_range(0, MAX_REQUEST_SIZE + MAX_READ_LEN);
	char *t = bytes(n);
	m38_http_request *q = calloc(1, sizeof(*q));
	int rc = m38_parse_request((unsigned char *)t, n, q);
	__v_check(rc == 0 || rc == -1, "C24", "parsing a request answers 0 or -1");
	if (rc == 0) {
		__v_check(q->full_header != NULL, "C24", "a parsed request has a header");
		__v_check(q->header_len <= n, "C01", "a request's header length is what was received of it");
		__v_check(q->header_len < (size_t)__v_objsize(q->full_header), "C01", "a request's header block holds the header length it states");
		__v_check_init(q->full_header, q->header_len + 1, "C01", "a request's header bytes are all initialised");
		__v_check(strlen(q->verb) < sizeof(q->verb), "C17", "a request's verb is terminated inside its field");
		__v_check(strlen(q->resource) < sizeof(q->resource), "C17", "a request's path is terminated inside its field");
	}
	free(q->full_header);
	free(q);
	free(t);
	__v_reach("C13", "parsing a request finishes");
}
void e_parse_body(void)
{
	size_t hl = __v_range(0, 1 << 20), bl = __v_range(0, 1 << 20);
	size_t cl = __v_range(-(1L << 31), (1L << 31) - 1);
	char *t = bytes(hl + bl);
	m38_http_request *q = calloc(1, sizeof(*q));
	q->header_len = hl;
	int rc = m38_parse_body(bl, cl, (unsigned char *)t, q);
	__v_check(rc == 0 || rc == -1, "C24", "parsing a body answers 0 or -1");
	if (rc == 0) {
		__v_check(q->full_body != NULL, "C24", "a parsed body exists");
		__v_check(q->body_len <= bl, "C01", "a body's length is not more than was received");
		__v_check(q->body_len < (size_t)__v_objsize(q->full_body), "C01", "a body's block holds the length it states");
		__v_check_init(q->full_body, q->body_len + 1, "C01", "a body's bytes are all initialised");
	}
	free(q->full_body);
	free(q);
	free(t);
	__v_reach("C13", "parsing a body finishes");
}
