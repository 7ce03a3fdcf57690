/* Contracts: what callers may rely on. Each is verified against the real function by a driver of its own
 * (the entry named in the comment) and then stands in for it elsewhere. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "types.h"
#include "parse.h"
#include "grengine.h"
#include "v.h"

/* e_strnstr */
char *c_strnstr(const char *h, const char *n, size_t len)
{
	size_t nl = strlen(n);
	if (nl == 0)
		return (char *)h;
	size_t hl = strnlen(h, len);
	if (hl < nl || __v_choose(2) == 0)
		return NULL;
	size_t k = __v_range(0, INT32_MAX);
	__v_assume(k + nl <= hl);
	return (char *)h + k;
}

/* which part of the request varies: 1 what describes its body, 2 the rest of its headers, 4 its length; 8 how much of the response
 * the connection accepts (otherwise: nothing); 16 the length of a body that is received separately */
int scene = 31;
/* e_header_value: the answer is absent or a fresh text that is not longer than the header */
char *c_header_value(const char *request, size_t siz, const char *header)
{
	__v_check(request != NULL, "mem", "a header is looked up in existing text");
	size_t nl = strlen(header);
	size_t l = strnlen(request, siz);
	int may = strcmp(header, "Content-Length") == 0 || strcmp(header, "Content-Type") == 0 ? scene & 1 : scene & 2;
	if (!may || l < nl || __v_choose(2) == 0)
		return NULL;
	size_t k = __v_range(0, INT32_MAX);
	__v_assume(k <= l);
	char *r = malloc(k + 1);
	__v_mkstr(r, k);
	return r;
}
/* e_range: any two numbers; an end is not before its start */
size_t range_from, range_to;
m38_range_header c_range(const char *text)
{
	strlen(text);
	size_t from = __v_long(), to = 0;
	if (__v_choose(2) == 0) {
		to = __v_long();
		__v_assume(to >= from);
	}
	range_from = from;
	range_to = to;
	m38_range_header r = {.limit = to, .offset = from};
	return r;
}
/* e_parse_request */
int c_parse_request(const unsigned char *t, size_t n, m38_http_request *out)
{
	strnlen((const char *)t, 4096);
	__v_check((size_t)__v_objsize(t) >= n, "mem", "a request is as long as is said");
	if (n < 4 || ((scene & 1) && __v_choose(2) == 0)) {
		size_t k = __v_range(0, sizeof(out->verb) - 1);
		if (__v_choose(2) == 0)
			__v_mkstr(out->verb, k);
		return -1;
	}
	size_t k = __v_range(0, sizeof(out->verb) - 1), m = __v_range(0, sizeof(out->resource) - 1);
	memset(out->verb, 0, sizeof(out->verb));
	memset(out->resource, 0, sizeof(out->resource));
	__v_mkstr(out->verb, k);
	__v_mkstr(out->resource, m);
	size_t h = n;
	if (scene & 1) {
		h = __v_range(4, INT32_MAX);
		__v_assume(h <= n);
	}
	out->full_header = malloc(h + 1);
	__v_havoc(out->full_header, h);
	out->full_header[h] = 0;
	out->header_len = h;
	return 0;
}
/* e_parse_body */
int c_parse_body(size_t have, size_t want, const unsigned char *t, m38_http_request *q)
{
	__v_check((size_t)__v_objsize(t) >= q->header_len + have, "mem", "a body is as long as is said");
	if (want == 0 && have != 0)
		return -1;
	size_t l = want < have ? want : have;
	q->full_body = malloc(l + 1);
	__v_havoc(q->full_body, l);
	q->full_body[l] = 0;
	q->body_len = l;
	return 0;
}
/* e_parse_form: the elements are a dictionary of their own, or nothing was kept */
int c_parse_form(m38_http_request *q)
{
	__v_check((size_t)__v_objsize(q->full_body) >= q->body_len, "mem", "a body is as long as is said");
	if (__v_choose(2) == 0)
		return -1;
	q->form_elements = malloc(1);
	return 0;
}
int c_dict_free(struct sparse_dict *d)
{
	free(d);
	return 1;
}
