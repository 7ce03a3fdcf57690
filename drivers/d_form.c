/* Form bodies: m38_parse_form_encoded_body on bodies of every length and content. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "grengine.h"
#include "parse.h"
#include "utils.h"
#include "simple_sparsehash.h"
#include "v.h"

/* e_url_decode_out: a negative answer, or the length of what was written, which ends with a zero byte */
static const char *from, *to; /* the last decoding */
int c_url_decode(const char *s, char *dec)
{
	from = s;
	to = dec;
	size_t n = strlen(s);
	__v_check((size_t)__v_objsize(dec) >= n + 1, "C01", "a decoded value has room for all of the text");
	if (__v_choose(2) == 0) {
		size_t k = __v_range(0, INT32_MAX);
		__v_assume(k <= n);
		__v_havoc(dec, k);
		from = to = 0;
		return -1;
	}
	size_t k = __v_range(1, INT32_MAX);
	__v_assume(k <= n + 1);
	__v_havoc(dec, k - 1);
	dec[k - 1] = 0;
	return (int)k;
}
static void *dict;
static int dicts;
struct sparse_dict *c_dict_init(void)
{
	__v_check(dict == NULL, "C05", "one dictionary per form");
	dicts++;
	dict = malloc(1);
	return dict;
}
int c_dict_set(struct sparse_dict *d, const char *key, const size_t klen, const void *val, const size_t vlen)
{
	__v_check((void *)d == dict, "C24", "fields are stored in the form's dictionary");
	__v_check_init(key, klen, "C01", "a stored key was written");
	__v_check_init(val, vlen, "C01", "a stored value was written");
	__v_check(memchr(key, 0, klen) == NULL, "C17", "a form key has no terminator inside");
	__v_check(val == to, "C30", "a field's value is what was decoded last");
	if (from != 0 && __v_same_obj(key, from))
		__v_check(from == key + klen + 1, "C30", "a field's value is decoded from what follows its name");
	from = to = 0;
	return __v_choose(2);
}
void e_form(void)
{
	size_t n = __v_range(0, 1 << 20);
	m38_http_request *q = calloc(1, sizeof(*q));
	q->full_body = malloc(n + 1);
	__v_havoc(q->full_body, n);
	q->full_body[n] = 0;
	q->body_len = n;
	int rc = m38_parse_form_encoded_body(q);
	__v_check(rc == 0 || rc == -1, "C24", "parsing a form answers 0 or -1");
	if (rc == 0) {
		__v_check(q->form_elements != NULL && (void *)q->form_elements == dict, "C24", "a parsed form has its fields");
		free(q->form_elements);
	} else
		__v_check(q->form_elements == NULL, "C24", "a form that was not parsed has no fields");
	free(q->full_body);
	free(q);
	__v_reach("C13", "parsing a form finishes");
}
/* the contract above: what is written fits a buffer as long as the text with its terminator, and is terminated there */
void e_url_decode_out(void)
{
	size_t n = __v_range(0, 1 << 20);
	char *t = malloc(n + 1), *d = malloc(n + 1);
	__v_mkstr(t, n);
	int k = m38_url_decode(t, d);
	if (k >= 0) {
		__v_check(k >= 1 && (size_t)k <= n + 1, "C24", "decoding never makes a text longer");
		__v_check_init(d, k, "C01", "decoded bytes were written");
	}
	free(t);
	free(d);
	__v_reach("C13", "decoding into a buffer finishes");
}
