/* Rendering, function by function: each on any input its callers can give it, with the functions it calls replaced by what
 * their own analyses show. The functions are not visible outside their file, so it is part of this one. */
#define _GNU_SOURCE
#include "../src/greshunkel.c"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <regex.h>
#include "vector.h"
#include "greshunkel.h"
#include "v.h"

/* which expressions can match: 1 variables, 2 variables of sub contexts, 4 filters with and 8 without an argument, 16 includes, 32 loops, 64 conditions, 128 their inverse */
int scene = 255;
#define LONGEST 0x10000000 /* a line and what is inserted into it stay below this many bytes */
#define LARGEST (1L << 40) /* there is no memory for a text of more bytes */
int depth;     /* how many contexts enclose the one given */
int no_size;   /* the caller does not ask for the size */
int kinds = 7; /* what values can be: 1 texts, 2 arrays, 4 sub contexts */

/* ---- regular expressions: what their text says about every match */
struct re {
	void *token;
	const char *tail;   /* the text all matches end with */
	int tail_len, groups, kind;
	unsigned open;      /* groups that may be left out */
};
_Static_assert(sizeof(struct re) <= sizeof(regex_t), "fits");
static const char *lit_at, *lit; /* the last match ended with this text, here */
static int lit_len;

static int has(const char *p, const char *w)
{
	for (; *p; p++) {
		int i = 0;
		while (w[i] && p[i] == w[i])
			i++;
		if (!w[i])
			return 1;
	}
	return 0;
}
static int plain(char c) { return c == ' ' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
int regcomp(regex_t *r, const char *p, int flags)
{
	struct re e = {0};
	int n = 0, last = 0;
	(void)flags;
	for (; p[n]; n++) {
		if (p[n] == '\\' && p[n + 1])
			n++;
		else if (p[n] == '(')
			e.groups++;
		else if (p[n] == ')' && (p[n + 1] == '?' || p[n + 1] == '*' || p[n + 1] == '{'))
			e.open = 255;
		else if (p[n] == '|')
			e.open = 255;
	}
	last = n;
	while (last > 0 && plain(p[last - 1]))
		last--;
	if (last > 0 && last < n && p[last - 1] == '\\')
		last++; /* an escaped letter is a class */
	e.tail = p + last;
	e.tail_len = n - last;
	if (e.open == 255 && !(last > 0 && p[last - 1] == ')'))
		e.tail_len = 0;
	e.kind = has(p, "LOOP") ? 32 : has(p, "SCREAM") ? 16 : has(p, "UNLESS NOT") ? 128 : has(p, "UNLESS") ? 64
		: has(p, "XxX (") ? (e.groups > 1 ? 4 : 8) : has(p, "xXx @(") ? (e.groups > 1 ? 2 : 1) : 0;
	e.token = malloc(1);
	memset(r, 0, sizeof(*r));
	r->re_nsub = e.groups;
	memcpy(r, &e, sizeof(e));
	return 0;
}
void regfree(regex_t *r)
{
	free(*(void **)r);
	*(void **)r = 0;
}
int regexec(const regex_t *r, const char *s, size_t nm, regmatch_t m[], int flags)
{
	const struct re *e = (const struct re *)r;
	(void)flags;
	__v_check(e->token != NULL && __v_is_alive(e->token), "C18", "an expression is used between its compilation and its release");
	long l = strlen(s);
	__v_assume(__v_offset(s) + l < LONGEST);
	if ((e->kind && !(scene & e->kind)) || __v_choose(2) == 0)
		return REG_NOMATCH;
	long a = __v_range(0, INT32_MAX), b = __v_range(0, INT32_MAX), at = a;
	__v_assume(a + e->tail_len < b || (e->tail_len == 0 && a == b));
	__v_assume(b <= l);
	if (e->kind < 32 && e->tail_len && b == l && __v_objsize(s) == l + 1)
		__v_assume(s[l - 1] == e->tail[e->tail_len - 1]);
	for (size_t i = 0; i < nm; i++) {
		if (i == 0) {
			m[0].rm_so = a;
			m[0].rm_eo = b;
		} else if ((int)i > e->groups || ((e->open >> i & 1) && __v_choose(2) == 1)) {
			m[i].rm_so = m[i].rm_eo = -1;
		} else {
			long x = __v_range(0, INT32_MAX), y = __v_range(0, INT32_MAX);
			__v_assume(at <= x);
			__v_assume(x <= y);
			__v_assume(y <= b - e->tail_len);
			m[i].rm_so = x;
			m[i].rm_eo = y;
			at = y;
		}
	}
	if (e->kind >= 32) { /* the others' ends are not searched for */
		lit = e->tail;
		lit_len = e->tail_len;
		lit_at = s + b - e->tail_len;
	}
	return 0;
}
/* the first occurrence of a text that a match is known to end with is not behind it */
char *c_r_strstr(const char *h, const char *n)
{
	long hl = strlen(h), nl = strlen(n);
	if (lit_at && nl <= lit_len && __v_same_obj(h, lit_at) && strcmp(n, lit + lit_len - nl) == 0 && h <= lit_at + lit_len - nl) {
		long k = __v_range(0, INT32_MAX);
		__v_assume(k <= lit_at + lit_len - nl - h);
		lit_at = NULL;
		return (char *)h + k;
	}
	if (hl < nl || __v_choose(2) == 0)
		return NULL;
	long k = __v_range(0, INT32_MAX);
	__v_assume(k + nl <= hl);
	if (nl && k + nl == hl && __v_objsize(h) == hl + 1)
		__v_assume(h[hl - 1] == n[nl - 1]);
	return (char *)h + k;
}

/* of a text that is put together piece by piece only matters that it is set */
void *c_r_realloc(void *p, size_t n)
{
	__v_assume(n <= LARGEST);
	if (p == NULL)
		return realloc(p, n);
	size_t old = __v_objsize(p);
	if (old > n)
		old = n;
	__v_check_init(p, old, "C18", "what was put together so far is set");
	char *r = realloc(p, n);
	if (r != NULL && n > 0)
		__v_havoc(r, old);
	return r;
}

/* ---- what a context holds: element by element, any that could be there */
static int results; /* of filters, to be handed back */
static char *filtered(const char *arg);
static char *handed_back(const char *arg);
static void cleaned(char *r);
static void *given(size_t n)
{
	void *p = calloc(1, n);
	__v_leak_ok(p);
	return p;
}
static vector *some_vector(size_t item)
{
	vector *v = given(sizeof(vector));
	*(size_t *)&v->item_size = item;
	v->count = __v_range(0, INT32_MAX);
	v->max_size = v->count + 1;
	__v_freeze(v, "C16");
	return v;
}
static vector *some_array(void)
{
	vector *v = some_vector(sizeof(greshunkel_tuple));
	__v_freeze(v, "-");
	v->max_size = v->count + 2;
	__v_freeze(v, "C16");
	return v;
}
static greshunkel_ctext *some_context(const greshunkel_ctext *parent)
{
	greshunkel_ctext *c = given(sizeof(*c));
	c->values = some_vector(sizeof(greshunkel_tuple));
	c->filter_functions = some_vector(sizeof(greshunkel_filter));
	c->parent = parent;
	__v_freeze(c, "C16");
	return c;
}
static const void *item(size_t size, int nested);
const void *vector_get(const vector *v, const unsigned int i);
const void *c_r_get(const vector *v, const unsigned int i)
{
	if (v == NULL || v->items != NULL)
		return vector_get(v, i);
	if (i >= v->count)
		return NULL;
	return item(v->item_size, v->max_size > v->count + 1);
}
static const void *item(size_t size, int nested)
{
	size_t name = __v_range(0, WISDOM_OF_WORDS - 1);
	if (size == sizeof(greshunkel_filter)) {
		greshunkel_filter *f = given(sizeof(*f));
		__v_mkstr(f->name, name);
		int k = __v_choose(3);
		f->filter_func = k == 2 ? handed_back : filtered;
		f->clean_up = k == 1 ? cleaned : NULL;
		__v_freeze(f, "C16");
		return f;
	}
	greshunkel_tuple *t = given(sizeof(*t));
	__v_mkstr(t->name, name);
	int k = __v_choose(3);
	__v_assume(kinds >> k & 1);
	__v_assume(!(nested && k == 1)); /* there is no way to put an array into an array */
	if (k == 0) {
		size_t l = __v_range(0, MAX_GSHKL_STR_SIZE);
		__v_mkstr(t->value.str, l);
		*(int *)&t->type = GSHKL_STR;
	} else if (k == 1) {
		t->value.arr = some_array();
		*(int *)&t->type = GSHKL_ARR;
	} else {
		t->value.sub_ctext = some_context(NULL);
		*(int *)&t->type = GSHKL_SUBCTEXT;
	}
	__v_freeze(t, "C16");
	return t;
}
/* an item of that name in the context or in one around it, or none (e_find shows it) */
const void *c_r_find(const greshunkel_ctext *c, const char *needle, size_t len, int values)
{
	__v_check(c != NULL && __v_is_alive(c), "C18", "names are looked up in a context");
	__v_check((size_t)__v_objsize(needle) >= len, "C18", "a name to look up is inside its text");
	if (__v_choose(2) == 0)
		return NULL;
	return item(values ? sizeof(greshunkel_tuple) : sizeof(greshunkel_filter), 0);
}
static char *filtered(const char *arg)
{
	if (arg)
		strlen(arg);
	size_t k = __v_range(0, INT32_MAX);
	char *r = given(k + 1);
	__v_mkstr(r, k);
	__v_freeze(r, "C18");
	return r;
}
/* what it was given is what it returns */
static char *handed_back(const char *arg)
{
	return arg ? (char *)arg : "";
}
static void cleaned(char *r)
{
	strlen(r);
	__v_freeze(r, "-");
	free(r);
}

/* ---- files */
static int opened;
static char file[8];
FILE *fopen(const char *p, const char *mode)
{
	strlen(p);
	__v_check(mode[0] == 'r' && mode[1] != '+', "C18", "an included file is only read");
	if (__v_choose(2) == 0)
		return NULL;
	opened++;
	return (FILE *)file;
}
size_t fread(void *p, size_t size, size_t n, FILE *f)
{
	__v_check(f == (FILE *)file && opened > 0, "C18", "only an open file is read");
	__v_check((size_t)__v_objsize(p) >= size * n, "C18", "what is read has room");
	size_t k = __v_range(0, INT32_MAX);
	__v_assume(k <= n);
	__v_havoc(p, k * size);
	return k;
}
int fclose(FILE *f)
{
	__v_check(f == (FILE *)file && opened > 0, "C18", "only an open file is closed");
	opened--;
	return 0;
}
int feof(FILE *f) { return __v_choose(2); }
int ferror(FILE *f) { return __v_choose(2); }

void c_r_assert(const char *a, const char *b, unsigned c, const char *d) { __v_stop(); }


/* ---- lines */
static long whole; /* what a nested text has to be shorter than */
/* a line is set up to its size, and has a terminator behind it */
static void check_line(const line *l)
{
	__v_check(l->data != NULL && __v_offset(l->data) == 0, "C18", "a line has a text");
	__v_check((size_t)__v_objsize(l->data) > l->size, "C18", "a line has room for its text and the end of it");
	__v_check_init(l->data, l->size, "C18", "a line is set");
	__v_check(l->data[l->size] == 0, "C18", "a line is terminated");
}
static line some_line(void)
{
	size_t n = __v_range(0, INT32_MAX);
	__v_assume(n < LONGEST);
	line l = {.size = n, .data = malloc(n + 1)};
	__v_havoc(l.data, n);
	l.data[n] = 0;
	return l;
}
/* what was rendered before: the end of its last line may follow */
static line some_rendered(void)
{
	size_t n = __v_range(0, INT32_MAX);
	__v_assume(n < LONGEST);
	line l = {.size = n, .data = malloc(n + 2)};
	__v_havoc(l.data, n);
	l.data[n] = __v_choose(2) ? '\n' : 0;
	l.data[n + 1] = 0;
	return l;
}
static char *some_text(size_t *n)
{
	*n = __v_range(0, INT32_MAX);
	__v_assume(*n < LONGEST);
	char *t = malloc(*n + 1);
	__v_mkstr(t, *n);
	__v_freeze(t, "C18");
	return t;
}
static void drop(const void *p)
{
	__v_freeze(p, "-");
	free((void *)p);
}

char *c_render(const greshunkel_ctext *c, const char *t, const size_t n, size_t *out)
{
	__v_check(c != NULL && c->values != NULL && c->filter_functions != NULL, "C18", "a part is rendered with a context");
	__v_check((size_t)__v_objsize(t) >= n + 1, "C18", "a part to render is as long as is said");
	__v_check(t[n] == 0, "C18", "a part to render is terminated");
	__v_check(whole < 0 || (long)n < whole, "C18", "a part to render is shorter than the whole");
	line l = some_rendered();
	if (out)
		*out = l.size;
	return l.data;
}
line c_read_line(const char *buf)
{
	size_t l = strlen(buf), n = __v_range(1, INT32_MAX);
	__v_assume(n <= l + 1);
	line r = {.size = n, .data = malloc(n + 1)};
	__v_havoc(r.data, n);
	r.data[n] = 0;
	return r;
}
size_t c_vishnu(line *to, const match_t m, const char *result, const line *from)
{
	size_t l = strlen(result);
	__v_assume(l < LONGEST);
	__v_check(m.rm_so >= 0 && m.rm_so <= m.rm_eo, "C18", "what is replaced does not end before it starts");
	__v_check((size_t)m.rm_eo <= from->size, "C18", "what is replaced is part of the line");
	/* what follows is no longer than it was */
	size_t n = __v_range(0, LONGEST), r = __v_range(0, LONGEST);
	__v_assume(r <= n);
	__v_assume(n - r <= from->size - m.rm_eo);
	to->size = n;
	to->data = malloc(n + 1);
	__v_havoc(to->data, n);
	to->data[n] = 0;
	return r;
}
/* the line itself or a new one */
static line changed(line l)
{
	if (__v_choose(2) == 0)
		return l;
	return some_line();
}
line c_filter_line(const greshunkel_ctext *c, const line *l, const struct compiled_regex *r) { return changed(*l); }
line c_subcontext(const greshunkel_ctext *c, const line l, const struct compiled_regex *r) { check_line(&l); return changed(l); }
line c_include(const greshunkel_ctext *c, const line *l, const struct compiled_regex *r)
{
	check_line(l);
	if (__v_choose(2) == 0)
		return *l;
	return some_rendered();
}
line c_line(const greshunkel_ctext *c, const line l, const struct compiled_regex *r)
{
	check_line(&l);
	if (__v_choose(2) == 0)
		return l;
	return some_rendered();
}
static line block(const char *buf, size_t *n)
{
	line l = {0};
	size_t all = strlen(buf);
	*n = 0;
	if (__v_choose(2) == 0 || all == 0)
		return l;
	*n = __v_range(1, INT32_MAX);
	__v_assume(*n <= all);
	size_t k = __v_range(0, INT32_MAX);
	__v_assume(k < LONGEST);
	if (k == 0 && __v_choose(2) == 0)
		return l;
	l.size = k;
	l.data = malloc(k);
	__v_havoc(l.data, k);
	return l;
}
line c_loop(const greshunkel_ctext *c, const char *buf, size_t *n, const struct compiled_regex *r) { return block(buf, n); }
line c_cond(const greshunkel_ctext *c, const char *buf, size_t *n, const struct compiled_regex *r) { return block(buf, n); }

#ifdef HAS_read_line
void e_read_line(void)
{
	size_t n;
	char *t = some_text(&n);
	size_t all = strlen(t);
	line l = read_line(t);
	check_line(&l);
	__v_check(l.size >= 1 && l.size <= all + 1, "C18", "a line ends with its text");
	drop(t);
	free(l.data);
	__v_reach("C18", "a line is read");
}
#endif
#ifdef HAS_vishnu
void e_vishnu(void)
{
	line l = some_line(), to = {0};
	__v_freeze(l.data, "C18");
	size_t n, a = __v_range(0, INT32_MAX), b = __v_range(0, INT32_MAX);
	char *t = some_text(&n);
	__v_assume(a <= b);
	__v_assume(b <= l.size);
	match_t m = {.rm_so = a, .rm_eo = b, .len = b - a, .start = l.data + a};
	size_t r = vishnu(&to, m, t, &l);
	size_t k = strlen(t);
	check_line(&to);
	__v_check(r == a + k, "C18", "the line goes on behind what was inserted");
	__v_check(to.size == l.size - (b - a) + k, "C18", "a line keeps what was around the replaced part");
	__v_check_same(to.data, l.data, a, "C18", "what was in front of the replaced part stays");
	__v_check_same(to.data + a, t, k, "C18", "what is inserted is the given text");
	__v_check_same(to.data + r, l.data + b, l.size - b, "C18", "what was behind the replaced part stays");
	free(to.data);
	drop(l.data);
	drop(t);
	__v_reach("C18", "a text is put into a line");
}
#endif
static const greshunkel_ctext *contexts(void) { return some_context(depth > 0 ? some_context(depth > 1 ? some_context(NULL) : NULL) : NULL); }
#ifdef HAS_find_needle
void e_find(void)
{
	const greshunkel_ctext *c = contexts();
	size_t n;
	char *t = some_text(&n);
	size_t k = __v_range(0, INT32_MAX);
	__v_assume(k <= n);
	const greshunkel_named_item *i = find_needle(c, t, k, __v_choose(2));
	if (i) {
		__v_check(strlen(i->name) == k, "C18", "what is found has the name that was looked for");
		__v_reach("C18", "a name is found");
	} else
		__v_reach("C18", "a name is not found");
	drop(t);
}
#endif
static struct compiled_regex all;
static line given_line;
static line start_line(int rendered)
{
	_compile_regex(&all);
	given_line = rendered && __v_choose(2) ? some_rendered() : some_line();
	whole = -1;
	__v_freeze(given_line.data, "C18");
	return given_line;
}
static void end_line(line r)
{
	if (r.data != given_line.data)
		free(r.data);
	else
		__v_check(r.size == given_line.size, "C18", "a line that stays keeps its size");
	drop(given_line.data);
	_destroy_regex(&all);
	lit_at = NULL;
	__v_check(opened == 0, "C18", "what was opened is closed");
}
#ifdef HAS__filter_line
void e_filter_line(void)
{
	const greshunkel_ctext *c = contexts();
	line l = start_line(1), r = _filter_line(c, &l, &all);
	if (r.data != l.data)
		check_line(&r);
	end_line(r);
	__v_reach("C18", "filters are applied");
}
#endif
#ifdef HAS__interpolate_line_subcontext
void e_subcontext(void)
{
	const greshunkel_ctext *c = contexts();
	line l = start_line(0), r = _interpolate_line_subcontext(c, l, &all);
	check_line(&r);
	end_line(r);
	__v_reach("C18", "values of inner contexts are filled in");
}
#endif
static void check_rendered(const line *l)
{
	__v_check(l->data != NULL && (size_t)__v_objsize(l->data) > l->size, "C18", "a rendered text has room for its end");
	__v_check_init(l->data, l->size + 1, "C18", "a rendered text is set");
	__v_check(l->data[l->size] == 0 || (__v_objsize(l->data) > (long)l->size + 1 && l->data[l->size + 1] == 0), "C18", "a rendered text is terminated");
}
#ifdef HAS__include_line
void e_include(void)
{
	const greshunkel_ctext *c = contexts();
	line l = start_line(0), r = _include_line(c, &l, &all);
	check_rendered(&r);
	end_line(r);
	__v_reach("C18", "a file is included");
}
#endif
#ifdef HAS__interpolate_line
void e_line(void)
{
	const greshunkel_ctext *c = contexts();
	line l = start_line(0), r = _interpolate_line(c, l, &all);
	check_rendered(&r);
	end_line(r);
	__v_reach("C18", "a line is filled in");
}
#endif
static const greshunkel_ctext *block_context;
static char *block_text;
static void block_start(void)
{
	size_t n;
	block_context = contexts();
	block_text = some_text(&n);
	_compile_regex(&all);
	whole = strlen(block_text);
}
static void block_end(line r, size_t k)
{
	__v_check(k <= strlen(block_text), "C18", "a block ends inside its text");
	if (k == 0)
		__v_check(r.data == NULL, "C18", "no block, no text");
	if (r.size > 0) {
		__v_check(r.data != NULL && (size_t)__v_objsize(r.data) >= r.size, "C18", "a block's text is as long as is said");
		__v_check_init(r.data, r.size, "C18", "a block's text is set");
	}
	free(r.data);
	_destroy_regex(&all);
	drop(block_text);
	lit_at = NULL;
}
#ifdef HAS__interpolate_loop
void e_block_loop(void)
{
	size_t k;
	block_start();
	block_end(_interpolate_loop(block_context, block_text, &k, &all), k);
	__v_reach("C18", "a loop is rendered");
}
#endif
#ifdef HAS__interpolate_conditionals
void e_block_condition(void)
{
	size_t k;
	block_start();
	block_end(_interpolate_conditionals(block_context, block_text, &k, &all), k);
	__v_reach("C18", "a condition is rendered");
}
#endif
void e_whole(void)
{
	const greshunkel_ctext *c = contexts();
	size_t n = __v_range(0, INT32_MAX), size = 0;
	__v_assume(n < LONGEST);
	char *t = malloc(n + 1);
	__v_havoc(t, n);
	t[n] = 0;
	__v_freeze(t, "C18");
	whole = -1;
	char *r = gshkl_render(c, t, n, no_size ? NULL : &size);
	lit_at = NULL;
	if (r == NULL)
		__v_stop();
	__v_check_init(r, strlen(r), "C18", "what was rendered is set");
	if (!no_size) {
		__v_check((size_t)__v_objsize(r) > size, "C18", "a rendered text is as long as is said");
		__v_check(r[size] == 0 || r[size + 1] == 0, "C18", "a rendered text is terminated where is said");
	}
	free(r);
	drop(t);
	__v_reach("C18", "a template is rendered");
	__v_reach("C16", "a context is given back");
}
