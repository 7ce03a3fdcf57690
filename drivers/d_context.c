/* Contexts for templates: what a caller adds is in there, terminated and typed, and is released with the context. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include "vector.h"
#include "greshunkel.h"
#include "v.h"

int first, second, items, number_kind;
#define LONG 0x7fffffff

static char *name, *value;
static size_t name_len, value_len;
static const greshunkel_ctext *child;
static int number;

/* a text of any length the caller keeps */
static char *text(size_t *len)
{
	size_t n = __v_range(0, LONG);
	char *p = malloc(n + 1);
	__v_mkstr(p, n);
	__v_freeze(p, "C24");
	*len = n;
	return p;
}
static void done(char *p)
{
	__v_freeze(p, "-");
	free(p);
}
static void check_text(const char *field, size_t size, const char *from, size_t len)
{
	size_t want = len < size ? len : size - 1;
	size_t got = strlen(field);
	__v_check(got < size, "C17", "a text in a fixed-size field is terminated inside it");
	__v_check(got == want, "C24", "a text that fits is stored whole, a longer one as far as it fits");
	__v_check_same(field, from, want, "C24", "the stored text is the one that was given");
}
static char *shout(const char *arg) { return 0; }
static void tidy(char *r) {}

/* adds one thing of the kind; what was there before stays */
static void add(greshunkel_ctext *c, int kind)
{
	size_t before = c->values->count, filters = c->filter_functions->count;
	int rc = 0;
	name = text(&name_len);
	value = NULL;
	if (kind == 0) {
		value = text(&value_len);
		rc = gshkl_add_string(c, name, value);
	} else if (kind == 1) {
		number = __v_int();
		rc = gshkl_add_int(c, name, number);
	} else if (kind == 2) {
		greshunkel_var v = gshkl_add_array(c, name);
		__v_check(v.arr != NULL && __v_is_alive(v.arr) && v.arr->count == 0, "C24", "a new array is empty");
		for (int i = 0; i < items; i++) {
			int what = __v_choose(3), ok;
			if (what == 0) {
				size_t l;
				char *s = text(&l);
				ok = gshkl_add_string_to_loop(&v, s);
				const greshunkel_tuple *t = vector_get(v.arr, i);
				if (t) {
					__v_check(t->type == GSHKL_STR, "C24", "what was added has its type");
					check_text(t->value.str, sizeof(t->value.str), s, l);
				}
				done(s);
			} else if (what == 1) {
				int n = __v_int();
				ok = gshkl_add_int_to_loop(&v, n);
				const greshunkel_tuple *t = vector_get(v.arr, i);
				if (t) {
					__v_check(t->type == GSHKL_STR, "C24", "what was added has its type");
					__v_check_dec(t->value.str, strlen(t->value.str), n, "C24", "a number is stored as its decimal text");
				}
			} else {
				greshunkel_ctext *sub = gshkl_init_context();
				gshkl_add_int(sub, "inner", 1);
				ok = gshkl_add_sub_context_to_loop(&v, sub);
				const greshunkel_tuple *t = vector_get(v.arr, i);
				if (t) {
					__v_check(t->type == GSHKL_SUBCTEXT, "C24", "what was added has its type");
					__v_check(t->value.sub_ctext == sub, "C24", "an added context is the one that was given");
				}
			}
			__v_check(ok == 0, "C24", "adding to an array succeeds");
			__v_check(v.arr->count == (size_t)i + 1, "C24", "an array holds what was added to it");
		}
		const greshunkel_tuple *t = vector_get(c->values, before);
		__v_check(t && t->value.arr == v.arr, "C24", "the array that is returned is the one in the context");
	} else if (kind == 3) {
		greshunkel_ctext *sub = gshkl_init_context();
		child = sub;
		gshkl_add_array(sub, "inner");
		rc = gshkl_add_sub_context(c, name, sub);
	} else {
		rc = gshkl_add_filter(c, name, shout, number_kind ? gshkl_filter_cleanup : tidy);
		const greshunkel_filter *f = vector_get(c->filter_functions, filters);
		__v_check(f != NULL, "C24", "an added filter is in the context");
		if (f) {
			check_text(f->name, sizeof(f->name), name, name_len);
			__v_check(f->filter_func == shout && f->clean_up == (number_kind ? gshkl_filter_cleanup : tidy), "C24", "a filter keeps its functions");
		}
	}
	__v_check(rc == 0, "C24", "adding to a context succeeds");
	__v_check(c->filter_functions->count == filters + (kind == 4), "C24", "only a filter is added to the filters");
	__v_check(c->values->count == before + (kind != 4), "C24", "what was added is in the context");
	const greshunkel_tuple *t = vector_get(c->values, before);
	if (t && kind != 4) {
		__v_check(t->type == (kind == 2 ? GSHKL_ARR : kind == 3 ? GSHKL_SUBCTEXT : GSHKL_STR), "C24", "what was added has its type");
		check_text(t->name, sizeof(t->name), name, name_len);
		if (kind == 0)
			check_text(t->value.str, sizeof(t->value.str), value, value_len);
		if (kind == 1)
			__v_check_dec(t->value.str, strlen(t->value.str), number, "C24", "a number is stored as its decimal text");
		if (kind == 3)
			__v_check(t->value.sub_ctext == child, "C24", "an added context is the one that was given");
	}
}
void e_context(void)
{
	greshunkel_ctext *c = gshkl_init_context();
	__v_check(c != NULL && c->values->count == 0 && c->filter_functions->count == 0 && c->parent == NULL, "C24", "a new context is empty");
	add(c, first);
	if (value)
		done(value);
	if (second >= 0) {
		char *n1 = name;
		size_t l1 = name_len;
		add(c, second);
		/* the first is still what it was */
		if (first != 4) {
			const greshunkel_tuple *t = vector_get(c->values, 0);
			check_text(t->name, sizeof(t->name), n1, l1);
			__v_check(t->type == (first == 2 ? GSHKL_ARR : first == 3 ? GSHKL_SUBCTEXT : GSHKL_STR), "C24", "what was added keeps its type");
		} else {
			const greshunkel_filter *f = vector_get(c->filter_functions, 0);
			check_text(f->name, sizeof(f->name), n1, l1);
		}
		done(n1);
		if (value)
			done(value);
	}
	done(name);
	gshkl_free_context(c);
	__v_reach("C24", "a context is filled and released");
	__v_reach("C13", "filling a context finishes");
}
