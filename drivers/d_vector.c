/* Vectors: one operation on any vector, and short histories from a new one. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "vector.h"
#include "v.h"

int item = 8; /* bytes per element, set per run */

/* a vector with any number of elements; what it holds is recorded in a witness */
static unsigned char *held;
static vector *any_vector(size_t size, size_t count, size_t max)
{
	vector init = {.item_size = size, .max_size = max, .count = count, .items = malloc(max * size + 1)};
	vector *v = malloc(sizeof(vector));
	memcpy(v, &init, sizeof(vector));
	held = malloc(count * size + 1);
	__v_havoc(held, count * size + 1);
	__v_freeze(held, "C15");
	memcpy(v->items, held, count * size);
	return v;
}
/* what every vector satisfies between operations */
static void check_shape(const vector *v, size_t size, size_t count)
{
	__v_check(v->item_size == size, "C15", "the element size stays");
	__v_check(v->count == count, "C15", "the number of elements is what was appended");
	__v_check(v->count <= v->max_size, "C15", "there is room for all elements");
	__v_check(__v_offset(v->items) == 0, "C15", "the storage starts at its block");
	__v_check((size_t)__v_objsize(v->items) >= v->max_size * size, "C15", "the storage is as large as claimed");
}
static void check_bounds(const vector *v, size_t count)
{
	unsigned int i = __v_range(0, UINT32_MAX);
	__v_assume(i >= count);
	__v_check(vector_get(v, i) == NULL, "C15", "nothing is read behind the last element");
}
static void drop(vector *v)
{
	vector_free(v);
	__v_freeze(held, "-");
	free(held);
}
#define SMALL(n) __v_range(0, n)

void e_vector_append(void)
{
	size_t size = item, max = SMALL(1 << 30), count = SMALL(1 << 30);
	__v_assume(count <= max);
	vector *v = any_vector(size, count, max);
	size_t n = __v_range(1, 1 << 20);
	unsigned char *src = malloc(n);
	__v_havoc(src, n);
	__v_freeze(src, "C15");
	if (n > size) {
		__v_check(!vector_append(v, src, n), "C15", "an element larger than the vector's is refused");
		check_shape(v, size, count);
	} else {
		__v_check(vector_append(v, src, n) == 1, "C15", "appending succeeds");
		check_shape(v, size, count + 1);
		const unsigned char *p = vector_get(v, count);
		__v_check(p != NULL, "C15", "the new element is readable at the next index");
		__v_check_same(p, src, n, "C15", "the new element is what was appended");
		check_bounds(v, count + 1);
	}
	unsigned int i = __v_range(0, UINT32_MAX);
	__v_assume(i < count);
	const unsigned char *p = vector_get(v, i);
	__v_check(p != NULL, "C15", "an earlier element is readable");
	__v_check_same(p, held + i * size, size, "C15", "earlier elements stay as they were");
	__v_reach("C15", "an element is appended");
	drop(v);
	__v_freeze(src, "-");
	free(src);
}
void e_vector_append_nothing(void)
{
	size_t size = item, max = SMALL(1 << 30), count = SMALL(1 << 30);
	__v_assume(count <= max);
	vector *v = any_vector(size, count, max);
	char c = 1;
	int r = __v_choose(2) ? vector_append(v, NULL, size) : vector_append(v, &c, 0);
	__v_check(r == 1, "C15", "appending nothing succeeds");
	check_shape(v, size, count + 1);
	const unsigned char *p = vector_get(v, count);
	__v_check(p != NULL, "C15", "the new element is readable at the next index");
	unsigned int k = __v_range(0, UINT32_MAX);
	__v_assume(k < size);
	__v_check(p[k] == 0, "C15", "an empty element is all zeros");
	unsigned int i = __v_range(0, UINT32_MAX);
	__v_assume(i < count);
	p = vector_get(v, i);
	__v_check(p != NULL, "C15", "an earlier element is readable");
	__v_check_same(p, held + i * size, size, "C15", "earlier elements stay as they were");
	check_bounds(v, count + 1);
	__v_reach("C15", "nothing is appended");
	drop(v);
}
void e_vector_append_ptr(void)
{
	size_t size = item, max = SMALL(1 << 30), count = SMALL(1 << 30);
	__v_assume(count <= max);
	vector *v = any_vector(size, count, max);
	int target;
	int r = vector_append_ptr(v, &target);
	if (size != sizeof(void *)) {
		__v_check(r == 0, "C15", "a pointer does not go into elements of another size");
		check_shape(v, size, count);
	} else {
		__v_check(r == 1, "C15", "appending succeeds");
		check_shape(v, size, count + 1);
		void *const *p = vector_get(v, count);
		__v_check(p != NULL, "C15", "the new element is readable at the next index");
		__v_check(*p == &target, "C15", "the new element is the pointer appended");
		check_bounds(v, count + 1);
	}
	unsigned int i = __v_range(0, UINT32_MAX);
	__v_assume(i < count);
	const unsigned char *p = vector_get(v, i);
	__v_check(p != NULL, "C15", "an earlier element is readable");
	__v_check_same(p, held + i * size, size, "C15", "earlier elements stay as they were");
	__v_reach("C15", "a pointer is appended");
	drop(v);
}
void e_vector_none(void)
{
	char c = 0;
	__v_check(!vector_append(NULL, &c, 1), "C15", "no vector takes nothing");
	__v_check(!vector_append_ptr(NULL, &c), "C15", "no vector takes nothing");
	__v_check(vector_get(NULL, __v_range(0, UINT32_MAX)) == NULL, "C15", "no vector holds nothing");
	__v_check(!vector_reverse(NULL), "C15", "no vector is not reversed");
	vector_free(NULL);
	__v_reach("C15", "no vector is given");
}
/* from a new vector of any capacity: up to five elements, each checked after every step */
void e_vector_history(void)
{
	size_t size = item, cap = __v_choose(4);
	if (cap == 3) {
		cap = SMALL(1 << 20);
		__v_assume(cap >= 3);
	}
	vector *v = vector_new(size, cap);
	check_shape(v, size, 0);
	check_bounds(v, 0);
	unsigned char *w[5];
	for (unsigned int n = 0; n < 5; n++) {
		w[n] = malloc(size);
		__v_havoc(w[n], size);
		__v_freeze(w[n], "C15");
		__v_check(vector_append(v, w[n], size) == 1, "C15", "appending succeeds");
		check_shape(v, size, n + 1);
		for (unsigned int i = 0; i <= n; i++) {
			const unsigned char *p = vector_get(v, i);
			__v_check(p != NULL, "C15", "every element appended is readable");
			__v_check_same(p, w[i], size, "C15", "every element is what was appended at its place");
		}
		__v_check(vector_get(v, n + 1) == NULL, "C15", "nothing is read behind the last element");
	}
	__v_reach("C15", "five elements are appended");
	vector_free(v);
	for (unsigned int n = 0; n < 5; n++) {
		__v_freeze(w[n], "-");
		free(w[n]);
	}
}
/* reversing any number of elements stays inside; few elements end up in reverse order */
void e_vector_reverse(void)
{
	size_t size = item, max = SMALL(1 << 30), count = SMALL(1 << 30);
	__v_assume(count <= max);
	vector *v = any_vector(size, count, max);
	__v_havoc(v->items, count * size);
	__v_blur(v->items);
	__v_check(vector_reverse(v) == 1, "C15", "reversing succeeds");
	check_shape(v, size, count);
	__v_reach("C15", "a vector is reversed");
	drop(v);
}
void e_vector_reverse_few(void)
{
	size_t size = item, max = SMALL(1 << 30);
	size_t count = __v_choose(7);
	__v_assume(count <= max);
	vector *v = any_vector(size, count, max);
	__v_check(vector_reverse(v) == 1, "C15", "reversing succeeds");
	check_shape(v, size, count);
	for (unsigned int i = 0; i < count; i++) {
		const unsigned char *p = vector_get(v, i);
		__v_check(p != NULL, "C15", "every element stays readable");
		__v_check_same(p, held + (count - 1 - i) * size, size, "C15", "the elements are in reverse order");
	}
	__v_reach("C15", "a few elements are reversed");
	drop(v);
}
