/* Dictionaries: keys and values of any bytes and length; every way their hashes may fall together. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "simple_sparsehash.h"
#include "v.h"

int empty = 0, first = -1, start = 2, plan = 12, low_bits = 8, fillers = 0, bump = 0, table = 0; /* set per run */

#define KEYS 3
#define FILL 25
static char *K[KEYS];
static size_t L[KEYS];
static uint64_t H[KEYS];
static unsigned char *V[KEYS];
static size_t VL[KEYS];
static char *FK[FILL];

static int pick(int n)
{
	int w = __v_choose(n);
	__v_tag(H, w);
	return w;
}
/* the hash of a key is a function of its bytes; which keys fall together is up to the run */
int many = 0, spread_by = 0;
uint64_t c_dict_hash(const char *key, const size_t klen)
{
	if (many) {
		uint64_t i = (unsigned char)key[0] + 256 * (unsigned char)key[1];
		return spread_by ? i * spread_by : 7 + (i << 32);
	}
	for (int k = 0; k < KEYS; k++)
		if (K[k] && __v_same(key, K[k], klen) && klen == L[k])
			return H[k];
	for (int k = 0; k < fillers; k++)
		if (__v_same(key, FK[k], 4) && klen == 4)
			return k + 1 + 256 * (k & 1);
	return __v_long();
}
static int which(const void *p, size_t n)
{
	for (int k = 0; k < KEYS; k++)
		if (K[k] && __v_same(p, K[k], n))
			return k;
	for (int k = 0; k < fillers; k++)
		if (__v_same(p, FK[k], n))
			return KEYS + k;
	return -1;
}
static size_t len_of(int k) { return k < KEYS ? L[k] : 4; }
/* different keys differ somewhere, but may start alike */
int c_dict_memcmp(const void *a, const void *b, size_t n)
{
	if (n == 0)
		return 0;
	if (many) {
		__v_check(n == 2, "C14", "only bytes of keys are compared");
		return ((const char *)a)[0] != ((const char *)b)[0] || ((const char *)a)[1] != ((const char *)b)[1];
	}
	__v_check_init(a, n, "C14", "only bytes of keys are compared");
	__v_check_init(b, n, "C14", "only bytes of keys are compared");
	int i = which(a, n), j = which(b, n);
	if (i >= 0 && i == j)
		return 0;
	if (i >= 0 && j >= 0 && n == len_of(i) && n == len_of(j))
		return __v_choose(2) * 2 - 1;
	return __v_choose(3) - 1;
}
/* texts end at a zero byte, keys do not: behind one, keys may differ */
int c_dict_strncmp(const char *a, const char *b, size_t n)
{
	if (n == 0)
		return 0;
	int i = which(a, n), j = which(b, n);
	if (i >= 0 && i == j)
		return 0;
	return __v_choose(3) - 1;
}
static void *bytes(size_t n)
{
	unsigned char *p = malloc(n);
	__v_havoc(p, n);
	__v_freeze(p, "C14");
	return p;
}
static void ours(void *p) /* the caller may release what it passed */
{
	__v_freeze(p, "-");
	free(p);
}
static struct sparse_dict *small_dict(size_t n)
{
	struct sparse_dict *d = calloc(1, sizeof(*d));
	d->bucket_max = n;
	d->buckets = sparse_array_init(sizeof(struct sparse_bucket), n);
	return d;
}
static const int table64[] = {0, 1, 31, 32, 47, 48, 63};
static const int table32[] = {0, 1, 24, 26, 31, 32, 47, 48};

static void look(struct sparse_dict *d, int k)
{
	size_t n = 0;
	void *v = sparse_dict_get(d, K[k], L[k], __v_choose(2) ? &n : 0);
	if (!V[k]) {
		__v_check(v == NULL, "C14", "nothing is found under a key that was never stored");
		__v_check(n == 0, "C14", "the size is left alone when nothing is found");
		return;
	}
	__v_check(v != NULL, "C14", "a stored key is found");
	__v_check(n == VL[k] || n == 0, "C14", "the size is that of the value stored last");
	__v_check_same(v, V[k], VL[k], "C14", "the value is the one stored last");
}
static void put(struct sparse_dict *d, int k)
{
	size_t n = __v_range(1 - empty, 1 << 20);
	unsigned char *v = bytes(n), *old = V[k];
	__v_check(sparse_dict_set(d, K[k], L[k], v, n) == 1, "C14", "storing succeeds");
	V[k] = v;
	VL[k] = n;
	ours(old);
}
void e_dict(void)
{
	for (int k = 0; k < KEYS; k++) {
		L[k] = __v_range(1 - empty, 1 << 20);
		K[k] = bytes(L[k]);
		for (int i = 0; i < k; i++)
			__v_assume(L[k] > 0 || L[i] > 0);
		int w = k == 0 && first >= 0 ? first : pick(low_bits);
		H[k] = table == 64 ? table64[w] : table == 32 ? table32[w] : w;
	}
	/* the rest of the hashes is equal or differs */
	int differ = pick(2);
	for (int k = 0; k < KEYS; k++)
		H[k] += (uint64_t)(k * differ) << 40;
	struct sparse_dict *d = start ? small_dict(start) : sparse_dict_init();
	__v_check(d != NULL, "C14", "a dictionary is made");
	d->bucket_count += bump; /* as if that many others were stored */
	for (int k = 0; k < fillers; k++) {
		FK[k] = bytes(4);
		__v_check(sparse_dict_set(d, FK[k], 4, FK[k], 4) == 1, "C14", "storing succeeds");
	}
	for (int k = 0; k < KEYS; k++)
		look(d, k);
	for (int p = plan; p; p /= 10) {
		put(d, p % 10 - 1);
		for (int k = 0; k < KEYS; k++)
			look(d, k);
	}
	for (int k = 0; k < fillers; k++) {
		size_t n = 0;
		void *v = sparse_dict_get(d, FK[k], 4, &n);
		__v_check(v != NULL && n == 4, "C14", "a stored key is found");
		__v_check_same(v, FK[k], 4, "C14", "the value is the one stored last");
	}
	__v_reach("C14", "values are stored and found");
	sparse_dict_free(d);
	for (int k = 0; k < KEYS; k++) {
		ours(K[k]);
		ours(V[k]);
	}
	for (int k = 0; k < fillers; k++)
		ours(FK[k]);
}

/* many keys, stored one after the other while the table grows and grows: all on one slot, or spread evenly */
void e_dict_many(void)
{
	struct sparse_dict *d = sparse_dict_init();
	for (int i = 0; i < many; i++) {
		char k[2] = {i & 255, i >> 8};
		__v_check(sparse_dict_set(d, k, 2, &i, sizeof(i)) == 1, "C14", "storing succeeds");
	}
	for (int i = 0; i < many; i++) {
		char k[2] = {i & 255, i >> 8};
		size_t n = 0;
		int *v = sparse_dict_get(d, k, 2, &n);
		__v_check(v != NULL, "C14", "a stored key is found");
		__v_check(n == sizeof(i) && *v == i, "C14", "the value is the one stored last");
	}
	char k[2] = {many & 255, many >> 8};
	__v_check(sparse_dict_get(d, k, 2, 0) == NULL, "C14", "nothing is found under a key that was never stored");
	__v_reach("C14", "values are stored and found");
	sparse_dict_free(d);
}

/* the sparse array below: three elements at any of the places where chunks and groups begin and end */
static const int places[] = {0, 1, 30, 31, 32, 33, 46, 47, 48, 49, 79, 80, 95, 96, 99};
#define PLACES (sizeof(places) / sizeof(places[0]))
int elem = 40, spread = 1;
void e_sparse_array(void)
{
	struct sparse_array *a = sparse_array_init(elem, 100);
	__v_check(a != NULL, "C14", "an array is made");
	int at[3];
	unsigned char *v[3];
	size_t n[3];
	for (int i = 0; i < 3; i++) {
		int c = i == 0 && first >= 0 ? first : pick(PLACES);
		at[i] = places[c];
	}
	size_t big = __v_range(1, 1 << 20);
	__v_assume(big > (size_t)elem);
	unsigned char *w = bytes(big);
	unsigned int out = __v_range(100, UINT32_MAX);
	__v_check(!sparse_array_set(a, out, w, 1), "C14", "nothing is stored outside the array");
	__v_check(sparse_array_get(a, out, 0) == NULL, "C14", "nothing is read outside the array");
	__v_check(!sparse_array_set(a, at[0], w, big), "C14", "an element larger than the array's is refused");
	for (int i = 0; i < 3; i++) {
		n[i] = pick(2) ? elem : (elem + 1) / 2;
		v[i] = bytes(n[i]);
		__v_check(sparse_array_set(a, at[i], v[i], n[i]) == 1, "C14", "storing succeeds");
		for (int k = 0; k < 3; k++) {
			int last = -1;
			for (int m = 0; m <= i; m++)
				if (at[m] == at[k])
					last = m;
			size_t got = 0;
			const void *p = sparse_array_get(a, at[k], &got);
			if (last < 0) {
				__v_check(p == NULL && got == 0, "C14", "an empty place holds nothing");
			} else {
				__v_check(p != NULL, "C14", "a stored element is found");
				__v_check(got == n[last], "C14", "a stored element keeps its size");
				__v_check_same(p, v[last], n[last], "C14", "the element is the one stored last");
			}
		}
	}
	__v_reach("C14", "elements are stored and found");
	sparse_array_free(a);
	ours(w);
	for (int i = 0; i < 3; i++)
		ours(v[i]);
}
