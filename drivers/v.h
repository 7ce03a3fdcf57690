/* Analysis primitives. They have no implementation: the abstract interpreter gives them meaning. */
#pragma once
#include <stddef.h>
#include <sys/types.h>
int __v_choose(int n);                 /* one abstract case per value 0..n-1 */
int __v_soft_choose(int n);            /* the same, for outcomes correlated in ways the model does not track */
long __v_range(long lo, long hi);      /* any value in the range */
int __v_int(void);
long __v_long(void);
void __v_assume(int c);
void __v_check(int c, const char *property, const char *what);
void __v_reach(const char *property, const char *what);
void __v_stop(void);
void __v_mkstr(char *p, size_t len);   /* p[0..len) arbitrary non-zero bytes, p[len] = 0 */
void __v_havoc(void *p, size_t n);     /* arbitrary bytes */
void __v_check_init(const void *p, size_t n, const char *property, const char *what);
long __v_objsize(const void *p);       /* bytes from p to the end of its block */
long __v_offset(const void *p);          /* bytes from the start of p's block */
int __v_is_alive(const void *p);
int __v_same_obj(const void *p, const void *q);
int __v_same(const void *p, const void *w, size_t n); /* 1: the bytes at p are known to be those of the witness w */
void __v_check_same(const void *p, const void *w, size_t n, const char *property, const char *what);
void __v_check_dec(const char *p, size_t len, long n, const char *property, const char *what); /* the decimal text of n */
void __v_blur(const void *p);          /* of what is written into the block only that it is initialised matters */
void __v_tag(const void *p, long n);    /* keeps states apart that differ in n (a constant) */
void __v_leak_ok(const void *p);
void __v_freeze(const void *p, const char *property); /* from here on writing to the block breaks the property; "-" lifts it */
int __v_known_cmp(const char *a, const char *b, size_t n);
int __v_known_memcmp(const void *a, const void *b, size_t n);
void __v_set_literal(char *p, const char *lit);
long __v_literal_len(const char *p);
void __v_http_line(const void *p, size_t n, const char *name, size_t name_len, const char *value, size_t value_len, const char *property);
void __v_http_check(const void *p, size_t n, int status, const void *body, long bodyoff, long bodylen, long total, const char *property);
void __v_dump(const void *p, ...);
void __v_prune(void);
