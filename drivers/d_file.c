/* Answering with a file: m38_mmap_file, m38_render_file and the cleanups, with every outcome of the system calls. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "grengine.h"
#include "greshunkel.h"
#include "utils.h"
#include "v.h"
#include "sys_model.h"

int own_type;
static long size;
static char *map;
static size_t map_len;
static int maps, stats_failed, opens_failed, contexts_freed, renders;

int stat(const char *path, struct stat *st)
{
	strlen(path);
	__v_check((size_t)__v_objsize(st) >= sizeof(*st), "C01", "a file's description has room");
	if (__v_choose(2) == 0) {
		stats_failed++;
		return -1;
	}
	memset(st, 0, sizeof(*st));
	size = __v_range(0, 1L << 40);
	st->st_size = size;
	return 0;
}
int open(const char *path, int flags, ...)
{
	strlen(path);
	__v_check((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) == 0, "C22", "a served file is opened for reading only");
	__v_check(!file_open, "C22", "a file is opened once");
	if (__v_choose(2) == 0) {
		opens_failed++;
		return -1;
	}
	file_open = 1;
	return FILE_FD;
}
int fstat(int fd, struct stat *st)
{
	__v_check(fd == FILE_FD && file_open, "C22", "only an open file is asked for its size");
	return stat("", st);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	__v_check(fd == FILE_FD && file_open, "C22", "an open file is mapped");
	__v_check(off >= 0 && (long)n >= 0 && off + (long)n <= size, "C22", "no more of a file is mapped than there is");
	__v_check(!(flags & MAP_SHARED) || !(prot & PROT_WRITE), "C22", "a served file is not changed");
	if (n == 0 || __v_choose(2) == 0)
		return MAP_FAILED;
	__v_check(map == NULL, "C05", "a response has one mapping");
	map = malloc(n);
	__v_havoc(map, n);
	map_len = n;
	maps++;
	return map;
}
int munmap(void *p, size_t n)
{
	__v_check(map != NULL && p == (void *)map, "C05", "only the mapping that was made is removed");
	__v_check(n == map_len, "C05", "a mapping is removed with its length");
	free(map);
	map = NULL;
	maps--;
	return 0;
}
int madvise(void *p, size_t n, int advice)
{
	__v_check(map != NULL && p == (void *)map && n <= map_len, "C22", "advice is given about the mapping");
	return __v_choose(2) - 1;
}
/* d_render.c: the rendered text is a block of its own, terminated, or there is none */
char *c_render(const struct greshunkel_ctext *c, const char *t, const size_t n, size_t *out)
{
	renders++;
	__v_check(contexts_freed == 0, "C05", "a template is rendered before its context is released");
	__v_check((size_t)__v_objsize(t) >= n + 1, "C01", "a template is given with room for its terminator");
	__v_check(t[n] == 0, "C01", "a template is terminated");
	size_t k = __v_range(0, 1L << 40);
	char *r = malloc(k + 1);
	__v_mkstr(r, k);
	*out = k;
	return r;
}
int c_free_context(struct greshunkel_ctext *c)
{
	__v_check(contexts_freed == 0, "C05", "a context is released once");
	contexts_freed++;
	return 0;
}
static void check_page(int rc, m38_http_response *r)
{
	__v_check(rc == 404, "C24", "a file that cannot be served is answered as not found");
	__v_check(map == NULL && maps == 0, "C05", "nothing stays mapped without a response");
	__v_check(r->out != NULL && r->outsize > 0, "C22", "a file that cannot be served is answered with a page");
	__v_check_init(r->out, r->outsize, "C02", "a page is as long as announced");
	__v_check(r->extra_data == NULL, "C05", "nothing is kept for a page");
}
static void check_type(m38_http_response *r)
{
	__v_check(strnlen(r->mimetype, sizeof(r->mimetype)) < sizeof(r->mimetype), "C17", "a content type is terminated in its field");
	__v_check(r->mimetype[0] != 0, "C23", "a served file has a content type");
}
static void mapped(const char *path, const char *type)
{
	m38_http_response *r = calloc(1, sizeof(*r));
	if (own_type)
		strcpy(r->mimetype, "application/x-own");
	int rc = m38_mmap_file(path, r);
	__v_check(!file_open, "C22", "a file is closed when it is mapped or given up");
	if (rc == 200) {
		__v_check(stats_failed == 0 && opens_failed == 0, "C22", "a file is served only if it could be examined and opened");
		__v_check(map != NULL && (char *)r->out == map, "C22", "a served file is its mapping");
		__v_check((long)r->outsize == size && r->outsize == map_len, "C22", "a served file has the size of its mapping");
		check_type(r);
		if (own_type)
			__v_check(strcmp(r->mimetype, "application/x-own") == 0, "C23", "a content type that was set is kept");
		else if (type)
			__v_check(strcmp(r->mimetype, type) == 0, "C23", "a file has the content type of its extension");
		m38_mmap_cleanup(__v_choose(2) ? 206 : 200, r);
		__v_check(map == NULL && maps == 0, "C05", "cleaning up removes the mapping");
		__v_reach("C23", "a file is served");
	} else {
		check_page(rc, r);
		m38_mmap_cleanup(rc, r);
		__v_reach("C22", "a file cannot be served");
	}
	free(r);
}
void e_file_any(void)
{
	size_t n = __v_range(0, 1 << 20);
	char *p = malloc(n + 1);
	__v_mkstr(p, n);
	mapped(p, NULL);
	free(p);
}
int path_no;
static const struct { const char *path, *type; } files[] = {
	{"./static/a.css", "text/css"}, {"./static/a.jpg", "image/jpeg"}, {"./static/a.txt", "text/plain"}, {"./static/a.html", "text/html"},
	{"./static/a.svg", "image/svg+xml"}, {"./static/a.ico", "image/x-icon"}, {"./static/a.webm", "video/webm"}, {"./static/a.gif", "image/gif"},
	{"./static/a.json", "application/json"}, {"./static/a.js", "text/javascript"},
	{"./static/A.CSS", "text/css"}, {"./static/A.Json", "application/json"}, {"./static/a.min.js", "text/javascript"}, {"./static.d/b.html", "text/html"},
	/* no or other extensions: the defaults */
	{"./static/a.c", "application/octet-stream"}, {"./static/a.cssx", "application/octet-stream"}, {"./static/a.jso", "application/octet-stream"},
	{"./static/a.htm", "application/octet-stream"}, {"./static/a.css.gz", "application/octet-stream"}, {"./static/a.", "application/octet-stream"},
	{"/static/README", "text/html"}, {"x", "text/html"}, {"/a.js/a-name-that-is-longer-than-an-extension", "text/html"},
};
void e_file_types(void) { mapped(files[path_no].path, files[path_no].type); }
void e_file_render(void)
{
	size_t n = __v_range(0, 1 << 20);
	char *p = malloc(n + 1);
	__v_mkstr(p, n);
	m38_http_response *r = calloc(1, sizeof(*r));
	greshunkel_ctext *c = calloc(1, sizeof(*c));
	int rc = m38_render_file(c, p, r);
	__v_check(contexts_freed == 1, "C05", "a context is released when its file was rendered or given up");
	__v_check(!file_open, "C22", "a file is closed when it is mapped or given up");
	__v_check(map == NULL && maps == 0, "C05", "nothing stays mapped once a file was rendered");
	if (rc == 200) {
		__v_check(renders == 1, "C22", "a rendered file was rendered");
		__v_check(r->out != NULL, "C22", "a rendered file has a text");
		__v_check_init(r->out, r->outsize, "C02", "a rendered text is as long as announced");
		__v_check(r->extra_data == NULL, "C05", "nothing else is kept for a rendered file");
		check_type(r);
		m38_heap_cleanup(200, r);
		__v_reach("C22", "a file is rendered");
	} else {
		__v_check(renders == 0, "C22", "only a file that was read is rendered");
		check_page(rc, r);
		m38_heap_cleanup(rc, r);
		__v_reach("C22", "a file cannot be rendered");
	}
	free(c);
	free(r);
	free(p);
}
