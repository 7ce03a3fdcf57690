/* One connection from its first byte to its end: m38_generate_response, then m38_send_response until it is done. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <regex.h>
#include "grengine.h"
#include "parse.h"
#include "utils.h"
#include "vector.h"
#include "v.h"
#include "sys_model.h"

static int calls, status, cleanups, body_freed, handler_for;
static unsigned char *body;
static size_t body_len;
/* set per run */
int want_headers, want_mime, want_nothing, wanted = 200, n_routes = 1, small_body;

static char *names[4], *values[4];
static size_t name_len[4], value_len[4];

static void fill(m38_http_response *r, int st)
{
	calls++;
	status = st;
	if (want_nothing) { /* nothing to send: the handler leaves the response alone */
		body = 0;
		body_len = 0;
	} else {
		size_t n = __v_range(0, INT32_MAX);
		__v_assume(n >= 1);
		if (small_body)
			__v_assume(n <= 4096);
		body = malloc(n);
		__v_havoc(body, n);
		body_len = n;
		r->out = body;
		r->outsize = n;
	}
	if (want_mime) {
		size_t k = __v_range(1, sizeof(r->mimetype) - 1);
		__v_mkstr(r->mimetype, k);
	}
	for (int i = 0; i < want_headers; i++) {
		size_t a = __v_range(1, 1 << 16), b = __v_range(0, 1 << 16);
		char *h = malloc(a + 1), *v = malloc(b + 1);
		__v_mkstr(names[i] = malloc(a + 1), a);
		__v_mkstr(values[i] = malloc(b + 1), b);
		__v_freeze(names[i], "C24");
		__v_freeze(values[i], "C24");
		name_len[i] = a;
		value_len[i] = b;
		memcpy(h, names[i], a + 1);
		memcpy(v, values[i], b + 1);
		int rc = m38_insert_custom_header(r, h, a, v, b);
		__v_check(rc == 1, "C24", "adding a header succeeds");
		free(h);
		free(v);
	}
}
static int handle(const m38_http_request *q, m38_http_response *r)
{
	__v_check(strlen(q->verb) < sizeof(q->verb), "C17", "a handler gets a terminated verb");
	__v_check(strlen(q->resource) < sizeof(q->resource), "C17", "a handler gets a terminated resource");
	fill(r, wanted);
	return wanted;
}
static void cleanup(const int st, m38_http_response *r)
{
	__v_check(cleanups == 0, "C06", "a response is cleaned up once");
	__v_check(calls > 0, "C06", "only what a handler produced is cleaned up");
	cleanups++;
	int s = status == 206 ? 200 : status, t = st == 206 ? 200 : st;
	__v_check(s == t, "C06", "the cleanup sees the status of its response");
	if (body) {
		__v_check(r->out == body, "C06", "the cleanup sees the body of its response");
		__v_check(r->outsize == body_len, "C06", "the cleanup sees the size of its response");
		free(body);
		body = 0;
	}
}
static const m38_route routes[] = {
	{.verb = "GET", .name = "only", .route_match = "^/$", .expected_matches = 1, .handler = handle, .cleanup = cleanup},
};
static void drop_headers(void)
{
	for (int i = 0; i < want_headers; i++)
		if (names[i]) {
			__v_freeze(names[i], "-");
			__v_freeze(values[i], "-");
			free(names[i]);
			free(values[i]);
		}
}
static void serve(int n)
{
	int fd = 0;
	m38_app app = {.main_sock_fd = &fd, .port = 80, .num_threads = 1, .routes = routes, .num_routes = n};
	__v_freeze(&app, "C12");
	conn_open = 1;
	m38_handled_request *h = m38_generate_response(CONN_FD, &app);
	if (!h) {
		__v_check(!conn_open && closes == 1, "C04", "a request without a response has its connection closed");
		__v_check(calls == 0 || cleanups == 1 || (!body && status == 404), "C06", "what a handler produced is cleaned up");
		__v_reach("C13", "a request is given up");
		drop_headers();
		return;
	}
	__v_check(conn_open, "C04", "a connection stays open until its response was sent");
	__v_check(cleanups == 0, "C06", "nothing is cleaned up before it was sent");
	__v_check(h->accept_fd == CONN_FD, "C04", "a response belongs to the connection of its request");
	__v_check(h->sent == 0, "C07", "sending starts at the first byte");
	resp = (unsigned char *)h->response_bytes;
	resp_len = h->response_len;
	long off = 0, len = h->response.outsize;
	int st = h->response_code;
	if (calls && (body || status != 404)) {
		__v_check(h->response.out == body, "C02", "the body is the one the handler produced");
		__v_check(st == status || (status == 200 && st == 206) || (status == 206 && st == 200), "C09", "the status is the one the handler chose");
	}
	__v_reach("C13", "a response is made");
	__v_check(h->response.outsize == body_len || !calls || (!body && status == 404), "C02", "the body's size is the one the handler gave");
	if (st == 206) {
		__v_check(scene & 2, "C03", "only a range request gets a partial response");
		/* a start inside the body is honoured, and so is an end */
		if (range_from < (size_t)len) {
			off = range_from;
			len = (range_to && range_to < (size_t)len ? range_to + 1 : (size_t)len) - off;
			__v_http_check(resp, resp_len, st, h->response.out, off, len, h->response.outsize, "*");
		} else
			__v_http_check(resp, resp_len, st, h->response.out, -1, -1, h->response.outsize, "*");
	} else
		__v_http_check(resp, resp_len, st, h->response.out, 0, h->response.outsize, -1, "*");
	for (int i = 0; i < want_headers; i++)
		if (names[i] && !(st == 206 || status == 206))
			__v_http_line(resp, resp_len, names[i], name_len[i], values[i], value_len[i], "C09");
	for (;;) {
		h = m38_send_response(h);
		if (!h)
			break;
	}
	__v_check(!conn_open && closes == 1, "C04", "a served connection is closed");
	__v_check(resp_sent == resp_len || send_fail, "C07", "the whole response is sent");
	__v_check(calls == 0 || cleanups == 1 || (!body && status == 404), "C06", "what a handler produced is cleaned up");
	__v_reach("C13", "a response is sent");
	drop_headers();
}
void e_serve(void) { serve(n_routes); }
