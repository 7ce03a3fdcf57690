/* Which handler answers: m38_generate_response with four routes, every request verb of a list, and every outcome of every pattern. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <regex.h>
#include "grengine.h"
#include "server.h"
#include "parse.h"
#include "utils.h"
#include "v.h"
#include "sys_model.h"

#define PATH "/articles/182/comments/17/author/name"
int nf_mode;
static const char *verb;
int r_404_handler(const m38_http_request *request, m38_http_response *response);

static int hit[4], runs, ran = -1, nf_runs, tried[4], compiled, answer;
static unsigned char *page;

static int at(const m38_http_request *q, m38_http_response *r, int i, int groups)
{
	runs++;
	ran = i;
	__v_check(runs == 1, "C08", "one handler runs for a request");
	__v_check(hit[i] == 1, "C08", "a handler runs only if its pattern matched");
	for (int g = 1; g <= groups; g++) {
		__v_check(q->matches[g].rm_so == 4 * i + g, "C08", "a handler gets the spans its own pattern matched (start)");
		__v_check(q->matches[g].rm_eo == 4 * i + 2 * g, "C08", "a handler gets the spans its own pattern matched (end)");
	}
	__v_check(q->form_elements == NULL && q->full_body == NULL, "C08", "a handler sees the body that was sent");
	if (answer == 0)
		return 404;
	page = malloc(8);
	memset(page, 'x', 8);
	r->out = page;
	r->outsize = 8;
	return answer == 1 ? 404 : 200;
}
static int h0(const m38_http_request *q, m38_http_response *r) { return at(q, r, 0, 0); }
static int h1(const m38_http_request *q, m38_http_response *r) { return at(q, r, 1, 1); }
static int h2(const m38_http_request *q, m38_http_response *r) { return at(q, r, 2, 3); }
static int h3(const m38_http_request *q, m38_http_response *r) { return at(q, r, 3, 0); }
static int cleaned[6];
static void c0(const int s, m38_http_response *r) { (void)s; cleaned[0]++; free(page); }
static void c1(const int s, m38_http_response *r) { (void)s; cleaned[1]++; free(page); }
static void c2(const int s, m38_http_response *r) { (void)s; cleaned[2]++; free(page); }
static void c3(const int s, m38_http_response *r) { (void)s; cleaned[3]++; free(page); }
static int nf(const m38_http_request *q, m38_http_response *r)
{
	nf_runs++;
	__v_check(nf_runs == 1, "C08", "the not-found handler runs once for a request");
	r->out = (unsigned char *)"none";
	r->outsize = 4;
	return 404;
}
static int nf_old(const m38_http_request *q, m38_http_response *r)
{
	__v_check(0, "C08", "a not-found handler that was replaced does not run");
	return nf(q, r);
}
static void nf_clean(const int s, m38_http_response *r)
{
	__v_check(r->outsize == 4, "C06", "the not-found cleanup sees the page of its handler");
	cleaned[4]++;
}
static void nf_clean_old(const int s, m38_http_response *r) { __v_check(0, "C06", "a not-found cleanup that was replaced does not run"); }

static const m38_route routes[] = {
	{.verb = "GET", .name = "a", .route_match = "^/a$", .expected_matches = 0, .handler = h0, .cleanup = c0},
	{.verb = "POST", .name = "b", .route_match = "^/b/(x)$", .expected_matches = 1, .handler = h1, .cleanup = c1},
	{.verb = "GET", .name = "c", .route_match = "^/c/(x)/(y)/(z)$", .expected_matches = 3, .handler = h2, .cleanup = c2},
	{.verb = "GET", .name = "d", .route_match = "^/d$", .expected_matches = 0, .handler = h3, .cleanup = c3},
};

/* a compiled pattern remembers which one it is and how it was compiled */
struct re { int which, flags; };
int regcomp(regex_t *r, const char *pat, int flags)
{
	struct re *x = malloc(sizeof(*x));
	x->which = -1;
	for (int i = 0; i < 4; i++)
		if (strcmp(pat, routes[i].route_match) == 0)
			x->which = i;
	x->flags = flags;
	__v_check(x->which >= 0, "C08", "a pattern is compiled as it was registered");
	__v_check((flags & REG_EXTENDED) && !(flags & (REG_ICASE | REG_NEWLINE)), "C08", "patterns are extended expressions that tell cases apart");
	memset(r, 0, sizeof(*r));
	*(void **)r = x;
	compiled++;
	return 0;
}
void regfree(regex_t *r)
{
	free(*(void **)r);
	*(void **)r = 0;
	compiled--;
}
size_t regerror(int e, const regex_t *r, char *b, size_t n)
{
	(void)e; (void)r;
	__v_mkstr(b, 0);
	return 1;
}
int regexec(const regex_t *r, const char *s, size_t nm, regmatch_t m[], int flags)
{
	struct re *x = *(void *const *)r;
	__v_check(x != 0, "C05", "a match is tried with a compiled pattern");
	__v_check(strcmp(s, PATH) == 0, "C08", "patterns are matched against the requested path");
	__v_check(!(flags & (REG_NOTBOL | REG_NOTEOL)), "C08", "patterns are matched against the whole path");
	int i = x->which;
	if (!hit[i])
		return REG_NOMATCH;
	int groups = routes[i].expected_matches;
	for (size_t g = 0; g < nm && !(x->flags & REG_NOSUB); g++) {
		if (g == 0) {
			m[0].rm_so = 0;
			m[0].rm_eo = sizeof(PATH) - 1;
		} else if (g <= (size_t)groups) {
			m[g].rm_so = 4 * i + g;
			m[g].rm_eo = 4 * i + 2 * g;
		} else
			m[g].rm_so = m[g].rm_eo = -1;
	}
	return 0;
}
int c_disp_request(const unsigned char *t, size_t n, m38_http_request *out)
{
	strcpy(out->verb, verb);
	strcpy(out->resource, PATH);
	out->full_header = malloc(n + 1);
	__v_havoc(out->full_header, n);
	out->full_header[n] = 0;
	out->header_len = n;
	return 0;
}
char *c_disp_header(const char *request, size_t siz, const char *header) { return NULL; }
int c_disp_body(size_t have, size_t want, const unsigned char *t, m38_http_request *q) { return 0; }

static void dispatch(void)
{
	int fd = 0;
	m38_app app = {.main_sock_fd = &fd, .port = 80, .num_threads = 1, .routes = routes, .num_routes = 4};
	for (int i = 0; i < 4; i++)
		hit[i] = __v_choose(2);
	answer = __v_choose(3);
	switch (__v_choose(6)) {
	case 0: verb = "GET"; break;
	case 1: verb = "POST"; break;
	case 2: verb = "GE"; break;
	case 3: verb = "GETS"; break;
	case 4: verb = "get"; break;
	default: verb = ""; break;
	}
	int custom = nf_mode != 0;
	switch (nf_mode) {
	case 1: m38_set_404_handler(&app, nf); break;
	case 2: m38_set_404_handler(&app, nf); m38_set_404_cleanup(&app, nf_clean); break;
	case 3: m38_set_404_cleanup(&app, nf_clean); m38_set_404_handler(&app, nf); break;
	case 4: m38_set_404_handler(&app, nf_old); m38_set_404_cleanup(&app, nf_clean_old); m38_set_404_handler(&app, nf); m38_set_404_cleanup(&app, nf_clean); break;
	}
	int want = -1;
	for (int i = 3; i >= 0; i--)
		if (hit[i] && strcmp(verb, routes[i].verb) == 0)
			want = i;
	conn_open = 1;
	__v_freeze(&app, "C12");
	m38_handled_request *h = m38_generate_response(CONN_FD, &app);
	__v_check(h != NULL, "C08", "a request that was received is answered");
	if (!h)
		return;
	__v_check(ran == want, "C08", "the first route whose verb and pattern match answers");
	__v_check(compiled == 0, "C05", "every compiled pattern is released");
	int code = h->response_code;
	int none = want < 0 || answer == 0;
	if (none) {
		__v_check(code == 404, "C08", "a request no route answers is answered as not found");
		__v_check(nf_runs == custom, "C08", "the not-found handler in force answers");
		__v_check(h->response.out != NULL && h->response.outsize > 0, "C08", "there is a not-found page");
		if (custom)
			__v_check(h->matching_route == app.r_404_route, "C08", "the not-found route in force is responsible for its page");
		else
			__v_check(h->matching_route->handler == r_404_handler && h->matching_route->cleanup == NULL, "C08", "the built-in not-found route is responsible for its page");
	} else {
		__v_check(nf_runs == 0, "C08", "the not-found handler keeps out of answered requests");
		__v_check(code == (answer == 1 ? 404 : 200), "C09", "the status is the one the handler chose");
		__v_check(h->response.out == page, "C02", "the body is the one the handler produced");
		__v_check(h->matching_route == &routes[want], "C08", "the route that answered is responsible for its response");
	}
	resp = (unsigned char *)h->response_bytes;
	resp_len = h->response_len;
	h = m38_send_response(h);
	__v_check(h == NULL, "C07", "a short response is sent at once or given up");
	for (int i = 0; i < 4; i++)
		__v_check(cleaned[i] == (!none && i == want), "C06", "only the route that answered cleans up");
	__v_check(cleaned[4] == (none && nf_mode >= 2), "C06", "the not-found page is cleaned up by the cleanup set for it");
	free(app.r_404_route);
	__v_reach("C08", "a request is dispatched");
}
void e_dispatch(void) { dispatch(); }
