/* The server's threads: m38_http_serve, what it starts, and the queues and sockets between them. Every system call has every
 * outcome. A started thread runs either at once or as late as it may (when it is joined, or after the server returned). */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <mqueue.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <poll.h>
#include <sys/socket.h>
#include "grengine.h"
#include "server.h"
#include "v.h"

int n_threads, run_kind; /* how many workers; which threads are run: 0 none, 1 workers, 2 the others */
int early;
static long budget, parts; /* how much work arrives, and how many failures pass by, while the server runs: any amount, but not endless */
static m38_app the_app;
static const m38_app *app_given;

/* ---- sockets ---- */
#define LISTEN_FD 7
#define NEW_FD 40
static int listening, listener_closed, have_conn, accept_failed, in_thread;
/* what waiting brings: 0 it can be used no more, 1 a failure that passes, 2 work */
#define BRINGS(what) int what = 0; if (budget > 0) what = __v_choose(3); if (what) budget--
int socket(int d, int t, int p)
{
	if (__v_choose(2) == 0)
		return -1;
	__v_check(!listening, "C22", "one listening socket is made");
	listening = 1;
	return LISTEN_FD;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
	__v_check(fd == LISTEN_FD && listening, "C22", "only an open socket is configured");
	return __v_choose(2) - 1;
}
int bind(int fd, const struct sockaddr *a, socklen_t n)
{
	__v_check(fd == LISTEN_FD && listening == 1, "C22", "an open socket is bound");
	__v_check_init(a, n, "C01", "an address is complete");
	if (__v_choose(2) == 0)
		return -1;
	listening = 2;
	return 0;
}
int listen(int fd, int n)
{
	__v_check(fd == LISTEN_FD && listening == 2, "C24", "serving goes on only with its port bound");
	if (__v_choose(2) == 0)
		return -1;
	listening = 3;
	return 0;
}
int held; /* locks held by the running thread */
static int spare; /* the connection belongs to nobody but the thread */
int accept(int fd, struct sockaddr *a, socklen_t *n)
{
	__v_check(fd == LISTEN_FD && listening == 3, "C24", "connections are accepted on a listening socket");
	__v_check(held == 0, "C11", "no thread waits for a connection while holding a lock");
	__v_check(!have_conn, "C04", "an accepted connection is passed on or closed before the next");
	if (a != 0 && n != 0)
		__v_check((size_t)__v_objsize(a) >= *n, "C01", "an address has room");
	BRINGS(what);
	if (what == 1) {
		switch (__v_choose(3)) { /* each of these needs its own answer at most */
		case 0: errno = EINTR; break;
		case 1: errno = __v_range(ENFILE, EMFILE); break;
		default: errno = __v_range(ECONNABORTED, ENOBUFS); break;
		}
		return -1;
	}
	if (what == 0) {
		accept_failed = 1;
		errno = __v_choose(2) ? EBADF : EINVAL; /* closed; shut down */
		return -1;
	}
	have_conn = 1;
	return NEW_FD;
}
int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) { return accept(fd, a, n); }
int close(int fd)
{
	if (fd == LISTEN_FD) {
		__v_check(listening > 0, "C22", "the listening socket is closed once");
		listening = 0;
	} else if (fd == NEW_FD) {
		__v_check(have_conn, "C04", "a connection is closed only by who owns it");
		have_conn = 0;
	} else
		__v_check(fd < 0, "C22", "only open descriptors are closed");
	return 0;
}
int shutdown(int fd, int how)
{
	__v_check((fd == NEW_FD && have_conn) || (fd == LISTEN_FD && listening), "C04", "only an open connection is shut down");
	return 0;
}

/* ---- queues: 0 carries accepted connections, 1 handled requests ---- */
static int exists[2], stale[2], waits[4], drains[2], opens_failed, recv_failed, bad_fd, other;
static long msgsize[2];
static int queue_of(const char *name)
{
	if (strcmp(name, "/mothsaqueue") == 0)
		return 0;
	if (strcmp(name, "/mothshqueue") == 0)
		return 1;
	return -1;
}
int mq_unlink(const char *name)
{
	int q = queue_of(name);
	if (q < 0 || !exists[q]) {
		return -1;
	}
	exists[q] = stale[q] = 0;
	return 0;
}
/* a descriptor: 128 + queue * 8 + (access mode, 4 not blocking) */
int model_mq_open(const char *name, int flags, unsigned mode, const struct mq_attr *a) __asm__("mq_open");
int model_mq_open(const char *name, int flags, unsigned mode, const struct mq_attr *a)
{
	int q = queue_of(name);
	__v_check(q >= 0, "C10", "the threads use the server's two queues");
	if (q < 0 || __v_choose(2) == 0) {
		opens_failed = 1;
		return -1;
	}
	if (!exists[q]) {
		if (!(flags & O_CREAT)) {
			__v_check(!in_thread, "C10", "a queue is there before a thread asks for it");
			opens_failed = 1;
			return -1;
		}
		__v_check(a != 0, "C10", "a queue is made for messages of the right size");
		if (a == 0)
			return -1;
		__v_check(a->mq_maxmsg > 0, "C11", "a queue has room");
		exists[q] = 1;
		msgsize[q] = a->mq_msgsize;
		__v_check(msgsize[q] == (q == 0 ? (long)sizeof(int) : (long)sizeof(void *)), "C10", "a queue's messages have the size of what is passed on");
	} else
		__v_check(!stale[q], "C10", "a queue left by an earlier run is not used");
	return 128 + q * 8 + (flags & O_ACCMODE) + (flags & O_NONBLOCK ? 4 : 0);
}
int mq_close(mqd_t d)
{
	__v_check(d >= 128 && d < 144, "C22", "only an open queue is closed");
	return __v_choose(2) - 1;
}
int mq_getattr(mqd_t d, struct mq_attr *a)
{
	__v_check(d >= 128 && d < 144, "C22", "only an open queue is asked");
	if (__v_choose(2) == 0)
		return -1;
	a->mq_curmsgs = __v_range(0, 10);
	a->mq_maxmsg = 10;
	a->mq_flags = 0;
	a->mq_msgsize = msgsize[(d - 128) / 8];
	return 0;
}
struct req { m38_handled_request r; };
static m38_handled_request *mine; /* the request the running thread has to deal with */
static int kind;                  /* the running thread: 1 acceptor, 2 responder, 3 worker (found out by what it does) */

static int sent(mqd_t d, const char *p, size_t n, int wait)
{
	int q = (d - 128) / 8;
	__v_check(d >= 128 && d < 144 && (d & 3) != O_RDONLY, "C22", "messages go to a queue opened for writing");
	__v_check(!stale[q], "C10", "a queue left by an earlier run is not used");
	__v_check((long)n == msgsize[q], "C10", "a message has the size the queue was made for");
	__v_check_init(p, n, "C10", "a message is written before it is sent");
	if (wait && !(d & 4)) {
		__v_check(!drains[q], "C11", "no thread waits for room in a queue that it drains itself");
		__v_check(q == 1 || !drains[1], "C11", "no thread that drains handled requests waits for room among accepted connections");
		__v_check(held == 0, "C11", "no thread waits for room in a queue while holding a lock");
	}
	if (__v_choose(2) == 0) {
		errno = wait ? EINTR : ETIMEDOUT;
		return -1;
	}

	if (q == 0) {
		__v_check(*(const int *)p >= 0, "C22", "a failure is not passed on as a connection");
		__v_check(*(const int *)p == NEW_FD && have_conn, "C10", "an accepted connection is passed on once");
		have_conn = 0;
	} else {
		m38_handled_request *r = *(m38_handled_request *const *)p;
		__v_check(r != 0 && r == mine, "C10", "a handled request is passed on once, by the thread it belongs to");
		mine = 0;
		free(r); /* from here on it belongs to the receiver */
	}
	return 0;
}
int mq_send(mqd_t d, const char *p, size_t n, unsigned prio) { return sent(d, p, n, 1); }
int mq_timedsend(mqd_t d, const char *p, size_t n, unsigned prio, const struct timespec *t)
{
	__v_check(t != 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "C11", "a limit to waiting is a time");
	return sent(d, p, n, 0);
}
static ssize_t received(mqd_t d, char *p, size_t n)
{
	int q = (d - 128) / 8;
	__v_check(d >= 128 && d < 144 && (d & 3) != O_WRONLY, "C22", "messages come from a queue opened for reading");
	__v_check(held == 0, "C11", "no thread waits for work while holding a lock");
	__v_check(!stale[q], "C10", "a queue left by an earlier run is not used");
	__v_check((long)n >= msgsize[q], "C10", "there is room for a message of the queue");
	__v_check(__v_objsize(p) >= msgsize[q], "C10", "what is received fits where it goes");
	__v_check(mine == 0, "C10", "a request is dealt with before the next one is taken");
	__v_check(!have_conn, "C04", "a connection is dealt with before the next one is taken");
	drains[q] = 1;
	BRINGS(what);
	if (what == 1) {
		errno = EINTR;
		return -1;
	}
	if (what == 0) {
		recv_failed = 1;
		errno = EBADF;
		return -1;
	}
	if (q == 0) {
		have_conn = 1;
		*(int *)p = NEW_FD;
	} else {
		mine = malloc(sizeof(*mine));
		*(m38_handled_request **)p = mine;
	}
	return msgsize[q];
}
ssize_t mq_receive(mqd_t d, char *p, size_t n, unsigned *prio) { return received(d, p, n); }
ssize_t mq_timedreceive(mqd_t d, char *p, size_t n, unsigned *prio, const struct timespec *t) { return received(d, p, n); }

/* ---- one request, as shown by the serve runs ---- */
m38_handled_request *c_srv_generate(int fd, const m38_app *app)
{
	__v_check(fd == NEW_FD && have_conn, "C10", "a worker answers the connection it was given");
	__v_check(app == app_given, "C10", "a worker uses the application it was started for");
	__v_check(mine == 0, "C10", "a request is dealt with before the next one is answered");
	have_conn = 0;
	if (__v_choose(2) == 0)
		return NULL;
	mine = malloc(sizeof(*mine));
	return mine;
}
m38_handled_request *c_srv_send(m38_handled_request *r)
{
	__v_check(r != 0 && r == mine, "C10", "a response is sent by the thread it belongs to");
	if (parts <= 0 || __v_choose(2) == 0) {
		free(mine);
		mine = 0;
		return NULL;
	}
	parts--; /* a part of it was sent */
	return mine;
}
void c_srv_abort(m38_handled_request *r)
{
	__v_check(r != 0 && r == mine, "C10", "only an own request is given up");
	free(mine);
	mine = 0;
}

/* ---- locks ---- */
int pthread_mutex_lock(pthread_mutex_t *m) { __v_check(held == 0, "C11", "a thread holds one lock at a time"); held++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { __v_check(held > 0, "C11", "only a lock that is held is released"); held--; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { return pthread_mutex_lock(m); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }

/* ---- waiting and time ---- */
int sched_yield(void) { return 0; }
int usleep(useconds_t n) { return __v_choose(2) - 1; }
unsigned sleep(unsigned n) { return __v_range(0, n); }
int nanosleep(const struct timespec *t, struct timespec *left) { return __v_choose(2) - 1; }
int clock_gettime(clockid_t c, struct timespec *t)
{
	t->tv_sec = __v_range(0, 1L << 40);
	t->tv_nsec = __v_range(0, 999999999);
	return 0;
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
	__v_check(held == 0, "C11", "no thread waits while holding a lock");
	return __v_choose(3) - 1;
}

/* ---- threads ---- */
#define MAXT 8
static struct { void *(*f)(void *); void *arg; int done; } th[MAXT];
static int started;
static void ends(void)
{
	__v_check(mine == 0, "C10", "a thread leaves no request behind");
	__v_check(!have_conn, "C04", "a thread leaves no connection behind");
	__v_check(held == 0, "C11", "a thread ends without a lock");
	__v_check(opens_failed || recv_failed || accept_failed, "C29", "a thread ends only when it cannot take further work");
}
void pthread_exit(void *r)
{
	ends();
	__v_stop();
	for (;;) ;
}
static void run_thread(int i)
{
	if (th[i].done)
		return;
	th[i].done = 1;
	/* a thread has its own view of what it owns and waits for */
	int in = in_thread;
	in_thread = 1;
	drains[0] = drains[1] = 0;
	opens_failed = recv_failed = accept_failed = 0;
	mine = 0;
	have_conn = 0;
	held = 0;
	th[i].f(th[i].arg);
	ends();
	in_thread = in;
	have_conn = 0;
	mine = 0;
	__v_reach("C29", "a thread runs until it cannot take further work");
	__v_reach("C10", "a thread runs");
}
static int turn; /* whether the thread's code is part of this run */
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
	__v_check(started < MAXT, "C10", "the server starts no more threads than it should");
	if (__v_choose(2) == 0) {
		__v_leak_ok(arg); /* the server ends */
		return EAGAIN;
	}
	int k = started++;
	th[k].f = f;
	th[k].arg = arg;
	th[k].done = 0;
	*t = k;
	if (early && k == run_kind)
		run_thread(k);
	return 0;
}
int pthread_join(pthread_t t, void **r)
{
	__v_check(t < (unsigned long)started, "C22", "only a started thread is joined");
	if (t < (unsigned long)started) {
		if (!early && (int)t == run_kind)
			run_thread(t);
	}
	return 0;
}
int pthread_detach(pthread_t t) { return 0; }

void e_server(void)
{
	int fd = -1;
	m38_app app = {.main_sock_fd = &fd, .port = 8080, .num_threads = n_threads};
	app_given = &app;
	budget = __v_range(0, 1L << 40);
	parts = __v_range(0, 1L << 40);
	for (int q = 0; q < 2; q++)
		if (__v_choose(2)) {
			exists[q] = stale[q] = 1;
			msgsize[q] = __v_range(1, 8192);
		}
	int rc = m38_http_serve(&app);
	__v_check(held == 0, "C11", "serving ends without a lock");
	__v_check(rc == 0 || rc == -1, "C24", "serving reports how it ended");
	if (rc == 0) {
		__v_check(started == n_threads + 2, "C10", "every thread was started");
		__v_reach("C24", "serving ends as it should");
	} else
		__v_reach("C24", "serving cannot start");
	__v_check(listening == 0, "C22", "the listening socket is closed");
	/* threads nobody waited for may still be starting */
	listening = 3;
	for (int k = 0; k < MAXT; k++)
		if (k < started && k == run_kind && !th[k].done)
			run_thread(k);
}
