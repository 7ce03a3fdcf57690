/* System calls on the way of one request, with ghost state that records what happened to the connection. */
#define _GNU_SOURCE
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <fcntl.h>
#include "grengine.h"
#include "parse.h"
#include "sys_model.h"
#include "v.h"

int conn_open, file_open, closes, recvs_failed, send_done, send_fail;
static int phase; /* how many times receiving started over */
unsigned char *resp;
size_t resp_len, resp_sent;

ssize_t recv(int fd, void *buf, size_t n, int flags)
{
	(void)flags;
	__v_check(fd == CONN_FD && conn_open, "C04", "bytes are received from the open connection");
	__v_check(__v_offset(buf) < MAX_REQUEST_SIZE, "C21", "no more is received once a request has reached its size limit");
	if (__v_offset(buf) == 0)
		phase++;
	if (!(scene & (phase > 1 ? 16 : 4))) {
		size_t k = __v_range(100, 1000);
		__v_havoc(buf, k);
		return k;
	}
	switch (__v_choose(3)) {
	case 0: return -1;
	case 1: return 0;
	default: {
		size_t k = __v_range(1, INT32_MAX);
		__v_assume(k <= n);
		__v_havoc(buf, k);
		return k;
	}
	}
}
ssize_t send(int fd, const void *p, size_t n, int flags)
{
	__v_check(fd == CONN_FD && conn_open, "C04", "bytes are sent on the open connection");
	__v_check((flags & MSG_NOSIGNAL) != 0, "C29", "a peer that went away does not end the process");
	__v_check(!send_fail, "C22", "nothing is sent after a failed send");
	__v_check(__v_same_obj(p, resp), "C07", "what is sent is the response");
	__v_check((size_t)__v_offset(p) == resp_sent, "C07", "sending continues where the last call stopped");
	__v_check(n <= resp_len - resp_sent, "C07", "no more is sent than is left of the response");
	__v_check_init(p, n, "C02", "every byte handed to send was written");
	if (!(scene & 8) || __v_choose(2) == 0) {
		send_fail = 1;
		return __v_choose(2) - 1;
	}
	size_t k = __v_range(1, INT32_MAX);
	__v_assume(k <= n);
	resp_sent += k;
	return k;
}
int close(int fd)
{
	if (fd == CONN_FD) {
		__v_check(conn_open, "C04", "a connection is closed once");
		conn_open = 0;
		closes++;
	} else if (fd == FILE_FD) {
		__v_check(file_open, "C22", "a file is closed once");
		file_open = 0;
	} else
		__v_check(fd < 0, "C04", "only open descriptors are closed");
	return 0;
}
