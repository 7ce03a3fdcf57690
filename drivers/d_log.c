/* Logging: every level, any message. */
#include <stdio.h>
#include <time.h>
#include <sys/time.h>
#include <string.h>
#include "logging.h"
#include "v.h"

int gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = __v_range(0, 1L << 40);
	tv->tv_usec = __v_range(0, 999999);
	return 0;
}
struct tm *localtime_r(const time_t *t, struct tm *tm)
{
	time_t now = *t;
	(void)now;
	__v_havoc(tm, sizeof(*tm));
	return tm;
}
struct tm *gmtime_r(const time_t *t, struct tm *tm) { return localtime_r(t, tm); }
/* the text either fits with its end or what the buffer holds is not known */
size_t strftime(char *d, size_t n, const char *fmt, const struct tm *tm)
{
	long k = __v_literal_len(fmt);
	size_t most = 0;
	int year = tm->tm_year;
	(void)year;
	__v_check(k >= 0, "C20", "the text given to strftime is a constant");
	for (long i = 0; i < k; i++)
		if (fmt[i] == '%') {
			i++;
			most += fmt[i] == 'c' || fmt[i] == 'x' || fmt[i] == 'X' ? 32 : 12;
		} else
			most++;
	__v_check(most < n, "C20", "the time fits its buffer");
	size_t len = __v_range(1, 1 << 20);
	__v_assume(len <= most);
	__v_mkstr(d, len);
	return len;
}
int fflush(FILE *f) { (void)f; return 0; }

void e_log(void)
{
	static const log_level levels[] = {LOG_INFO, LOG_DEBUG, LOG_WARN, LOG_ERR, LOG_FUN, LOG_DB};
	size_t n = __v_range(0, 1 << 30);
	char *text = __builtin_malloc(n + 1);
	__v_mkstr(text, n);
	m38_log_msg(levels[__v_choose(6)], text);
	__v_reach("C20", "a message is logged");
	__builtin_free(text);
}
