#pragma once
#include <stddef.h>
#define CONN_FD 7
#define FILE_FD 9
extern int scene; /* contracts.c */
extern size_t range_from, range_to;
extern int conn_open, file_open, closes, send_fail;
extern unsigned char *resp;
extern size_t resp_len, resp_sent;
