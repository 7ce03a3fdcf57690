From 2d587dde51f6a33912a7d9e20e3b31f99267e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 01/53] fix: strnstr finds a needle that ends the searched
 region

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index f1e50eb..5c805cb 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -72,7 +72,7 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	for (i=0; i<=(int)(len-needle_len); i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From 76e62a4166010e84455f9f383feda74979f1bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 02/53] fix: hash_string_fnv1a terminates for inputs of 256
 bytes and more

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 5c805cb..767cb27 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -103,7 +103,7 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 
 	const int iterations = siz;
 
-	uint8_t i;
+	int i;
 	uint64_t hash = fnv_offset_bias;
 
 	for(i = 0; i < iterations; i++) {
-- 
2.43.0


From 20c07258dc41ea69eeea23c90b7f2a56f74eed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 03/53] fix: m38_get_cookie_value stops at the end of the value
 and of the string

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 767cb27..de9c143 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -131,7 +131,7 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 			/* This is okay, it might be at the end of the cookie. */
 			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
 			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
+					cookie_string_end = cookie_string + strnlen(cookie_string, cookie_string_siz);
 	}
 
 	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
@@ -140,7 +140,7 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 			return NULL;
 
 	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
+	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value - 1;
 	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
 	data[cookie_string_value_size] = '\0';
 	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
-- 
2.43.0


From 64f89c1c5379bf707edf2dabb2e9dff27b1ef8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 04/53] fix: the header terminator is only looked for inside
 the bytes read

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..77811e2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -144,7 +144,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	/* Parse full header here. */
 	size_t header_length = 0;
 	int found_end = 0;
-	while (header_length + 3 <= num_read) {
+	while (header_length + 3 < num_read) {
 		if (to_read[header_length] == '\r' &&
 		    to_read[header_length + 1] == '\n' &&
 		    to_read[header_length + 2] == '\r' &&
-- 
2.43.0


From c91bd543da7e6b6ce0404a431e966a2ce7ed417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 05/53] fix: a header without a value does not make its size
 wrap around

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 77811e2..da7593b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -106,8 +106,8 @@ char *m38_get_header_value_raw(const char *request, const size_t request_siz, co
 		return NULL;
 
 	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
-	if (!header_value_end)
+	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz - (header_loc - request));
+	if (!header_value_end || header_value_end < header_value_start)
 		return NULL;
 
 	const size_t header_value_size = header_value_end - header_value_start;
-- 
2.43.0


From 6bdf65ef4050da61f9d1795bf11e22ced436e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 06/53] fix: leave room for the terminator of a decoded form
 value

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index da7593b..a0ab3f6 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -221,7 +221,7 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value));
+		char *decoded_buffer = calloc(1, strlen(value) + 1);
 		if (m38_url_decode(value, decoded_buffer) > 0) {
 			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
 		} else {
-- 
2.43.0


From dcfbdfed01a97b5860a26a7429e223e946ef71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 07/53] fix: parsing a form takes the copy of the body apart,
 not the body

---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index a0ab3f6..3bc356e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -205,13 +205,14 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 	struct sparse_dict *new_dict = NULL;
 	char *potential_kv_pair = NULL;
 	char *duplicated_body = strndup((char *)request->full_body, request->body_len);
+	char *remaining_body = duplicated_body;
 	if (!duplicated_body) {
 		goto err;
 	}
 
 	new_dict = sparse_dict_init();
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
+	while ((potential_kv_pair = strsep(&remaining_body, "&")) != NULL) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
-- 
2.43.0


From d0c8d18dad1ca11b6138d66183af48421b33d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 08/53] fix: full_header and full_body hold as many bytes as
 their lengths say

---
 src/parse.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 3bc356e..876e3b4 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -122,6 +122,15 @@ char *m38_get_header_value_request(const m38_http_request *req, const char heade
 	return m38_get_header_value_raw(req->full_header, req->header_len, header);
 }
 
+/* Copies raw request bytes, which can contain NULs: the copy is siz bytes long, whatever they are. */
+static char *copy_raw_bytes(const void *bytes, const size_t siz) {
+	char *copy = calloc(1, siz + 1);
+	if (copy)
+		memcpy(copy, bytes, siz);
+
+	return copy;
+}
+
 int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_http_request *out) {
 	/* Find the verb */
 	const char *verb_end = strnstr((char *)to_read, " ", MAX_READ_LEN);
@@ -161,7 +170,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 	}
 
-	out->full_header = strndup((char *)to_read, header_length);
+	out->full_header = copy_raw_bytes(to_read, header_length);
 	out->header_len = header_length;
 
 	return 0;
@@ -179,15 +188,15 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = (unsigned char *)copy_raw_bytes(body_start, content_length_num);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = (unsigned char *)copy_raw_bytes(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = (unsigned char *)copy_raw_bytes(body_start, request->body_len);
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From c7c26ea759950a2dbc437e0ed2da21188d1c2786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 09/53] fix: a failed recv is an error, not a huge number of
 bytes read

---
 src/grengine.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..c513ea8 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -315,18 +315,23 @@ static void log_request(const m38_http_request *request, const m38_http_response
 }
 
 static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
+	ssize_t read_this_time = 0;
 	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
+		if (read_this_time < 0) {
+			m38_log_msg(LOG_ERR, "Could not read request.");
+			goto error;
+		}
+
 		*num_read += read_this_time;
-		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
+		if (read_this_time < MAX_READ_LEN)
 			break;
-		read_this_time = 0;
 
-		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN);
-		if (!(*to_read)) {
+		unsigned char *bigger = realloc(*to_read, *num_read + MAX_READ_LEN);
+		if (!bigger) {
 			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
 			goto error;
 		}
+		*to_read = bigger;
 		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
 		if (*num_read >= MAX_REQUEST_SIZE)
 			break;
-- 
2.43.0


From d8e8ab4cd0996280d32b86e9fb0c12ac274eebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 10/53] fix: the request is initialised before the error path
 frees its parts

---
 src/grengine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index c513ea8..b959199 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -391,10 +391,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t num_read = 0;
 	int rc = 0;
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -405,6 +401,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+	if (rc != 0)
+		goto error;
+
 	rc = m38_parse_request(to_read, num_read, &request);
 	if (rc != 0) {
 		m38_log_msg(LOG_ERR, "Could not parse request.");
-- 
2.43.0


From 95c6b6754549df581601a4d12015595ebd4b6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 11/53] fix: a request that cannot be answered gives its
 connection and headers back

---
 src/grengine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grengine.c b/src/grengine.c
index b959199..c690701 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -377,6 +377,8 @@ error:
 	return -1;
 }
 
+static void _clean_up_extra_headers(m38_http_response *response);
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN);
 	char *actual_response = NULL;
@@ -651,6 +653,8 @@ error:
 	free(request.full_header);
 	free(request.full_body);
 	free(request.form_elements);
+	_clean_up_extra_headers(&response);
+	close(accept_fd);
 	return NULL;
 }
 
-- 
2.43.0


From 8d2797cd5a235051908543e7538b083567aa6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 12/53] fix: the form dictionary is freed with everything it
 holds

---
 src/grengine.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index c690701..c130968 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -15,6 +15,7 @@
 
 #include "parse.h"
 #include "grengine.h"
+#include "simple_sparsehash.h"
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
@@ -642,7 +643,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements != NULL)
+		sparse_dict_free(request.form_elements);
 	return hreq;
 
 error:
@@ -652,7 +654,8 @@ error:
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements != NULL)
+		sparse_dict_free(request.form_elements);
 	_clean_up_extra_headers(&response);
 	close(accept_fd);
 	return NULL;
-- 
2.43.0


From 2bfefa6314076b72887bead2801b2a1c7e3fa02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:34 +0000
Subject: [PATCH 13/53] fix: header values copied while answering a request are
 freed

---
 src/grengine.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index c130968..c4e4c06 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -383,6 +383,8 @@ static void _clean_up_extra_headers(m38_http_response *response);
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN);
 	char *actual_response = NULL;
+	char *content_type = NULL;
+	char *range_header_value = NULL;
 	m38_http_response response = {
 		.mimetype = {0},
 		0
@@ -443,7 +445,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	/* Parses form encoding, if applicable: */
 	const char form_encoding[] = "application/x-www-form-urlencoded";
 	const size_t form_encoding_siz = strlen(form_encoding);
-	char *content_type = m38_get_header_value_request(&request, "Content-Type");
+	content_type = m38_get_header_value_request(&request, "Content-Type");
 
 	if (content_type &&
 			strlen(content_type) >= form_encoding_siz &&
@@ -529,7 +531,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t actual_response_siz = 0;
 
 	/* Figure out if this thing needs to be partial */
-	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
+	range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
 	if (range_header_value && RESPONSE_OK(response_code)) {
 		response_code = 206;
 	}
@@ -591,7 +593,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		/* TODO: Add the custom header stuff here (for 206), too. */
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
 
 		size_t end_byte = 0;
 		if (byte_range.limit == 0) {
@@ -640,6 +641,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	hreq->matching_route = matching_route;
 	memcpy(&hreq->response, &response, sizeof(response));
 
+	free(content_type);
+	free(range_header_value);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
@@ -651,6 +654,8 @@ error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
 	free(actual_response);
+	free(content_type);
+	free(range_header_value);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-- 
2.43.0


From 24d2164133f9316dc41f05a20d8364b013a2e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 14/53] fix: only a 200 with a body becomes a partial response

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index c4e4c06..468b112 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -532,7 +532,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 && response.outsize > 0) {
 		response_code = 206;
 	}
 
-- 
2.43.0


From 4f25154b10525d1d2d54ca814ab0db71d1eb709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 15/53] fix: a partial response is the requested bytes, and
 says so

---
 src/grengine.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 468b112..f41c0d9 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -598,7 +598,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		if (byte_range.limit == 0) {
 			end_byte = response.outsize - 1;
 		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
+			end_byte = byte_range.limit;
 		}
 
 		if (end_byte >= response.outsize)
@@ -606,28 +606,30 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
 		const size_t max_size = response.outsize; /* Should be the same as file size. */
 		const size_t integer_length = UINT_LEN(max_size);
+		const size_t content_length = end_byte - start_byte + 1;
+		const size_t content_length_len = UINT_LEN(content_length);
 
 		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
 		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
 		/* Compute the size of the header */
 		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
+			+ content_length_len + minb_len + maxb_len + integer_length
 			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
+		actual_response_siz = content_length + header_size;
 		/* malloc the full response */
 		actual_response = malloc(actual_response_siz + 1);
 		actual_response[actual_response_siz] = '\0';
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
+			response.mimetype, content_length,
 			start_byte, end_byte, max_size);
 		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
 
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+		memcpy(actual_response + header_size, response.out + start_byte, content_length);
 	}
 
 	log_request(&request, &response, response_code);
-- 
2.43.0


From 33c1ab9b01ff937348e6831e690f79fa6c9ab030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 16/53] fix: a partial response has a content type like any
 other

---
 src/grengine.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grengine.c b/src/grengine.c
index f41c0d9..bab5a38 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -594,6 +594,9 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
 
+		if (response.mimetype[0] == '\0')
+			memcpy(response.mimetype, "text/html", strlen("text/html"));
+
 		size_t end_byte = 0;
 		if (byte_range.limit == 0) {
 			end_byte = response.outsize - 1;
-- 
2.43.0


From a013f33bc2479cc71b400e79cc0821bdc30dc544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 17/53] fix: a custom header is formatted inside its own buffer

---
 src/grengine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index bab5a38..fc67e2d 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -579,8 +579,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
 								    + strlen("\r\n") + 1;
 			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
+			buf[siz - 1] = '\0';
+			snprintf(buf, siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
 			strncat(actual_response, buf, siz);
 		}
 		strcat(actual_response, r_final);
-- 
2.43.0


From 724fc8a1b295027143ae968c1fab6cdd45b6b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 18/53] fix: a handler returning 206 without a range to serve
 does not crash

---
 src/grengine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index fc67e2d..84ab271 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -532,8 +532,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && response_code == 200 && response.outsize > 0) {
-		response_code = 206;
+	if (response_code == 200 || response_code == 206) {
+		response_code = range_header_value && response.outsize > 0 ? 206 : 200;
 	}
 
 	/* Figure out what header we need to use: */
-- 
2.43.0


From 0b71e6371156a69274b6854af8c1f5873e6fde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 19/53] fix: a short send continues where it stopped

---
 src/grengine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 84ab271..05d4a33 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -688,13 +688,13 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 	const size_t bytes_left = hreq->response_len - hreq->sent;
 	const size_t to_send = bytes_left < 4096 ? bytes_left : 4096;
-	int rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	const ssize_t rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
 	if (rc <= 0) {
 		m38_log_msg(LOG_ERR, "Could not send response.");
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	hreq->sent += rc;
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
-- 
2.43.0


From e8defc19892e2d15de6b1e5cadbeefb8213f09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 20/53] fix: a failed send still cleans up with the status of
 the response

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 05d4a33..1ea23a3 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -713,7 +713,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From ee6fbd4c12840aa6b417251a46d2eee8d529e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 21/53] fix: m38_insert_custom_header says whether it inserted
 the header

---
 src/grengine.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 1ea23a3..4555a27 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -283,6 +283,8 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	const char *copied_value = strndup(value, value_len);
 	if (!copied_header || !copied_value) {
 		m38_log_msg(LOG_ERR, "Could not create copied values for http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
 		free(new_pair);
 		return 0;
 	}
@@ -294,9 +296,15 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 		.value_len = value_len,
 	};
 	memcpy(new_pair, &_stack_pair, sizeof(m38_header_pair));
-	vector_append_ptr(response->extra_headers, new_pair);
+	if (!vector_append_ptr(response->extra_headers, new_pair)) {
+		m38_log_msg(LOG_ERR, "Could not add header to http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
+		free(new_pair);
+		return 0;
+	}
 
-	return 0;
+	return 1;
 }
 
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
-- 
2.43.0


From d298a72b207e1231daed840cdae7b22481ea83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 22/53] fix: the file extension is also found in short paths

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 4555a27..455dcc9 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -228,7 +228,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	unsigned int i = sizeof(ending);
 	int found_dot = 0;
 	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
+	for (i = res_len; i > 0 && res_len - i < sizeof(ending); i--) {
 		if (file_path[i] == '.') {
 			found_dot = 1;
 			break;
-- 
2.43.0


From c2563cad0c223ebbb91b78edfd7cfee859b6a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 23/53] fix: m38_render_file frees the context on every path
 and keeps no dangling pointer

---
 src/grengine.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 455dcc9..1802ba3 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -154,8 +154,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
@@ -168,6 +170,7 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 	/* Clean up the stuff we're no longer using. */
 	munmap(response->out, original_size);
 	free(response->extra_data);
+	response->extra_data = NULL;
 
 	/* Make sure the response is kept up to date: */
 	response->outsize = new_size;
-- 
2.43.0


From dc6392c8233887014115264318f266a7d1e18120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 24/53] fix: a template file that fills its last page is not
 read past its end

---
 src/grengine.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 1802ba3..542557b 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -159,12 +159,19 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 		return rc;
 	}
 
-	/* Render the mmap()'d file with greshunkel */
+	/* Render the mmap()'d file with greshunkel. It reads a string, and the last
+	 * page of the mapping has no room for a terminator when the file fills it. */
 	const char *mmapd_region = (char *)response->out;
 	const size_t original_size = response->outsize;
+	char *template = calloc(1, original_size + 1);
 
 	size_t new_size = 0;
-	char *rendered = gshkl_render(ctext, mmapd_region, original_size, &new_size);
+	char *rendered = NULL;
+	if (template) {
+		memcpy(template, mmapd_region, original_size);
+		rendered = gshkl_render(ctext, template, original_size, &new_size);
+	}
+	free(template);
 	gshkl_free_context((greshunkel_ctext *)ctext);
 
 	/* Clean up the stuff we're no longer using. */
-- 
2.43.0


From ba9cd7949e3957cabd02fb495d07cd6c6b11b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 25/53] fix: notice when the handled queue could not be opened

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..ecf42e9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -252,7 +252,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From 2751fb7d3fd72c3617e3aba7ecad5562c5364891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 26/53] fix: worker arguments outlive the loop that starts the
 workers

---
 src/server.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/server.c b/src/server.c
index ecf42e9..4faa4d9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -37,7 +37,7 @@ typedef struct {
 
 typedef struct {
 	const m38_app *app;
-	const int worker_ident;
+	int worker_ident;
 } handler_arg;
 
 static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t size) {
@@ -222,6 +222,7 @@ int m38_http_serve(m38_app *app) {
 	mqd_t po_handled_queue = -1;
 	/* Handlers take accepted sockets and turn them into responses: */
 	pthread_t handlers[app->num_threads];
+	handler_arg *handler_args = NULL;
 	/* The responder is responsible for sending bytes back over the wire: */
 	pthread_t responder_worker;
 	/* The acceptor listens and accepts new connections, and enqueues them: */
@@ -276,13 +277,19 @@ int m38_http_serve(m38_app *app) {
 
 	m38_log_msg(LOG_INFO, "Responder thread started.");
 
+	/* Each worker reads its own arguments whenever it gets to run, so they live
+	 * until the workers are joined (or for good, if we fail while some run). */
+	handler_args = calloc(app->num_threads, sizeof(handler_arg));
+	if (handler_args == NULL) {
+		m38_log_msg(LOG_ERR, "Could not allocate worker arguments.");
+		goto error;
+	}
+
 	int i;
 	for (i = 0; i < app->num_threads; i++) {
-		handler_arg args = {
-			.app = app,
-			.worker_ident = i
-		};
-		if (pthread_create(&handlers[i], NULL, handler, &args) != 0) {
+		handler_args[i].app = app;
+		handler_args[i].worker_ident = i;
+		if (pthread_create(&handlers[i], NULL, handler, &handler_args[i]) != 0) {
 			goto error;
 		}
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
@@ -304,6 +311,7 @@ int m38_http_serve(m38_app *app) {
 	}
 	pthread_join(acceptor_enqueuer, NULL);
 	m38_log_msg(LOG_INFO, "Acceptor thread stopped.");
+	free(handler_args);
 
 	close(*main_sock_fd);
 	return 0;
-- 
2.43.0


From 76973b38158293ad72448b3f80b22052ac158216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 27/53] fix: the acceptor's argument outlives a failed start of
 the server

---
 src/server.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/server.c b/src/server.c
index 4faa4d9..3df0697 100644
--- a/src/server.c
+++ b/src/server.c
@@ -31,9 +31,7 @@
 #define ACCEPTED_SOCKET_QUEUE_NAME "/mothsaqueue"
 #define HANDLED_CONNECTION_QUEUE_NAME "/mothshqueue"
 
-typedef struct {
-	const int main_sock_fd;
-} acceptor_arg;
+
 
 typedef struct {
 	const m38_app *app;
@@ -57,8 +55,7 @@ static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t
 }
 static void *acceptor(void *arg) {
 	mqd_t accepted_socket_queue = 0;
-	const acceptor_arg *args = arg;
-	const int main_sock_fd = args->main_sock_fd;
+	const int main_sock_fd = *(const int *)arg;
 
 	accepted_socket_queue = _open_queue(ACCEPTED_SOCKET_QUEUE_NAME, O_WRONLY, sizeof(int));
 	if (accepted_socket_queue == -1) {
@@ -259,11 +256,7 @@ int m38_http_serve(m38_app *app) {
 		goto error;
 	}
 
-	acceptor_arg args = {
-		.main_sock_fd = *main_sock_fd,
-	};
-
-	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
+	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, main_sock_fd) != 0) {
 		m38_log_msg(LOG_ERR, "Could not start acceptor thread.");
 		goto error;
 	}
-- 
2.43.0


From 0e1e14680ac780cd7f8241d0063fa5867cc3c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 28/53] fix: a response that cannot be queued is given up, not
 leaked

---
 include/grengine.h |  7 +++++++
 src/grengine.c     | 10 ++++++++--
 src/server.c       | 11 ++++++++---
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/grengine.h b/include/grengine.h
index 7c14174..70c1215 100644
--- a/include/grengine.h
+++ b/include/grengine.h
@@ -85,6 +85,13 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
  */
 m38_handled_request *m38_send_response(m38_handled_request *hreq);
 
+/* xXx FUNCTION=m38_abort_response xXx
+ * xXx DESCRIPTION=Gives up on a handled_request: cleans up after the route, closes the connection and frees the handled_request. xXx
+ * xXx RETURNS=Nothing. xXx
+ * xXx *hreq=A handled_request object either from send_response or generate_response. xXx
+ */
+void m38_abort_response(m38_handled_request *hreq);
+
 /* xXx FUNCTION=m38_insert_custom_header xXx
  * xXx DESCRIPTION=Adds a custom header/value pair to an m38_http_response object. Use this for redirects, cookies, etc. xXx
  * xXx RETURNS=1 on sucess, 0 on failure. xXx
diff --git a/src/grengine.c b/src/grengine.c
index 542557b..cfe033d 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -730,12 +730,18 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 	return hreq;
 
 error:
+	m38_abort_response(hreq);
+
+	return NULL;
+}
+
+void m38_abort_response(m38_handled_request *hreq) {
+	const m38_route *matching_route = hreq->matching_route;
+
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
 	free(hreq);
-
-	return NULL;
 }
diff --git a/src/server.c b/src/server.c
index 3df0697..433fd8c 100644
--- a/src/server.c
+++ b/src/server.c
@@ -159,9 +159,14 @@ static void *handler(void *arg) {
 			m38_log_msg(LOG_FUN, "Worker %i: Handling response.", worker_ident);
 			m38_handled_request *req = m38_generate_response(new_fd, app);
 
-			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
-			if (msg_size == -1)
-				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			/* There is nothing to send for a request that could not be answered. */
+			if (req != NULL) {
+				ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+				if (msg_size == -1) {
+					m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+					m38_abort_response(req);
+				}
+			}
 		}
 
 		struct mq_attr attr = {0};
-- 
2.43.0


From 4c030d6af930bce8b5ebf0a83e5acd99d2ec6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 29/53] fix: the responder does not wait for room in the queue
 it drains

---
 src/server.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index 433fd8c..abe2743 100644
--- a/src/server.c
+++ b/src/server.c
@@ -109,11 +109,16 @@ static void *responder(void *arg) {
 			m38_log_msg(LOG_ERR, "Responder: Got bogus request from queue.");
 		} else {
 			m38_handled_request *new_req = m38_send_response(req);
-			if (new_req != NULL) {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0);
-				if (msg_size == -1)
-					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
-			} else {
+			/* Nobody but us makes room in this queue, so never wait for that: if
+			 * it is full, keep sending this response instead. */
+			const struct timespec no_wait = {0};
+			while (new_req != NULL) {
+				ssize_t msg_size = mq_timedsend(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0, &no_wait);
+				if (msg_size != -1)
+					break;
+				new_req = m38_send_response(new_req);
+			}
+			if (new_req == NULL) {
 				m38_log_msg(LOG_FUN, "Responder: Response sent.");
 			}
 		}
-- 
2.43.0


From b24e13e84d3cf233129d2a5be921c9bf0a5ecbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 30/53] fix: hashing a dictionary key terminates for keys of
 256 bytes and more

---
 src/simple_sparsehash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..9bc8597 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -17,7 +17,7 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 
 	const int iterations = klen;
 
-	uint8_t i;
+	int i;
 	uint64_t hash = fnv_offset_bias;
 
 	for(i = 0; i < iterations; i++) {
-- 
2.43.0


From eb2364bcef9278bdae01f8a1ad3cf70815b12e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 31/53] fix: replacing a dictionary value does not free the
 middle of an allocation

---
 src/simple_sparsehash.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 9bc8597..d6fea74 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -388,14 +388,13 @@ int sparse_dict_set(struct sparse_dict *dict,
 			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
 					 * we don't need to resize anything.
 					 */
-					free(existing_key);
+					/* The key lives in the same allocation as the value. */
 					free(existing_val);
 					return 1;
 				} else {
-- 
2.43.0


From e724c79b930d7804ee53ed09f1d76dcaad5ec711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 32/53] fix: a sparse array of n elements has no element n

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index d6fea74..373e0ee 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -213,7 +213,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -224,7 +224,7 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
-- 
2.43.0


From 236bf65b911cdc0dbbf080bf0c79c3e9f4c03f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 33/53] fix: probing reaches the free slots of the dictionary

---
 src/simple_sparsehash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 373e0ee..6f4383d 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,8 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+/* Triangular numbers: in a table whose size is a power of two they reach every slot. */
+#define QUADRATIC_PROBE(maximum) (key_hash + (num_probes * num_probes + num_probes) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From 2d3d913c7aaf70ad9f5e8f2629314ca9cf71aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 34/53] fix: dictionary keys are compared over their own bytes
 only

---
 src/simple_sparsehash.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 6f4383d..c076088 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -277,7 +277,7 @@ static int _create_and_insert_new_bucket(
 	memcpy(copied_value, value, vlen);
 
 	copied_key = copied_value + vlen;
-	strncpy(copied_key, key, klen);
+	memcpy(copied_key, key, klen);
 
 	struct sparse_bucket bct = {
 		.key = copied_key,
@@ -385,8 +385,8 @@ int sparse_dict_set(struct sparse_dict *dict,
 		} else {
 			/* We found a bucket. Check to see if it has the same key as we do. */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
 				void *existing_val = existing_bucket->val;
@@ -442,8 +442,8 @@ void *sparse_dict_get(struct sparse_dict *dict, const char *key,
 			 * The value we pulled from the underlying array could be anything.
 			 */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				if (outsize)
 					memcpy(outsize, &existing_bucket->vlen, sizeof(existing_bucket->vlen));
 
-- 
2.43.0


From 2ce1d6fc85c0148d84ac38cf51da8468d8d5354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 35/53] fix: a vector grows from zero elements, and only when
 it got the memory

---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..532b1d3 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,11 +27,12 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max_size = vec->max_size > 0 ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max_size * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max_size;
 	}
 
 	if (item_size != 0 && item != NULL) {
@@ -53,11 +54,12 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max_size = vec->max_size > 0 ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max_size * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max_size;
 	}
 
 	memcpy(nth(vec->count), &pointer, sizeof(void *));
-- 
2.43.0


From 40a66326c6cacfce041e73e05fbba0f3a88e2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 36/53] fix: vector_get returns NULL past the last element

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index 532b1d3..0156c9b 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -70,7 +70,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From 87e5a34d61691d8b5c9bc888157e9cd105846a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 37/53] fix: threads do not share localtime's buffer when they
 log

---
 src/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index f73c16c..9708bde 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -30,9 +30,11 @@ void m38_log_msg(log_level level, const char *fmsg, ...) {
 
 	/* Time stuff */
 	struct timeval timest;
+	struct tm local_time;
 	gettimeofday(&timest, NULL);
+	localtime_r(&timest.tv_sec, &local_time);
 	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S",
-			localtime(&timest.tv_sec));
+			&local_time);
 
 	switch (level) {
 		case LOG_INFO:
-- 
2.43.0


From 795ebd6cd2ca7b0812983eea3ce84a353c2a4693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 38/53] fix: log formats match the types of what is logged

---
 src/grengine.c | 6 +++---
 src/server.c   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index cfe033d..0b8279a 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -321,7 +321,7 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	char *visitor_ip_addr = m38_get_header_value_raw(request->full_header, request->header_len, "X-Real-IP");
 	char *user_agent = m38_get_header_value_raw(request->full_header, request->header_len, "User-Agent");
 
-	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %i \"%s\"",
+	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %zu \"%s\"",
 		visitor_ip_addr == NULL ? "NOIP" : visitor_ip_addr,
 		request->verb,
 		request->resource,
@@ -377,8 +377,8 @@ static int attempt_reread_from_socket(
 
 		to_read = calloc(1, MAX_READ_LEN);
 
-		m38_log_msg(LOG_WARN, "Content-Length is %i but we got a post_body_len of %i.", clength_num, post_body_len);
-		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.", clength_num, post_body_len);
+		m38_log_msg(LOG_WARN, "Content-Length is %zu but we got a post_body_len of %zu.", clength_num, post_body_len);
+		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.");
 		/* ------------------------------------- */
 		/* XXX: Do a select here with a timeout. */
 		/* ------------------------------------- */
diff --git a/src/server.c b/src/server.c
index abe2743..2e5db31 100644
--- a/src/server.c
+++ b/src/server.c
@@ -176,7 +176,7 @@ static void *handler(void *arg) {
 
 		struct mq_attr attr = {0};
 		if (mq_getattr(accepted_socket_queue, &attr) == 0) {
-			m38_log_msg(LOG_INFO, "Acceptor: Number of items on the queue: %i", attr.mq_curmsgs);
+			m38_log_msg(LOG_INFO, "Acceptor: Number of items on the queue: %li", attr.mq_curmsgs);
 		} else {
 			m38_log_msg(LOG_INFO, "Acceptor: Could not pull items from queue.");
 			perror("Acceptor MQ Problem: ");
-- 
2.43.0


From 20a9c5fc2347a341af273dc0c521ce139583f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 39/53] fix: names of sub contexts and arrays are always
 terminated

---
 src/greshunkel.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..a01101c 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -90,8 +90,7 @@ int gshkl_add_sub_context(greshunkel_ctext *parent, const char name[const], cons
 			.sub_ctext = child
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	return _gshkl_add_var_to_context(parent, &_stack_tuple);
 }
@@ -169,8 +168,7 @@ greshunkel_var gshkl_add_array(greshunkel_ctext *ctext, const char name[]) {
 			.arr = vector_new(sizeof(greshunkel_tuple), 16)
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	_gshkl_add_var_to_context(ctext, &_stack_tuple);
 	return _stack_tuple.value;
-- 
2.43.0


From 072d7ded7a3f2329611f525ff0ad6349696d904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 40/53] fix: an included file leaves room for its terminator

---
 src/greshunkel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a01101c..42383cc 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -519,7 +519,7 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		template_file_siz = fread(template_file, 1, sizeof(template_file) - 1, include_file);
 		fclose(include_file);
 		template_file[template_file_siz] = '\0';
 
-- 
2.43.0


From 970e9ca81a59e5eefce2fe755db6f063758eba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 41/53] fix: the parts of a conditional's dotted name stay
 inside their buffers

---
 src/greshunkel.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 42383cc..1e94a54 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -783,8 +783,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			/* TODO: Check sub-context. */
 			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+			snprintf(sub_context_name, sizeof(sub_context_name), "%.*s", (int)(sub_ctext_match - just_match_str), just_match_str);
+			snprintf(sub_item_name, sizeof(sub_item_name), "%s", sub_ctext_match + strlen("."));
 
 			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -860,8 +860,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				/* TODO: Check sub-context. */
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				snprintf(sub_context_name, sizeof(sub_context_name), "%.*s", (int)(sub_ctext_match - just_match_str), just_match_str);
+				snprintf(sub_item_name, sizeof(sub_item_name), "%s", sub_ctext_match + strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -889,8 +889,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				/* TODO: Check sub-context. */
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				snprintf(sub_context_name, sizeof(sub_context_name), "%.*s", (int)(sub_ctext_match - just_match_str), just_match_str);
+				snprintf(sub_item_name, sizeof(sub_item_name), "%s", sub_ctext_match + strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-- 
2.43.0


From 540b9fd5c2b113d4057f7d2290b58e599dcc674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 42/53] fix: a template that renders to nothing renders to an
 empty string

---
 src/greshunkel.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1e94a54..772e4cc 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -980,7 +980,9 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	assert(ctext != NULL);
 
 	/* We start up a new buffer and copy the old one into it: */
-	char *rendered = NULL;
+	char *rendered = calloc(1, 1);
+	if (rendered == NULL)
+		return NULL;
 	size_t intermediate_outsize = 0;
 
 	struct compiled_regex all_regex;
@@ -1033,7 +1035,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
-		*outsize = intermediate_outsize - 1;
+		*outsize = intermediate_outsize > 0 ? intermediate_outsize - 1 : 0;
 	return rendered;
 
 error:
-- 
2.43.0


From d67a839091d54a6030b5cea06dbc65bc06bde2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 43/53] fix: rendering a loop leaves the sub contexts in its
 array alone

---
 src/greshunkel.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 772e4cc..8f027cc 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -227,6 +227,12 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		greshunkel_tuple *item = (greshunkel_tuple *)vector_get(to_free->value.arr, i);
+		if (item->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)item->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
@@ -662,6 +668,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			}
 
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
+			/* The loop variable still belongs to the array, so don't free it here. */
+			_temp_ctext->values->count = 0;
 			gshkl_free_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
-- 
2.43.0


From 3893864b83d88a735c8222bad04b4929c98bab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 44/53] fix: the steps of interpolating a line free what they
 replace, once

---
 src/greshunkel.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8f027cc..29daff8 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -586,14 +586,18 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 		memset(match, 0, sizeof(match));
 	}
 
+	/* Whatever a step replaced is ours to free, unless it is the caller's line. */
+	if (operating_line != &_operating_line && _operating_line.data != current_line.data)
+		free(_operating_line.data);
+
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
+	if (included_line.data != operating_line->data && operating_line->data != current_line.data)
 		free(operating_line->data);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
+		free(included_line.data);
 
 	return filtered_line;
 }
-- 
2.43.0


From 0fb0a062c01d2a2ce37d8f88f50a85879e704988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 45/53] fix: a failed rendering releases its expressions and
 lines

---
 src/greshunkel.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 29daff8..cfaff89 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -1033,8 +1033,12 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		intermediate_outsize += to_append.size;
 		{
 			char *med_buf = realloc(rendered, intermediate_outsize + 1);
-			if (med_buf == NULL)
+			if (med_buf == NULL) {
+				if (to_append.data != current_line.data)
+					free(current_line.data);
+				free(to_append.data);
 				goto error;
+			}
 			med_buf[intermediate_outsize] = '\0';
 			rendered = med_buf;
 		}
@@ -1051,6 +1055,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	return rendered;
 
 error:
+	_destroy_regex(&all_regex);
 	free(rendered);
 	return NULL;
 }
-- 
2.43.0


From f06aa4714158eeceef5c05482aa1a648afd02e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 46/53] fix: an empty value is false in a conditional

---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index cfaff89..c3e3164 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -717,8 +717,8 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 		return !is_subcontext;
 	}
 
-	m38_log_msg(LOG_DEBUG, "_is_falsey: return 0");
-	return 0;
+	m38_log_msg(LOG_DEBUG, "_is_falsey: is_null");
+	return 1;
 }
 
 static inline int _is_truthy(const greshunkel_tuple *tuple) {
-- 
2.43.0


From f5546f0f84f0735ae7ade41cf65f42663ce02dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:33 +0000
Subject: [PATCH 47/53] fix: the Python binding passes pointers and sizes with
 their C types

---
 python/greshunkel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index e8f1a3c..1417536 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -13,12 +13,18 @@ GshklFilterFunc = CFUNCTYPE(c_char_p, c_char_p)
 
 lib38moths = cdll.LoadLibrary("lib38moths.so")
 
+lib38moths.gshkl_init_context.argtypes = []
 lib38moths.gshkl_init_context.restype = c_void_p
+lib38moths.gshkl_add_string.argtypes = [c_void_p, c_char_p, c_char_p]
+lib38moths.gshkl_add_int.argtypes = [c_void_p, c_char_p, c_int]
+lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
+lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_array.argtypes = [c_void_p, c_char_p]
 lib38moths.gshkl_add_array.restype = greshunkel_var
 lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_p]
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
+lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, POINTER(c_size_t)]
 lib38moths.gshkl_render.restype = c_char_p
 
 def _add_item_to_greshunkel_loop(ctext, loop, value):
@@ -40,7 +46,7 @@ def _add_item_to_greshunkel_context(ctext, key, value):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
-        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), c_size_t(value))
+        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), value)
     elif isinstance(value, list):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
-- 
2.43.0


From 167fddf5acc12a5bb8010ddde3f4f76e954439b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:36 +0000
Subject: [PATCH 48/53] fix: the Python binding gives a template's size in
 bytes

---
 python/greshunkel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 1417536..c1e5549 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -71,6 +71,7 @@ class Template(object):
         self.template = template
 
     def render(self, context):
-        template_c_string = c_char_p(self.template.encode())
-        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(self.template), None)
+        encoded_template = self.template.encode()
+        template_c_string = c_char_p(encoded_template)
+        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(encoded_template), None)
         return ret_c_str.decode()
-- 
2.43.0


From 8b9cede03ac7ba872cbf82ef3bf8ddff11199945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 49/53] fix: a template that a block ends is rendered to its
 last character

---
 src/greshunkel.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index c3e3164..1262656 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -1048,10 +1048,16 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		free(to_append.data);
 	}
 	_destroy_regex(&all_regex);
-	/* rendered[intermediate_outsize - 1] = '\0'; */
+
+	/* The terminator of the last line is not counted, but the end of a block is no line. */
+	if (intermediate_outsize > 0) {
+		const char last = rendered[intermediate_outsize - 1];
+		if (last == '\0' || last == '\n' || last == '\r')
+			intermediate_outsize--;
+	}
 
 	if (outsize)
-		*outsize = intermediate_outsize > 0 ? intermediate_outsize - 1 : 0;
+		*outsize = intermediate_outsize;
 	return rendered;
 
 error:
-- 
2.43.0


From f874dc25c86183a9199496e1f92ac7f084b832fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 50/53] fix: text inserted into a line is not searched for the
 same markers again

---
 src/greshunkel.c | 53 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1262656..e375709 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -272,8 +272,9 @@ static line read_line(const char *buf) {
 	return to_return;
 }
 
-/* I'm calling this "vishnu" because i don't actually know what it's for */
-static void vishnu(line *new_line_to_add, const match_t match, const char *result, const line *operating_line) {
+/* I'm calling this "vishnu" because i don't actually know what it's for
+ * Returns where the line goes on behind what was inserted. */
+static size_t vishnu(line *new_line_to_add, const match_t match, const char *result, const line *operating_line) {
 	char *p;
 	const size_t sizes[3] = {match.rm_so, strlen(result), operating_line->size - match.rm_eo};
 
@@ -285,21 +286,24 @@ static void vishnu(line *new_line_to_add, const match_t match, const char *resul
 	memcpy(p, result, sizes[1]);
 	p += sizes[1];
 	memcpy(p, operating_line->data + match.rm_eo, sizes[2]);
+
+	return sizes[0] + sizes[1];
 }
 
-static int regexec_2_0_beta(const regex_t *preg, const char *string, size_t nmatch, match_t pmatch[]) {
+/* Searches the string from the given offset on. The matches are relative to the string itself. */
+static int regexec_2_0_beta(const regex_t *preg, const char *string, size_t offset, size_t nmatch, match_t pmatch[]) {
 	unsigned int i;
 	regmatch_t matches[nmatch];
 	memset(matches, 0, sizeof(matches));
 
-	if (regexec(preg, string, nmatch, matches, 0) != 0) {
+	if (regexec(preg, string + offset, nmatch, matches, 0) != 0) {
 		return 1;
 	}
 	for (i = 0; i < nmatch; i++) {
-		pmatch[i].rm_so = matches[i].rm_so;
-		pmatch[i].rm_eo = matches[i].rm_eo;
+		pmatch[i].rm_so = offset + matches[i].rm_so;
+		pmatch[i].rm_eo = offset + matches[i].rm_eo;
 		pmatch[i].len = matches[i].rm_eo - matches[i].rm_so;
-		pmatch[i].start = string + matches[i].rm_so;
+		pmatch[i].start = string + pmatch[i].rm_so;
 	}
 	return 0;
 }
@@ -331,9 +335,12 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 	const line *operating_line = current_line;
 	assert(operating_line->data != NULL);
 
+	/* What was inserted already is not searched again, or it could go on forever. */
+	size_t searched = 0;
+
 	/* Now we match template filters: */
 	match_t filter_matches[3];
-	while (regexec_2_0_beta(&all_regex->c_filter_regex, operating_line->data, 3, filter_matches) == 0) {
+	while (regexec_2_0_beta(&all_regex->c_filter_regex, operating_line->data, searched, 3, filter_matches) == 0) {
 		match_t whole_match = filter_matches[0];
 		const char *start_of_first_XxX = strstr(whole_match.start, " XxX");
 		const char *end_of_first_XxX = start_of_first_XxX + strlen(" XxX");
@@ -361,7 +368,7 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
 
-			vishnu(&new_line_to_add, whole_match, filter_result, operating_line);
+			searched = vishnu(&new_line_to_add, whole_match, filter_result, operating_line);
 
 			if (filter->clean_up != NULL)
 				filter->clean_up(filter_result);
@@ -382,8 +389,9 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 	}
 
 	/* No arguments matching. */
+	searched = 0;
 	match_t filter_matches_no_args[2];
-	while (regexec_2_0_beta(&all_regex->c_filter_no_args_regex, operating_line->data, 2, filter_matches_no_args) == 0) {
+	while (regexec_2_0_beta(&all_regex->c_filter_no_args_regex, operating_line->data, searched, 2, filter_matches_no_args) == 0) {
 		match_t whole_match = filter_matches_no_args[0];
 		const char *start_of_first_XxX = strstr(whole_match.start, " XxX");
 		const char *end_of_first_XxX = start_of_first_XxX + strlen(" XxX");
@@ -403,7 +411,7 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 			char *filter_result = filter->filter_func(NULL);
 
-			vishnu(&new_line_to_add, whole_match, filter_result, operating_line);
+			searched = vishnu(&new_line_to_add, whole_match, filter_result, operating_line);
 
 			if (filter->clean_up != NULL)
 				filter->clean_up(filter_result);
@@ -429,9 +437,10 @@ _interpolate_line_subcontext(const greshunkel_ctext *ctext, const line current_l
 	line interpolated_line = {0};
 	line new_line_to_add = {0};
 	const line *operating_line = &current_line;
+	size_t searched = 0;
 
 	match_t cvar_match[3];
-	while (regexec_2_0_beta(&all_regex->c_cvar_regex, operating_line->data, 3, cvar_match) == 0) {
+	while (regexec_2_0_beta(&all_regex->c_cvar_regex, operating_line->data, searched, 3, cvar_match) == 0) {
 		const match_t inner_match = cvar_match[1];
 		const match_t subname_match = cvar_match[2];
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
@@ -464,7 +473,7 @@ _interpolate_line_subcontext(const greshunkel_ctext *ctext, const line current_l
 				if (strncmp(_name, just_subname_match_str, larger) == 0) {
 					/* TODO: Only works on strings. */
 					assert(sub_tuple->type == GSHKL_STR);
-					vishnu(&new_line_to_add, cvar_match[0], sub_tuple->value.str, operating_line);
+					searched = vishnu(&new_line_to_add, cvar_match[0], sub_tuple->value.str, operating_line);
 					goto done;
 				}
 			}
@@ -503,7 +512,8 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 	assert(operating_line->data != NULL);
 
 	match_t match[2] = {0};
-	while (regexec_2_0_beta(&all_regex->c_include_regex, operating_line->data, 2, match) == 0) {
+	/* What the file renders to takes the place of the line, and is done. */
+	if (regexec_2_0_beta(&all_regex->c_include_regex, operating_line->data, 0, 2, match) == 0) {
 		const match_t inner_match = match[1];
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
 
@@ -532,13 +542,9 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 		line rendered_piece = {0};
 		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
 
-		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
 		interpolated_line.data = rendered_piece.data;
 		operating_line = &interpolated_line;
-
-		/* Set the next regex check after this one. */
-		memset(match, 0, sizeof(match));
 	}
 
 	return *operating_line;
@@ -553,9 +559,10 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 	const line _operating_line = _interpolate_line_subcontext(ctext, current_line, all_regex);
 	const line *operating_line = &_operating_line;
 	assert(operating_line->data != NULL);
+	size_t searched = 0;
 
 	match_t match[2] = {0};
-	while (regexec_2_0_beta(&all_regex->c_var_regex, operating_line->data, 2, match) == 0) {
+	while (regexec_2_0_beta(&all_regex->c_var_regex, operating_line->data, searched, 2, match) == 0) {
 		const match_t inner_match = match[1];
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
 
@@ -566,7 +573,7 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 		strncpy(just_match_str, inner_match.start, inner_match.len);
 
 		if ((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_STR) {
-			vishnu(&new_line_to_add, match[0], tuple->value.str, operating_line);
+			searched = vishnu(&new_line_to_add, match[0], tuple->value.str, operating_line);
 		} else {
 			/* Blow up if we had a variable that wasn't in the context. */
 			printf("Did not match a variable that needed to be matched.\n");
@@ -610,7 +617,7 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 	match_t match[4] = {{0}};
 	/* TODO: Support loops inside of loops. That probably means a
 	 * while loop here. */
-	if (regexec_2_0_beta(&all_regex->c_loop_regex, buf, 4, match) == 0) {
+	if (regexec_2_0_beta(&all_regex->c_loop_regex, buf, 0, 4, match) == 0) {
 		/* Variables we're going to need: */
 		const match_t loop_variable = match[1];
 		const match_t variable_name = match[2];
@@ -759,7 +766,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 	*num_read = 0;
 
 	match_t match[4] = {{0}};
-	if (regexec_2_0_beta(&all_regex->c_conditional_inverse_regex, buf, 3, match) == 0) {
+	if (regexec_2_0_beta(&all_regex->c_conditional_inverse_regex, buf, 0, 3, match) == 0) {
 		const match_t conditional_variable = match[1];
 		match_t conditional_meat = match[2];
 		/* Make sure they were matched: */
@@ -839,7 +846,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			free(rendered_piece.data);
 			free(to_render_line.data);
 		}
-	} else if (regexec_2_0_beta(&all_regex->c_conditional_regex, buf, 3, match) == 0) {
+	} else if (regexec_2_0_beta(&all_regex->c_conditional_regex, buf, 0, 3, match) == 0) {
 		const match_t conditional_variable = match[1];
 		match_t conditional_meat = match[2];
 
-- 
2.43.0


From 9aafd03ee803f8ed29d49a787cf66eb3c1e23ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 51/53] fix: names of any length in a template are looked up
 without a copy on the stack

---
 src/greshunkel.c | 85 +++++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 58 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index e375709..4ecd424 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -310,7 +310,7 @@ static int regexec_2_0_beta(const regex_t *preg, const char *string, size_t offs
 
 /* finds a variable or filter by name, returns first matching item or NULL if none found
  * find_values == 1 uses ctext->values, otherwise, ctext->filter_functions */
-static const void *find_needle(const greshunkel_ctext *ctext, const char *needle, int find_values) {
+static const void *find_needle(const greshunkel_ctext *ctext, const char *needle, const size_t needle_len, int find_values) {
 	const greshunkel_ctext *current_ctext = ctext;
 	while (current_ctext != NULL) {
 		vector *current_vector;
@@ -319,8 +319,7 @@ static const void *find_needle(const greshunkel_ctext *ctext, const char *needle
 		for (i = 0; i < current_vector->count; i++) {
 			const greshunkel_named_item *item = (greshunkel_named_item *)vector_get(current_vector, i);
 			assert(item->name != NULL);
-			const size_t larger = strlen(item->name) > strlen(needle) ? strlen(item->name) : strlen(needle);
-			if (strncmp(item->name, needle, larger) == 0)
+			if (strlen(item->name) == needle_len && strncmp(item->name, needle, needle_len) == 0)
 				return item;
 		}
 		current_ctext = current_ctext->parent;
@@ -354,11 +353,7 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 		const match_t argument = filter_matches[2];
 
 		const greshunkel_filter *filter;
-		char just_match_str[function_name.len + 1];
-		just_match_str[function_name.len] = '\0';
-		strncpy(just_match_str, function_name.start, function_name.len);
-
-		if ((filter = find_needle(ctext, just_match_str, 0))) {
+		if ((filter = find_needle(ctext, function_name.start, function_name.len, 0))) {
 
 			const size_t new_len = start_of_first_XxX - argument.start;
 
@@ -404,11 +399,7 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 		const match_t function_name = filter_matches_no_args[1];
 
 		const greshunkel_filter *filter;
-		char just_match_str[function_name.len + 1];
-		just_match_str[function_name.len] = '\0';
-		strncpy(just_match_str, function_name.start, function_name.len);
-
-		if ((filter = find_needle(ctext, just_match_str, 0))) {
+		if ((filter = find_needle(ctext, function_name.start, function_name.len, 0))) {
 			char *filter_result = filter->filter_func(NULL);
 
 			searched = vishnu(&new_line_to_add, whole_match, filter_result, operating_line);
@@ -447,17 +438,10 @@ _interpolate_line_subcontext(const greshunkel_ctext *ctext, const line current_l
 		assert(subname_match.rm_so != -1 && subname_match.rm_eo != -1);
 
 		const greshunkel_tuple *tuple;
-		char just_match_str[inner_match.len + 1];
-		just_match_str[inner_match.len] = '\0';
-		strncpy(just_match_str, inner_match.start, inner_match.len);
-
 		/* So here we search for a sub context instead of a string. */
-		if ((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_SUBCTEXT) {
+		if ((tuple = find_needle(ctext, inner_match.start, inner_match.len, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 			const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
 
-			char just_subname_match_str[subname_match.len + 1];
-			just_subname_match_str[subname_match.len] = '\0';
-			strncpy(just_subname_match_str, subname_match.start, subname_match.len);
 			/* So now we need to:
 			 * 1. Loop through the subcontext's values searching for subname_match
 			 * 2. Inteprolate using that value.
@@ -467,10 +451,8 @@ _interpolate_line_subcontext(const greshunkel_ctext *ctext, const line current_l
 			for (i = 0; i < sub_ctext->values->count; i++) {
 				const greshunkel_tuple *sub_tuple = vector_get(sub_ctext->values, i);
 				const char *_name = sub_tuple->name;
-				const size_t larger = strlen(_name) > strlen(just_subname_match_str) ?
-						strlen(_name) : strlen(just_subname_match_str);
 
-				if (strncmp(_name, just_subname_match_str, larger) == 0) {
+				if (strlen(_name) == subname_match.len && strncmp(_name, subname_match.start, subname_match.len) == 0) {
 					/* TODO: Only works on strings. */
 					assert(sub_tuple->type == GSHKL_STR);
 					searched = vishnu(&new_line_to_add, cvar_match[0], sub_tuple->value.str, operating_line);
@@ -518,16 +500,14 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
 
 		/* Copy the string here so we only get the match, not everything after it. */
-		char just_match_str[inner_match.len + 1];
-		just_match_str[inner_match.len] = '\0';
-		strncpy(just_match_str, inner_match.start, inner_match.len);
-
+		char *just_match_str = strndup(inner_match.start, inner_match.len);
 
 		/* Open the file here. */
 		/* TODO: Make this actually the whole size of the file, not just a random buffer. */
 		char template_file[2048] = {0};
 		size_t template_file_siz = 0;
 		FILE *include_file = fopen(just_match_str, "r");
+		free(just_match_str);
 		if (!include_file) {
 			/* If we couldn't open the file, blow up with an assertion. */
 			printf("Could not open SCREAM file for reading.\n");
@@ -567,12 +547,7 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
 
 		const greshunkel_tuple *tuple;
-		/* Copy the string here so we only get the match, not everything after it. */
-		char just_match_str[inner_match.len + 1];
-		just_match_str[inner_match.len] = '\0';
-		strncpy(just_match_str, inner_match.start, inner_match.len);
-
-		if ((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_STR) {
+		if ((tuple = find_needle(ctext, inner_match.start, inner_match.len, 1)) && tuple->type == GSHKL_STR) {
 			searched = vishnu(&new_line_to_add, match[0], tuple->value.str, operating_line);
 		} else {
 			/* Blow up if we had a variable that wasn't in the context. */
@@ -640,11 +615,7 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
 
 		const greshunkel_tuple *tuple;
-		char just_match_str[variable_name.len + 1];
-		just_match_str[variable_name.len] = '\0';
-		strncpy(just_match_str, variable_name.start, variable_name.len);
-
-		if (!((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_ARR)) {
+		if (!((tuple = find_needle(ctext, variable_name.start, variable_name.len, 1)) && tuple->type == GSHKL_ARR)) {
 			printf("Did not match a variable that needed to be matched.\n");
 			printf("Line: %s\n", buf);
 			assert(tuple != NULL);
@@ -785,27 +756,26 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
 
-		char just_match_str[conditional_variable.len + 1];
-		just_match_str[conditional_variable.len] = '\0';
-		strncpy(just_match_str, conditional_variable.start, conditional_variable.len);
+		const char *just_match_str = conditional_variable.start;
+		const size_t just_match_len = conditional_variable.len;
 
 		/* TODO: Support a boolean type. */
-		/*if (!((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_BOOL)) { */
+		/*if (!((tuple = find_needle(ctext, just_match_str, just_match_len, 1)) && tuple->type == GSHKL_BOOL)) { */
 		const greshunkel_tuple *tuple = NULL;
 		char *sub_ctext_match = NULL;
 		int should_render = 0;
-		if ((tuple = find_needle(ctext, just_match_str, 1))) {
+		if ((tuple = find_needle(ctext, just_match_str, just_match_len, 1))) {
 			if (_is_truthy(tuple)) {
 				should_render = 1;
 			}
-		} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
+		} else if ((sub_ctext_match = memchr(just_match_str, '.', just_match_len)) != NULL) {
 			/* TODO: Check sub-context. */
 			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 			snprintf(sub_context_name, sizeof(sub_context_name), "%.*s", (int)(sub_ctext_match - just_match_str), just_match_str);
-			snprintf(sub_item_name, sizeof(sub_item_name), "%s", sub_ctext_match + strlen("."));
+			snprintf(sub_item_name, sizeof(sub_item_name), "%.*s", (int)(just_match_str + just_match_len - (sub_ctext_match + strlen("."))), sub_ctext_match + strlen("."));
 
-			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
+			if ((tuple = find_needle(ctext, sub_context_name, strlen(sub_context_name), 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
 
 				unsigned int i;
@@ -865,24 +835,23 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
 
-		char just_match_str[conditional_variable.len + 1];
-		just_match_str[conditional_variable.len] = '\0';
-		strncpy(just_match_str, conditional_variable.start, conditional_variable.len);
+		const char *just_match_str = conditional_variable.start;
+		const size_t just_match_len = conditional_variable.len;
 
 		/* TODO: Support a boolean type. */
-		/*if (!((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_BOOL)) */
+		/*if (!((tuple = find_needle(ctext, just_match_str, just_match_len, 1)) && tuple->type == GSHKL_BOOL)) */
 		const greshunkel_tuple *tuple = NULL;
 		char *sub_ctext_match = NULL;
 		int should_render = 0;
-		if (!(tuple = find_needle(ctext, just_match_str, 1))) {
-			if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
+		if (!(tuple = find_needle(ctext, just_match_str, just_match_len, 1))) {
+			if ((sub_ctext_match = memchr(just_match_str, '.', just_match_len)) != NULL) {
 				/* TODO: Check sub-context. */
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				snprintf(sub_context_name, sizeof(sub_context_name), "%.*s", (int)(sub_ctext_match - just_match_str), just_match_str);
-				snprintf(sub_item_name, sizeof(sub_item_name), "%s", sub_ctext_match + strlen("."));
+				snprintf(sub_item_name, sizeof(sub_item_name), "%.*s", (int)(just_match_str + just_match_len - (sub_ctext_match + strlen("."))), sub_ctext_match + strlen("."));
 
-				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
+				if ((tuple = find_needle(ctext, sub_context_name, strlen(sub_context_name), 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
 
 					unsigned int i;
@@ -904,14 +873,14 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		} else {
 			if (_is_falsey(tuple)) {
 				should_render = 1;
-			} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
+			} else if ((sub_ctext_match = memchr(just_match_str, '.', just_match_len)) != NULL) {
 				/* TODO: Check sub-context. */
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				snprintf(sub_context_name, sizeof(sub_context_name), "%.*s", (int)(sub_ctext_match - just_match_str), just_match_str);
-				snprintf(sub_item_name, sizeof(sub_item_name), "%s", sub_ctext_match + strlen("."));
+				snprintf(sub_item_name, sizeof(sub_item_name), "%.*s", (int)(just_match_str + just_match_len - (sub_ctext_match + strlen("."))), sub_ctext_match + strlen("."));
 
-				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
+				if ((tuple = find_needle(ctext, sub_context_name, strlen(sub_context_name), 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
 
 					unsigned int i;
-- 
2.43.0


From 5a97ca34f12000806c34c1f416396e3e4876a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 52/53] fix: an accept() that fails for one connection does not
 stop the acceptor

---
 src/server.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 2e5db31..8314ddb 100644
--- a/src/server.c
+++ b/src/server.c
@@ -5,6 +5,7 @@
 #include <arpa/inet.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <mqueue.h>
 #include <netdb.h>
@@ -71,8 +72,15 @@ static void *acceptor(void *arg) {
 		int new_fd = accept(main_sock_fd, (struct sockaddr *)&their_addr, &sin_size);
 
 		if (new_fd == -1) {
+			const int why = errno;
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
-			return NULL;
+			/* Anything else concerns a single connection or is going to pass. */
+			if (why == EBADF || why == EINVAL || why == ENOTSOCK)
+				return NULL;
+			/* Out of descriptors or memory: give the others time to release some. */
+			if (why != ECONNABORTED && why != EINTR)
+				usleep(10000);
+			continue;
 		}
 
 		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
-- 
2.43.0


From 1205674e5c86b09f43cb9b234ae3b20a40f43f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 53/53] fix: an interrupted wait does not end a worker or the
 responder

---
 src/server.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 8314ddb..60a582a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -109,7 +109,9 @@ static void *responder(void *arg) {
 		m38_handled_request *req = NULL;
 		ssize_t msg_size = mq_receive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
 			perror("Responder: ");
 			break;
@@ -162,7 +164,9 @@ static void *handler(void *arg) {
 		int new_fd = 0;
 		ssize_t msg_size = mq_receive(accepted_socket_queue, (char *)&new_fd, sizeof(int), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Worker %i: Could not read from accepted_socket_queue.", worker_ident);
 			break;
 		} else if (new_fd == -1) {
-- 
2.43.0

