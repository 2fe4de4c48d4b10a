From 06bf4ee73b587c08d16896ee38d01dad361f3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 01/22] fix: detect cipher failures reliably

With OpenSSL 3, EVP_Cipher returns -1 when the cipher operation fails, which
was taken for success so that unconverted data was used. It also returns the
number of processed bytes, so that an empty input was taken for a failure.
---
 encrypt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encrypt.c b/encrypt.c
index 6e3d814..620779e 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,7 +136,12 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len))
+	// EVP_Cipher returns the number of processed bytes for some providers, so
+	// zero is ambiguous here
+	if (len == 0)
+		return 0;
+
+	if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len) <= 0)
 		return -1;
 
 	return 0;
-- 
2.43.0


From 8f23e3ee84ffcdf930bfa7e8ebb50549abb835fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 02/22] fix: hash the complete data when falling back from
 kcapi

If the kernel crypto API fails after it has already consumed some of the data,
the software fallback only hashed the rest of it.
---
 sha.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sha.c b/sha.c
index 3e272d6..ee285d4 100644
--- a/sha.c
+++ b/sha.c
@@ -84,10 +84,12 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 	if (kcapi_fd < 0)
 		return (SHA256(data, len, out) != NULL) ? 0 : -1;
 
-	while (len) {
+	const uint8_t *p = data;
+	size_t remaining = len;
+	while (remaining) {
 		ssize_t ret;
 
-		ret = send(kcapi_fd, data, len, MSG_MORE);
+		ret = send(kcapi_fd, p, remaining, MSG_MORE);
 		if (ret < 0) {
 			if (errno == EINTR)
 				continue;
@@ -96,8 +98,8 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 			goto disable;
 		}
 
-		data += ret;
-		len -= ret;
+		p += ret;
+		remaining -= ret;
 	}
 
 	ssize_t ret;
-- 
2.43.0


From 0b0aa93dcab42285560b43d18e173af487176f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 03/22] fix: do not abort if hashing fails

SHA256() can fail (e.g. if allocating the digest context fails). Report this
to the caller instead of aborting the process.
---
 chunk.h       | 4 ++--
 store-http.c  | 5 ++++-
 store-local.c | 5 ++++-
 target.c      | 6 +++++-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/chunk.h b/chunk.h
index f0e4c02..02f4bd7 100644
--- a/chunk.h
+++ b/chunk.h
@@ -11,7 +11,7 @@
 
 void chunk_format_id(char *id_str, const uint8_t *id);
 
-static inline void chunk_calculate_id(const uint8_t *data, size_t len, uint8_t *id_out)
+must_check static inline int chunk_calculate_id(const uint8_t *data, size_t len, uint8_t *id_out)
 {
-	u_assert_se(sha_once(data, len, id_out) == 0);
+	return sha_once(data, len, id_out);
 }
diff --git a/store-http.c b/store-http.c
index 815797d..e808362 100644
--- a/store-http.c
+++ b/store-http.c
@@ -359,7 +359,10 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 	hs->error_count = 0;
 
 	uint8_t actual_id[CHUNK_ID_LEN];
-	chunk_calculate_id(out, ctx.outbuf_written, actual_id);
+	if (chunk_calculate_id(out, ctx.outbuf_written, actual_id) < 0) {
+		u_log(ERR, "calculating chunk id failed");
+		return -1;
+	}
 
 	if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {
 		char id_str[CHUNK_ID_STRLEN], actual_id_str[CHUNK_ID_STRLEN];
diff --git a/store-local.c b/store-local.c
index b683064..f6464a9 100644
--- a/store-local.c
+++ b/store-local.c
@@ -154,7 +154,10 @@ restart:
 
 	// if the entry has not been validated, check its contents
 	uint8_t actual_chunk_id[CHUNK_ID_LEN];
-	chunk_calculate_id(out, e->len, actual_chunk_id);
+	if (chunk_calculate_id(out, e->len, actual_chunk_id) < 0) {
+		u_log(ERR, "calculating chunk id failed");
+		return -1;
+	}
 
 	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0) {
 		e->flags |= INDEX_FLAG_VALIDATED;
diff --git a/target.c b/target.c
index f0ea9f7..5219d21 100644
--- a/target.c
+++ b/target.c
@@ -34,7 +34,11 @@ int target_check_chunk(struct target *t, uint8_t *tmp, size_t len, off_t offset,
 		return -1;
 	}
 
-	chunk_calculate_id(tmp, len, calculated_id);
+	if (chunk_calculate_id(tmp, len, calculated_id) < 0) {
+		u_log(WARN, "calculating chunk id failed");
+		return -1;
+	}
+
 	if (memcmp(calculated_id, id, CHUNK_ID_LEN))
 		return 0;
 
-- 
2.43.0


From d7e1ce7b15cef84d4ba40482c997c1ce669893e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 04/22] fix: do not abort on small seeds and empty indices

The estimated number of chunks of a local store that is smaller than the
average chunk size is zero, as is the number of entries of an empty index.
---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1c0a089..3f2a588 100644
--- a/index.c
+++ b/index.c
@@ -7,7 +7,10 @@
 int index_init(struct index *idx, size_t expected_size)
 {
 	u_assert(idx);
-	u_assert(expected_size > 0);
+
+	// the size is just an estimate and might be zero for empty or small inputs
+	if (expected_size == 0)
+		expected_size = 1;
 
 	idx->entries = calloc(expected_size, sizeof(*idx->entries));
 	u_notnull(idx->entries, return -1);
-- 
2.43.0


From b363b120c563ba5f4438556f5a2d6ab44621673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 05/22] fix: do not release index entries twice

If rescanning a store fails before the new index is allocated, the already
released entries of the old one were released again with the store.
---
 index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index.c b/index.c
index 3f2a588..0fff97e 100644
--- a/index.c
+++ b/index.c
@@ -27,6 +27,8 @@ void index_cleanup(struct index *idx)
 	u_assert(idx);
 
 	free(idx->entries);
+	idx->entries = NULL;
+	idx->n_entries = idx->space_avail = 0;
 }
 
 struct index_entry *index_insert(struct index *idx, uint64_t offset, uint32_t len, const uint8_t *id)
-- 
2.43.0


From 4de4a398bdbbc7ac650529249849ac366d73e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 06/22] fix: do not reuse the last chunk for an entry of a
 different length

An index that repeats a chunk id with a different length made us write stale
buffer contents (or read beyond the buffer) instead of failing.
---
 main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 0e13df5..1d0612e 100644
--- a/main.c
+++ b/main.c
@@ -34,6 +34,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 	static bool have_last_id = false;
 	static bool resuming = true;
 	static uint8_t last_id[CHUNK_ID_LEN];
+	static uint32_t last_len;
 	static uint8_t buf[256*1024] __attribute__((aligned(4096)));
 
 	if (resuming) {
@@ -54,7 +55,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		resuming = false;
 	}
 
-	if (!have_last_id || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
+	if (!have_last_id || len != last_len || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
 		ssize_t ret = store_get_chunk(store, id, buf, sizeof(buf));
 		if (ret < 0 || len != (size_t)ret) {
 			u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);
@@ -62,6 +63,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		}
 
 		memcpy(last_id, id, CHUNK_ID_LEN);
+		last_len = len;
 		have_last_id = true;
 	}
 
-- 
2.43.0


From 99bccee4310b08667eb80287859f86ebb03ea82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 07/22] fix: reject indices with empty, unordered or huge
 entries

Entries of this kind were silently skipped, so that an incomplete image was
reported as a success, or tripped over assertions when inserted into an index.
---
 caibx.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/caibx.c b/caibx.c
index b2ed622..fa6042b 100644
--- a/caibx.c
+++ b/caibx.c
@@ -206,6 +206,12 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 
 		char chunk_id[CHUNK_ID_STRLEN];
 
+		if (offset <= last_offset) {
+			chunk_format_id(chunk_id, &buf[8]);
+			u_log(ERR, "chunk %s is empty or out of order", chunk_id);
+			return -1;
+		}
+
 		// chunks other than the last one should not be shorter than
 		// the minimum size
 		if (len < params->min_size && (i+1) < n_entries) {
@@ -221,12 +227,13 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 			 * of the chunks that do not fit within the declared
 			 * size bounds, as such chunks should not be produced
 			 * by a conforming encoder. But if the chunk ID still
-			 * matches in the end we should be fine. Only skip
-			 * chunks that we cannot represent at all.
+			 * matches in the end we should be fine. Only bail out
+			 * on chunks that we cannot represent at all, skipping
+			 * them would leave a hole in the image.
 			 */
 			if (len > UINT32_MAX) {
-				u_log(WARN, "skipping chunk %s", chunk_id);
-				continue;
+				u_log(ERR, "cannot handle chunk %s", chunk_id);
+				return -1;
 			}
 		}
 
-- 
2.43.0


From 31d87392f4965dbf615971b88e3c7d062b20ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 08/22] fix: reject average chunk sizes without a valid
 discriminator

The formula used by casync yields zero or a negative value for some average
sizes, leading to a division by zero or an undefined conversion.
---
 chunker.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/chunker.c b/chunker.c
index b499f49..6bed3e0 100644
--- a/chunker.c
+++ b/chunker.c
@@ -75,6 +75,9 @@ static const uint32_t buzhash_table[] = {
 	0x7bf7cabc, 0xf9c18d66, 0x593ade65, 0xd95ddf11,
 };
 
+#define CA_CHUNKER_DISCRIMINATOR_FROM_AVG_DOUBLE(avg) (avg / (-1.42888852e-7 * avg + 1.33237515))
+#define CA_CHUNKER_DISCRIMINATOR_FROM_AVG(avg) ((size_t) CA_CHUNKER_DISCRIMINATOR_FROM_AVG_DOUBLE(avg))
+
 int chunker_params_set(struct chunker_params *params, uint64_t min_size, uint64_t avg_size, uint64_t max_size)
 {
 	// FIXME: support fixed-size chunks
@@ -92,6 +95,12 @@ int chunker_params_set(struct chunker_params *params, uint64_t min_size, uint64_
 		return -1;
 	}
 
+	double discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG_DOUBLE(avg_size);
+	if (!(discriminator >= 1 && discriminator <= UINT32_MAX)) {
+		u_log(ERR, "unsupported average chunk size: %"PRIu64, avg_size);
+		return -1;
+	}
+
 	params->min_size = (uint32_t) min_size;
 	params->avg_size = (uint32_t) avg_size;
 	params->max_size = (uint32_t) max_size;
@@ -107,7 +116,6 @@ void chunker_reset(struct chunker *c)
 	SHA256_Init(&c->sha_ctx);
 }
 
-#define CA_CHUNKER_DISCRIMINATOR_FROM_AVG(avg) ((size_t) (avg / (-1.42888852e-7 * avg + 1.33237515)))
 int chunker_init(struct chunker *c, struct chunker_params *params)
 {
 	u_assert(c);
-- 
2.43.0


From 44372781719ebea7682d43b4f00535d1a796ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 09/22] fix: exit after printing the casync help

Continuing with the synchronization without having set up any store
dereferenced a NULL pointer.
---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 1d0612e..cde2dc8 100644
--- a/main.c
+++ b/main.c
@@ -239,7 +239,7 @@ static int casync(int argc, char **argv)
 		switch (c) {
 			case 'h':
 				casync_help();
-				return 0;
+				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
 				if (append_store_from_arg(sc, optarg) < 0)
-- 
2.43.0


From 4ce9441dd54eaf3aee0ff4382bf54d4b89cd352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 10/22] fix: do not ignore errors when reading the list of
 chunks

A read error on stdin was taken for the end of the list, so that csn-tool
reported success without having handled all of the chunks.
---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index 6ed3582..5cd1072 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -151,6 +151,11 @@ static int do_crypt(int argc, char **argv)
 				goto out;
 		}
 
+		if (ferror(stdin)) {
+			u_log(ERR, "reading list of chunks failed");
+			goto out;
+		}
+
 		ret = EXIT_SUCCESS;
 	} else {
 		char *input_path = argv[2];
-- 
2.43.0


From 247eeead25f560865a8667a3673441e2cc81a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 11/22] fix: create outputs of csn-tool crypt atomically

If csn-tool was interrupted or writing failed, a partial output was left
behind, which later invocations considered to be complete. Also, a file named
'-' kept output from being written to stdout.
---
 csn-tool.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/csn-tool.c b/csn-tool.c
index 5cd1072..a2e751a 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <stdio.h>
+#include <stdbool.h>
 #include <unistd.h>
 #include <inttypes.h>
 #include <fcntl.h>
@@ -72,7 +73,9 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		}
 	}
 
-	if (access(output_path, F_OK) == 0)
+	bool to_stdout = streq(output_path, "-");
+
+	if (!to_stdout && access(output_path, F_OK) == 0)
 		return 0;
 
 	// this uses the first 24 bytes of chunk_id
@@ -94,10 +97,16 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 	}
 
 	int fd;
-	if (streq(output_path, "-")) {
+	char tmp_path[PATH_MAX + 32];
+	if (to_stdout) {
 		fd = STDOUT_FILENO;
 	} else {
-		fd = open(output_path, O_WRONLY | O_TRUNC | O_CREAT, 0444);
+		// never leave an incomplete file behind at output_path, it would
+		// be considered done the next time around
+		snprintf(tmp_path, sizeof(tmp_path), "%s.%ld.tmp", output_path, (long)getpid());
+		unlink(tmp_path);
+
+		fd = open(tmp_path, O_WRONLY | O_EXCL | O_CREAT, 0444);
 
 		if (fd < 0) {
 			u_log_errno("failed to create output file");
@@ -110,11 +119,27 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		goto out_fd;
 	}
 
+	if (!to_stdout) {
+		if (fsync(fd) < 0) {
+			u_log_errno("failed to sync output file");
+			goto out_fd;
+		}
+
+		if (rename(tmp_path, output_path) < 0) {
+			u_log_errno("failed to rename output file");
+			goto out_fd;
+		}
+	}
+
 	ret = 0;
 
 out_fd:
-	if (fd != STDOUT_FILENO)
+	if (!to_stdout) {
 		close(fd);
+
+		if (ret < 0)
+			unlink(tmp_path);
+	}
 out_buf:
 	free(buf);
 
-- 
2.43.0


From d08fd4fdf7f4671264172d9aa0f85d9a8a3d4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 12/22] fix: start over when retrying a download

If a transfer timed out in the middle of the body, the data of the next attempt
was appended to what had been received before, so the retry could not succeed.
---
 store-http.c | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/store-http.c b/store-http.c
index e808362..5445233 100644
--- a/store-http.c
+++ b/store-http.c
@@ -232,13 +232,41 @@ static bool curl_is_transient_error(CURLcode code)
 	       code == CURLE_OPERATION_TIMEDOUT;
 }
 
-static CURLcode retried_curl_easy_perform(struct store_http *hs)
+/* Get rid of everything that a previous attempt might have left behind, the
+ * next one will start over with the first byte of the chunk.
+ */
+static int reset_request(struct http_request_ctx *ctx, const uint8_t *id)
+{
+	struct store_http *hs = ctx->hs;
+
+	ctx->outbuf_written = 0;
+	ctx->state = HTTP_REQUEST_STARTED;
+
+	hs->decode_buffer_fill = 0;
+
+	ZSTD_initDStream(hs->zstd);
+
+	if (hs->encrypted) {
+		// uses the first 24 bytes of the id as the nonce
+		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
+			u_log(ERR, "failed to re-initialize encryption");
+			return -1;
+		}
+	}
+
+	return 0;
+}
+
+static CURLcode retried_curl_easy_perform(struct store_http *hs, struct http_request_ctx *ctx, const uint8_t *id)
 {
 	CURLcode ret;
 	int remaining = CONNECT_TRIES;
 	useconds_t wait_us = 200 * 1000;
 
 	do {
+		if (reset_request(ctx, id) < 0)
+			return CURLE_FAILED_INIT;
+
 		ret = curl_easy_perform(hs->curl);
 
 		if (!curl_is_transient_error(ret))
@@ -274,23 +302,11 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_http *hs = (struct store_http*) s;
 
-	hs->decode_buffer_fill = 0;
-
-	ZSTD_initDStream(hs->zstd);
-
 	if (set_url(hs, id) < 0) {
 		u_log(ERR, "setting request URL failed");
 		return -1;
 	}
 
-	if (hs->encrypted) {
-		// uses the first 24 bytes of the id as the nonce
-		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
-			u_log(ERR, "failed to re-initialize encryption");
-			return -1;
-		}
-	}
-
 	struct http_request_ctx ctx = {
 		.hs = hs,
 		.outbuf = out,
@@ -303,7 +319,7 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 	u_log(DEBUG, "trying to fetch chunk from '%s'", hs->url_buf);
 
 	CURLcode curl_ret;
-	curl_ret = retried_curl_easy_perform(hs);
+	curl_ret = retried_curl_easy_perform(hs, &ctx, id);
 
 	if (curl_is_transient_error(curl_ret)) {
 		u_log(WARN, "transient transfer failure, increasing error counter");
-- 
2.43.0


From f8ab340ae6d0dd0d71012b66a82fde5d80ac515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 13/22] fix: limit the amount of data accepted for a chunk

A server that keeps sending data that does not produce any output (or that
piles up in the decode buffer) kept us busy and allocating forever.
---
 store-http.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/store-http.c b/store-http.c
index 5445233..9a13779 100644
--- a/store-http.c
+++ b/store-http.c
@@ -15,6 +15,10 @@
 #define ERROR_MAX 10u
 #define CONNECT_TRIES 10
 
+// most data we accept for a single chunk (even incompressible data only has a
+// tiny overhead)
+#define RECEIVE_MAX(chunk_size) (2 * (chunk_size) + 64 * 1024)
+
 struct store_http {
 	struct store s;
 
@@ -57,6 +61,8 @@ struct http_request_ctx {
 	size_t outbuf_size;
 	size_t outbuf_written;
 
+	size_t received;
+
 	enum http_request_state state;
 };
 
@@ -176,6 +182,13 @@ static size_t store_http_data_cb(char *ptr, size_t size, size_t nmemb, void *use
 	if (ctx->state == HTTP_REQUEST_FAILED)
 		return 0;
 
+	// don't let a broken server feed us data forever
+	ctx->received += nmemb;
+	if (ctx->received > RECEIVE_MAX(ctx->outbuf_size)) {
+		u_log(WARN, "server sent far more data than any valid chunk could have, failing request");
+		goto fail;
+	}
+
 	ssize_t ret;
 	if (ctx->hs->decode_buffer_fill || ctx->hs->encrypted) {
 		if (decode_buffer_absorb(ctx->hs, (uint8_t*)ptr, nmemb) < 0)
@@ -240,6 +253,7 @@ static int reset_request(struct http_request_ctx *ctx, const uint8_t *id)
 	struct store_http *hs = ctx->hs;
 
 	ctx->outbuf_written = 0;
+	ctx->received = 0;
 	ctx->state = HTTP_REQUEST_STARTED;
 
 	hs->decode_buffer_fill = 0;
-- 
2.43.0


From b1d5ca186bc4fc28b3ca608b59a63931b4904dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 14/22] fix: sync the target before reporting success

Written chunks might still be in the page cache when we exit, so a power loss
(or a write error that only surfaces later) could leave the target in a broken
state although the synchronization was reported to be successful.
---
 main.c   |  5 +++++
 target.c | 12 ++++++++++++
 target.h |  1 +
 3 files changed, 18 insertions(+)

diff --git a/main.c b/main.c
index cde2dc8..57200dd 100644
--- a/main.c
+++ b/main.c
@@ -309,6 +309,11 @@ int main(int argc, char **argv)
 		return EXIT_FAILURE;
 	}
 
+	if (target_sync(target) < 0) {
+		u_log(ERR, "failed to write target to stable storage");
+		return EXIT_FAILURE;
+	}
+
 	now = time_monotonic();
 	u_log(INFO, "synchronization finished after %u seconds", (unsigned int)(now - start));
 	if (skipped)
diff --git a/target.c b/target.c
index 5219d21..c872850 100644
--- a/target.c
+++ b/target.c
@@ -91,6 +91,18 @@ int target_write(struct target *t, const uint8_t *data, size_t len, off_t offset
 	return 0;
 }
 
+int target_sync(struct target *t)
+{
+	u_assert(t);
+
+	if (fsync(t->fd) < 0) {
+		u_log_errno("syncing target failed");
+		return -1;
+	}
+
+	return 0;
+}
+
 struct target *target_new(const char *path)
 {
 	u_assert(path);
diff --git a/target.h b/target.h
index 8848e23..fb0b783 100644
--- a/target.h
+++ b/target.h
@@ -17,6 +17,7 @@ struct target {
 struct target *target_new(const char *path);
 
 int target_write(struct target *t, const uint8_t *data, size_t len, off_t offset, const uint8_t *id);
+int target_sync(struct target *t);
 int target_check_chunk(struct target *t, uint8_t *tmp, size_t len, off_t offset, const uint8_t *id);
 
 struct store *target_as_store(struct target *t, size_t chunk_estimate);
-- 
2.43.0


From 7db06908a9a1c4f6a4379c2b687607ace591e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 15/22] fix: verify chunks that are read back from the target

When the target is used as a store, chunks were used without checking that they
still match their id.
---
 target.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/target.c b/target.c
index c872850..b82be2f 100644
--- a/target.c
+++ b/target.c
@@ -4,6 +4,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <inttypes.h>
 
 #include "utils.h"
 #include "chunker.h"
@@ -71,6 +72,18 @@ static ssize_t target_get_chunk(struct store *s, uint8_t *id, uint8_t *out, size
 		return -1;
 	}
 
+	// the target might not return what we have written to it
+	uint8_t actual_id[CHUNK_ID_LEN];
+	if (chunk_calculate_id(out, e->len, actual_id) < 0) {
+		u_log(ERR, "calculating chunk id failed");
+		return -1;
+	}
+
+	if (memcmp(actual_id, id, CHUNK_ID_LEN)) {
+		u_log(WARN, "chunk read back from target at offset %"PRIu64" is corrupt", e->start);
+		return 0;
+	}
+
 	return e->len;
 }
 
-- 
2.43.0


From b80fc4fb6b21c769fb8dbd8949938ef8396f558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 16/22] fix: always verify chunks read from local stores

Chunks of scanned stores (and those that had been validated once) were used
without checking that they still match their id, so a store that changes or rots
after it was scanned corrupted the target. Also, a sideloaded index that does
not match the store in length took the store out of service instead of being
discarded.
---
 store-local.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/store-local.c b/store-local.c
index f6464a9..6edd0e2 100644
--- a/store-local.c
+++ b/store-local.c
@@ -23,7 +23,7 @@ struct store_local {
 	struct chunker_params chunker_params;
 };
 
-#define INDEX_FLAG_VALIDATED (1<<0)
+#define INDEX_FLAG_SCANNED (1<<0)
 
 struct insert_ctx {
 	struct index *idx;
@@ -116,9 +116,9 @@ static int store_scan(struct store_local *ls)
 	struct insert_ctx ctx = {
 		.idx = &ls->idx,
 
-		// as this entry is the result of scanning the store ourselves, we
-		// consider it in sync with the data within the store
-		.flags = INDEX_FLAG_VALIDATED
+		// as this entry is the result of scanning the store ourselves,
+		// there is no point in scanning again if it turns out to be wrong
+		.flags = INDEX_FLAG_SCANNED
 	};
 
 	if (chunker_scan_fd(ls->fd, &ls->chunker_params, store_insert_index, &ctx) < 0)
@@ -138,31 +138,37 @@ restart:
 	if (!e)
 		return 0;
 
+	bool scanned = e->flags & INDEX_FLAG_SCANNED;
+
 	if (e->len > out_max) {
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
+
+		if (!scanned)
+			goto rescan;
+
 		return -1;
 	}
 
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
+
+		if (!scanned)
+			goto rescan;
+
 		return -1;
 	}
 
-	if (e->flags & INDEX_FLAG_VALIDATED)
-		return e->len;
-
-	// if the entry has not been validated, check its contents
+	// a sideloaded index might be wrong and the store might have changed since
+	// it was scanned, so always check the contents
 	uint8_t actual_chunk_id[CHUNK_ID_LEN];
 	if (chunk_calculate_id(out, e->len, actual_chunk_id) < 0) {
 		u_log(ERR, "calculating chunk id failed");
 		return -1;
 	}
 
-	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0) {
-		e->flags |= INDEX_FLAG_VALIDATED;
+	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0)
 		return e->len;
-	}
 
 	char chunk_id_str[CHUNK_ID_STRLEN];
 	u_log(ERR, "chunk validation failure at offset %"PRIu64" (chunk length %"PRIu32")",
@@ -174,6 +180,10 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+	if (scanned)
+		return 0;
+
+rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From c7eb79250a53432e0a1fe2a830ae43dde04de68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 17/22] fix: ignore empty deliveries of response data

curl calls the write callback with no data for empty responses. For an
encrypted store that has not allocated its decode buffer yet, this passed
null pointers to memmove.
---
 store-http.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store-http.c b/store-http.c
index 9a13779..eac8467 100644
--- a/store-http.c
+++ b/store-http.c
@@ -171,6 +171,11 @@ static size_t store_http_data_cb(char *ptr, size_t size, size_t nmemb, void *use
 
 	struct http_request_ctx *ctx = (struct http_request_ctx*) userdata;
 
+	// curl calls us like this for empty responses, we might not have a
+	// decode buffer yet
+	if (nmemb == 0)
+		return 0;
+
 	if (ctx->state == HTTP_REQUEST_STARTED) {
 		long http_code = get_response_code(ctx->hs->curl);
 		if (http_code != 200) {
-- 
2.43.0


From 23ebd39c10e63d206fbbeb592e6c1a4d9a718c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 18/22] fix: keep encryption keys out of the log

The name of a HTTP store was the URL it was given, including its
parameters, and is used in several log messages. Use the URL without
the parameters instead.
---
 main.c       | 6 ++++--
 store-http.c | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 57200dd..2eadcd4 100644
--- a/main.c
+++ b/main.c
@@ -98,7 +98,9 @@ static int append_store_from_arg(struct store_chain *sc, char *arg)
 	} else if (startswith(arg, "http")) {
 		s = store_http_new(arg);
 		if (!s) {
-			u_log(ERR, "creating HTTP store from '%s' failed", arg);
+			// the parameters might contain an encryption key
+			u_log(ERR, "creating HTTP store from '%.*s' failed",
+			      (int)strcspn(arg, "#"), arg);
 			return -1;
 		}
 	} else {
@@ -116,7 +118,7 @@ static int append_store_from_arg(struct store_chain *sc, char *arg)
 	}
 
 	if (store_chain_append(sc, s) < 0) {
-		u_log(ERR, "appending store '%s' to store chain failed", arg);
+		u_log(ERR, "appending store '%s' to store chain failed", store_get_name(s));
 		return -1;
 	}
 
diff --git a/store-http.c b/store-http.c
index eac8467..7f5576d 100644
--- a/store-http.c
+++ b/store-http.c
@@ -508,7 +508,8 @@ struct store *store_http_new(const char *baseurl)
 	hs->url_buf = malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN + 1);
 	u_notnull(hs->url_buf, goto err_baseurl);
 
-	snprintf(hs->s.name, sizeof(hs->s.name), "%s", baseurl);
+	// don't use the original URL here, it might contain an encryption key
+	snprintf(hs->s.name, sizeof(hs->s.name), "%s", hs->baseurl);
 	hs->s.free = store_http_free;
 	hs->s.get_chunk = store_http_get_chunk;
 
-- 
2.43.0


From 7dda65c414fbd3632d278b22dcee77e44b9cddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 19/22] fix: fail on unknown csn-tool commands

---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index a2e751a..9496425 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -233,5 +233,5 @@ int main(int argc, char **argv)
 		if (streq(cmds[i].name, argv[1]))
 			return cmds[i].fn(argc - 1, argv + 1);
 
-	usage(argv[0], false);
+	usage(argv[0], true);
 }
-- 
2.43.0


From ed6c9ca0e41d0806983a61bb2765526b6b1d37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 20/22] fix: avoid overflow of the progress percentage

With more than 42949672 chunks, the percentage shown started over.
---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 2eadcd4..93a5b01 100644
--- a/main.c
+++ b/main.c
@@ -79,7 +79,7 @@ progress:
 		static uint32_t handled_entries = 0;
 		static progess_status_t progress_status = PROGRESS_STATUS_INIT;
 
-		show_progress(100 * ++handled_entries / n_entries, &progress_status);
+		show_progress(100ull * ++handled_entries / n_entries, &progress_status);
 	}
 
 	return 0;
-- 
2.43.0


From d0fa137ef2926eea93beccdd25005954d2720817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:14 +0000
Subject: [PATCH 21/22] fix: keep the standard descriptors from being reused
 for files

---
 log.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/log.c b/log.c
index 822b03d..af8e610 100644
--- a/log.c
+++ b/log.c
@@ -2,6 +2,8 @@
 #include <stdbool.h>
 #include <stdarg.h>
 #include <stdio.h>
+#include <errno.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <assert.h>
 
@@ -11,10 +13,27 @@
 static enum u_loglevel loglevel = U_LOG_INFO;
 static bool is_tty;
 
+/* If we have been started without some of the standard descriptors, the next
+ * files to be opened would take their place and messages would be written into
+ * them. Occupy the descriptors with something that can not be written to.
+ */
+static void reserve_std_fds(void)
+{
+	for (int fd = STDIN_FILENO; fd <= STDERR_FILENO; fd++) {
+		if (fcntl(fd, F_GETFD) >= 0 || errno != EBADF)
+			continue;
+
+		if (open("/", O_RDONLY | O_DIRECTORY) != fd)
+			exit(EXIT_FAILURE);
+	}
+}
+
 void u_log_init(void)
 {
 	const char *s;
 
+	reserve_std_fds();
+
 	is_tty = isatty(STDERR_FILENO);
 
 	s = getenv("LOGLEVEL");
-- 
2.43.0


From 1b3371bc3cdaee9cc4186a82bffc8e582ec6ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:27 +0000
Subject: [PATCH 22/22] fix: never replace an output file that appears during a
 conversion

---
 csn-tool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 9496425..7926f87 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -4,6 +4,7 @@
 #include <unistd.h>
 #include <inttypes.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <limits.h>
 
 #include "encrypt.h"
@@ -125,7 +126,12 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 			goto out_fd;
 		}
 
-		if (rename(tmp_path, output_path) < 0) {
+		// unlike rename, link doesn't replace an output file that has
+		// been created by somebody else in the meantime
+		if (link(tmp_path, output_path) == 0 || errno == EEXIST) {
+			unlink(tmp_path);
+		} else if ((errno != EPERM && errno != EOPNOTSUPP) ||
+		           rename(tmp_path, output_path) < 0) {
 			u_log_errno("failed to rename output file");
 			goto out_fd;
 		}
-- 
2.43.0

