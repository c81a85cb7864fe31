From 74a5bd1d729f933b2a98a199f767d097f95af08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 01/56] fix: store that fails to allocate its entry must not
 free a null entry

---
 src/pogocache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bcf350f..f152151 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1640,7 +1640,9 @@ static int storeop(const void *key, size_t keylen, const void *val,
         return POGOCACHE_INSERTED;
     }
 nomem:
-    entry_free(entry, ctx);
+    if (entry) {
+        entry_free(entry, ctx);
+    }
     return POGOCACHE_NOMEM;
 }
 
-- 
2.43.0


From 5a0bf58b289b8d14b54612feabc1d949e47967c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 02/56] fix: clear without memory for a new table must zero the
 buckets

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index f152151..dcac897 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2004,7 +2004,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
                 }
             }
         }
-        memset(&shard->map.buckets, 0, 
+        memset(shard->map.buckets, 0, 
             sizeof(struct bucket)*shard->map.nbuckets);
         shard->map.count = 0;
         shard->map.entsize = 0;
-- 
2.43.0


From a118e6f3d401f67f48665b3126c3a069cf9a160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 03/56] fix: keep the entry memory size in step with expired,
 updated and iterated entries

---
 src/pogocache.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index dcac897..2c6c19c 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1415,7 +1415,7 @@ static int loadop(const void *key, size_t keylen,
     entry_extract(entry, 0, 0, 0, &val, &vallen, &expires, &flags, &cas, ctx);
     if (!entry_alive_exp(expires, now)) {
         // Entry is no longer alive. Delete from map and notify the user.
-        delbkt(&shard->map, bidx);
+        delentry_at_bkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
@@ -1438,6 +1438,8 @@ static int loadop(const void *key, size_t keylen,
             }
             entry_settime(entry2, now);
             set_entry(bkt, entry2);
+            shard->map.entsize -= entry_memsize(entry);
+            shard->map.entsize += entry_memsize(entry2);
             notify(shardidx, NOTIFY_REPLACED, entry2, entry, now, ctx);
             entry_free(entry, ctx);
         }
@@ -1687,7 +1689,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1709,7 +1711,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delbkt(&shard->map, i);
+                delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1769,7 +1771,7 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1925,7 +1927,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delbkt(&shard->map, i);
+        delentry_at_bkt(&shard->map, i);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From ba6dff909d506a453aad05d333d0cedf253e4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 04/56] fix: rejected stores and canceled deletes do not count
 as stored entries

---
 src/pogocache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index 2c6c19c..f3b69ac 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1500,6 +1500,7 @@ static int deleteop(const void *key, size_t keylen,
             bool ok = map_insert(&shard->map, entry, hash, &old, ctx);
             assert(ok);
             assert(!old);
+            shard->map.total--; // not a newly stored entry
             return POGOCACHE_CANCELED;
         }
     }
@@ -1604,6 +1605,9 @@ static int storeop(const void *key, size_t keylen, const void *val,
     } else if (opts->xx || opts->casop) {
         // The new entry must not be inserted.
         // Delete it and return early.
+        if (shard->map.count > count) {
+            shard->map.total--; // not a newly stored entry
+        }
         struct entry *e = map_delete(&shard->map, key, keylen, hash, ctx);
         assert(e == entry);
         entry_free(entry, ctx);
-- 
2.43.0


From 41d39d8d3129536568747a4bd8a2833571c78b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 05/56] fix: iterate and sweep visit an entry only once when a
 deletion wraps around the table

---
 src/pogocache.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index f3b69ac..39057e1 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1680,12 +1680,25 @@ int pogocache_nshards(struct pogocache *cache) {
     return cache->ctx.nshards;
 }
 
+// Returns the bucket where a scan that deletes entries has to start. Deleting
+// an entry shifts the entries that follow it to the left, and that never
+// crosses a bucket which is empty or which holds an entry at its own position.
+static int scan_start(struct map *map) {
+    int i = 0;
+    while (i < map->nbuckets-1 && get_dib(&map->buckets[i]) > 1) {
+        i++;
+    }
+    return i;
+}
+
 static int iterop(struct shard *shard, int shardidx, int64_t now,
     struct pogocache_iter_opts *opts, struct pgctx *ctx)
 {
     char buf[128];
     int status = POGOCACHE_FINISHED;
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = scan_start(&shard->map);
+    for (int n = 0; n < shard->map.nbuckets; n++) {
+        int i = (start + n) & shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1696,7 +1709,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
             delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
-            i--;
+            n--;
             continue;
         }
         int action = POGOCACHE_ITER_CONTINUE;
@@ -1718,7 +1731,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
                 delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
-                i--;
+                n--;
             }
             if (action&POGOCACHE_ITER_STOP) {
                 status = POGOCACHE_CANCELED;
@@ -1918,7 +1931,9 @@ size_t pogocache_size(struct pogocache *cache,
 static int sweepop(struct shard *shard, int shardidx, int64_t now,
     size_t *swept, size_t *kept, struct pgctx *ctx)
 {
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = scan_start(&shard->map);
+    for (int n = 0; n < shard->map.nbuckets; n++) {
+        int i = (start + n) & shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1938,7 +1953,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
         // Entry was deleted from bucket, which may move entries to the right
         // over one bucket to the left. So we need to check the same bucket
         // again.
-        i--;
+        n--;
     }
     tryshrink(&shard->map, ctx);
     return 0;
-- 
2.43.0


From bacbdf877f9e244c845e7d1a7fde5a4701d72c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 06/56] fix: entry iteration must reject a cursor one past the
 last shard

---
 src/pogocache.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 39057e1..6387b2f 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1807,8 +1807,9 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
 {
     assert(cursor);
     int64_t now = time > 0 ? time : getnow();
+    int nshards = pogocache_nshards(cache);
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx >= nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
@@ -1826,7 +1827,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
         }
         shardidx++;
         iter = 0;
-        if (shardidx == cache->ctx.nshards) {
+        if (shardidx == nshards) {
             goto notfound;
         }
     }
-- 
2.43.0


From eb6e434c3c2723ef5ba2e459894d0150878403d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 07/56] fix: scans, clear and entry accessors must work on a
 batch handle

---
 src/pogocache.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 6387b2f..46a297c 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1366,6 +1366,8 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 
 // Acquire a lock on the shard for key and execute the provided operation.
 #define ACQUIRE_FOR_KEY_AND_EXECUTE(rettype, key, keylen, op) ({ \
+    struct pogocache *handle = cache; \
+    struct pogocache *cache = handle; \
     int shardidx; \
     uint32_t hash; \
     struct shard *shard; \
@@ -1382,6 +1384,8 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 
 // Acquire a lock on the shard at index and execute the provided operation.
 #define ACQUIRE_FOR_SCAN_AND_EXECUTE(rettype, shardidx, op) ({ \
+    struct pogocache *handle = cache; \
+    struct pogocache *cache = handle; \
     struct shard *shard; \
     bool usebatch = acquire_for_scan((shardidx), &shard, &cache); \
     struct pgctx *ctx = &cache->ctx; \
@@ -2050,7 +2054,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
 static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now, 
     bool deferfree)
 {
-    struct pgctx *ctx = &cache->ctx;
+    struct pgctx *ctx = &rootcache(cache)->ctx;
     int nbuckets = 0;
     struct bucket *buckets = 0;
     ACQUIRE_FOR_SCAN_AND_EXECUTE(int, shardidx,
@@ -2062,7 +2066,7 @@ static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now,
                 entry_free(get_entry(&buckets[i]), ctx);
             }
         }
-        cache->ctx.free(buckets);
+        ctx->free(buckets);
     }
 }
 
@@ -2080,7 +2084,7 @@ void pogocache_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
         aquireclearop(cache, opts->oneshardidx, now, opts->deferfree);
         return;
     }
-    for (int i = 0; i < cache->ctx.nshards; i++) {
+    for (int i = 0; i < nshards; i++) {
         aquireclearop(cache, i, now, opts->deferfree);
     }
 }
@@ -2139,7 +2143,7 @@ void pogocache_entry_release(struct pogocache *cache,
     struct pogocache_entry *entry)
 {
     if (entry) {
-        entry_free((struct entry*)entry, &cache->ctx);
+        entry_free((struct entry*)entry, &rootcache(cache)->ctx);
     }
 }
 
@@ -2150,7 +2154,8 @@ const void *pogocache_entry_key(struct pogocache *cache,
     const void *key = 0;
     size_t keylen0 = 0;
     if (entry) {
-        key = entry_key((struct entry*)entry, &keylen0, buf, &cache->ctx);
+        key = entry_key((struct entry*)entry, &keylen0, buf,
+            &rootcache(cache)->ctx);
     }
     if (keylen) {
         *keylen = keylen0;
@@ -2164,7 +2169,8 @@ const void *pogocache_entry_value(struct pogocache *cache,
     const void *value = 0;
     size_t valuelen0 = 0;
     if (entry) {
-        value = entry_value((struct entry*)entry, &valuelen0, &cache->ctx);
+        value = entry_value((struct entry*)entry, &valuelen0,
+            &rootcache(cache)->ctx);
     }
     if (valuelen) {
         *valuelen = valuelen0;
-- 
2.43.0


From f7d1bd8477e4f72448a5460cb5d8c8646c344cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 08/56] fix: a partly initialised cache must be releasable

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 46a297c..44730a8 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1225,7 +1225,7 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     if (!cache) {
         return 0;
     }
-    memset(cache, 0, sizeof(struct pogocache));
+    memset(cache, 0, size);
     struct pgctx *ctx = &cache->ctx;
     opts_to_ctx(shards, opts, ctx);
     ctx->malloc = _malloc;
-- 
2.43.0


From 66a24b66df01bb90a30423a01c872a5959ca57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 09/56] fix: an empty or space-prefixed text is not an integer

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 9e01e39..142c646 100644
--- a/src/util.c
+++ b/src/util.c
@@ -310,7 +310,7 @@ uint32_t fnv1a_case(const char* buf, size_t len) {
 
 bool parse_i64(const char *data, size_t len, int64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
@@ -323,7 +323,7 @@ bool parse_i64(const char *data, size_t len, int64_t *x) {
 
 bool parse_u64(const char *data, size_t len, uint64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
-- 
2.43.0


From 3427d0230bf3cdcdf2f93cf5a9884b438bd6dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 10/56] fix: RESP lengths are read within the packet and must
 have digits

---
 src/resp.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/resp.c b/src/resp.c
index e9ad484..2caa626 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -136,10 +136,9 @@ fail_argsz:
 static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
     bool *ok)
 {
-    errno = 0;
-    char *end;
-    int64_t x = strtoll(data, &end, 10);
-    *ok = errno == 0 && (size_t)(end-data) == len && x >= min && x <= max;
+    // The data is not necessarily followed by a terminator, use bounded parsing.
+    int64_t x = 0;
+    *ok = parse_i64(data, len, &x) && x >= min && x <= max;
     return x;
 }
 
-- 
2.43.0


From 91d9db0d93870ec1621a2a5b63e9b5cbb68f5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 11/56] fix: a memcache noreply command must not be replied to

---
 src/conn.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 4e15a82..fe5755c 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -76,6 +76,16 @@ void evclosed(struct net_conn *conn5, void *udata) {
     xfree(conn);
 }
 
+// Drop the reply that was written since the mark when the memcache client
+// has asked for 'noreply'.
+static void drop_noreply(struct conn *conn, size_t mark) {
+    if (conn->proto == PROTO_MEMCACHE && conn->noreply &&
+        net_conn_out_len(conn->conn5) > mark)
+    {
+        net_conn_out_setlen(conn->conn5, mark);
+    }
+}
+
 // network data handler
 // The evlen may be zero when returning from a bgwork routine, while having
 // existing data in the connection packet.
@@ -155,7 +165,9 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         } else if (conn->proto != PROTO_POSTGRES || 
             pg_precommand(conn, &conn->args, conn->pg))
         {
+            size_t mark = net_conn_out_len(conn5);
             evcommand(conn, &conn->args);
+            drop_noreply(conn, mark);
         }
         len -= n;
         data += n;
@@ -203,9 +215,10 @@ static void work5(void *udata) {
 }
 
 static void done5(struct net_conn *conn, void *udata) {
-    (void)conn;
     struct bgworkctx *ctx = udata;
+    size_t mark = net_conn_out_len(conn);
     ctx->done(ctx->conn, ctx->udata);
+    drop_noreply(ctx->conn, mark);
     xfree(ctx);
 }
 
-- 
2.43.0


From 74210b2925aa6cca17ce39d4d13de88e3876f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 12/56] fix: a reply line never contains control characters of
 the request

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index fe5755c..dbf1803 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -251,7 +251,7 @@ static void writeln(struct conn *conn, char ch, const void *data, ssize_t len) {
     net_conn_out_write_byte_nocheck(conn->conn5, '\r');
     net_conn_out_write_byte_nocheck(conn->conn5, '\n');
     uint8_t *out = (uint8_t*)net_conn_out(conn->conn5);
-    for (ssize_t i = mark; i < len; i++) {
+    for (size_t i = mark; i < mark+len; i++) {
         if (out[i] < ' ') {
             out[i] = ' ';
         }
-- 
2.43.0


From 53ab367bb9582b6ee1ed856a573518d55a41e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 13/56] fix: an incomplete first line is not a protocol error

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7b928c3..71fa857 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -56,6 +56,11 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
             break;
         }
     }
+    if (n == 0) {
+        // The first line is not complete. Wait for more data.
+        *proto = 0;
+        return true;
+    }
     // Look for " HTTP/*.*\r\n" suffix
     if (n >= 11 && memcmp(data+n-11, " HTTP/", 5) == 0 && 
         data[n-4] == '.' && data[n-2] == '\r')
-- 
2.43.0


From b3029fc5b1db15e8ead4de761208554b87480e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 14/56] fix: memcache commands with missing arguments are
 refused

---
 src/memcache.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/memcache.c b/src/memcache.c
index 7fd2333..f0dab0c 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -206,7 +206,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     if (is_mc_store_cmd(cmd)) {
         // Store commands include 'set', 'add', 'replace', 'append', 'prepend',
         // and 'cas'.
-        if ((cmd == MC_CAS && args->len != 6) && 
+        if ((cmd == MC_CAS && args->len != 6) || 
             (cmd != MC_CAS && args->len != 5))
         {
             parse_seterror("ERROR");
@@ -461,11 +461,11 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         args_append(&args2, "version", 7, true);
         *noreply = false;
     } else if (cmd == MC_VERBOSITY) {
-        if (args->len > 2) {
+        if (args->len != 2) {
             parse_seterror("ERROR");
             return -1;
         }
-        args_append(&args2, "verbosity", 7, true);
+        args_append(&args2, "verbosity", 9, true);
         take_and_append_arg(1);
     } else {
         return -1;
-- 
2.43.0


From 666bdd79581cc1e6e46e5090a9e4b7e34788dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 15/56] fix: a HTTP request without headers is complete

---
 src/http.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http.c b/src/http.c
index 7b786af..af53ded 100644
--- a/src/http.c
+++ b/src/http.c
@@ -110,6 +110,11 @@ ssize_t parse_http(const char *data, size_t len, struct args *args,
     }
     goto badreq;
 readhdrs:
+    // A blank line right after the request line means there are no headers.
+    if (e-p >= 2 && p[0] == '\r' && p[1] == '\n') {
+        p += 2;
+        goto readbody;
+    }
     // Parse the headers, pulling the pairs along the way.
     while (p < e) {
         hdrname = p;
-- 
2.43.0


From e12f2f5354b2030873528a68fda07fcf582db905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 16/56] fix: a HTTP request that is split inside its last line
 ending is not an error

---
 src/http.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index af53ded..da57530 100644
--- a/src/http.c
+++ b/src/http.c
@@ -165,7 +165,11 @@ readhdrs:
                         p++;
                         if (p < e && *p == '\r') {
                             p++;
-                            if (p < e && *p == '\n') {
+                            if (p == e) {
+                                // The line ending is not complete yet.
+                                return 0;
+                            }
+                            if (*p == '\n') {
                                 p++;
                             } else {
                                 goto badreq;
-- 
2.43.0


From 52da5d0ca8d6f721eb9e00a33f708533d1ac80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 17/56] fix: a HTTP query flag followed by an ampersand is
 recognized

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index da57530..3d37020 100644
--- a/src/http.c
+++ b/src/http.c
@@ -262,7 +262,7 @@ readbody:
             } else if (query[i] == '&' || i == querylen-1) {
                 qval = 0;
                 qvallen = 0;
-                if (i == querylen-1) {
+                if (query[i] != '&') {
                     i++;
                 }
                 k = i;
-- 
2.43.0


From 082d1694cc25aca97546397782b3becdfa918b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 18/56] fix: HTTP method errors are reported as such

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 3d37020..44b1f19 100644
--- a/src/http.c
+++ b/src/http.c
@@ -327,7 +327,7 @@ readbody:
         args_append(args, uri, urilen, true);
     } else {
         parse_seterror("Method Not Allowed");
-        goto badreq;
+        return -1;
     }
 
     // Check authorization
-- 
2.43.0


From 93e9010442fcbecc624a82d2e91bd97503366e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 19/56] fix: monitor writes only the escaped byte

---
 src/monitor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monitor.c b/src/monitor.c
index b80cefd..d2705e7 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -86,7 +86,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
                 if (ch < 32 || ch >= 127) {
                     char hex[8];
                     snprintf(hex, 8, "\\x%02X", ch);
-                    buf_append(&buf, hex, 8);
+                    buf_append(&buf, hex, 4);
                 } else {
                     buf_append_byte(&buf, ch);
                 }
-- 
2.43.0


From c8fdb9a3073b15626e3d1b904ce1cb4b20506ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 20/56] fix: removing the first argument leaves no second owner
 of the last one

---
 src/args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args.c b/src/args.c
index c3c2060..95238a1 100644
--- a/src/args.c
+++ b/src/args.c
@@ -105,5 +105,6 @@ void args_remove_first(struct args *args) {
             args->bufs[i-1] = args->bufs[i];
         }
         args->len--;
+        memset(&args->bufs[args->len], 0, sizeof(struct buf));
     }
 }
-- 
2.43.0


From d42ac62d10c2e744f7b9988776d1c3ac9165d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 21/56] fix: a Postgres message length that is too small is
 refused

---
 src/postgres.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index c24de1c..f337022 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1069,7 +1069,12 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
         return 0;
     }
     int msgbyte = data[0];
-    size_t msglen = read_i32(data+1);
+    int32_t msgsize = read_i32(data+1);
+    if (msgsize < 4) {
+        parse_errorf("invalid message");
+        return -1;
+    }
+    size_t msglen = msgsize;
     if (len < msglen+1) {
         return 0;
     }
-- 
2.43.0


From d38b524b7ba7f6edd75cd513e5b47f4a2944b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 22/56] fix: a Postgres string with doubled quotes keeps its
 contents

---
 src/postgres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index f337022..9294e33 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -150,7 +150,7 @@ static void arg_append_unescape_simplestr(struct args *args, const char *str,
 {
     size_t str2len = 0;
     char *str2 = xmalloc(slen+1);
-    for (size_t i = 0; i < str2len; i++) {
+    for (size_t i = 0; i < slen; i++) {
         if (str[i] == '\'' && str[i+1] == '\'') {
             i++;
         }
-- 
2.43.0


From b2696043305ff75999920d5b0a083ed84b55b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 23/56] fix: Postgres escape strings keep quotes and all code
 points

---
 src/postgres.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index 9294e33..d201a62 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -337,12 +337,12 @@ static uint32_t decode_hex(const uint8_t *str) {
 }
 
 static bool is_surrogate(uint32_t cp) {
-    return cp > 55296 && cp < 57344;
+    return cp >= 55296 && cp < 57344;
 }
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
-    return cp1 > 55296  && cp1 < 56320 && cp2 > 56320 && cp2 < 57344 ?
-        ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
+    return cp1 >= 55296 && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
+        ((cp1 - 55296) << 10) + (cp2 - 56320) + 65536 :
         65533;
 }
 
@@ -395,6 +395,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
         case 'r' : ch = '\r'; break; \
         case 't' : ch = '\t'; break; \
         case '"' : ch = '"';  break; \
+        case '\'': ch = '\''; break; \
         case 'u' : \
             if (ii+5 > nn) { nn = 0; continue; }; \
             uint32_t cp = decode_hex((jstr)+ii+1); \
-- 
2.43.0


From a16670efb92aaa13ec91f4f4749562cbfe4677bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 24/56] fix: a Postgres parameter can be used more than once in
 a statement

---
 src/postgres.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index d201a62..7bc2709 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -481,8 +481,13 @@ static void pmap_grow(struct pmap *map) {
     map->nbuckets = nbuckets2;
 }
 
+static bool pmap_exists(struct pmap *map, uint16_t param);
+
 static void pmap_insert(struct pmap *map, uint16_t param) {
     assert(param != 0);
+    if (pmap_exists(map, param)) {
+        return;
+    }
     if (map->count == (map->nbuckets>>1)+(map->nbuckets>>2)) {
         pmap_grow(map);
     }
-- 
2.43.0


From 2ab43a427503ab3132c7295aa28716bf1674a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 25/56] fix: a repeated Postgres startup message does not leak

---
 src/postgres.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 7bc2709..e0460d3 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1170,6 +1170,9 @@ static ssize_t parse_magic_proto3(const char *data, size_t len, struct pg *pg) {
             client_encoding);
         return -1;
     }
+    xfree(pg->user);
+    xfree(pg->database);
+    xfree(pg->application_name);
     pg->user = xmalloc(strlen(user)+1);
     strcpy((char*)pg->user, user);
     pg->database = xmalloc(strlen(database)+1);
-- 
2.43.0


From cc2958ca6ffe78de263cc7e0d6f6401f73d9b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 26/56] fix: Postgres does not ask for the password again once
 logged in

---
 src/postgres.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/postgres.c b/src/postgres.c
index e0460d3..8de3b49 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1485,6 +1485,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
         conn_setauth(conn, true);
         write_auth_ok(conn, pg);
         pg->auth = 0;
+        pg->startup = 0;
         return true;
     }
     if (pg->startup == 1) {
-- 
2.43.0


From 39ce93d4e6a0901ee846bf415e632c4978dd7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 27/56] fix: memcache store conditions are answered as in the
 memcache protocol

---
 src/cmds.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8d83c2c..da2c198 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -122,10 +122,12 @@ static void execSET(struct conn *conn, const char *cmdname,
     switch (conn_proto(conn)) {
     case PROTO_MEMCACHE:
         if (!stored) {
-            if (status == POGOCACHE_FOUND) {
+            if (!withcas) {
+                conn_write_raw(conn, "NOT_STORED\r\n", 12);
+            } else if (status == POGOCACHE_FOUND) {
                 conn_write_raw(conn, "EXISTS\r\n", 8);
             } else {
-                conn_write_raw(conn, "NOT_FOUND\r\n", 12);
+                conn_write_raw(conn, "NOT_FOUND\r\n", 11);
             }
         } else {
             conn_write_raw(conn, "STORED\r\n", 8);
-- 
2.43.0


From 370920b2445ce2dd0d88828597d31c65e27dae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 28/56] fix: memcache decr stops at zero

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index da2c198..6640aac 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1705,6 +1705,10 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
     if (overflow && conn_proto(conn) != PROTO_MEMCACHE) {
         goto fail_overflow;
     }
+    if (overflow && decr) {
+        // memcache does not go below zero
+        ctx.uval = 0;
+    }
     // re-set the value
     char val[24];
     size_t vallen;
-- 
2.43.0


From 73ad6cfe25384dcd611be4406f3bdee74364af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 29/56] fix: EXAT and PXAT are Unix times

---
 src/cmds.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 6640aac..98a600c 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -169,6 +169,12 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
     return int64_add_clamp(now, expiry);
 }
 
+// Convert an absolute Unix time to the internal clock.
+static int64_t expiry_unix_time(int64_t now, int64_t unixtime) {
+    int64_t expires = int64_add_clamp(now, unixtime-sys_unixnow());
+    return expires > 0 ? expires : 1;
+}
+
 // SET key value [NX | XX] [GET] [EX seconds | PX milliseconds |
 //   EXAT unix-time-seconds | PXAT unix-time-milliseconds | KEEPTTL] 
 //   [FLAGS flags] [CAS cas] 
@@ -247,9 +253,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 break;
             case 3:
                 expires = int64_mul_clamp(expires, SECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             case 4:
                 expires = int64_mul_clamp(expires, MILLISECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             }
         skip_exkind:
-- 
2.43.0


From 05cafefeb8e15f4d15a6d49fb21fe5e3d37faa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 30/56] fix: EXPIRE in the far past expires, memcache touch
 times as in the protocol

---
 src/cmds.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 98a600c..08ca936 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1038,8 +1038,16 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         conn_write_error(conn, ERR_INVALID_INTEGER);
         return;
     }
-    expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
-    expires = int64_add_clamp(now, expires);
+    if (expires == 0 && conn_proto(conn) == PROTO_MEMCACHE) {
+        // memcache uses zero for an item that never expires
+    } else {
+        expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
+        expires = expiry_seconds_time(conn, now, expires);
+        if (expires <= 0) {
+            // already expired, where zero would be no expiration at all.
+            expires = 1;
+        }
+    }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
         .time = now,
-- 
2.43.0


From fae1aeebd08a4a2dff2c42b530dfec43ba7186e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 31/56] fix: command lookup stays within the command table

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 08ca936..8f90e58 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -2394,7 +2394,7 @@ static struct cmd *get_cmd(const char *name, size_t namelen) {
         if (argeq_bytes(name, namelen, buckets[j].name)) {
             return &buckets[j];
         }
-        j++;
+        j = (j+1)&(nbuckets-1);
     }
 }
 
-- 
2.43.0


From f56901ddc7b101280dff167f5e78ed78d22d5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 32/56] fix: DEBUG POPULATE refuses an empty expiry range and
 oversized values

---
 src/cmds.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8f90e58..dcec0ee 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1367,7 +1367,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
     size_t prefixlen = args->bufs[2].len;
     char *prefix = args->bufs[2].data;
     int64_t vallen;
-    if (!argi64(args, 3, &vallen) || vallen < 0) {
+    if (!argi64(args, 3, &vallen) || vallen < 0 || vallen > MAXARGSZ) {
         conn_write_error(conn, ERR_SYNTAX_ERROR);
         return;
     }
@@ -1386,6 +1386,10 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
             randex = true;
         }
         xfree(ex);
+        if (randex && (randmin < 0 || randmax <= randmin)) {
+            conn_write_error(conn, ERR_SYNTAX_ERROR);
+            return;
+        }
     }
 
     char *val = xmalloc(vallen);
-- 
2.43.0


From 7e3da0df437b0e5de7b2d1b5acd98fd6bbcbaa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 33/56] fix: pthread_create reports failure with a positive
 error number

---
 src/cmds.c | 12 ++++++------
 src/net.c  |  2 +-
 src/save.c |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index dcec0ee..02c3fc9 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -717,7 +717,7 @@ static void flushfast(void) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thflush, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thflush, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -830,7 +830,7 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1147,7 +1147,7 @@ static void sweepfast(size_t *swept, size_t *kept) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thsweep, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thsweep, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -1234,7 +1234,7 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1297,7 +1297,7 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret == -1) {
+        if (ret != 0) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
@@ -1417,7 +1417,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
         ctx->randex = randex;
         ctx->randmin = randmin;
         ctx->randmax = randmax;
-        if (pthread_create(&ctx->th, 0, populate_entry, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, populate_entry, ctx) != 0) {
             ctx->th = 0;
         }
         start += group;
diff --git a/src/net.c b/src/net.c
index e822fbf..d0e6fef 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1284,7 +1284,7 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     conn->bgctx->work = work;
     conn->bgctx->udata = udata;
     pthread_t th;
-    if (pthread_create(&th, 0, bgwork, conn->bgctx) == -1) {
+    if (pthread_create(&th, 0, bgwork, conn->bgctx) != 0) {
         // Failed to create thread. Revert and return false.
         ret = addread(ctx->qfd, conn->fd);
         assert(ret == 0);
diff --git a/src/save.c b/src/save.c
index 39fbe9b..c3b0d40 100644
--- a/src/save.c
+++ b/src/save.c
@@ -183,7 +183,7 @@ int save(const char *path, bool fast) {
             ctx->count = nshards-ctx->start;
         }
         if (nprocs > 1) {
-            if (pthread_create(&ctx->th, 0, thsave, ctx) == -1) {
+            if (pthread_create(&ctx->th, 0, thsave, ctx) != 0) {
                 ctx->th = 0;
             }
         }
@@ -444,7 +444,7 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         ctx->failure = &failure;
         ctx->blocks = blocks;
         atomic_init(&ctx->ok, true);
-        if (pthread_create(&ctx->th, 0, thload, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thload, ctx) != 0) {
             ctx->th = 0;
             ok = false;
             if (therrnum == 0) {
-- 
2.43.0


From c70fcd556d228618a9532afe87acce855c084cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 34/56] fix: an escaped question mark in a pattern is literal

---
 src/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 142c646..abbd992 100644
--- a/src/util.c
+++ b/src/util.c
@@ -406,9 +406,11 @@ bool match(const char *pat, size_t plen, const char *str, size_t slen,
     int depth)
 {
     while (plen > 0) {
+        bool esc = false;
         if (pat[0] == '\\') {
             if (plen == 1) return false;
             pat++; plen--; 
+            esc = true;
         } else if (pat[0] == '*') {
             if (plen == 1) return true;
             if (pat[1] == '*') {
@@ -424,7 +426,7 @@ bool match(const char *pat, size_t plen, const char *str, size_t slen,
             continue;
         }
         if (slen == 0) return false;
-        if (pat[0] != '?' && str[0] != pat[0]) return false;
+        if ((pat[0] != '?' || esc) && str[0] != pat[0]) return false;
         pat++; plen--;
         str++; slen--;
     }
-- 
2.43.0


From 8527c68a45332ee4e2530f0f6828ab751b046463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 35/56] fix: an entry that expires right when it is loaded does
 not become persistent

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index c3b0d40..62a59ba 100644
--- a/src/save.c
+++ b/src/save.c
@@ -344,7 +344,7 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         p += n;
         if (ttl > 0) {
             int64_t unixexpires = int64_add_clamp(unixtime, ttl);
-            if (unixexpires < unixnow) {
+            if (unixexpires <= unixnow) {
                 // already expired, skip this entry
                 ctx->nexpired++;
                 continue;
-- 
2.43.0


From 921700c76412cacab8606c15e3d50ae600ad9bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 36/56] fix: load reports an entry that cannot be stored

---
 src/save.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 62a59ba..516ae5b 100644
--- a/src/save.c
+++ b/src/save.c
@@ -359,7 +359,10 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         };
         // printf("[%.*s]=[%.*s]\n", (int)keylen, key, (int)vallen, val);
         int ret = pogocache_store(cache, key, keylen, val, vallen, &opts);
-        (void)ret;
+        if (ret == POGOCACHE_NOMEM) {
+            printf(". out of memory\n");
+            goto done;
+        }
         assert(ret == POGOCACHE_INSERTED || ret == POGOCACHE_REPLACED);
         ctx->ninserted++;
     }
-- 
2.43.0


From dec9c57f64f8d3d03bbe31006b31d271f29d4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 37/56] fix: save that cannot open its work file does not leak

---
 src/save.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save.c b/src/save.c
index 516ae5b..588c5f0 100644
--- a/src/save.c
+++ b/src/save.c
@@ -157,6 +157,7 @@ int save(const char *path, bool fast) {
     }
     int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
+        xfree(workpath);
         return -1;
     }
     int nshards = pogocache_nshards(cache);
-- 
2.43.0


From b7dfccb7ba6e3063d78d7a92c39cccc8254716bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 38/56] fix: save fails when a block cannot be compressed

---
 src/save.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save.c b/src/save.c
index 588c5f0..e249be4 100644
--- a/src/save.c
+++ b/src/save.c
@@ -62,6 +62,10 @@ static int flush(struct savectx *ctx) {
     // Compress the block
     uint32_t len = LZ4_compress_default((char*)ctx->buf.data, 
         (char*)ctx->dst.data+16, ctx->buf.len, bounds);
+    if (len == 0) {
+        // The block is too large to be compressed.
+        return -1;
+    }
     // The block is now compressed.
     // Genreate a checksum of the compressed data.
     uint32_t crc = crc32(ctx->dst.data+16, len);
-- 
2.43.0


From 5cde7f080f0213a245927de197a57e71d5c25f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 39/56] fix: SET with NX and GET returns the existing value

---
 src/cmds.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 02c3fc9..838b013 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -58,6 +58,7 @@ struct set_entry_context {
     bool written;
     struct conn *conn;
     const char *cmdname;
+    bool nx;
 };
 
 static bool set_entry(int shard, int64_t time, const void *key,
@@ -77,7 +78,7 @@ static bool set_entry(int shard, int64_t time, const void *key,
         conn_write_bulk(ctx->conn, val, vallen);
     }
     ctx->written = true;
-    return true;
+    return !ctx->nx;
 }
 
 static void execSET(struct conn *conn, const char *cmdname, 
@@ -86,7 +87,8 @@ static void execSET(struct conn *conn, const char *cmdname,
     bool xx, bool get, bool keepttl, uint32_t flags, uint64_t cas, bool withcas)
 {
     stat_cmd_set_incr(conn);
-    struct set_entry_context ctx = { .conn = conn, .cmdname = cmdname };
+    struct set_entry_context ctx = { .conn = conn, .cmdname = cmdname, 
+        .nx = nx && !withcas };
     struct pogocache_store_opts opts = {
         .time = now,
         .expires = expires,
@@ -94,7 +96,7 @@ static void execSET(struct conn *conn, const char *cmdname,
         .flags = flags,
         .keepttl = keepttl,
         .casop = withcas,
-        .nx = nx,
+        .nx = nx && (!get || withcas), // otherwise set_entry keeps the old entry
         .xx = xx,
         .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         .entry = get?set_entry:0,
-- 
2.43.0


From 100ca3bf65f3523176c75732dcd3c90cfa9fd840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 40/56] fix: the evict=no option disables eviction

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index b3dbbbf..e4889db 100644
--- a/src/main.c
+++ b/src/main.c
@@ -752,6 +752,7 @@ int main(int argc, char *argv[]) {
         .malloc = xmalloc,
         .free = xfree,
         .nshards = nshards,
+        .noevict = !useevict,
         .loadfactor = loadfactor,
         .usecas = usecasflag,
         .allowshrink = true,
-- 
2.43.0


From da9c0c2d26df7c45647a325437db4f674f98425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 41/56] fix: memcache line with a carriage return before its
 last space

---
 src/memcache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memcache.c b/src/memcache.c
index f0dab0c..aa82363 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -74,6 +74,7 @@ static ssize_t parse_memcache_telnet(const char *data, size_t len,
             // if (wn > 0) {
             args_append(args, s, wn, true);
             s = p;
+            last = ch;
             continue;
         }
         if (ch == '\n') {
-- 
2.43.0


From 3a78fc17f2e07939f3a79569f3da2d79513aef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 42/56] fix: memcache exptime of zero written with several
 digits never expires

---
 src/cmds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 838b013..8e9f965 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -236,8 +236,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
             }
             if (expires <= 0) {
                 if (conn_proto(conn) == PROTO_MEMCACHE) {
-                    // memcache allows for negative expiration
-                    expires = expiry_seconds_time(conn, now, 0);
+                    // memcache allows for negative expiration, and uses zero
+                    // (however it is written) for an item that never expires
+                    if (expires < 0) {
+                        expires = expiry_seconds_time(conn, now, 0);
+                    }
                     goto skip_exkind;
                 } else {
                     conn_write_error(conn, "ERR invalid expire time");
-- 
2.43.0


From 15b80f4ee5c6f040984b8e176ba2b126381bb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 43/56] fix: doubled quotes inside a Postgres escape string

---
 src/postgres.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 8de3b49..85371f8 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -381,6 +381,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
     for (size_t ii = 0; ii < nn; ii++) { \
         if ((jstr)[ii] != '\\') { \
             ch = (jstr)[ii]; \
+            if (ch == '\'') ii++; /* a bare quote is always doubled */ \
             if (1) f \
             continue; \
         }; \
@@ -599,7 +600,12 @@ static bool parse_query_args(const char *query, struct args *args,
                             x++;
                         }
                         if ((x%2)==0) {
-                            break;
+                            if (*(p+1) != '\'') {
+                                break;
+                            }
+                            // doubled quote
+                            esc = true;
+                            p++;
                         }
                     }
                     p++;
-- 
2.43.0


From 6af11ce1cc72ba3a4f0cf483beb68cced39e43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 44/56] fix: SWEEP accepts ASYNC and FAST together

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8e9f965..a9474bc 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1217,7 +1217,7 @@ static void *thsweep0(void *arg) {
 
 // SWEEP [ASYNC] [FAST]
 static void cmdSWEEP(struct conn *conn, struct args *args) {
-    if (args->len > 2) {
+    if (args->len > 3) {
         conn_write_error(conn, ERR_WRONG_NUM_ARGS);
         return;
     }
-- 
2.43.0


From d84c8cf1f18e7ce55ba1a8d0fdf2c5ef1b60f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:56 +0000
Subject: [PATCH 45/56] fix: a save starts from an empty work file

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index e249be4..f29ad60 100644
--- a/src/save.c
+++ b/src/save.c
@@ -159,7 +159,7 @@ int save(const char *path, bool fast) {
     if (verb >= 2) {
         printf(". Saving to work file %s\n", workpath);
     }
-    int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
+    int fd = open(workpath, O_RDWR|O_CREAT|O_TRUNC, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
         xfree(workpath);
         return -1;
-- 
2.43.0


From 9168bcaf7ad0d19a07d906bba09f1ed836c184cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:56 +0000
Subject: [PATCH 46/56] fix: saving a shard of four gigabytes or more lost its
 entries

---
 src/save.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/save.c b/src/save.c
index f29ad60..7d2682f 100644
--- a/src/save.c
+++ b/src/save.c
@@ -57,6 +57,11 @@ static int flush(struct savectx *ctx) {
     }
     // Make sure that there's enough space in the dst buffer to store the
     // header (16 bytes) and the compressed data.
+    if (ctx->buf.len > LZ4_MAX_INPUT_SIZE) {
+        // The block is too large to be compressed.
+        errno = EFBIG;
+        return -1;
+    }
     size_t bounds = LZ4_compressBound(ctx->buf.len);
     buf_ensure(&ctx->dst, 16+bounds);
     // Compress the block
-- 
2.43.0


From 3f3f72042997d399921d095a7b9a8ad68d073c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 47/56] fix: --autosweep no was decided by the cas option

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index e4889db..24fea87 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,7 +644,7 @@ int main(int argc, char *argv[]) {
 
     if (strcmp(autosweep, "yes") == 0) {
         useautosweep = true;
-    } else if (strcmp(usecas, "no") == 0) {
+    } else if (strcmp(autosweep, "no") == 0) {
         useautosweep = false;
     } else {
         INVALID_FLAG("autosweep", autosweep);
-- 
2.43.0


From 333cad27d424f0ff6931cca4423aab45db39f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 48/56] fix: --sixpack no had no effect

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 24fea87..6b59a20 100644
--- a/src/main.c
+++ b/src/main.c
@@ -755,6 +755,7 @@ int main(int argc, char *argv[]) {
         .noevict = !useevict,
         .loadfactor = loadfactor,
         .usecas = usecasflag,
+        .nosixpack = !usesixpack,
         .allowshrink = true,
         .usethreadbatch = true,
     };
-- 
2.43.0


From a3c585b99297d5f2052f92d0db63369613034ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 49/56] fix: the connection table grew with the number of past
 connections

---
 src/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.c b/src/net.c
index d0e6fef..506b4f9 100644
--- a/src/net.c
+++ b/src/net.c
@@ -427,6 +427,7 @@ static void cmap_delete(struct cmap *cmap, struct net_conn *conn) {
     } else {
         cmap->buckets[i] = iter->next;
     }
+    cmap->len--;
 }
 
 static atomic_size_t nconns = 0;
-- 
2.43.0


From 7be0d91a9b74587ca0f6959587c8352b1212a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 50/56] fix: a rejected TLS connection left its descriptor
 marked as TLS

---
 src/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net.c b/src/net.c
index 506b4f9..cce96a8 100644
--- a/src/net.c
+++ b/src/net.c
@@ -617,6 +617,7 @@ static void qaccept(struct qthreadctx *ctx) {
                 }
                 continue;
             }
+            bool istls = del_tls_fd(fd);
             size_t xnconns = atomic_fetch_add(&nconns, 1);
             if (xnconns >= (size_t)ctx->maxconns) {
                 // rejected
@@ -625,7 +626,6 @@ static void qaccept(struct qthreadctx *ctx) {
                 close(fd);
                 continue;
             }
-            bool istls = del_tls_fd(fd);
             conn = conn_new(fd, ctx);
             if (istls) {
                 if (!tls_accept(conn->fd, &conn->tls)) {
-- 
2.43.0


From 451053a77b47fe4cac7ab024718c4b4b3e32f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 51/56] fix: the last byte of a full TLS record was not read

---
 src/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net.c b/src/net.c
index cce96a8..a7f3f10 100644
--- a/src/net.c
+++ b/src/net.c
@@ -50,7 +50,7 @@
 #include "tls.h"
 #include "xmalloc.h"
 
-#define PACKETSIZE 16384
+#define PACKETSIZE (16384+1) // a whole tls record and a null terminator
 #define MINURINGEVENTS 2 // there must be at least 2 events for uring use
 
 extern const int verb;
-- 
2.43.0


From cc7379c10edfd01efe6034d1829fabad9228b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 52/56] fix: the quickack option set the socket priority
 instead

---
 src/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net.c b/src/net.c
index a7f3f10..6db5bd0 100644
--- a/src/net.c
+++ b/src/net.c
@@ -76,7 +76,7 @@ static int settcpnodelay(int fd, bool nodelay) {
 static int setquickack(int fd, bool quickack) {
 #if defined(__linux__)
     int val = quickack;
-    return setsockopt(fd, SOL_SOCKET, TCP_QUICKACK, &val, sizeof(val));
+    return setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &val, sizeof(val));
 #else
     (void)fd, (void)quickack;
     return 0;
-- 
2.43.0


From 7552f492b29e905427c127a3506947a4fa15d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 53/56] fix: a host without an IPv4 address crashed the server
 at start

---
 src/net.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net.c b/src/net.c
index 6db5bd0..4eb30c1 100644
--- a/src/net.c
+++ b/src/net.c
@@ -957,10 +957,13 @@ static int listen_tcp(const char *host, const char *port, bool reuseport,
         exit(1);
     }
     struct addrinfo *ainfo = addrs;
-    while (ainfo->ai_family != PF_INET) {
+    while (ainfo && ainfo->ai_family != PF_INET) {
         ainfo = ainfo->ai_next;
     }
-    assert(ainfo);
+    if (!ainfo) {
+        fprintf(stderr, "# no ipv4 address: %s:%s\n", host, port);
+        exit(1);
+    }
     int fd = socket(ainfo->ai_family, ainfo->ai_socktype, ainfo->ai_protocol);
     if (fd == -1) {
         perror("# socket(tcp)");
-- 
2.43.0


From a78a3a57523f51554af404f78a331546dd7b1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 54/56] fix: a unix socket path that is too long was cut off
 silently

---
 src/net.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.c b/src/net.c
index 4eb30c1..b1a6761 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1008,6 +1008,10 @@ static int listen_unixsock(const char *unixsock, int backlog) {
         return 0;
     }
     struct sockaddr_un unaddr;
+    if (strlen(unixsock) >= sizeof(unaddr.sun_path)) {
+        fprintf(stderr, "# unix socket path too long: %s\n", unixsock);
+        exit(1);
+    }
     int fd = socket(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         perror("# socket(unix)");
-- 
2.43.0


From 146d3ff555d79c71dabdccd8328d39def255d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 55/56] fix: a thread that could not be started was not noticed

---
 src/main.c | 9 ++++++---
 src/net.c  | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6b59a20..a322b71 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,8 @@ static void *autosweepticker(void *arg) {
 static void start_sigtermticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, sigtermticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
+        errno = ret;
         perror("# pthread_create(sigtermticker)");
         exit(1);
     }
@@ -403,7 +404,8 @@ static void start_sigtermticker(void) {
 static void start_memticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, memticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
+        errno = ret;
         perror("# pthread_create(memticker)");
         exit(1);
     }
@@ -412,7 +414,8 @@ static void start_memticker(void) {
 static void start_autosweepticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, autosweepticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
+        errno = ret;
         perror("# pthread_create(autosweepticker)");
         exit(1);
     }
diff --git a/src/net.c b/src/net.c
index b1a6761..7d0be85 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1231,7 +1231,7 @@ void net_main(struct net_opts *opts) {
     if (!opts->nowarmup) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thwarmup, opts);
-        if (ret != -1) {
+        if (ret == 0) {
             pthread_detach(th);
         }
     }
@@ -1241,7 +1241,8 @@ void net_main(struct net_opts *opts) {
             qthread(ctx);
         } else {
             int ret = pthread_create(&ctx->th, 0, qthread, ctx);
-            if (ret == -1) {
+            if (ret != 0) {
+                errno = ret;
                 perror("# pthread_create");
                 abort();
             }
-- 
2.43.0


From c33ca07daec2dcc2346d23cf2c3ba0e45f6909cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 56/56] fix: a client that does not read its replies stalled
 its event thread

---
 src/net.c | 74 ++++++++++++++++++++++++++++++++++++++++++++++---------
 src/tls.c |  2 ++
 2 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/src/net.c b/src/net.c
index 7d0be85..09de795 100644
--- a/src/net.c
+++ b/src/net.c
@@ -248,6 +248,7 @@ struct net_conn {
     int fd;
     struct net_conn *next; // for hashmap bucket
     bool closed;
+    bool blocked; // waiting for the socket to become writable
     struct tls *tls;
     void *udata;
     char *out;
@@ -495,6 +496,7 @@ struct qthreadctx {
     struct net_conn **qins;
     struct net_conn **qattachs;
     struct net_conn **qouts;
+    struct net_conn **qresumes;
     struct net_conn **qcloses;
     char **qinpkts;
     int *qinpktlens;    
@@ -503,6 +505,7 @@ struct qthreadctx {
     int nqcloses;
     int nqattachs;
     int nqouts;
+    int nqresumes;
     int nthreads;
     
     uint64_t stat_cmd_get;
@@ -570,6 +573,7 @@ static void qreset(struct qthreadctx *ctx) {
     ctx->nqins = 0;
     ctx->nqcloses = 0;
     ctx->nqouts = 0;
+    ctx->nqresumes = 0;
     ctx->nqattachs = 0;
 }
 
@@ -647,7 +651,8 @@ static void qaccept(struct qthreadctx *ctx) {
             // needs to be attached and restated.
             ctx->qattachs[ctx->nqattachs++] = conn;
         } else if (conn->outlen > 0) {
-            ctx->qouts[ctx->nqouts++] = conn;
+            // The socket was full and is writable again.
+            ctx->qresumes[ctx->nqresumes++] = conn;
         } else if (conn->closed) {
             ctx->qcloses[ctx->nqcloses++] = conn;
         } else {
@@ -691,9 +696,15 @@ static void flush_conn(struct net_conn *conn, size_t written) {
             n = write(conn->fd, conn->out+written, conn->outlen-written);
         }
         if (n == -1) {
-            if (errno == EAGAIN) {
+            if (errno == EINTR) {
                 continue;
             }
+            if (errno == EAGAIN) {
+                // The socket is full. Keep what remains until it is writable.
+                conn->outlen -= written;
+                memmove(conn->out, conn->out+written, conn->outlen);
+                return;
+            }
             conn->closed = true;
             break;
         }
@@ -703,6 +714,40 @@ static void flush_conn(struct net_conn *conn, size_t written) {
     conn->outlen = 0;
 }
 
+// Called after a flush. While there is outgoing data that the socket does not
+// take, the connection waits for writability instead of for incoming data.
+static void wait_conn(struct net_conn *conn) {
+    bool blocked = conn->outlen > 0;
+    if (blocked == conn->blocked) {
+        return;
+    }
+    conn->blocked = blocked;
+    int ret;
+    if (blocked) {
+        ret = delread(conn->ctx->qfd, conn->fd);
+        assert(ret == 0);
+        ret = addwrite(conn->ctx->qfd, conn->fd);
+    } else {
+        ret = delwrite(conn->ctx->qfd, conn->fd);
+        assert(ret == 0);
+        ret = addread(conn->ctx->qfd, conn->fd);
+    }
+    assert(ret == 0); (void)ret;
+}
+
+static void resume_conn(struct net_conn *conn, struct qthreadctx *ctx) {
+    flush_conn(conn, 0);
+    wait_conn(conn);
+    if (conn->outlen > 0) {
+        return;
+    }
+    if (conn->closed) {
+        ctx->qcloses[ctx->nqcloses++] = conn;
+    } else {
+        ctx->qreads[ctx->nqreads++] = conn;
+    }
+}
+
 inline
 static void qattach(struct qthreadctx *ctx) {
     for (int i = 0; i < ctx->nqattachs; i++) {
@@ -719,12 +764,14 @@ static void qattach(struct qthreadctx *ctx) {
         assert(ret == 0); (void)ret;
         ret = addread(conn->ctx->qfd, conn->fd);
         assert(ret == 0); (void)ret;
-        flush_conn(conn, 0);
-        if (conn->closed) {
-            ctx->qcloses[ctx->nqcloses++] = conn;
-        } else {
-            ctx->qreads[ctx->nqreads++] = conn;
-        }
+        resume_conn(conn, ctx);
+    }
+}
+
+inline
+static void qresume(struct qthreadctx *ctx) {
+    for (int i = 0; i < ctx->nqresumes; i++) {
+        resume_conn(ctx->qresumes[i], ctx);
     }
 }
 
@@ -842,13 +889,13 @@ static void qwrite(struct qthreadctx *ctx) {
             }
             if (n < 0) {
                 conn->closed = true;
+                conn->outlen = 0;
             } else {
                 // Any extra data must be flushed using syscall write.
                 flush_conn(conn, n);
             }
-            // Either everything was written or the socket is closed
-            conn->outlen = 0;
-            if (conn->closed) {
+            wait_conn(conn);
+            if (conn->closed && conn->outlen == 0) {
                 ctx->qcloses[ctx->nqcloses++] = conn;
             }
             io_uring_cqe_seen(&ctx->ring, cqe);
@@ -859,7 +906,8 @@ static void qwrite(struct qthreadctx *ctx) {
         for (int i = 0; i < ctx->nqouts; i++) {
             struct net_conn *conn = ctx->qouts[i];
             flush_conn(conn, 0);
-            if (conn->closed) {
+            wait_conn(conn);
+            if (conn->closed && conn->outlen == 0) {
                 ctx->qcloses[ctx->nqcloses++] = conn;
             }
         }
@@ -912,6 +960,7 @@ static void *qthread(void *arg) {
     ctx->qinpktlens = xmalloc(sizeof(int)*ctx->queuesize);
     ctx->qcloses = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
     ctx->qouts = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
+    ctx->qresumes = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
     ctx->qattachs = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
 
     while (1) {
@@ -928,6 +977,7 @@ static void *qthread(void *arg) {
         qreset(ctx);    // reset the step queues
         qaccept(ctx);   // accept incoming connections
         qattach(ctx);   // attach bg workers. uncommon
+        qresume(ctx);   // resume blocked writers. uncommon
         qread(ctx);     // read from sockets
         qprocess(ctx);  // process new socket data
         qprewrite(ctx); // perform any prewrite operations, such as fsync
diff --git a/src/tls.c b/src/tls.c
index 31530b8..999f8d2 100644
--- a/src/tls.c
+++ b/src/tls.c
@@ -93,6 +93,8 @@ bool tls_accept(int fd, struct tls **tls_out) {
         return false;
     }
     SSL_set_fd(ssl, fd);
+    // An unfinished write is continued from a buffer that may have moved.
+    SSL_set_mode(ssl, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     SSL_set_verify(ssl, SSL_VERIFY_PEER, 0);
     int ret = SSL_accept(ssl);
     if (ret <= 0) {
-- 
2.43.0

