From 92fa70ecc820ddb65876206112ca30ea88840f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 01/91] fix: harbol_recalloc leaked a zero-sized block, freed
 it when shrinking to zero and overflowed on huge sizes

---
 harbol_common_includes.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..5ced77a 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,13 +174,17 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
+	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
+		return NULL;
 	}
+	/// `realloc` to zero bytes would free the block.
+	size_t const bytes = (new_size * element_size==0)? 1 : new_size * element_size;
 #ifdef __cplusplus
-	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
+	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, bytes));
 #else
-	uint8_t *const restrict new_block = realloc(arr, new_size * element_size);
+	uint8_t *const restrict new_block = realloc(arr, bytes);
 #endif
 	if( new_block==NULL ) {
 		return NULL;
-- 
2.43.0


From 4b34e1aa4b171de6bb152317b132912519b2bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 02/91] fix: array shifting overflowed when index + amount
 exceeded SIZE_MAX

---
 harbol_common_includes.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 5ced77a..82aa606 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -598,6 +598,9 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 	}
 	
 	amount += amount==0;
+	if( amount > *len - index ) {
+		amount = *len - index;
+	}
 	size_t const
 		i = index + amount,
 		j = index
@@ -626,6 +629,9 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 	
 	va_list ap; va_start(ap, n_buffers);
 	amount += amount==0;
+	if( amount > *len - index ) {
+		amount = *len - index;
+	}
 	size_t const
 		i = index + amount,
 		j = index
-- 
2.43.0


From 62b8d395357383d63ba30c70f993ab72b1d3d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 03/91] fix: shrinking an array below its length left the
 length beyond its capacity

---
 array/array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/array/array.c b/array/array.c
index e36bf8e..a44965f 100644
--- a/array/array.c
+++ b/array/array.c
@@ -9,6 +9,8 @@
 static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec, size_t const new_size, size_t const element_size) {
 	if( vec->cap==new_size ) {
 		return true;
+	} else if( new_size==0 ) {
+		return false;
 	}
 	
 	uint8_t *const new_table = harbol_recalloc(vec->table, new_size, element_size, vec->cap);
@@ -17,6 +19,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > new_size ) {
+		vec->len = new_size;
+	}
 	return true;
 }
 
-- 
2.43.0


From ce7843067fdaade2f17aaa30c0476616bc837dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 04/91] fix: deleting index SIZE_MAX from an empty array wrote
 out of bounds

---
 array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array/array.c b/array/array.c
index a44965f..6bdc91d 100644
--- a/array/array.c
+++ b/array/array.c
@@ -275,7 +275,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
 	if( vec->table==NULL ) {
 		return false;
-	} else if( index==vec->len-1 ) {
+	} else if( vec->len != 0 && index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
 	}
@@ -287,7 +287,7 @@ HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
 		return true;
-	} else if( index==vec->len-1 ) {
+	} else if( vec->len != 0 && index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
 	}
-- 
2.43.0


From a5ab47b2db3957e7615b3bb2c2bf47ecf4f23479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 05/91] fix: inserting a huge run of zeros into a byte buffer
 overflowed the size check

---
 bytebuffer/bytebuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..ebf8434 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -112,7 +112,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len || (buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount)) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 5ef356d9a6ba2b22ae2a766573316ca063d1bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 06/91] fix: the only item of a deque kept stale neighbours
 from the free list

---
 deque/deque.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..3d6e4a2 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -144,6 +144,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->head==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->nexts[i] = deque->head;
@@ -167,6 +168,7 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->tail==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->prevs[i] = deque->tail;
-- 
2.43.0


From d52057d3f61c3c261f5a4b6e9ef63378a11751d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 07/91] fix: reset kept the old length of a deque; cleared and
 zero-sized deques were unusable

---
 deque/deque.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 3d6e4a2..fc16565 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -27,7 +27,10 @@ HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t con
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
+	deque->head = deque->tail = SIZE_MAX;
+	if( deque->cap > 0 ) {
+		deque->nexts[deque->cap - 1] = SIZE_MAX;
+	}
 	deque->freed = deque->cap - 1;
 	return true;
 }
@@ -44,8 +47,12 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
+	deque->head = deque->tail = SIZE_MAX;
+	if( deque->cap > 0 ) {
+		deque->nexts[deque->cap - 1] = SIZE_MAX;
+	}
 	deque->freed = deque->cap - 1;
+	deque->len = 0;
 }
 
 HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
@@ -54,6 +61,7 @@ HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
 	}
 	harbol_multi_cleanup(3, &deque->nexts, &deque->prevs, &deque->datum);
 	*deque = ( struct HarbolDeque ){0};
+	deque->head = deque->tail = deque->freed = SIZE_MAX;
 }
 HARBOL_EXPORT void harbol_deque_free(struct HarbolDeque **const dequeref) {
 	if( *dequeref==NULL ) {
@@ -133,7 +141,7 @@ HARBOL_EXPORT void *harbol_deque_get_data(struct HarbolDeque const *const deque,
 }
 
 HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, (deque->cap==0)? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
@@ -157,7 +165,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 }
 
 HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, (deque->cap==0)? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
-- 
2.43.0


From 9e9250dcd1e8577036272e3dd033d5830b54cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 08/91] fix: a deque kept an item without data when copying the
 value failed

---
 deque/deque.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index fc16565..8191d8a 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -151,6 +151,10 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->head==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
@@ -175,6 +179,10 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->tail==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
-- 
2.43.0


From 85a9f96a4a27babbf2d722af90ed71305fd950f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 09/91] fix: harbol_multi_recalloc freed or invalidated the
 caller's buffers when one allocation failed

---
 harbol_common_includes.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 82aa606..254e13a 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -247,11 +247,19 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 	va_list cp; va_copy(cp, ap);
 	bool res = true;
 	void **bufs = calloc(n_buffers, sizeof *bufs);
+	if( bufs==NULL ) {
+		va_end(ap); va_end(cp);
+		return false;
+	}
 	for( size_t i=0; i < n_buffers; i++ ) {
 		void **buf = va_arg(ap, void**);
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
-		res &= bufs[i] != NULL;
+		bufs[i] = calloc(new_size, elem_size);
+		if( bufs[i]==NULL ) {
+			res = false;
+		} else if( *buf != NULL ) {
+			memcpy(bufs[i], *buf, ((old_size < new_size)? old_size : new_size) * elem_size);
+		}
 	}
 	va_end(ap);
 	
@@ -263,7 +271,7 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 		for( size_t i=0; i < n_buffers; i++ ) {
 			void **buf = va_arg(cp, void**);
 			va_arg(cp, size_t);
-			*buf = bufs[i];
+			free(*buf); *buf = bufs[i];
 		}
 	}
 	free(bufs); bufs = NULL;
-- 
2.43.0


From 4e1e54bc3b2acd3e3695d741c22f0f234bdc21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 10/91] fix: map probing looped forever or missed keys for
 sizes that are not a power of two, or around the last bucket

---
 map/map.c | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..33365ae 100644
--- a/map/map.c
+++ b/map/map.c
@@ -65,8 +65,7 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
 	uint8_t const *const restrict desired_key = key;
 	size_t const hash    = array_hash(desired_key, keylen, map->seed);
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = hash & mask;
+	size_t const bkt_idx = hash % map->cap;
 	size_t const val_idx = map->buckets[bkt_idx];
 	if( val_idx==SIZE_MAX ) {
 		return SIZE_MAX;
@@ -74,12 +73,8 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
+	for( size_t n=1; n < map->cap; n++ ) {
+		size_t const i   = (bkt_idx + n) % map->cap;
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
@@ -99,13 +94,9 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t       bkt_idx = map->hashes[n] & mask;
+	size_t bkt_idx = map->hashes[n] % map->cap;
 	while( map->buckets[bkt_idx] != SIZE_MAX ) {
-		bkt_idx++;
-		if( bkt_idx >= mask ) {
-			bkt_idx &= mask;
-		}
+		bkt_idx = (bkt_idx + 1) % map->cap;
 	}
 	map->buckets[bkt_idx] = n;
 	return true;
@@ -232,8 +223,7 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
+	size_t const bkt_idx = map->hashes[n] % map->cap;
 	size_t const val_idx = map->buckets[bkt_idx];
 	if( val_idx==SIZE_MAX ) {
 		return false;
-- 
2.43.0


From 430ddca21edcf187c6da656ca82d9acaaab59fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 11/91] fix: removing a map entry left the other buckets
 pointing at moved entries

---
 map/map.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/map/map.c b/map/map.c
index 33365ae..ba2b7cb 100644
--- a/map/map.c
+++ b/map/map.c
@@ -90,7 +90,7 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
@@ -102,6 +102,15 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 	return true;
 }
 
+static void _harbol_map_fill_buckets(struct HarbolMap *const map) {
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	for( size_t i=0; i < map->len; i++ ) {
+		_harbol_map_insert_entry(map, i);
+	}
+}
+
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
 	if( !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
@@ -114,15 +123,8 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 	}
 	
 	map->cap = new_size;
-	for( size_t i=0; i < map->cap; i++ ) {
-		map->buckets[i] = SIZE_MAX;
-	}
-	
-	bool res = false;
-	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
-	}
-	return res;
+	_harbol_map_fill_buckets(map);
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
@@ -223,22 +225,19 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const bkt_idx = map->hashes[n] % map->cap;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
-	return multi_array_shift_up(&map->len, n, 1, 5,
+	bool const res = multi_array_shift_up(&map->len, n, 1, 5,
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
 	);
+	
+	/// the later entries have moved, the buckets must follow them.
+	_harbol_map_fill_buckets(map);
+	return res;
 }
\ No newline at end of file
-- 
2.43.0


From 0286ceee9cd5c103988acf8778f4be2f6807f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 12/91] fix: maps without buckets crashed, and rehashing below
 the number of entries lost entries

---
 map/map.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/map/map.c b/map/map.c
index ba2b7cb..52708b5 100644
--- a/map/map.c
+++ b/map/map.c
@@ -63,6 +63,10 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 
 
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
+	if( map->len==0 ) {
+		return SIZE_MAX;
+	}
+	
 	uint8_t const *const restrict desired_key = key;
 	size_t const hash    = array_hash(desired_key, keylen, map->seed);
 	size_t const bkt_idx = hash % map->cap;
@@ -112,7 +116,9 @@ static void _harbol_map_fill_buckets(struct HarbolMap *const map) {
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
-	if( !harbol_multi_recalloc(new_size, map->cap, 6,
+	if( new_size==0 || new_size < map->len ) {
+		return false;
+	} else if( !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
@@ -128,7 +134,7 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
-	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, map->cap << 1)) ) {
+	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, (map->cap==0)? 1 : map->cap << 1)) ) {
 		return false;
 	}
 	
-- 
2.43.0


From 559023b336efbfe0d81359ae2dea6cf518821c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 13/91] fix: setting a map value by index kept the size of the
 old value

---
 map/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/map.c b/map/map.c
index 52708b5..051eb6f 100644
--- a/map/map.c
+++ b/map/map.c
@@ -218,6 +218,7 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 	}
 	free(map->datum[index]);
 	map->datum[index] = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From e50498028a885d5f014f50fb43ea761ec06bf946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 14/91] fix: map lookups read the first byte of zero-length
 keys and values

---
 map/map.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/map/map.c b/map/map.c
index 051eb6f..42e0ac9 100644
--- a/map/map.c
+++ b/map/map.c
@@ -73,7 +73,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 	size_t const val_idx = map->buckets[bkt_idx];
 	if( val_idx==SIZE_MAX ) {
 		return SIZE_MAX;
-	} else if( map->keys[val_idx][0]==desired_key[0] && map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
+	} else if( map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
 		return val_idx;
 	}
 	
@@ -82,7 +82,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
+		} else if( map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
 			return idx;
 		}
 	}
@@ -180,8 +180,7 @@ HARBOL_EXPORT size_t harbol_map_idx_val(struct HarbolMap const *const map, void
 	}
 	
 	for( size_t i=0; i < map->len; i++ ) {
-		uint8_t const *const restrict desired_val = val;
-		if( map->datum[i][0]==desired_val[0] && map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
+		if( map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
 			return i;
 		}
 	}
-- 
2.43.0


From 289eaa0fdb87b6aa7ab165b789eeee13d643d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 15/91] fix: adding a reused node to the tail of an empty list
 kept its stale successor

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 254e13a..378c73d 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1009,8 +1009,8 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		**const tail = t,
 		 *const node = n
 	;
+	node->a = NULL;
 	if( *head != NULL ) {
-		node->a = NULL;
 		(*tail)->a = node;
 		*tail = node;
 	} else {
-- 
2.43.0


From cdf631deddf5635ff91a33cf1540aa3436ea9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 16/91] fix: setting a tree node to a larger value overflowed
 its old block

---
 tree/tree.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..aa99b5c 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,13 +59,12 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
-			return false;
-		}
+	uint8_t *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return false;
 	}
-	memcpy(tree->data, val, datasize);
+	free(tree->data);
+	tree->data = data;
 	tree->len = datasize;
 	return true;
 }
-- 
2.43.0


From a21af099d30f13fbab5e4ea214abfe0161657944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 17/91] fix: tree lookups by value matched on a prefix and read
 past the given value

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index aa99b5c..363e52d 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -105,7 +105,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -124,7 +124,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From f3b0347058b24552cd2e2ab75e0fbaef59a9af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 18/91] fix: packed tuples were reported as unpacked

---
 tuple/tuple.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..25d668d 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -51,6 +51,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		return false;
 	}
 	
+	tuple->packed = packed;
 	tuple->len = packed? total_size : aligned_total;
 	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
 	uint32_t offset = 0;
-- 
2.43.0


From 7ad4ab8bf3967b43a72c74e7e6d8e8166ec6d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 19/91] fix: aligning to zero collapsed the size to zero,
 zero-sized tuple fields overlapped others

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 378c73d..abde16f 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -343,7 +343,7 @@ static inline uint8_t *harbol_resize_string(uint8_t *const restrict cstr, size_t
 
 
 static inline size_t harbol_align_size(size_t const size, size_t const align) {
-	return (size + (align - 1)) & ~(align - 1);
+	return( align==0 )? size : (size + (align - 1)) & ~(align - 1);
 }
 
 static inline size_t harbol_pad_size(size_t const size, size_t const align) {
-- 
2.43.0


From cb314263b85603ce961adf9e522f47042b18c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 20/91] fix: tuple fields were truncated to 16 bit sizes and
 offsets, and a failed field list went unnoticed

---
 tuple/tuple.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 25d668d..09aa4ba 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -35,6 +35,9 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		prev_size=0
 	;
 	for( size_t i=0; i < len; i++ ) {
+		if( sizes[i] > INT32_MAX || total_size > INT32_MAX ) {
+			return false;
+		}
 		total_size += sizes[i];
 		if( packed || len==1 ) {
 			continue;
@@ -53,10 +56,16 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	
 	tuple->packed = packed;
 	tuple->len = packed? total_size : aligned_total;
-	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
-	uint32_t offset = 0;
+	bool made_fields = false;
+	tuple->fields = harbol_array_make(sizeof(uint64_t), len, &made_fields);
+	if( !made_fields ) {
+		free(tuple->datum); tuple->datum = NULL;
+		tuple->len = 0;
+		return false;
+	}
+	uint64_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
-		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
+		uint64_t const size_pack = (( uint64_t )(sizes[i]) << 32) | offset;
 		harbol_array_insert(&tuple->fields, &size_pack, sizeof size_pack);
 		offset += sizes[i];
 		if( packed || len==1 ) {
@@ -96,8 +105,8 @@ HARBOL_EXPORT void *harbol_tuple_get(struct HarbolTuple const *const tuple, size
 		return NULL;
 	}
 	
-	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
-	return( field_data==NULL || (*field_data & 0xFFFF) >= tuple->len )? NULL : tuple->datum + (*field_data & 0xFFFF);
+	uint64_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
+	return( field_data==NULL || (*field_data & 0xFFFFFFFF) >= tuple->len )? NULL : tuple->datum + (*field_data & 0xFFFFFFFF);
 }
 
 HARBOL_EXPORT void *harbol_tuple_set(struct HarbolTuple const *const tuple, size_t const index, void *const val) {
@@ -110,16 +119,16 @@ HARBOL_EXPORT void *harbol_tuple_set(struct HarbolTuple const *const tuple, size
 		return NULL;
 	}
 	
-	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
-	return memcpy(field, val, *field_data >> 16);
+	uint64_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
+	return memcpy(field, val, *field_data >> 32);
 }
 
 HARBOL_EXPORT size_t harbol_tuple_field_size(struct HarbolTuple const *const tuple, size_t const index) {
 	if( tuple->datum==NULL || tuple->len==0 ) {
 		return 0;
 	}
-	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
-	return( field_data==NULL )? 0 : *field_data >> 16;
+	uint64_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
+	return( field_data==NULL )? 0 : *field_data >> 32;
 }
 
 HARBOL_EXPORT bool harbol_tuple_packed(struct HarbolTuple const *const tuple) {
-- 
2.43.0


From b351344a89693a60a1a5a8f668a2af4d7d73a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 21/91] fix: blocks of a region whose size is not a multiple of
 the word were misaligned

---
 allocators/region/region.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/allocators/region/region.c b/allocators/region/region.c
index 55e6141..673dfd4 100644
--- a/allocators/region/region.c
+++ b/allocators/region/region.c
@@ -16,7 +16,8 @@ HARBOL_EXPORT struct HarbolRegion harbol_region_make(size_t const size) {
 		return region;
 	}
 	
-	region.size = region.offs = size;
+	/// blocks are taken from the high end, it has to be aligned for them to be.
+	region.size = region.offs = size - (size % sizeof(uintptr_t));
 	return region;
 }
 
@@ -25,7 +26,7 @@ HARBOL_EXPORT struct HarbolRegion harbol_region_make_from_buffer(void *const buf
 	if( size==0 ) {
 		return region;
 	}
-	region.size = region.offs = size;
+	region.size = region.offs = size - (size % sizeof(uintptr_t));
 	region.mem  = buf;
 	return region;
 }
-- 
2.43.0


From e7be61d92c7c76d36f1b12d6dc36c6be0d3896bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 22/91] fix: a two-ended stack handed out memory below its
 buffer for requests larger than the stack and refused exact fits

---
 allocators/bistack/bistack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..e90bf47 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	if( size > aligned_size || aligned_size > bistk->back - bistk->front ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -61,7 +61,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	if( size > aligned_size || aligned_size > bistk->back - bistk->front ) {
 		return NULL;
 	}
 	bistk->back -= aligned_size;
-- 
2.43.0


From f35274eef23b783992bd5e428e06930db90c7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 23/91] fix: back blocks of a two-ended stack whose size is not
 a multiple of the word were misaligned

---
 allocators/bistack/bistack.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index e90bf47..8706442 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -13,7 +13,8 @@ HARBOL_EXPORT bool harbol_bistack_init(struct HarbolBiStack *const bistk, size_t
 	if( bistk->mem==NULL ) {
 		return false;
 	}
-	bistk->size = bistk->back = len;
+	/// blocks are taken from the high end too, it has to be aligned for them to be.
+	bistk->size = bistk->back = len - (len % sizeof(size_t));
 	return true;
 }
 
@@ -25,9 +26,9 @@ HARBOL_EXPORT struct HarbolBiStack harbol_bistack_make(size_t const len, bool *c
 
 HARBOL_EXPORT struct HarbolBiStack harbol_bistack_make_from_buffer(void *const buf, size_t const len) {
 	struct HarbolBiStack bistk = {0};
-	bistk.size  = len;
+	bistk.size  = len - (len % sizeof(size_t));
 	bistk.mem   = buf;
-	bistk.back  = len;
+	bistk.back  = bistk.size;
 	return bistk;
 }
 
@@ -101,7 +102,7 @@ HARBOL_EXPORT bool harbol_bistack_resize(struct HarbolBiStack *const restrict bi
 		return false;
 	}
 	bistk->mem   = new_buf;
-	bistk->size  = bistk->back = new_size;
+	bistk->size  = bistk->back = new_size - (new_size % sizeof(size_t));
 	bistk->front = 0;
 	return true;
 }
-- 
2.43.0


From b753652e2abeb1ef1bdcf8dbd870478313d18859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 24/91] fix: an object pool accepted one-past-the-end and
 unaligned pointers as cells

---
 allocators/objpool/objpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..dc27558 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -6,7 +6,7 @@
 
 
 HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpool, size_t const objsize, size_t const len) {
-	if( len==0 || objsize==0 ) {
+	if( len==0 || objsize==0 || objsize > SIZE_MAX - sizeof(size_t) ) {
 		return false;
 	}
 	
@@ -81,7 +81,7 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) || (p - objpool->mem) % objpool->objsize != 0 ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From 9d3a020b9be638ca39ce72ce1f64c7e4a585925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 25/91] fix: mempool initialisation reported success without
 memory

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 21cf32d..cb46aa4 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -165,7 +165,7 @@ HARBOL_EXPORT bool harbol_mempool_init(struct HarbolMemPool *const mempool, size
 		return false;
 	
 	mempool->stack = harbol_region_make(size);
-	return true;
+	return mempool->stack.mem != NULL;
 }
 
 HARBOL_EXPORT struct HarbolMemPool harbol_mempool_make(size_t const size, bool *const res) {
-- 
2.43.0


From adca2cb772261e7ac154f16b6e961c31dbadc9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 26/91] fix: mempool free lists were corrupted by insertion and
 coalescing

---
 allocators/mempool/mempool.c | 110 +++++++++++++----------------------
 1 file changed, 39 insertions(+), 71 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index cb46aa4..d92e112 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -28,10 +28,10 @@ HARBOL_EXPORT void harbol_memnode_replace(struct HarbolMemNode *const old, struc
 /// makes a current node into the next node.
 HARBOL_EXPORT void harbol_freelist_insert_before(struct HarbolFreeList *const list, struct HarbolMemNode *const curr, struct HarbolMemNode *const insert) {
 	insert->next = curr;
+	insert->prev = curr->prev;
 	if( curr->prev==NULL ) {
 		list->head = insert;
 	} else {
-		insert->prev = curr->prev;
 		curr->prev->next = insert;
 	}
     curr->prev = insert;
@@ -45,82 +45,50 @@ static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool,
 
 
 HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, struct HarbolFreeList *const list, struct HarbolMemNode *const node, bool const is_bucket) {
-	if( list->head==NULL ) {
-		list->head = node;
-		list->len++;
+	/// Address sort, lowest to highest aka ascending order.
+	struct HarbolMemNode *prev = NULL, *next = list->head;
+	while( next != NULL && next < node ) {
+		prev = next;
+		next = next->next;
+	}
+	
+	uintptr_t const inode = ( uintptr_t )(node);
+	if( next==node || (prev != NULL && ( uintptr_t )(prev) + prev->size > inode) ) {
+		/// node was freed or coalesced prior.
 		return;
 	}
 	
-	for( struct HarbolMemNode *iter = list->head; iter != NULL; iter = iter->next ) {
-		if( ( uintptr_t )(iter)==mempool->stack.offs ) {
-			mempool->stack.offs += iter->size;
-			harbol_freelist_remove(list, iter);
-			iter = list->head;
-			if( iter==NULL ) {
-				list->head = node;    
-				return;
-            }
-			continue;
+	bool const
+		joins_prev = prev != NULL && ( uintptr_t )(prev) + prev->size==inode,
+		joins_next = next != NULL && inode + node->size==( uintptr_t )(next)
+	;
+	if( joins_prev || joins_next ) {
+		/// if we can coalesce, do so. The result might belong to another list.
+		struct HarbolMemNode *whole = node;
+		if( joins_next ) {
+			node->size += harbol_freelist_remove(list, next)->size;
 		}
-		uintptr_t const inode = ( uintptr_t )(node);
-		uintptr_t const iiter = ( uintptr_t )(iter);
-		uintptr_t const iter_end = iiter + iter->size;
-		uintptr_t const node_end = inode + node->size;
-		
-		if( iter==node ) {
-			return;
-		} else if( iter < node ) {
-			if( iter_end > inode ) {
-				/// node was coalesced prior.
-				return;
-			} else if( iter_end==inode ) {
-				/// if we can coalesce, do so.
-				iter->size += node->size;
-				return;
-			} else if (iter->next == NULL) {
-				// we reached the end of the free list -> append the node
-				iter->next = node;
-				node->prev = iter;
-				list->len++;
-				return;    
-            }
-		} else if( iter > node ) {
-			/// Address sort, lowest to highest aka ascending order.
-			if( iter==list->head ) {
-				if( iter_end==inode ) {
-					iter->size += node->size;
-					if( is_bucket ) {
-						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, iter));
-					}
-				} else if( node_end==iiter ) {
-					node->size += list->head->size;
-					node->next = list->head->next;
-					node->prev = NULL;
-					list->head = node;
-					if( is_bucket ) {
-						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, list->head));
-					}
-				} else {
-					node->next = iter;
-					node->prev = NULL;
-					iter->prev = node;
-					list->head = node;
-					list->len++;
-				}
-				return;
-			} else if( iter_end==inode ) {
-				iter->size += node->size;
-				if( is_bucket ) {
-					_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, iter));
-				}
-				return;
-			} else {
-				harbol_freelist_insert_before(list, node, iter);
-				list->len++;
-				return;
-			}
+		if( joins_prev ) {
+			whole = harbol_freelist_remove(list, prev);
+			whole->size += node->size;
+		}
+		_harbol_freelist_transfer_node(mempool, whole);
+		return;
+	}
+	
+	if( next != NULL ) {
+		harbol_freelist_insert_before(list, next, node);
+	} else {
+		node->next = NULL;
+		node->prev = prev;
+		if( prev != NULL ) {
+			prev->next = node;
+		} else {
+			list->head = node;
 		}
+		list->tail = node;
 	}
+	list->len++;
 }
 
 HARBOL_EXPORT struct HarbolMemNode *harbol_freelist_remove(struct HarbolFreeList *const list, struct HarbolMemNode *const node) {
-- 
2.43.0


From c6f0d4233f16e23f94d09e16a12db85343e91c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 27/91] fix: coalesced mempool nodes were lost for requests of
 their original size

---
 allocators/mempool/mempool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index d92e112..00e684c 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -166,6 +166,13 @@ static NO_NULL void *_get_freenode(struct HarbolMemPool *const mempool, size_t c
 	size_t const slot = (bytes >> HARBOL_BUCKET_BITS) - 1;
 	struct HarbolFreeList *const l = (slot < HARBOL_BUCKET_SIZE)? &mempool->buckets[slot] : &mempool->large;
 	struct HarbolMemNode *new_mem = harbol_freelist_find(l, bytes);
+	/// coalesced nodes have moved to the lists of larger ones.
+	for( size_t i = slot + 1; i < HARBOL_BUCKET_SIZE && new_mem==NULL; i++ ) {
+		new_mem = harbol_freelist_find(&mempool->buckets[i], bytes);
+	}
+	if( new_mem==NULL && l != &mempool->large ) {
+		new_mem = harbol_freelist_find(&mempool->large, bytes);
+	}
 	if( new_mem==NULL ) {
 		return NULL;
 	} else {
-- 
2.43.0


From 7c4a784ead4bde52cb2f9b597570bc7adbcdcb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 28/91] fix: mempool mixed up offsets and addresses: memory was
 never returned to the stack, foreign pointers were accepted, remaining memory
 was garbage

---
 allocators/mempool/mempool.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 00e684c..5704cec 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -214,6 +214,16 @@ HARBOL_EXPORT void *harbol_mempool_alloc(struct HarbolMemPool *const mempool, si
 	}
 }
 
+static NO_NULL bool _is_mempool_node(struct HarbolMemPool const *const mempool, struct HarbolMemNode const *const node) {
+	uintptr_t const
+		low  = ( uintptr_t )(mempool->stack.mem + mempool->stack.offs),
+		high = ( uintptr_t )(mempool->stack.mem + mempool->stack.size)
+	;
+	return ( uintptr_t )(node) >= low && ( uintptr_t )(node) < high
+		&& is_ptr_aligned(node, sizeof(uintptr_t))
+		&& is_uint_in_bounds(node->size, high - ( uintptr_t )(node), sizeof *node);
+}
+
 HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict mempool, void *const ptr, size_t const size) {
 	if( size > mempool->stack.size ) {
 		return NULL;
@@ -225,6 +235,9 @@ HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict
 	}
 	
 	struct HarbolMemNode *node = ( struct HarbolMemNode* )(( uint8_t* )(ptr) - sizeof *node);
+	if( !_is_mempool_node(mempool, node) ) {
+		return NULL;
+	}
 	uint8_t *resized_block = harbol_mempool_alloc(mempool, size);
 	if( resized_block==NULL ) {
 		return NULL;
@@ -241,15 +254,14 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	}
 	/// behind the actual pointer data is the allocation info.
 	struct HarbolMemNode *mem_node = ( struct HarbolMemNode* )(( uint8_t* )(ptr) - sizeof *mem_node);
-	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
 	/// make sure the pointer data is valid.
-	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size), ( uintptr_t )(mempool->stack.offs))
-			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
+	if( !_is_mempool_node(mempool, mem_node) )
 		return false;
+	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
-	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
+	if( ( uintptr_t )(mem_node)==( uintptr_t )(mempool->stack.mem + mempool->stack.offs) ) {
 		mempool->stack.offs += mem_node->size;
 	} else {
 		/// try to place it into bucket or large freelist.
@@ -269,7 +281,7 @@ HARBOL_EXPORT bool harbol_mempool_cleanup(struct HarbolMemPool *const restrict m
 }
 
 HARBOL_EXPORT size_t harbol_mempool_mem_remaining(struct HarbolMemPool const *mempool) {
-	size_t total_remaining = mempool->stack.mem - (mempool->stack.mem + mempool->stack.offs);
+	size_t total_remaining = harbol_region_remaining(&mempool->stack);
 	for( struct HarbolMemNode *n = mempool->large.head; n != NULL; n = n->next ) {
 		total_remaining += n->size;
 	}
-- 
2.43.0


From 9a1a2c6904e492201696c609aab40697d5d37e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 29/91] fix: shrinking a string left its text unterminated
 (reading a shorter file)

---
 harbol_common_includes.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index abde16f..66c8473 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -333,10 +333,15 @@ static inline NO_NULL void *harbol_memccpy(void *const restrict dest, void const
 }
 
 static inline uint8_t *harbol_resize_string(uint8_t *const restrict cstr, size_t const bytes, size_t *const restrict len, size_t const new_size) {
+	if( new_size==SIZE_MAX ) {
+		return NULL;
+	}
 	uint8_t *restrict new_cstr = harbol_recalloc(cstr, new_size + 1, bytes, *len);
 	if( new_cstr==NULL ) {
 		return NULL;
 	}
+	/// a smaller size has to end the text as well.
+	memset(&new_cstr[new_size * bytes], 0, bytes);
 	*len = new_size;
 	return new_cstr;
 }
-- 
2.43.0


From f169611ec430f8aaa20fe9a506cc683124aa9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 30/91] fix: string add_char_rep wrote out of bounds when the
 length overflowed

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 8953ce6..c7f7fa1 100644
--- a/str/str.c
+++ b/str/str.c
@@ -66,7 +66,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount > SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From 0760b4754b28597b1163f3deee0695d6b02a96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 31/91] fix: string add_str overflowed when a string was added
 to itself

---
 str/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index c7f7fa1..939d3c1 100644
--- a/str/str.c
+++ b/str/str.c
@@ -76,10 +76,12 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	/// `strB` might be `strA`.
+	size_t const lenA = strA->len, lenB = strB->len;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	memmove(&strA->cstr[lenA], strB->cstr, lenB);
 	return true;
 }
 
-- 
2.43.0


From 99e5e94761bba63a80b8a2004b3d72df28ccc8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 32/91] fix: string cmpcstr ordered the other way around than
 cmpstr

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 939d3c1..9666445 100644
--- a/str/str.c
+++ b/str/str.c
@@ -181,7 +181,7 @@ HARBOL_EXPORT int harbol_string_cmpcstr(struct HarbolString const *const str, ch
 		return -1;
 	}
 	size_t const cstr_len = strlen(cstr);
-	return strncmp(cstr, str->cstr, (str->len > cstr_len)? str->len : cstr_len);
+	return strncmp(str->cstr, cstr, (str->len > cstr_len)? str->len : cstr_len);
 }
 
 HARBOL_EXPORT int harbol_string_cmpstr(struct HarbolString const *const strA, struct HarbolString const *const strB) {
-- 
2.43.0


From 1a238b1ca5fefff77f59abc8c8811ec39ccf53ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 33/91] fix: string replace_cstr replaced one occurrence too
 many and ignored failed allocation

---
 str/str.c | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/str/str.c b/str/str.c
index 9666445..0db34d8 100644
--- a/str/str.c
+++ b/str/str.c
@@ -260,35 +260,22 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	size_t const with_len    = strlen(with);
 	struct HarbolString rep_str = {0};
 	
-	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
 	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
-	size_t rep_len = 0;
-	/// first copy contents up to the first offset.
-	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
-	rep_len += offset;
-	offset += replace_len;
-	
-	strcpy(&rep_str.cstr[rep_len], with);
-	rep_len += with_len;
+	if( !_harbol_resize_string(&rep_str, len_calc) ) {
+		return false;
+	}
+	size_t offset = 0, rep_len = 0;
 	for( size_t i=0; i < amount; i++ ) {
-		size_t const saved_offset = offset;
-		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
-		if( relative_offs==SIZE_MAX ) {
-			break;
-		}
-		
-		offset += relative_offs;
-		size_t const span = offset - saved_offset;
-		strncpy(&rep_str.cstr[rep_len], &str->cstr[saved_offset], span);
+		/// copy contents up to the next offset.
+		size_t const span = _subcstr_diff(&str->cstr[offset], to_replace);
+		memcpy(&rep_str.cstr[rep_len], &str->cstr[offset], span);
 		rep_len += span;
+		offset  += span + replace_len;
 		
-		strcpy(&rep_str.cstr[rep_len], with);
+		memcpy(&rep_str.cstr[rep_len], with, with_len);
 		rep_len += with_len;
-		offset += replace_len;
 	}
 	strcpy(&rep_str.cstr[rep_len], &str->cstr[offset]);
-	rep_len += offset;
 	
 	harbol_string_clear(str);
 	str->cstr = rep_str.cstr;
-- 
2.43.0


From 531039ec3100e0e2011a14c0a13c22ab12a0042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 34/91] fix: searching a string for empty text looped forever
 or ran past its end

---
 str/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 0db34d8..61b53ae 100644
--- a/str/str.c
+++ b/str/str.c
@@ -304,6 +304,9 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 	
 	size_t occurrences = 0;
 	size_t const occ_len = strlen(occurrence);
+	if( occ_len==0 ) {
+		return 0;
+	}
 	char const *pos = strstr(str->cstr, occurrence);
 	while( pos != NULL ) {
 		occurrences++;
@@ -313,7 +316,7 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 }
 
 HARBOL_EXPORT NO_NULL bool harbol_string_cstr_offsets(struct HarbolString const *const restrict str, char const occurrence[const restrict static 1], size_t offsets[const restrict static 1], size_t const offsets_len) {
-	if( str->cstr==NULL ) {
+	if( str->cstr==NULL || occurrence[0]==0 ) {
 		return false;
 	}
 	
-- 
2.43.0


From 3d3e24c74305b1e053ccb38d380214870d96f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 35/91] fix: string rm_char kept the old length; empty strings
 crashed some functions

---
 str/str.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 61b53ae..2ab3033 100644
--- a/str/str.c
+++ b/str/str.c
@@ -170,7 +170,7 @@ HARBOL_EXPORT int harbol_string_scan(struct HarbolString const *const restrict s
 
 
 HARBOL_EXPORT int harbol_string_scan_va(struct HarbolString const *const restrict str, char const fmt[const restrict static 1], va_list args) {
-	int const result = vsscanf(str->cstr, fmt, args);
+	int const result = ( str->cstr==NULL )? EOF : vsscanf(str->cstr, fmt, args);
 	va_end(args);
 	return result;
 }
@@ -375,12 +375,16 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
 			str->cstr[j++] = str->cstr[i];
 		} else {
 			counts++;
+			str->len--;
 		}
 	}
 	str->cstr[j] = 0;
@@ -389,6 +393,9 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
@@ -409,7 +416,7 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
-	return _find_chr(str->cstr, c);
+	return( str->cstr==NULL )? SIZE_MAX : _find_chr(str->cstr, c);
 }
 
 
-- 
2.43.0


From 1ff22dc4665a15d4d60b8df57f5eb2c60cf33481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 36/91] fix: string replace_range read past the end for an
 upper bound equal to the length, lost text on failed allocation

---
 str/str.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/str/str.c b/str/str.c
index 2ab3033..8776528 100644
--- a/str/str.c
+++ b/str/str.c
@@ -425,7 +425,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
@@ -434,13 +434,14 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	char *start = &str->cstr[lower];
-	start[0] = 0;
-	char const *end = &str->cstr[upper];
+	size_t const with_len = strlen(with);
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, (str->len - (range_diff + 1)) + with_len) ) {
+		return false;
+	}
+	memcpy(&s.cstr[0], &str->cstr[0], lower);
+	memcpy(&s.cstr[lower], with, with_len);
+	strcpy(&s.cstr[lower + with_len], &str->cstr[upper + 1]);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From 7ccbbdc9b0d0e7e894d125c3a9d1cf5a4b3e897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 37/91] fix: malformed or truncated UTF-8 was decoded as runes
 and read past

---
 lex/lex.c | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..fd9083a 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -61,7 +61,9 @@ HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
 		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		for( size_t n=0; n < read && cstr[i] != 0; n++ ) {
+			i++;
+		}
 		runes++;
 	}
 	return runes;
@@ -303,6 +305,31 @@ HARBOL_EXPORT bool write_utf8_str(struct HarbolString *const str, int32_t const
 	}
 }
 
+/// length of the well-formed sequence at the start of `cstr`, 0 if there's none.
+static NO_NULL size_t _valid_utf8_len(char const cstr[const restrict], size_t const cstrlen) {
+	uint8_t const *const b = ( uint8_t const* )(cstr);
+	if( cstrlen==0 ) {
+		return 0;
+	} else if( b[0] < 0x80 ) {
+		return 1;
+	}
+	
+	size_t const utf8len = get_utf8_len(cstr[0]);
+	if( b[0] < 0xC2 || b[0] > 0xF4 || utf8len > cstrlen ) {
+		return 0;
+	}
+	for( size_t i=1; i < utf8len; i++ ) {
+		if( (b[i] & 0xC0) != 0x80 ) {
+			return 0;
+		}
+	}
+	/// overlong, surrogate, or beyond the last code point.
+	if( (b[0]==0xE0 && b[1] < 0xA0) || (b[0]==0xED && b[1] > 0x9F) || (b[0]==0xF0 && b[1] < 0x90) || (b[0]==0xF4 && b[1] > 0x8F) ) {
+		return 0;
+	}
+	return utf8len;
+}
+
 static NO_NULL size_t _prechecked_utf8_read(char const cstr[const restrict], int32_t *const restrict rune) {
 	if( (cstr[0] & 0xF8)==0xF0 ) {
 		*rune = ((cstr[0] & 0x07) << 18) | ((cstr[1] & 0x3F) << 12) | ((cstr[2] & 0x3F) << 6) | (cstr[3] & 0x3F);
@@ -323,8 +350,7 @@ HARBOL_EXPORT size_t read_utf8(char const cstr[const restrict static 1], size_t
 	if( cstr[0]==0 ) {
 		return 0;
 	}
-	size_t const utf8len = get_utf8_len(cstr[0]);
-	return( utf8len > cstrlen )? 0 : _prechecked_utf8_read(cstr, rune);
+	return( _valid_utf8_len(cstr, cstrlen)==0 )? 0 : _prechecked_utf8_read(cstr, rune);
 }
 
 HARBOL_EXPORT int32_t read_utf8_rune(char const cstr[], size_t cstrlen) {
@@ -332,8 +358,7 @@ HARBOL_EXPORT int32_t read_utf8_rune(char const cstr[], size_t cstrlen) {
 		return 0;
 	}
 	
-	size_t const utf8len = get_utf8_len(cstr[0]);
-	if( utf8len > cstrlen ) {
+	if( _valid_utf8_len(cstr, cstrlen)==0 ) {
 		return -1;
 	}
 	
@@ -356,15 +381,15 @@ HARBOL_EXPORT int32_t *utf8_cstr_to_rune(char const cstr[const restrict static 1
 	while( cstr[iter_len] != 0 && rune_iter < rune_count ) {
 		int32_t rune = 0;
 		size_t const bytes_read = read_utf8(&cstr[iter_len], cstr_len - iter_len, &rune);
-		if( rune==0 ) {
+		if( bytes_read==0 ) {
 			break;
 		}
 		iter_len += bytes_read;
 		runes[rune_iter] = rune;
 		rune_iter++;
 	}
-	*rune_len = rune_count;
-	runes[rune_count] = 0;
+	*rune_len = rune_iter;
+	runes[rune_iter] = 0;
 	return runes;
 }
 
@@ -394,7 +419,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From e79f7e2896e4a0cfcc3e3682c569f286a3fd87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 38/91] fix: negative runes were encoded as one byte

---
 lex/lex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index fd9083a..46558d9 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -236,7 +236,9 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 }
 
 HARBOL_EXPORT size_t rune_byte_len(int32_t const rune) {
-	if( rune < 0x80 ) {
+	if( rune < 0 ) {
+		return 0;
+	} else if( rune < 0x80 ) {
 		return 1;
 	} else if( rune < 0x800 ) {
 		return 2;
-- 
2.43.0


From 003cda0a735b7042f9dd197f440a518feedfbb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 39/91] fix: comments whose last line has a backslash were
 scanned past the end of the text

---
 lex/lex.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 46558d9..ddc559e 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -113,17 +113,20 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
-			if( *begin=='\n' ) {
-				++*lines;
+			while( *begin != 0 && *begin != '\n' ) {
+				begin++;
 			}
+			if( *begin==0 ) {
+				break;
+			}
+			++*lines;
 		}
 		begin++;
 	}
 	return begin;
 }
 HARBOL_EXPORT char const *skip_multi_line_comment(char const str[static 1], char const end_token[static 1], size_t const end_len, uint32_t *const restrict lines) {
-	char const *begin = str + 1;
+	char const *begin = ( *str==0 )? str : str + 1;
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			++*lines;
@@ -140,7 +143,12 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			while( *begin != 0 && *begin != '\n' ) {
+				begin++;
+			}
+			if( *begin==0 ) {
+				break;
+			}
 			memset(str, ' ', begin-str);
 			str = ++begin;
 		} else {
@@ -152,7 +160,7 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 }
 
 HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_token[static 1], size_t const end_len) {
-	char *begin = str + 1;
+	char *begin = ( *str==0 )? str : str + 1;
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			memset(str, ' ', begin-str);
@@ -182,13 +190,13 @@ HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char
 HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
-			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
-				harbol_string_add_char(buf, *str);
+			while( *str != 0 && *str != '\n' ) {
+				harbol_string_add_char(buf, *str++);
 			}
-			if( *str=='\n' ) {
-				++*lines;
+			if( *str==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		harbol_string_add_char(buf, *str++);
 	}
-- 
2.43.0


From 7f2788e5baa7d4f9191845837afbc770d36c8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 40/91] fix: an escape character at the end of the text skipped
 the terminator

---
 lex/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index ddc559e..ef4d8e5 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -104,7 +104,7 @@ HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char con
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -179,7 +179,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
-- 
2.43.0


From 6ba98323723bcd78d4e6d57ba082968f457412ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 41/91] fix: an unterminated multi-line comment was lexed as if
 terminated

---
 lex/lex.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index ef4d8e5..2603cc7 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -205,19 +205,22 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 }
 
 HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const **const end, char const end_token[static 1], size_t const end_len, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
-	harbol_string_add_char(buf, *str++);
+	if( *str != 0 ) {
+		harbol_string_add_char(buf, *str++);
+	}
 	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
 		if( *str=='\n' ) {
 			++*lines;
 		}
 		harbol_string_add_char(buf, *str++);
 	}
-	harbol_string_add_cstr(buf, end_token);
-	if( *str != 0 ) {
+	bool const terminated = *str != 0;
+	if( terminated ) {
+		harbol_string_add_cstr(buf, end_token);
 		str += end_len;
 	}
 	*end = str;
-	return buf->len > 0;
+	return terminated;
 }
 
 HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **const end, char const quote[const restrict static 1], size_t quote_len, struct HarbolString *const restrict buf, size_t *const restrict line) {
-- 
2.43.0


From ed2408d9150d8361387a42bd7df217fc2d9a04d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 42/91] fix: multi-quote strings got every newline twice and
 needed no end

---
 lex/lex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 2603cc7..e4ffa1f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -234,16 +234,16 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 		} else if( c=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
-			harbol_string_add_char(buf, c);
 		}
 		harbol_string_add_char(buf, *str);
 		str++;
 	}
-	if( !strncmp(str, quote, quote_len) ) {
+	bool const terminated = *str != 0;
+	if( terminated ) {
 		str += quote_len;
 	}
 	*end = str;
-	return true;
+	return terminated;
 }
 
 HARBOL_EXPORT size_t rune_byte_len(int32_t const rune) {
-- 
2.43.0


From 87cda9774a984aa16a51d0698e9d3ae0576c8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 43/91] fix: a number ending after its initial '0' moved the
 cursor past the terminator

---
 lex/lex.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index e4ffa1f..140d1c8 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -531,7 +531,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	
 	if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_c_style_hex_err;
 	} else {
@@ -728,7 +730,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 	
 	if( *str != 'x' && *str != 'X' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
 	} else {
@@ -927,7 +931,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 	
 	if( *str != 'o' && *str != 'O' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
 	} else {
@@ -987,7 +993,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 	
 	if( *str != 'b' && *str != 'B' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
 	} else {
@@ -1080,7 +1088,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		goto lex_go_style_binary_err;
 	} else {
 		harbol_string_add_char(buf, *str++);
-- 
2.43.0


From 131217a4ba16a79096a4deb21de82974655e7cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 44/91] fix: the end was left unset when there was nothing to
 lex

---
 lex/lex.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 140d1c8..3180298 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -519,6 +519,7 @@ exit:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		/// missing initial 0.
@@ -720,6 +721,7 @@ lex_c_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -834,6 +836,7 @@ lex_go_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -921,6 +924,7 @@ lex_c_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -983,6 +987,7 @@ lex_go_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1077,6 +1082,7 @@ lex_c_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1138,6 +1144,7 @@ lex_go_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1305,6 +1312,7 @@ lex_c_style_decimal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1419,6 +1427,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 			return lex_c_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
@@ -1437,6 +1446,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 			return lex_go_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
@@ -1593,6 +1603,7 @@ lex_id_u8_err:
 
 HARBOL_EXPORT bool lex_c_style_identifier(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	if( !is_alphabetic(*str) ) {
+		*end = str;
 		return false;
 	}
 	while( *str != 0 && is_possible_id(*str) ) {
-- 
2.43.0


From a9ec6752eeabef01f3f261c68332b658198f459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 45/91] fix: signs that don't belong to an exponent were lexed
 into or dropped from numbers

---
 lex/lex.c | 70 ++++++++++++++++++++++---------------------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 3180298..2c2f072 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -550,7 +550,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		exponent_p = 1u << 4u, /// xxx.xpxxx
 		one_hex    = 1u << 5u,
 		f_suffix   = 1u << 6u,
-		math_op    = 1u << 7u,
 		digit_sep  = 1u << 8u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_C) ) {
@@ -589,19 +588,18 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
-					goto lex_c_style_hex_err;
-				} else if( !(lit_flags & (exponent_p|flt_dot)) ) { /// bad +/- placement.
+				if( (lit_flags & exponent_p) && str[-1] != 'p' && str[-1] != 'P' ) { /// not the exponent's sign.
+					goto lex_c_style_hex_end;
+				} else if( !(lit_flags & exponent_p) ) { /// bad +/- placement.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexBadPlusMinusPlace;
 					goto lex_c_style_hex_err;
-				} else if( !is_decimal(str[1]) && !(lit_flags & math_op) ) { /// no number after exponent?
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_hex_err;
 				} else {
 					harbol_string_add_char(buf, chr);
-					lit_flags |= math_op;
 				}
 				break;
 			case 'U': case 'u':
@@ -703,6 +701,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		}
 		str++;
 	}
+lex_c_style_hex_end:
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// missing exponent...
 		result = HarbolLexHexFltNoExp;
 		goto lex_c_style_hex_err;
@@ -746,7 +745,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		flt_dot    = 1u << 0u,
 		exponent_p = 1u << 1u, /** xxx.xpxxx */
 		digit_sep  = 1u << 2u,
-		math_op    = 1u << 3u,
 		one_hex    = 1u << 4u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_Go) ) {
@@ -779,19 +777,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
+				if( !(lit_flags & exponent_p) || (str[-1] != 'p' && str[-1] != 'P') ) { /// not the exponent's sign.
+					goto lex_go_style_hex_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					result = HarbolLexNoNumAfterExp;
+					harbol_string_add_char(buf, chr);
 					goto lex_go_style_hex_err;
-				} else if( lit_flags & (exponent_p|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						result = HarbolLexNoNumAfterExp;
-						harbol_string_add_char(buf, chr);
-						goto lex_go_style_hex_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
 				} else {
-					goto lex_go_style_hex_err;
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
@@ -821,6 +814,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		}
 		str++;
 	}
+lex_go_style_hex_end:
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
@@ -1156,7 +1150,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		flt_f_flag  = 1u << 4u,
 		flt_e_flag  = 1u << 5u,
 		got_exp_num = 1u << 6u,
-		math_op     = 1u << 7u,
 		digit_sep   = 1u << 8u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_C) ) {
@@ -1178,17 +1171,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & (math_op|got_exp_num)) || lit_flags==0 ) {
+				if( !(lit_flags & flt_e_flag) || (str[-1] != 'e' && str[-1] != 'E') ) { /// not an exponent's sign.
+					goto lex_c_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_c_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'F': case 'f':
@@ -1296,7 +1286,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		}
 		str++;
 	}
-	
+lex_c_style_decimal_end:
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
@@ -1320,7 +1310,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		flt_dot = 1u << 0u,
 		flt_e_flag = 1u << 1u,
 		got_exp_num = 1u << 2u,
-		math_op = 1u << 3u,
 		digit_sep = 1u << 4u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_Go) ) {
@@ -1342,17 +1331,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & math_op) || lit_flags==0 ) {
+				if( !(lit_flags & flt_e_flag) || (str[-1] != 'e' && str[-1] != 'E') ) { /// not an exponent's sign.
+					goto lex_go_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_go_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_go_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'E': case 'e':
@@ -1396,7 +1382,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		}
 		str++;
 	}
-	
+lex_go_style_decimal_end:
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
-- 
2.43.0


From 1f17040c333737d30badffd90f0b6d48a5dd7f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 46/91] fix: hex numbers with extra dots or exponents, or
 without digits, were accepted

---
 lex/lex.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 2c2f072..5d83dd0 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -561,6 +561,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingHexB4dot;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & (flt_dot|exponent_p) ) { /// too many float dots.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
@@ -577,6 +581,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyPs;
 					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & (one_hex|flt_dot)) ) { /// missing at least one hex number before hex exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexHexNoDigitsB4Exp;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearExp;
@@ -752,7 +760,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
+				if( lit_flags & (flt_dot|exponent_p) ) { /// too many float dots.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_go_style_hex_err;
+				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
 					goto lex_go_style_hex_err;
@@ -763,7 +775,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'P': case 'p':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
+				if( lit_flags & exponent_p ) { /// too many P's.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexTooManyPs;
+					goto lex_go_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexHexNoDigitsB4Exp;
 					goto lex_go_style_hex_err;
@@ -773,6 +789,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 					goto lex_go_style_hex_err;
 				} else {
 					lit_flags |= exponent_p;
+					lit_flags &= ~one_hex;
 					harbol_string_add_char(buf, chr);
 				}
 				break;
@@ -818,6 +835,9 @@ lex_go_style_hex_end:
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
+	} else if( !(lit_flags & one_hex) ) { /// hex float or int with no digits.
+		result = HarbolLexHexMissingDigits;
+		goto lex_go_style_hex_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_hex_err;
-- 
2.43.0


From e1d83fef732c919af236a33116b893b6ffaf377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 47/91] fix: decimal numbers with dots after exponents or
 clashing suffixes were accepted

---
 lex/lex.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 5d83dd0..45ff45f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1176,10 +1176,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		int_fast8_t const chr = *str;
 		switch( chr ) {
 			case '.':
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & (uflag|long1|long2) ) { /// int suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_decimal_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
@@ -1206,7 +1210,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingDotOrExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & flt_f_flag ) { /// already have an F float suffix.
+				} else if( lit_flags & (flt_f_flag|long1) ) { /// already have a float suffix.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltSuffix;
 					goto lex_c_style_decimal_err;
@@ -1261,7 +1265,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_decimal_err;
-				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long2|uflag)) ) { /// int suffix on float literal.
+				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long1|uflag|flt_f_flag)) ) { /// int suffix on float literal.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexIntSuffixOnFlt;
 					goto lex_c_style_decimal_err;
@@ -1307,7 +1311,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		str++;
 	}
 lex_c_style_decimal_end:
-	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
+	if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
@@ -1337,7 +1341,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_go_style_decimal_err;
@@ -1403,7 +1407,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		str++;
 	}
 lex_go_style_decimal_end:
-	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
+	if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
-- 
2.43.0


From 2c4263b9be645d87fbc8c374cb2d06c173b00ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 48/91] fix: octal escapes swallowed the digits that follow
 them

---
 lex/lex.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 45ff45f..21e3efd 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -473,18 +473,14 @@ HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const
 	if( !is_octal(*str) ) {
 		r = -1;
 	} else {
-		for( ; *str != 0; count++ ) {
+		for( ; *str != 0 && count < 3; count++ ) {
 			int_fast8_t const c = *str;
-			if( count > 3 ) {
-				return -1; /// out of range.
-			} else {
-				switch( c ) {
-					case '0': case '1': case '2': case '3':
-					case '4': case '5': case '6': case '7':
-						r = (r << 3) | (c - '0'); break;
-					default:
-						goto exit;
-				}
+			switch( c ) {
+				case '0': case '1': case '2': case '3':
+				case '4': case '5': case '6': case '7':
+					r = (r << 3) | (c - '0'); break;
+				default:
+					goto exit;
 			}
 			str++;
 		}
-- 
2.43.0


From 364162d5734618a893642812a9b0844717b4de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 49/91] fix: hex and unicode escapes beyond the last code point
 were accepted

---
 lex/lex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 21e3efd..986cc42 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -37,7 +37,7 @@ HARBOL_EXPORT bool is_valid_unicode(int32_t const u) {
 	/// It's not allowed to encode ASCII characters using \U or \u.
 	/// Some characters not in the basic character set (C11 5.2.1p3)
 	/// are allowed as exceptions.
-	return 0xA0u <= c || c=='$' || c=='@' || c=='`';
+	return (0xA0u <= c && c <= 0x10FFFFu) || c=='$' || c=='@' || c=='`';
 }
 
 HARBOL_EXPORT bool check_is_char(char const str[static 1], size_t const len, size_t const idx, int32_t const c) {
@@ -448,6 +448,10 @@ HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const *
 	} else {
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
+			if( is_hex(c) && r > 0x10FFFF >> 4 ) {
+				r = -1; /// out of range.
+				goto exit;
+			}
 			switch( c ) {
 				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
-- 
2.43.0


From ec101024771a28dd6767f8e7467d70f89f248ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 50/91] fix: unicode escapes with too few digits were accepted

---
 lex/lex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 986cc42..59c2425 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -496,7 +496,8 @@ exit:;
 
 HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **const end, size_t const encoding) {
 	int32_t r = 0;
-	for( size_t i=0; i < encoding*2; i++ ) {
+	size_t i = 0;
+	for( ; i < encoding*2; i++ ) {
 		int_fast8_t const c = *str;
 		switch( c ) {
 			case '0': case '1': case '2': case '3': case '4':
@@ -513,7 +514,7 @@ HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **co
 	}
 exit:;
 	*end = str;
-	return !is_valid_unicode(r)? -1 : r;
+	return( i < encoding*2 || !is_valid_unicode(r) )? -1 : r;
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
-- 
2.43.0


From a04d360bc25f05db06eb1f85887e797a4cfd8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 51/91] fix: string literals ending in a backslash were read
 past their end

---
 lex/lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 59c2425..f7bab6d 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1468,11 +1468,11 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 		if( c==0 ) {
 			result = HarbolLexSuddenEoFStr;
 			goto lex_str_err;
-		} else if( c=='\\' ) {
+		} else if( c=='\\' && !raw ) {
 			char const esc = *++str;
-			if( raw ) {
-				harbol_string_add_char(buf, c);
-				harbol_string_add_char(buf, esc);
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
 			} else {
 				switch( esc ) {
 					case 'a': harbol_string_add_char(buf, '\a'); break;
-- 
2.43.0


From a12d864a508f99e8738b569fb6c78b7806ec71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 52/91] fix: convert_runes_to_base_int was defined under
 another name

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index f7bab6d..3831bb1 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1697,7 +1697,7 @@ HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const r
 }
 
  
-HARBOL_EXPORT intmax_t convert_runes_to_base(
+HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        runes[const restrict static 1],
 	uint_fast8_t const   base,
 	int32_t const        numerals[const restrict static 1],
-- 
2.43.0


From f77f9b202fb75fca4424b4fe2827675dea5459f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 53/91] fix: file contents read as text weren't null-terminated

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 66c8473..704066e 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -465,9 +465,9 @@ static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file,
 	}
 	
 #ifdef __cplusplus
-	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize, sizeof *stream));
+	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize + 1, sizeof *stream));
 #else
-	uint8_t *restrict stream = calloc(filesize, sizeof *stream);
+	uint8_t *restrict stream = calloc(filesize + 1, sizeof *stream);
 #endif
 	if( stream==NULL ) {
 		*bytes = SIZE_MAX;
-- 
2.43.0


From 013373fe07e9b385ef55b0b3c7e7e091a49877f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 54/91] fix: octal numbers with a second leading zero were
 lexed as decimal

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 3831bb1..19846b1 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1427,7 +1427,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 				case 'x': case 'X': return lex_c_style_hex(str, end, buf, is_float);
 				case 'b': case 'B': return lex_c_style_binary(str, end, buf);
 				case '.':           return lex_c_style_decimal(str, end, buf, is_float);
-				case '1': case '2': case '3': case '4':
+				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
 									return lex_c_style_octal(str, end, buf, is_float);
 				default:            return lex_c_style_decimal(str, end, buf, is_float);
-- 
2.43.0


From 37d4d32038d22e98e5ab40c309d46a390fe6864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 55/91] fix: bytes_bitmask: mask of four or more bytes
 overflowed int

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 704066e..810df1b 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1136,7 +1136,7 @@ static inline NEVER_NULL(1) void harbol_trilink_set_c(void *const p, void *const
 
 
 static inline size_t bytes_bitmask(size_t const bytes) {
-	return (1 << (bytes * CHAR_BIT)) - 1;
+	return( bytes >= sizeof(size_t) )? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;
 }
 
 #endif /** HARBOL_COMMON_INCLUDES_INCLUDED */
-- 
2.43.0


From 70ac72dbabb5df6c62ddb7254a199c7e3620c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 56/91] fix: make_int_log_tables: floating logarithms
 misrounded, shift past the word

---
 harbol_common_includes.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 810df1b..e35ed0e 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -848,8 +848,11 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 	if( base < 3 ) {
 		return 0;
 	}
-	/// floor( log ~0 / log base ) === highest power of the base `size_t` or other int types can reach.
-	size_t const num_exp = ( size_t )(log(SIZE_MAX) / log(base)) + 1;
+	/// highest power of the base `size_t` or other int types can reach.
+	size_t num_exp = 1;
+	for( size_t n=SIZE_MAX / base; n > 0; n /= base ) {
+		num_exp++;
+	}
 	size_t *powers = calloc(num_exp + 1, sizeof *powers);
 	if( powers==NULL ) {
 		return 0;
@@ -864,8 +867,12 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 	*powers_of_N = powers;
 	
 	/// generate log of N table.
-	for( size_t i=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
-		(*logN_table)[i] = floor( log(1UL << i) / log(base) );
+	for( size_t i=0, n=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
+		size_t const max_val = ( i < MAX_LOG_TABLE_SIZE-1 )? ( size_t )(1) << i : SIZE_MAX;
+		while( n + 1 < num_exp && powers[n + 1] <= max_val ) {
+			n++;
+		}
+		(*logN_table)[i] = n;
 	}
 	return num_exp;
 }
-- 
2.43.0


From 02cf26a76a96d6e28004a09a54310570e51190ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 57/91] fix: mtwister: state words wider than 32 bits made the
 doubles repeat with period 227

---
 mtwister/mtwister.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mtwister/mtwister.h b/mtwister/mtwister.h
index 104bf55..24803d5 100644
--- a/mtwister/mtwister.h
+++ b/mtwister/mtwister.h
@@ -13,6 +13,7 @@ enum {
 	
 	UPPER_MASK          = 0x80000000UL,
 	LOWER_MASK          = 0x7fffffffUL,
+	WORD_MASK           = 0xffffffffUL, /** the generator's words have 32 bits. */
 	TEMPERING_MASK_B    = 0x9d2c5680UL,
 	TEMPERING_MASK_C    = 0xefc60000UL,
 	
@@ -30,9 +31,9 @@ static inline void _MT_SeedRand(struct MTRand *const rand, size_t const seed) {
 	 * from Line 25 of Table 1 in: Donald Knuth, "The Art of Computer
 	 * Programming," Vol. 2 (2nd Ed.) pp.102.
 	 */
-	rand->mt[0] = seed & SIZE_MAX;
+	rand->mt[0] = seed & WORD_MASK;
 	for( rand->index=1; rand->index < STATE_VECTOR_LENGTH; rand->index++ ) {
-		rand->mt[rand->index] = (6069UL * rand->mt[rand->index - 1]) & SIZE_MAX;
+		rand->mt[rand->index] = (6069UL * rand->mt[rand->index - 1]) & WORD_MASK;
 	}
 }
 
@@ -81,7 +82,7 @@ static inline size_t MT_GenRand_UInt(struct MTRand *const rand) {
  * Generates a pseudo-randomly generated double in the range [0...1].
  */
 static inline double MT_GenRand_F64(struct MTRand *const rand) {
-	return ( double )(MT_GenRand_UInt(rand)) / SIZE_MAX;
+	return ( double )(MT_GenRand_UInt(rand)) / WORD_MASK;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 02fd566c1ae758b7858d930df5c68cb3a08813cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 58/91] fix: msg_span: a source without a line break lost its
 first character

---
 msg_span/msg_span.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..ba7a46e 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,15 +25,29 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
+	bool const got_code = (( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
 	if( is_filename ) {
+		if( !got_code ) {
+			return false;
+		}
 		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
 	}
 	lex_fix_newlines(&msgspan->src.code, true);
 	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
+	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
 	if( newlines==0 ) {
-		newlines = 1;
+		/// a single line.
+		msgspan->src.lines = calloc(1, sizeof *msgspan->src.lines);
+		if( msgspan->src.lines==NULL ) {
+			harbol_string_clear(&msgspan->src.code);
+			return false;
+		}
+		msgspan->src.len = 1;
+		harbol_string_copy_str(&msgspan->src.lines[0], &msgspan->src.code);
+		if( free_src_str ) {
+			harbol_string_clear(&msgspan->src.code);
+		}
+		return true;
 	}
 	
 	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
-- 
2.43.0


From bbe880c4e3d9a771720a17129364433b2c1e5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 59/91] fix: msg_span: kept source code ended at its first line
 break

---
 msg_span/msg_span.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index ba7a46e..e967fc8 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -78,6 +78,10 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
+	} else {
+		for( size_t i=0; i < newlines; i++ ) {
+			msgspan->src.code.cstr[newline_offs[i]] = '\n';
+		}
 	}
 	free(newline_offs); newline_offs = NULL;
 	return true;
-- 
2.43.0


From c73ac56a0d6a9ac9e5aaceb7f77a5cb70d0c4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 60/91] fix: msg_span: blank lines and empty spans were printed
 as (null)

---
 msg_span/msg_span.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index e967fc8..abbe3d3 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -205,7 +205,7 @@ static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, stru
 		struct HarbolString line_num_pad = {0};
 		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
 		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr);
+		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr==NULL? "" : code_line->cstr);
 		harbol_string_clear(&line_num_pad);
 	}
 }
@@ -269,7 +269,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
+			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr==NULL? "" : hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
 			harbol_string_clear(&colm_pad);
 			harbol_string_clear(&hilighter);
 		}
-- 
2.43.0


From a09ac363895600c9c62074bd3299e42183a15802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 61/91] fix: msg_span: clearing twice crashed, a cleared source
 still had lines

---
 msg_span/msg_span.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index abbe3d3..46d98e1 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -119,6 +119,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From 3b590af294d94cdd3442129f81d63f6e17dad162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 62/91] fix: math number literals of 64 or more characters
 overflow the token

---
 math/math_parser.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..2936bdc 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -38,14 +38,21 @@ struct HarbolMathLexer {
 };
 
 
+/// the lexeme always stays null-terminated; what does not fit in it is dropped.
+static NO_NULL void _harbol_math_save_char(struct HarbolMathToken *const tok, char const c) {
+	if( tok->size < LEXEME_SIZE - 1 ) {
+		tok->lexeme[tok->size] = c;
+		tok->size++;
+	}
+}
+
 static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	bool has_dot = false;
 	while( expression[ls->idx] != 0 && (isalnum(expression[ls->idx]) || expression[ls->idx]=='.') ) {
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_save_char(&ls->tok, expression[ls->idx]);
 				ls->idx++;
 				break;
 			}
@@ -54,15 +61,13 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 					//LogError("ConfigMap-Math :: extra dot in decimal literal");
 					return false;
 				}
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_save_char(&ls->tok, expression[ls->idx]);
 				ls->idx++;
 				has_dot = true;
 				break;
 			}
 			default: {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_save_char(&ls->tok, expression[ls->idx]);
 				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
 				return false;
 			}
@@ -87,9 +92,11 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			case '5': case '6': case '7': case '8': case '9': {
 				ls->tok.tag = TokenNum;
 				/// Decimal/Float.
+				char const *const literal = &expression[ls->idx];
 				bool const res = _harbol_math_lex_decimal(ls, expression);
 				if( res ) {
-					ls->tok.val = strtofmax(ls->tok.lexeme, NULL);
+					/// the literal might be longer than the lexeme.
+					ls->tok.val = strtofmax(literal, NULL);
 				}
 				return res;
 			}
-- 
2.43.0


From 0419184ea60e7a6350986e6e0455219d0e7fda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 63/91] fix: math names of 64 or more characters unterminated
 or split in two

---
 math/math_parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index 2936bdc..97a5605 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -165,12 +165,16 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			}
 			default: {
 				bool got_something = false;
-				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE ) {
+				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE - 1 ) {
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 					ls->idx++;
 					ls->tok.size++;
 					got_something = true;
 				}
+				if( isalnum(expression[ls->idx]) ) {
+					//LogError("ConfigMap-Math :: name too long '%s'.", ls->tok.lexeme);
+					return false;
+				}
 				if( got_something ) {
 					ls->tok.tag = TokenVar;
 					return true;
-- 
2.43.0


From 9613bb0056666a1fd8c4a93877fc8ea02304008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 64/91] fix: malformed math number literals evaluate to zero

---
 math/math_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math/math_parser.c b/math/math_parser.c
index 97a5605..4a732c6 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -97,6 +97,8 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 				if( res ) {
 					/// the literal might be longer than the lexeme.
 					ls->tok.val = strtofmax(literal, NULL);
+				} else {
+					ls->tok.tag = TokenInvalid;
 				}
 				return res;
 			}
-- 
2.43.0


From 83f4987941d98e0633f975dd021305f0d21ce16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 65/91] fix: cfg: release strings and included configs when an
 entry is rejected

---
 cfg/cfg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 69ddaa3..0fd4c80 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -183,6 +183,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_clear(&keystr);
+			harbol_string_clear(&file_path);
 			return false;
 		}
 		
@@ -197,6 +198,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
 			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
 			harbol_string_clear(&file_path);
+			if( !inclusion_res ) {
+				harbol_variant_clear(&var);
+				harbol_cfg_free(&included_cfg);
+			}
 			return inclusion_res;
 		}
 	} else {
@@ -259,6 +264,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_clear(&keystr);
+			harbol_string_free(&str);
 			return false;
 		}
 		char *math_marker = strstr(str->cstr, "<math");
@@ -492,6 +498,7 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 	fclose(cfgfile); cfgfile = NULL;
 	if( !read_result ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: failed to read file '%s' into string.\n", filename);
+		harbol_string_clear(&cfg);
 		return NULL;
 	}
 	/// fix up new lines and tabs.
-- 
2.43.0


From b5c2e80b9f4b4e19f74fe39df4716c7e36ef5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 66/91] fix: cfg: don't convert a malformed colour or vector
 element

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 0fd4c80..a4c62a9 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -308,7 +308,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolString numstr = {0};
 			enum HarbolCfgType type = HarbolCfgType_Null;
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
-			if( iterations < 4 ) {
+			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
 					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
 				} else {
-- 
2.43.0


From 53abd496ac4f8f4ca748fea5159fae77f3b1cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 67/91] fix: cfg: empty string values have no text to search
 for math

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a4c62a9..8ecbb6b 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -267,7 +267,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_free(&str);
 			return false;
 		}
-		char *math_marker = strstr(str->cstr, "<math");
+		char *math_marker = harbol_string_empty(str)? NULL : strstr(str->cstr, "<math");
 		if( math_marker != NULL ) {
 			char *const math_start = math_marker + sizeof "<math"-1;
 			char *const math_end = strchr(math_start, '>');
-- 
2.43.0


From e7e737c6cc6e6ad6c5f67ab3e38228bef210a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 68/91] fix: cfg: math in a key replaces exactly its own text

---
 cfg/cfg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 8ecbb6b..a10e86f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -131,9 +131,11 @@ static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *con
 	math_end[0] = '>';
 	if( replace_str_with_res ) {
 		size_t const start = ( size_t )(math_str - str->cstr);
-		char result_str[30] = {0};
-		snprintf(&result_str[0],  sizeof result_str - 1,  "%" PRIfMAX "", result);
-		harbol_string_replace_range(str, start, (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - math_str), result_str);
+		char *result_str = sprintf_alloc("%" PRIfMAX "", result);
+		if( result_str != NULL ) {
+			harbol_string_replace_range(str, start, ( size_t )(math_end - str->cstr), result_str);
+			free(result_str); result_str = NULL;
+		}
 	}
 	return result;
 }
-- 
2.43.0


From 7c7bd711f1522d54faa5e453d11e0147c7465507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 69/91] fix: cfg: math in a string value without its ending '>'
 crashed

---
 cfg/cfg.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a10e86f..a78abf6 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -273,16 +273,16 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( math_marker != NULL ) {
 			char *const math_start = math_marker + sizeof "<math"-1;
 			char *const math_end = strchr(math_start, '>');
-			if( math_end != NULL ) {
+			if( math_end==NULL ) {
+				harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: missing ending '>' for math expression of key '%s'.\n", keystr.cstr);
+			} else {
 				*math_end = 0;
-			}
-			floatmax_t const expr_result = harbol_math_parse_expr(math_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
-			if( math_end != NULL ) {
+				floatmax_t const expr_result = harbol_math_parse_expr(math_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
 				*math_end = '>';
+				char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
+				harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
+				free(number); number = NULL;
 			}
-			char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
-			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
-			free(number); number = NULL;
 		}
 		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
 		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-- 
2.43.0


From 2bb56f20e9f7256fd5e902e95c15bba8546cca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 70/91] fix: cfg: look for duplicate keys once enums and math
 are put in

---
 cfg/cfg.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a78abf6..e18dae9 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -166,10 +166,6 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: empty string key '%s'.\n", keystr.cstr);
 		harbol_string_clear(&keystr);
 		return false;
-	} else if( harbol_map_has_key(map, keystr.cstr, keystr.len+1) ) {
-		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", keystr.cstr);
-		harbol_string_clear(&keystr);
-		return false;
 	}
 	skip_ws_and_comments(cfgcoderef, parse_state);
 	
@@ -226,6 +222,11 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			++parse_state->global_enum;
 		}
 		_harbol_cfg_parse_inline_math(&keystr, parse_state, true);
+		if( harbol_map_has_key(map, keystr.cstr, keystr.len+1) ) {
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", keystr.cstr);
+			harbol_string_clear(&keystr);
+			return false;
+		}
 	}
 	
 	bool res = false;
-- 
2.43.0


From 08586bd5915246733c61562c7271e49cb9f7183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 71/91] fix: cfg: binary integers and digit separators changed
 the number

---
 cfg/cfg.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index e18dae9..6565a90 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -52,6 +52,28 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 	}
 }
 
+/// digit separators are for reading only.
+static NO_NULL void _remove_digit_seps(struct HarbolString *const str) {
+	size_t len = 0;
+	for( size_t i=0; i < str->len; i++ ) {
+		if( str->cstr[i] != '\'' ) {
+			str->cstr[len++] = str->cstr[i];
+		}
+	}
+	str->cstr[len] = 0;
+	str->len = len;
+}
+
+/// unlike 'strtoll' of C99, this also reads binary integers.
+static NO_NULL intmax_t _numstr_to_int(struct HarbolString const *const str) {
+	char const *const digits = str->cstr + (*str->cstr=='-' || *str->cstr=='+');
+	if( digits[0]=='0' && (digits[1]=='b' || digits[1]=='B') ) {
+		uintmax_t const u = strtoull(digits + 2, NULL, 2);
+		return ( intmax_t )(*str->cstr=='-'? 0 - u : u);
+	}
+	return strtoll(str->cstr, NULL, 0);
+}
+
 static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolString *const restrict str, enum HarbolCfgType *const typeref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
 		return false;
@@ -72,6 +94,7 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 		return false;
 	}
 	*strref = end;
+	_remove_digit_seps(str);
 	*typeref = (is_float)? HarbolCfgType_Float : HarbolCfgType_Int;
 	return str->len > 0;
 }
@@ -313,7 +336,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
 			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
-					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
+					matrix_value.color.array[iterations] = ( uint8_t )(_numstr_to_int(&numstr));
 				} else {
 					switch( iterations ) {
 						case 0: matrix_value.vec4d.x = lex_string_to_float(&numstr); break;
@@ -444,7 +467,7 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		floatmax_t f = lex_string_to_float(&numstr);
 		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
 	} else {
-		intmax_t i = strtoll(numstr.cstr, NULL, 0);
+		intmax_t i = _numstr_to_int(&numstr);
 		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
 	}
 	harbol_string_clear(&numstr);
-- 
2.43.0


From 70f555b6a21517b6d542a6c7e2b7c9b03777c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 72/91] fix: cfg: blanks after an included file ended the
 section it is in

---
 cfg/cfg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 6565a90..2053baa 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -209,6 +209,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		harbol_string_clear(&keystr);
+		skip_ws_and_comments(cfgcoderef, parse_state);
 		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
-- 
2.43.0


From 59ec2e4275aa45feead3edd1255e3ceb526b8db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 73/91] fix: cfg: including an unnamed file or a file being
 parsed crashed

---
 cfg/cfg.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 2053baa..10b6909 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -17,13 +17,16 @@ math    = "<math" expression ">" . /// See HarbolMath module for math parser's g
 ```
  */
 
-typedef struct {
+typedef struct HarbolCfgState {
 	size_t      errc;
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
+	struct HarbolCfgState const *includer; /// state of the config that included this one.
 	uint32_t    curr_line;
 } HarbolCfgState;
 
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *includer);
+
 
 static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
@@ -210,7 +213,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		
 		harbol_string_clear(&keystr);
 		skip_ws_and_comments(cfgcoderef, parse_state);
-		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
+		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : _harbol_cfg_parse_file(file_path.cstr, parse_state);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
@@ -512,8 +515,14 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 	return objs;
 }
 
-HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *const includer) {
 	HarbolCfgState parse_state = {0};
+	for( HarbolCfgState const *state = includer; state != NULL; state = state->includer ) {
+		if( state->cfg_filename != NULL && !strcmp(state->cfg_filename, filename) ) {
+			harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: file '%s' includes itself.\n", filename);
+			return NULL;
+		}
+	}
 	FILE *restrict cfgfile = fopen(filename, "r");
 	if( cfgfile==NULL ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: unable to find file '%s'.\n", filename);
@@ -531,11 +540,15 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 	/// fix up new lines and tabs.
 	lex_fix_newlines(&cfg, true);
 	parse_state.cfg_filename = filename;
+	parse_state.includer     = includer;
 	struct HarbolMap *const restrict objs = _harbol_cfg_parse(cfg.cstr, &parse_state);
 	harbol_string_clear(&cfg);
 	return objs;
 }
 
+HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
+	return _harbol_cfg_parse_file(filename, NULL);
+}
 
 HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_cstr(char const cfgcode[static 1]) {
 	HarbolCfgState parse_state = {0};
-- 
2.43.0


From e75d192b05b606752e121ba6265c3a3657c29c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 74/91] fix: math: deeply nested expressions overflowed the
 stack

---
 math/math_parser.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index 4a732c6..2fd4e23 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -7,6 +7,7 @@
 
 enum {
 	LEXEME_SIZE = 64,
+	MAX_NESTING = 1000, /// of signs, brackets, and function arguments.
 };
 
 enum HarbolMathTokenType {
@@ -34,7 +35,7 @@ struct HarbolMathLexer {
 	struct HarbolMathToken   tok;
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
-	size_t                   expr_len, idx, data_len;
+	size_t                   expr_len, idx, data_len, nesting;
 };
 
 
@@ -255,14 +256,28 @@ floatmax_t harbol_math_parse_pow_expr(struct HarbolMathLexer *const restrict ls,
 
 /// UnaryExpr = *( '-' | '+' ) Factor .
 floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
+	/// don't let an expression exhaust the call stack.
+	if( ls->nesting >= MAX_NESTING ) {
+		union {
+			uintmax_t  u;
+			floatmax_t f;
+		} const value = { UINTMAX_MAX };
+		return value.f;
+	}
+	
+	floatmax_t val = 0;
+	ls->nesting++;
 	if( ls->tok.tag==TokenSub ) {
 		_harbol_math_get_token(ls, expression);
-		return -harbol_math_parse_unary_expr(ls, expression);
+		val = -harbol_math_parse_unary_expr(ls, expression);
 	} else if( ls->tok.tag==TokenPlus ) {
 		_harbol_math_get_token(ls, expression);
-		return fabs( harbol_math_parse_unary_expr(ls, expression) );
+		val = fabs( harbol_math_parse_unary_expr(ls, expression) );
+	} else {
+		val = harbol_math_parse_factor(ls, expression);
 	}
-	return harbol_math_parse_factor(ls, expression);
+	ls->nesting--;
+	return val;
 }
 
 
-- 
2.43.0


From 045f7cd877e91108b8cb5d5647de952c3fdcbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 75/91] fix: cfg: deeply nested sections overflowed the stack

---
 cfg/cfg.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 10b6909..9b8d3d3 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -22,9 +22,14 @@ typedef struct HarbolCfgState {
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
 	struct HarbolCfgState const *includer; /// state of the config that included this one.
+	size_t      depth; /// how many sections and includes we're inside of.
 	uint32_t    curr_line;
 } HarbolCfgState;
 
+enum {
+	HARBOL_CFG_MAX_DEPTH = 1000,
+};
+
 static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *includer);
 
 
@@ -483,12 +488,17 @@ static bool harbol_cfg_parse_section(struct HarbolMap *const restrict map, char
 	if( **cfgcoderef!='{' ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: missing '{' but got '%c' for section.\n", **cfgcoderef);
 		return false;
+	} else if( parse_state->depth >= HARBOL_CFG_MAX_DEPTH ) {
+		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: sections are nested too deep.\n");
+		return false;
 	}
 	(*cfgcoderef)++;
 	skip_ws_and_comments(cfgcoderef, parse_state);
 	
 	while( **cfgcoderef != 0 && **cfgcoderef != '}' ) {
+		parse_state->depth++;
 		bool const res = harbol_cfg_parse_key_val(map, cfgcoderef, parse_state);
+		parse_state->depth--;
 		if( !res ) {
 			return false;
 		}
@@ -516,7 +526,7 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 }
 
 static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *const includer) {
-	HarbolCfgState parse_state = {0};
+	HarbolCfgState parse_state = { .depth = (includer==NULL)? 0 : includer->depth + 1 };
 	for( HarbolCfgState const *state = includer; state != NULL; state = state->includer ) {
 		if( state->cfg_filename != NULL && !strcmp(state->cfg_filename, filename) ) {
 			harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: file '%s' includes itself.\n", filename);
-- 
2.43.0


From 924efd7c17904c2d3ee22c35f54844eeff9d7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 76/91] fix: cfg: paths take one section per component, names
 may repeat and have dots

---
 cfg/cfg.c | 54 +++++++-----------------------------------------------
 1 file changed, 7 insertions(+), 47 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 9b8d3d3..5c53ad7 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -653,53 +653,10 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
-static NO_NULL bool harbol_cfg_parse_target_path(char const key[static 1], struct HarbolString *const restrict str) {
-	/// parse something like: "root.section1.section2.section3.\\.dotsection"
-	char const *iter = key;
-	iter += strlen(key) - 1;
-	while( iter != key ) {
-		if( *iter=='.' ) {
-			if( iter[-1]=='\\' ) {
-				iter--;
-			} else {
-				iter++;
-				break;
-			}
-		} else {
-			iter--;
-		}
-	}
-	
-	/// now we save the target section and then use the resulting string.
-	while( *iter != 0 ) {
-		if( *iter=='\\' ) {
-			iter++;
-			continue;
-		}
-		harbol_string_add_char(str, *iter++);
-	}
-	return str->len > 0;
-}
-
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
-	/// first check if we're getting a singular value OR we iterate through a sectional path.
-	char const *dot = strchr(key, '.');
-	
-	/// Patch: dot and escaped dot glitching out the hashmap hashing...
-	if( dot==NULL || (dot > key && (dot[-1] == '\\')) ) {
-		struct HarbolVariant *const restrict var = harbol_map_key_get(cfgmap, key, strlen(key)+1);
-		return( var==NULL || var->tag==HarbolCfgType_Null )? NULL : var;
-	}
-	
-	/// ok, not a singular value, iterate to the specific map section then.
-	/// parse the target key first.
+	/// iterate something like: "root.section1.section2.section3.\\.dotsection"
 	char const *iter = key;
-	struct HarbolString
-		sectionstr = {0},
-		targetstr = {0}
-	;
-	
-	harbol_cfg_parse_target_path(key, &targetstr);
+	struct HarbolString sectionstr = {0};
 	struct HarbolMap const *itermap = cfgmap;
 	struct HarbolVariant *restrict var = NULL;
 	while( itermap != NULL ) {
@@ -720,14 +677,17 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 			break;
 		}
 		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-		if( var==NULL || !harbol_string_cmpstr(&sectionstr, &targetstr) ) {
+		if( var==NULL || *iter==0 ) {
 			break;
 		} else if( var->tag==HarbolCfgType_Map ) {
 			itermap = *( struct HarbolMap const** )(var->data);
+		} else {
+			/// only sections can be descended into.
+			var = NULL;
+			break;
 		}
 	}
 	harbol_string_clear(&sectionstr);
-	harbol_string_clear(&targetstr);
 	return var;
 }
 
-- 
2.43.0


From beb736795f9159706b71c1b1c4cbcd391f29cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 77/91] fix: cfg: storing a string without text crashed

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 5c53ad7..b92fe3a 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -745,7 +745,7 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
-	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
+	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr==NULL? "" : str.cstr, override_convert);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
-- 
2.43.0


From 3aacf5e57f0c8e968c3dede59b9f1ed0341ab055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 78/91] fix: cfg: evaluating an empty string value crashed

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index b92fe3a..fe292b3 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -909,7 +909,7 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 
 HARBOL_EXPORT floatmax_t harbol_cfg_calc_math(struct HarbolMap const *const restrict cfg, char const key[const restrict static 1], HarbolMathVarFunc *const var_func, void *const restrict data, size_t const data_len) {
 	struct HarbolString *const restrict str = harbol_cfg_get_str(cfg, key);
-	if( str==NULL ) {
+	if( str==NULL || str->cstr==NULL ) {
 		union {
 			uintmax_t const  u;
 			floatmax_t const f;
-- 
2.43.0


From 7565132915082217773a42965cf9adcad0bd9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 79/91] fix: cfg: keys and string values were written without
 escapes

---
 cfg/cfg.c | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index fe292b3..a104ef7 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -604,6 +604,23 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 	}
 }
 
+/// makes a string literal that is read back as the same characters.
+static NO_NULL struct HarbolString _make_literal(char const cstr[static 1]) {
+	struct HarbolString str = harbol_string_make("\"", &( bool ){false});
+	for( char const *iter = cstr; *iter != 0; iter++ ) {
+		switch( *iter ) {
+			case '"':  harbol_string_add_cstr(&str, "\\\""); break;
+			case '\\': harbol_string_add_cstr(&str, "\\\\"); break;
+			case '\n': harbol_string_add_cstr(&str, "\\n");  break;
+			case '\r': harbol_string_add_cstr(&str, "\\r");  break;
+			case '\t': harbol_string_add_cstr(&str, "\\t");  break;
+			default:   harbol_string_add_char(&str, *iter);  break;
+		}
+	}
+	harbol_string_add_char(&str, '"');
+	return str;
+}
+
 HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
 	static size_t tabs = 0;
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
@@ -613,7 +630,9 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 		union ConfigVal const cv = { var->data };
 		
 		_concat_tabs(str, tabs);
-		harbol_string_format(str, false, "\"%s\": ", ( char const* )(map->keys[i]));
+		struct HarbolString key = _make_literal(( char const* )(map->keys[i]));
+		harbol_string_format(str, false, "%s: ", key.cstr);
+		harbol_string_clear(&key);
 		switch( var->tag ) {
 			case HarbolCfgType_Null:
 				harbol_string_add_cstr(str, "null\n");
@@ -630,9 +649,12 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				harbol_string_add_cstr(str, "}\n");
 				break;
 			}
-			case HarbolCfgType_String:
-				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr);
+			case HarbolCfgType_String: {
+				struct HarbolString literal = _make_literal((*cv.str)->cstr==NULL? "" : (*cv.str)->cstr);
+				harbol_string_format(str, false, "%s\n", literal.cstr);
+				harbol_string_clear(&literal);
 				break;
+			}
 			case HarbolCfgType_Float:
 				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
 				break;
@@ -869,7 +891,9 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 		int32_t const type = v->tag;
 		_write_tabs(file, tabs);
 		/// using double pointer iterators as we need the key.
-		fprintf(file, "\"%s\": ", ( char const* )(map->keys[i]));
+		struct HarbolString key = _make_literal(( char const* )(map->keys[i]));
+		fprintf(file, "%s: ", key.cstr);
+		harbol_string_clear(&key);
 		
 		union ConfigVal const cv = { v->data };
 		switch( type ) {
@@ -882,7 +906,12 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 				fputs("}\n", file);
 				break;
 			
-			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr);       break;
+			case HarbolCfgType_String: {
+				struct HarbolString literal = _make_literal((*cv.str)->cstr==NULL? "" : (*cv.str)->cstr);
+				fprintf(file, "%s\n", literal.cstr);
+				harbol_string_clear(&literal);
+				break;
+			}
 			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
 			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
 			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
-- 
2.43.0


From 3a11f4cc0e8187f18cfe6c88ca5575452744f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 80/91] fix: cfg: floats and vectors were written with lost
 digits

---
 cfg/cfg.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a104ef7..e8d5d43 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -604,6 +604,25 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 	}
 }
 
+/// "%f" where it loses nothing, otherwise as many digits as the type holds.
+static char const *_float_fmt(floatmax_t const val) {
+	char text[5000] = {0};
+	snprintf(&text[0], sizeof text, "%" PRIfMAX "", val);
+	return strtold(text, NULL)==val? "%" PRIfMAX "" : "%.20Le";
+}
+
+static char const *_vec_fmt(struct HarbolVec4D const *const vec) {
+	float const vals[] = { vec->x, vec->y, vec->z, vec->w };
+	for( size_t i=0; i < sizeof vals / sizeof vals[0]; i++ ) {
+		char text[100] = {0};
+		snprintf(&text[0], sizeof text, "%" PRIf32 "", vals[i]);
+		if( ( float )(strtold(text, NULL)) != vals[i] ) {
+			return "v[ %.8e, %.8e, %.8e, %.8e ]\n";
+		}
+	}
+	return "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n";
+}
+
 /// makes a string literal that is read back as the same characters.
 static NO_NULL struct HarbolString _make_literal(char const cstr[static 1]) {
 	struct HarbolString str = harbol_string_make("\"", &( bool ){false});
@@ -656,7 +675,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			}
 			case HarbolCfgType_Float:
-				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
+				harbol_string_format(str, false, _float_fmt(*cv.f), *cv.f);
+				harbol_string_add_char(str, '\n');
 				break;
 			case HarbolCfgType_Int:
 				harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i);
@@ -668,7 +688,7 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a);
 				break;
 			case HarbolCfgType_Vec4D:
-				harbol_string_format(str, false, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w);
+				harbol_string_format(str, false, _vec_fmt(cv.v), cv.v->x, cv.v->y, cv.v->z, cv.v->w);
 				break;
 		}
 	}
@@ -912,13 +932,13 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 				harbol_string_clear(&literal);
 				break;
 			}
-			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
+			case HarbolCfgType_Float:  fprintf(file, _float_fmt(*cv.f), *cv.f); fputc('\n', file); break;
 			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
 			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
 			case HarbolCfgType_Color:
 				fprintf(file, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a); break;
 			case HarbolCfgType_Vec4D:
-				fprintf(file, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w); break;
+				fprintf(file, _vec_fmt(cv.v), cv.v->x, cv.v->y, cv.v->z, cv.v->w); break;
 		}
 	}
 	return true;
-- 
2.43.0


From 6a6bfc8c1cc071f7183d15de371d95a458fa4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 81/91] fix: cfg: storing an empty string kept the old one

---
 cfg/cfg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index e8d5d43..d692b8a 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -803,6 +803,11 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		}
 		return false;
 	}
+	if( *cstr==0 ) {
+		/// an empty C string isn't copied.
+		harbol_string_clear(*( struct HarbolString** )(var->data));
+		return true;
+	}
 	harbol_string_copy_cstr(*( struct HarbolString** )(var->data), cstr);
 	return true;
 }
-- 
2.43.0


From 02c1002bd90d527f4e2d62094bc9505cf823dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 82/91] fix: plugins: a successful load or reload kept the
 error of an earlier failure

---
 plugins/plugins.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 868a5f5..78c0559 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -23,6 +23,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 		return false;
 	}
 	
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, false);
 	}
@@ -76,6 +77,7 @@ HARBOL_EXPORT bool harbol_plugin_reload(struct HarbolPlugin *const restrict pl,
 		pl->err = HarbolPluginErrCantReload;
 		return false;
 	}
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, true);
 	}
-- 
2.43.0


From 3ad9a5511ae6ad60c22d376779125091fc8ff12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 83/91] fix: plugins: loading reported success when the path
 could not be stored

---
 plugins/plugins.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 78c0559..d05f4e1 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -13,6 +13,12 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 	}
 	
 	pl->path = dup_cstr(strlen(path), path);
+	if( pl->path==NULL ) {
+		MODULE_CLOSE(pl->dll); pl->dll = NULL;
+		pl->err = HarbolPluginErrBadPath;
+		return false;
+	}
+	
 	struct stat result;
 	if( !stat(path, &result) ) {
 		pl->last_write = result.st_mtime;
-- 
2.43.0


From a149d24e8c006fe2a8a46a16b258cfae66b2fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 84/91] fix: plugins: a library replaced while being loaded or
 reloaded was never noticed as changed

---
 plugins/plugins.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index d05f4e1..8efb651 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -6,6 +6,9 @@
 
 
 HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, char const path[static 1], HarbolPluginEvent load_fn, void *const restrict userdata) {
+	/// the time is taken before opening so that a replacement made meanwhile shows up as a change.
+	struct stat result = {0};
+	bool const found = !stat(path, &result);
 	pl->dll = MODULE_LOAD(path);
 	if( pl->dll==NULL ) {
 		pl->err = HarbolPluginErrLibLoadFail;
@@ -19,8 +22,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 		return false;
 	}
 	
-	struct stat result;
-	if( !stat(path, &result) ) {
+	if( found ) {
 		pl->last_write = result.st_mtime;
 	} else {
 		MODULE_CLOSE(pl->dll); pl->dll = NULL;
@@ -78,11 +80,17 @@ HARBOL_EXPORT bool harbol_plugin_reload(struct HarbolPlugin *const restrict pl,
 		MODULE_CLOSE(pl->dll);
 	}
 	
+	struct stat result = {0};
+	bool const found = !stat(pl->path, &result);
 	pl->dll = MODULE_LOAD(pl->path);
 	if( pl->dll==NULL ) {
 		pl->err = HarbolPluginErrCantReload;
 		return false;
 	}
+	
+	if( found ) {
+		pl->last_write = result.st_mtime;
+	}
 	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, true);
-- 
2.43.0


From 6c721b066305f96daf15482ecd195fed105fa0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 85/91] fix: plugins: directory walk never ended at an entry
 that cannot be read

---
 plugins/plugins.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 8efb651..045626e 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -134,7 +134,8 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
-			continue;
+			/// skip what can't be read, like a dangling link.
+			goto dir_iter_loop;
 		} else if( file->is_dir ) {
 			if( file->name[0]=='.' ) {
 				/// advance if parent dir dot.
-- 
2.43.0


From 6fd789ef872487803c684eb5524e020c916f40d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 86/91] fix: plugins: directory that cannot be opened was
 reported as walked

---
 plugins/plugins.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 045626e..d4bd2d1 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -172,15 +172,17 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 		if( pl_dir==NULL )
 			return false;
 		
+		bool opened = false;
 		tinydir_dir *const restrict dir_handle = &( tinydir_dir ){0};
 		if( tinydir_open(dir_handle, pl_dir) < 0 ) {
 			fprintf(stderr, "Harbol Plugin Directory Error: **** unable to open dir: '%s' ****\n", pl_dir);
 			tinydir_close(dir_handle);
 		} else {
 			_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
+			opened = true;
 		}
 		free(pl_dir); pl_dir = NULL;
-		return true;
+		return opened;
 	}
 	return false;
 }
-- 
2.43.0


From dc7395844550c73ca1a6b3b273735249af9e3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 87/91] fix: plugins: directory walk followed links in circles
 and overflowed the stack on deep nesting

---
 plugins/plugins.c | 74 +++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index d4bd2d1..061ce02 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -130,33 +130,56 @@ HARBOL_EXPORT void *harbol_plugin_get_obj(struct HarbolPlugin *const restrict pl
 }
 
 
-static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const ext[static 1]) {
-	while( dir->has_next ) {
-		tinydir_file *file = &( tinydir_file ){0};
-		if( tinydir_readfile(dir, file) < 0 ) {
+/// one directory of the walk; kept off the stack so that deep nesting can't exhaust it.
+struct _PluginDir {
+	struct _PluginDir const *parent;
+	tinydir_dir              dir;
+	tinydir_file             file;    /// current entry; while in a sub directory, that directory.
+	struct stat              self;
+};
+
+/// a link can lead back to a directory that is already being walked.
+static bool _dir_is_walked(struct _PluginDir const *restrict pd, struct stat const *const restrict st) {
+#ifndef OS_WINDOWS
+	for( ; pd != NULL; pd = pd->parent ) {
+		if( pd->self.st_dev==st->st_dev && pd->self.st_ino==st->st_ino ) {
+			return true;
+		}
+	}
+#endif
+	return false;
+}
+
+static bool _dir_open(char const path[static 1], struct _PluginDir const *const parent, HarbolPluginDirEvent dir_fn, void *const userdata, char const ext[static 1]) {
+	struct _PluginDir *const pd = calloc(1, sizeof *pd);
+	if( pd==NULL ) {
+		return false;
+	}
+	
+	pd->parent = parent;
+	if( stat(path, &pd->self) != 0 || _dir_is_walked(parent, &pd->self) || tinydir_open(&pd->dir, path) < 0 ) {
+		free(pd);
+		return false;
+	}
+	while( pd->dir.has_next ) {
+		if( tinydir_readfile(&pd->dir, &pd->file) < 0 ) {
 			/// skip what can't be read, like a dangling link.
-			goto dir_iter_loop;
-		} else if( file->is_dir ) {
-			if( file->name[0]=='.' ) {
-				/// advance if parent dir dot.
-				goto dir_iter_loop;
+		} else if( pd->file.is_dir ) {
+			/// skip hidden directories, this and the parent one.
+			if( pd->file.name[0] != '.' ) {
+				_dir_open(pd->file.path, pd, dir_fn, userdata, ext);
 			}
-			tinydir_dir *const restrict sub_dir = &( tinydir_dir ){0};
-			if( tinydir_open(sub_dir, file->path) < 0 ) {
-				/// jumping to tinydir_next at end of loop so we can advance the dir iterator.
-				goto dir_iter_loop;
-			} else {
-				_dir_open(sub_dir, dir_fn, userdata, ext);
-			}
-		} else if( !strcmp(file->extension, ext) ) {
-			(*dir_fn)(file->path, file->name, userdata);
+		} else if( !strcmp(pd->file.extension, ext) ) {
+			(*dir_fn)(pd->file.path, pd->file.name, userdata);
 		}
-	dir_iter_loop:;
-		if( tinydir_next(dir) < 0 ) {
+		
+		if( tinydir_next(&pd->dir) < 0 ) {
 			break;
 		}
 	}
-	tinydir_close(dir);
+	tinydir_close(&pd->dir);
+	free(pd);
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[static 1]) {
@@ -172,14 +195,9 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 		if( pl_dir==NULL )
 			return false;
 		
-		bool opened = false;
-		tinydir_dir *const restrict dir_handle = &( tinydir_dir ){0};
-		if( tinydir_open(dir_handle, pl_dir) < 0 ) {
+		bool const opened = _dir_open(pl_dir, NULL, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
+		if( !opened ) {
 			fprintf(stderr, "Harbol Plugin Directory Error: **** unable to open dir: '%s' ****\n", pl_dir);
-			tinydir_close(dir_handle);
-		} else {
-			_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
-			opened = true;
 		}
 		free(pl_dir); pl_dir = NULL;
 		return opened;
-- 
2.43.0


From 09b723e4190382e4bd235b17e0d4a173cc2cb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 88/91] fix: harbol_string_read_from_file keeps the text and
 reports failure when nothing can be read

---
 str/str.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/str/str.c b/str/str.c
index 8776528..36fa10a 100644
--- a/str/str.c
+++ b/str/str.c
@@ -206,11 +206,16 @@ HARBOL_EXPORT bool harbol_string_is_palindrome(struct HarbolString const *const
 }
 
 HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str, FILE *const file) {
-	ssize_t const filesize = get_file_size(file);
-	if( filesize<=0 || !_harbol_resize_string(str, filesize) ) {
+	/// read apart from the old text, which has to survive a failure.
+	size_t bytes = 0;
+	char *const restrict text = ( char* )(make_buffer_from_file(file, &bytes));
+	if( text==NULL || bytes==0 ) {
+		free(text);
 		return false;
 	}
-	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	free(str->cstr);
+	str->cstr = text;
+	str->len = bytes;
 	return true;
 }
 
-- 
2.43.0


From 2a3979047ca281c024194f7a46b50160f6c403b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 89/91] fix: harbol_cfg_build_file reports a file that couldn't
 be written completely

---
 cfg/cfg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index d692b8a..b9fe84f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -955,9 +955,10 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 		fputs("harbol_cfg_build_file :: unable to create file.\n", stderr);
 		return false;
 	}
-	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0);
-	fclose(cfgfile); cfgfile=NULL;
-	return result;
+	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0) && !ferror(cfgfile);
+	/// what is still buffered gets written here.
+	bool const written = fclose(cfgfile)==0;
+	return result && written;
 }
 
 
-- 
2.43.0


From 1a963a8f27a692428537551f051589429522d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:21 +0000
Subject: [PATCH 90/91] fix: a message span that can't be made from a file
 releases the file's name

---
 msg_span/msg_span.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 46d98e1..069c54f 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -40,6 +40,7 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 		msgspan->src.lines = calloc(1, sizeof *msgspan->src.lines);
 		if( msgspan->src.lines==NULL ) {
 			harbol_string_clear(&msgspan->src.code);
+			harbol_string_clear(&msgspan->src.filename);
 			return false;
 		}
 		msgspan->src.len = 1;
@@ -53,6 +54,7 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
 	if( newline_offs==NULL ) {
 		harbol_string_clear(&msgspan->src.code);
+		harbol_string_clear(&msgspan->src.filename);
 		return false;
 	}
 	
@@ -65,6 +67,7 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	msgspan->src.lines = calloc(newlines + 1, sizeof *msgspan->src.lines);
 	if( msgspan->src.lines==NULL ) {
 		harbol_string_clear(&msgspan->src.code);
+		harbol_string_clear(&msgspan->src.filename);
 		free(newline_offs); newline_offs = NULL;
 		return false;
 	}
-- 
2.43.0


From f07ecbdc4c652942961182245bf507491e0199a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:00 +0000
Subject: [PATCH 91/91] fix: harbol_cfg_set_cstr keeps the old value and
 reports failure when the new one can't be made

---
 cfg/cfg.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index b9fe84f..71408cf 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -796,9 +796,16 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_String ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
+			bool made_var = false;
 			struct HarbolString *str = harbol_string_new(cstr);
-			*var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
+			struct HarbolVariant const new_var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &made_var);
+			if( str==NULL || !made_var ) {
+				harbol_string_free(&str);
+				free(new_var.data);
+				return false;
+			}
+			_harbol_cfgkey_clear(var);
+			*var = new_var;
 			return true;
 		}
 		return false;
-- 
2.43.0

