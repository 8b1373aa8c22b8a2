From a44d99e354c8e51ae96ee2b78da764f91bd90449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 01/86] fix: json real encoding loses precision

Doubles in the float range were always stored as float, so that the value
read back was not the value written (0.1, while -0.1 is stored exactly).
---
 amelie/runtime/json/json.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/json.h b/amelie/runtime/json/json.h
index f2430c6..91c0cec 100644
--- a/amelie/runtime/json/json.h
+++ b/amelie/runtime/json/json.h
@@ -400,10 +400,17 @@ json_is_bool(uint8_t* data)
 }
 
 // real
+always_inline hot static inline bool
+json_real_is_float(double value)
+{
+	// use float only if it represents the value without precision loss
+	return value >= FLT_MIN && value <= FLT_MAX && (float)value == value;
+}
+
 always_inline hot static inline int
 json_size_real(double value)
 {
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_real_is_float(value))
 		return json_size_type() + sizeof(float);
 	return json_size_type() + sizeof(double);
 }
@@ -437,7 +444,7 @@ always_inline hot static inline void
 json_write_real(uint8_t** pos, double value)
 {
 	uint8_t* data = *pos;
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_real_is_float(value))
 	{
 		*data = JSON_REAL32;
 		*(float*)(data + json_size_type()) = value;
-- 
2.43.0


From 846144d6fcd824fab83419a12204177c5a3191e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 02/86] fix: hash index set can store a key twice after a
 delete

---
 amelie/db/index/hash_store.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index 8fea624..ab8b32f 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -64,16 +64,24 @@ hash_store_set(HashStore* self, Row* key)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t place = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
-		if (!ref || ref == HT_DELETED)
+		if (! ref)
 		{
-			self->rows[pos] = key;
-			self->count++;
-			return NULL;
+			if (place == UINT64_MAX)
+				place = pos;
+			break;
 		}
 
+		// reuse deleted slot, only if the key does not exist
+		// further in the chain
+		if (ref == HT_DELETED)
+		{
+			if (place == UINT64_MAX)
+				place = pos;
+		} else
 		if (! compare(self->keys, ref, key))
 		{
 			self->rows[pos] = key;
@@ -83,8 +91,12 @@ hash_store_set(HashStore* self, Row* key)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
-	return false;
+	if (unlikely(place == UINT64_MAX))
+		error("hashtable overflow");
+
+	self->rows[place] = key;
+	self->count++;
+	return NULL;
 }
 
 hot static inline Row*
-- 
2.43.0


From 31bb905a3bc3559ec30fc60e6655dd9396ece739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 03/86] fix: hash index lookup of a missing key fails when all
 slots were used

---
 amelie/db/index/hash_store.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index ab8b32f..183ea95 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -131,17 +131,20 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t place = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
 		if (! ref)
 		{
-			*at = pos;
-			return NULL;
+			if (place == UINT64_MAX)
+				place = pos;
+			break;
 		}
 		if (ref == HT_DELETED)
 		{
-			*at = pos;
+			if (place == UINT64_MAX)
+				place = pos;
 		} else
 		{
 			if (! compare(self->keys, ref, key))
@@ -154,7 +157,11 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
+	if (unlikely(place == UINT64_MAX))
+		error("hashtable overflow");
+
+	// first slot which can be used for the key
+	*at = place;
 	return NULL;
 }
 
-- 
2.43.0


From e27e2b4401e5eee61f4be0422734620ef8ddeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 04/86] fix: hash index rehashing breaks collision chains of
 the previous table

---
 amelie/db/index/hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 3802f17..1366370 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -78,7 +78,7 @@ hash_rehash(Hash* self)
 			continue;
 		}
 		hash_store_set(self->current, ref);
-		prev->rows[self->rehashing_pos] = NULL;
+		prev->rows[self->rehashing_pos] = HT_DELETED;
 		prev->count--;
 
 		self->rehashing_pos++;
@@ -131,7 +131,7 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 			{
 				// move to the current
 				self->current->rows[current_pos] = prev;
-				self->prev->rows[prev_pos] = NULL;
+				self->prev->rows[prev_pos] = HT_DELETED;
 				self->prev->count--;
 				self->current->count++;
 			}
-- 
2.43.0


From bc66f7d30e4ee96277c51cdc40f3deb4f6318e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 05/86] fix: hash index upsert position refers to the previous
 table after rehashing

---
 amelie/db/index/hash.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 1366370..2c6e27f 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -160,6 +160,16 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 		if (hash_store_is_full(self->current))
 		{
 			hash_rehash_start(self);
+
+			// move the row to the new table, position
+			// is always relative to the current table
+			auto row = self->prev->rows[current_pos];
+			self->prev->rows[current_pos] = HT_DELETED;
+			self->prev->count--;
+			hash_store_get(self->current, row, pos);
+			self->current->rows[*pos] = row;
+			self->current->count++;
+
 			hash_rehash(self);
 		}
 	}
-- 
2.43.0


From ebebfeeff3fad38615c9295d12f063f65df196b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 06/86] fix: tree index search relies on the magnitude of key
 comparison

---
 amelie/db/index/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/tree.c b/amelie/db/index/tree.c
index 7af0a15..f66a069 100644
--- a/amelie/db/index/tree.c
+++ b/amelie/db/index/tree.c
@@ -91,7 +91,7 @@ tree_search_page_for_write(Tree*        self,
 	*page_rel = tree_find(&self->tree, self, key, page_ref);
 	assert(*page_ref != NULL);
 	TreePage* page = tree_of(*page_ref);
-	if (*page_rel == 1)
+	if (*page_rel > 0)
 	{
 		auto prev = rbtree_prev(&self->tree, *page_ref);
 		if (prev)
-- 
2.43.0


From 37e369a8d26d6515f1029823f211eaf1b01759ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 07/86] fix: tree index range scan stops at the end of a page

---
 amelie/db/index/tree_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/db/index/tree_iterator.h b/amelie/db/index/tree_iterator.h
index 1fdf396..9c508c7 100644
--- a/amelie/db/index/tree_iterator.h
+++ b/amelie/db/index/tree_iterator.h
@@ -38,9 +38,14 @@ tree_iterator_open(TreeIterator* self, Row* key)
 	self->page_pos = pos.page_pos;
 	if (self->page_pos >= self->page->keys_count)
 	{
+		// key is greater then the last key of the page,
+		// continue from the next page
+		auto next = rbtree_next(&self->tree->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (unlikely(next == NULL))
+			return false;
+		self->page = container_of(next, TreePage, node);
 	}
 	self->current = self->page->rows[self->page_pos];
 	return match;
-- 
2.43.0


From e581e6b15c37d4b47166c23ab2417339041caabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 08/86] fix: tree index merge relies on the magnitude of key
 comparison

---
 amelie/db/index/index_tree_merge.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/amelie/db/index/index_tree_merge.h b/amelie/db/index/index_tree_merge.h
index d917966..4b212c8 100644
--- a/amelie/db/index/index_tree_merge.h
+++ b/amelie/db/index/index_tree_merge.h
@@ -53,16 +53,10 @@ index_tree_merge_step(IndexTreeMerge* self)
 			continue;
 		}
 
-		auto rc = compare(current->tree->keys, min, row);
-		switch (rc) {
-		case 0:
-			break;
-		case 1:
+		if (compare(current->tree->keys, min, row) > 0)
+		{
 			min_iterator = current;
 			min = row;
-			break;
-		case -1:
-			break;
 		}
 	}
 
-- 
2.43.0


From ada9336a8b95f30cd161763abea2537661aeb3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 09/86] fix: hash index merge stops after the first partition

---
 amelie/db/index/index_hash_merge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/index_hash_merge.h b/amelie/db/index/index_hash_merge.h
index 4d65070..c4b2adc 100644
--- a/amelie/db/index/index_hash_merge.h
+++ b/amelie/db/index/index_hash_merge.h
@@ -81,7 +81,7 @@ index_hash_merge_next(Iterator* arg)
 	for (;;)
 	{
 		self->current_it_order++;
-		if (self->current_it_order < self->list_count)
+		if (self->current_it_order >= self->list_count)
 			break;
 		auto at = &list[self->current_it_order];
 		if (hash_iterator_has(at))
-- 
2.43.0


From ba75fc2d7a82238d9700827ebb860fe2c51e8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 10/86] fix: object region and index sizes ignore data without
 compression

---
 amelie/db/object/meta_writer.h | 4 ++--
 amelie/db/storage/encoder.h    | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index ad30d9e..9fab4a7 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -90,7 +90,7 @@ meta_writer_stop(MetaWriter* self)
 	meta->magic             = META_MAGIC;
 	meta->version           = META_VERSION;
 	meta->size_origin       = meta->size;
-	meta->size              = encoder_iov(encoder)->iov_len;
+	meta->size              = encoder_iov_size(encoder);
 	meta->size_total        =
 		meta->size_regions + meta->size + sizeof(Meta);
 	meta->size_total_origin =
@@ -109,7 +109,7 @@ meta_writer_add(MetaWriter*   self,
 	assert(region->rows > 0);
 
 	// get region size
-	uint32_t size = encoder_iov(&region_writer->encoder)->iov_len;
+	uint32_t size = encoder_iov_size(&region_writer->encoder);
 
 	// calculate region crc
 	uint32_t crc = 0;
diff --git a/amelie/db/storage/encoder.h b/amelie/db/storage/encoder.h
index 1a120a6..ae4621a 100644
--- a/amelie/db/storage/encoder.h
+++ b/amelie/db/storage/encoder.h
@@ -114,6 +114,13 @@ encoder_iov_count(Encoder* self)
 	return self->iov.iov_count;
 }
 
+static inline int
+encoder_iov_size(Encoder* self)
+{
+	// total encoded size
+	return self->iov.size;
+}
+
 static inline uint32_t
 encoder_iov_crc(Encoder* self)
 {
-- 
2.43.0


From 44994764822c760d01dc50725cbdd4aea05aa901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 11/86] fix: file read and write of zero bytes fails

---
 amelie/runtime/os/vfs.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/amelie/runtime/os/vfs.c b/amelie/runtime/os/vfs.c
index f7b2ebe..ce555a4 100644
--- a/amelie/runtime/os/vfs.c
+++ b/amelie/runtime/os/vfs.c
@@ -126,7 +126,7 @@ int64_t
 vfs_read(int fd, void* buf, uint64_t size)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = read(fd, (char*)buf + n, size - n);
@@ -134,7 +134,7 @@ vfs_read(int fd, void* buf, uint64_t size)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
@@ -143,7 +143,7 @@ int64_t
 vfs_pread(int fd, uint64_t off, void* buf, uint64_t size)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = pread(fd, (char*)buf + n, size - n, off + n);
@@ -151,7 +151,7 @@ vfs_pread(int fd, uint64_t off, void* buf, uint64_t size)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
@@ -160,7 +160,7 @@ int64_t
 vfs_write(int fd, void* buf, uint64_t size)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = write(fd, (char*)buf + n, size - n);
@@ -168,7 +168,7 @@ vfs_write(int fd, void* buf, uint64_t size)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
@@ -177,7 +177,7 @@ int64_t
 vfs_pwrite(int fd, void* buf, uint64_t size, uint64_t offset)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = pwrite(fd, (char*)buf + n, size - n, offset + n);
@@ -185,7 +185,7 @@ vfs_pwrite(int fd, void* buf, uint64_t size, uint64_t offset)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
-- 
2.43.0


From 2310692be74e013a8d8887ac25b3641099d33465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 12/86] fix: object reader returns the first region for every
 region

---
 amelie/db/object/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 9aedfb7..21958a3 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -62,6 +62,7 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	encoder_reset(encoder);
 
 	// read region data from file
+	buf_reset(&self->buf_read);
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
-- 
2.43.0


From 6c3f5d76ec8ab14c9f473c12cb633112fdaea4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 13/86] fix: object with compressed index fails crc validation
 on open

---
 amelie/db/object/object.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 552f5ca..1729ee5 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -46,9 +46,10 @@ object_free(Object* self)
 }
 
 static void
-object_validate_index(Object* self, Branch* branch)
+object_validate_index(Object* self, Branch* branch, Buf* data)
 {
-	uint32_t crc = runtime()->crc(0, branch->meta_data.start, buf_size(&branch->meta_data));
+	// crc is calculated using encoded data
+	uint32_t crc = runtime()->crc(0, data->start, buf_size(data));
 	if (crc != branch->meta.crc_data)
 		error("object: file meta data '%s' crc mismatch",
 		      str_of(&self->file.path));
@@ -73,7 +74,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	if (! encoder_active(&encoder))
 	{
 		file_pread_buf(file, meta_data, meta->size, offset);
-		object_validate_index(self, branch);
+		object_validate_index(self, branch, meta_data);
 		return;
 	}
 
@@ -81,7 +82,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	auto buf = buf_create();
 	defer_buf(buf);
 	file_pread_buf(file, buf, meta->size, offset);
-	object_validate_index(self, branch);
+	object_validate_index(self, branch, buf);
 
 	// decompress index
 	buf_emplace(meta_data, meta->size_origin);
-- 
2.43.0


From d60b56e97f312664b82632ad87d97880be6483b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 14/86] fix: object open keeps branches of an incomplete
 compaction

---
 amelie/db/object/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 1729ee5..27195ca 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -151,7 +151,7 @@ object_open(Object* self, int state)
 
 	// cut branches that are not represented in its versions id
 	// (compaction crash)
-	if (offset == self->file.size)
+	if (offset < self->file.size)
 	{
 		file_truncate(&self->file, offset);
 		if (opt_int_of(&config()->storage_sync))
-- 
2.43.0


From fcc0b692d1c3b14c90666cd4308eb535aac58812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 15/86] fix: object region crc is never validated

---
 amelie/db/object/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 21958a3..605f6a0 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -66,6 +66,14 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
+	// validate region crc (set if storage_crc is enabled)
+	if (meta_region->crc)
+	{
+		uint32_t crc = runtime()->crc(0, self->buf_read.start, buf_size(&self->buf_read));
+		if (crc != meta_region->crc)
+			error("object: region crc mismatch");
+	}
+
 	// decrypt/decompress or read raw
 	Region* region = NULL;
 	if (encoder_active(&self->encoder))
-- 
2.43.0


From 5e0d3f8e682cfe91638768b5fa5104c6efd83568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 16/86] fix: wal end of file check truncates offsets to 32 bits

---
 amelie/db/wal/wal_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 47d183e..8d50af7 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_write(WalFile* self, Iov* iov)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
-- 
2.43.0


From 2c53d83c874a668148fea4293e6ff935311b32e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 17/86] fix: wal record header is used before it is validated

---
 amelie/db/transaction/record.h | 4 +++-
 amelie/db/wal/wal_file.h       | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index c23bef4..ab14e29 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -70,7 +70,9 @@ record_cmd_is_dml(RecordCmd* self)
 static inline bool
 record_validate(Record* self)
 {
-	auto size = self->count * sizeof(RecordCmd);
+	uint64_t size = self->count * sizeof(RecordCmd);
+	if (unlikely(sizeof(*self) + size > self->size))
+		return false;
 	auto crc  = runtime()->crc(0, (uint8_t*)self + sizeof(*self), size);
 	crc = runtime()->crc(crc, &self->lsn, sizeof(*self) - sizeof(self->crc));
 	return crc == self->crc;
diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 8d50af7..7d7d9dc 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -96,6 +96,8 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	int start = buf_size(buf);
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((Record*)(buf->start + start))->size;
+	if (unlikely(size < size_header))
+		error("wal/%" PRIu64 " (invalid record size)", self->id);
 
 	// check for eof
 	if (wal_file_eof(self, offset, size))
-- 
2.43.0


From f106eae88592fc0a1f302e483ee4f62950cd18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 18/86] fix: wal appends new records after an incomplete record

---
 amelie/db/wal/wal.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 019f238..6e158f4 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -250,6 +250,31 @@ wal_truncate(Wal* self, uint64_t lsn)
 	info("");
 }
 
+static void
+wal_truncate_incomplete(WalFile* self)
+{
+	// find the end of the last complete record
+	Buf buf;
+	buf_init(&buf);
+	defer_buf(&buf);
+	uint64_t offset = 0;
+	for (;;)
+	{
+		buf_reset(&buf);
+		if (! wal_file_pread(self, offset, &buf))
+			break;
+		offset += ((Record*)buf.start)->size;
+	}
+
+	// remove partially written record, since new records are
+	// going to be written after it
+	if (offset == self->file.size)
+		return;
+	wal_file_truncate(self, offset);
+	info("wal/%" PRIu64 " (incomplete record truncated to %" PRIu64 " bytes)",
+	     self->id, offset);
+}
+
 void
 wal_open(Wal* self)
 {
@@ -280,6 +305,7 @@ reopen:
 	uint64_t last = id_mgr_max(&self->list);
 	self->current = wal_file_allocate(last);
 	wal_file_open(self->current);
+	wal_truncate_incomplete(self->current);
 	file_seek_to_end(&self->current->file);
 }
 
-- 
2.43.0


From 49bdf0766fcc2f8cb87173e5999c21bb0fb846e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 19/86] fix: wal gc follows the fastest reader instead of the
 slowest one

---
 amelie/db/wal/wal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 6e158f4..4599c16 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -50,7 +50,7 @@ wal_slots(Wal* self, uint64_t* min)
 	{
 		auto slot = list_at(WalSlot, link);
 		uint64_t lsn = atomic_u64_of(&slot->lsn);
-		if (*min < lsn)
+		if (lsn < *min)
 			*min = lsn;
 	}
 	mutex_unlock(&self->lock);
-- 
2.43.0


From a9df8bab5fec7cf3d40ced2d3cf573b6a1e06d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 20/86] fix: seek to the end of a large file reports an error

---
 amelie/runtime/os/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/os/file.h b/amelie/runtime/os/file.h
index d699c89..fbf0e2c 100644
--- a/amelie/runtime/os/file.h
+++ b/amelie/runtime/os/file.h
@@ -106,7 +106,7 @@ file_close(File* self)
 static inline void
 file_seek_to_end(File* self)
 {
-	int rc;
+	int64_t rc;
 	rc = vfs_seek(self->fd, self->size);
 	if (unlikely(rc == -1))
 		file_error(self, "seek");
-- 
2.43.0


From 9f15df884aeb565e18f2278ffa8692fae711a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 21/86] fix: import of a file larger than 2GB returns a part of
 it

---
 amelie/runtime/os/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/runtime/os/file.h b/amelie/runtime/os/file.h
index fbf0e2c..165c69c 100644
--- a/amelie/runtime/os/file.h
+++ b/amelie/runtime/os/file.h
@@ -267,6 +267,8 @@ file_import(const char* fmt, ...)
 	file_init(&file);
 	defer(file_close, &file);
 	file_open_rdonly(&file, path);
+	if (unlikely(file.size > INT_MAX))
+		error("file: '%s' is too large", path);
 	if (file.size > 0)
 		file_pread_buf(&file, buf, file.size, 0);
 	return buf;
-- 
2.43.0


From 283f79d4fc9336b2f9ce766cb1ec856b1c7dd948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 22/86] fix: recovery with negative identity values moves the
 sequence to its end

---
 amelie/db/row/sequence.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index 0966637..b74d2e4 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -57,10 +57,13 @@ sequence_get(Sequence* self)
 }
 
 static inline void
-sequence_sync(Sequence* self, uint64_t value)
+sequence_sync(Sequence* self, int64_t value)
 {
+	// sequence never generates negative values
+	if (value < 0)
+		return;
 	spinlock_lock(&self->lock);
-	auto next = value + 1;
+	auto next = (uint64_t)value + 1;
 	if (self->value < next)
 		self->value = next;
 	spinlock_unlock(&self->lock);
-- 
2.43.0


From db1d0a094c948149f47afe099eea1451796284b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 23/86] fix: heap writes outside of a page when a row does not
 fit into it

---
 amelie/db/heap/heap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 4dc8868..762dabf 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -194,8 +194,13 @@ heap_add(Heap* self, int size)
 	else
 		heap = self;
 
-	// match bucket by size
+	// match bucket by size (chunk must fit into the page)
+	auto size_max = heap->page_mgr.page_size - (int)sizeof(PageHeader);
+	if (unlikely(size > size_max - (int)sizeof(HeapChunk)))
+		error("heap: row size limit reached");
 	auto bucket = heap_bucket_of(heap, sizeof(HeapChunk) + size);
+	if (unlikely((int)bucket->size > size_max))
+		error("heap: row size limit reached");
 
 	// get chunk from the free list
 	HeapChunk* chunk;
-- 
2.43.0


From 981227868ed47f303c7907830a84faa1a7a4dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 24/86] fix: heap totals count rows of the shadow heap

---
 amelie/db/heap/heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 762dabf..3188d4b 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -260,8 +260,8 @@ heap_add(Heap* self, int size)
 	chunk->is_shadow_free = false;
 
 	// update total used metrics
-	self->header->count_used++;
-	self->header->size_used += bucket->size;
+	heap->header->count_used++;
+	heap->header->size_used += bucket->size;
 
 	// support lru (place chunk on top of the list)
 	if (self->lru)
-- 
2.43.0


From a8d2ac9a404b04ad3c3a28f871e4a8dba7f496f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 25/86] fix: zstd decode of data with other size is not
 reported

---
 amelie/runtime/lib/codec_compression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/codec_compression.c b/amelie/runtime/lib/codec_compression.c
index c2b3f4a..767441d 100644
--- a/amelie/runtime/lib/codec_compression.c
+++ b/amelie/runtime/lib/codec_compression.c
@@ -137,7 +137,8 @@ codec_zstd_decode(Codec*   codec,
 	int rc = ZSTD_decompress(dst, dst_size, src, src_size);
 	if (unlikely(ZSTD_isError(rc)))
 		error("zstd: decode failed: %s", ZSTD_getErrorName(rc));
-	assert(rc == dst_size);
+	if (unlikely(rc != dst_size))
+		error("zstd: decoded data size mismatch");
 }
 
 static CodecIf codec_zstd =
-- 
2.43.0


From 2b6eb92c8a3d6ce4d102c2565551f0e1e2ef17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 26/86] fix: heap file page header is used before it is
 validated

---
 amelie/db/heap/heap_file.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/amelie/db/heap/heap_file.c b/amelie/db/heap/heap_file.c
index c927390..52ee17f 100644
--- a/amelie/db/heap/heap_file.c
+++ b/amelie/db/heap/heap_file.c
@@ -109,6 +109,15 @@ heap_open(Heap* self, Id* id, int state)
 		file_read(&file, page->pointer, sizeof(PageHeader));
 		auto page_header = (PageHeader*)page->pointer;
 
+		// validate page header
+		if (page_header->order != i ||
+		    page_header->size  > (uint32_t)page_mgr->page_size ||
+		    page_header->size  < sizeof(PageHeader) + sizeof(HeapChunk) ||
+		    page_header->last  < sizeof(PageHeader) ||
+		    page_header->last  > page_header->size - sizeof(HeapChunk))
+			error("heap: file '%s' has invalid page header",
+			      str_of(&file.path));
+
 		// decode page or read page as is
 		if (encoder_active(&ec))
 		{
@@ -146,6 +155,12 @@ heap_open(Heap* self, Id* id, int state)
 					      str_of(&file.path));
 			}
 		}
+
+		// validate last chunk
+		auto last = (HeapChunk*)(page->pointer + page_header->last);
+		if (last->offset != page_header->last || !last->is_last)
+			error("heap: file '%s' has invalid page header",
+			      str_of(&file.path));
 	}
 
 	// restore last page position
-- 
2.43.0


From 33f9e2289802a058c9503a1cbb36451f14508219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:30 +0000
Subject: [PATCH 27/86] fix: lock event is attached after the lock is visible
 to other threads

---
 amelie/runtime/runtime/lock_mgr.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 4ed464b..f91a557 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -101,6 +101,11 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	} else
 	{
 		// add lock to the relation wait list
+		//
+		// the event must be attached before the lock becomes visible,
+		// it can be signaled by other thread
+		//
+		event_attach(&lock->event);
 		lock->waiting = true;
 		list_append(&rel->lock_wait, &lock->link);
 		rel->lock_wait_count++;
@@ -111,9 +116,7 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	// wait for the lock
 	if (unlikely(! pass))
 	{
-		auto event = &lock->event;
-		event_attach(event);
-		event_wait(event, -1);
+		event_wait(&lock->event, -1);
 	}
 }
 
-- 
2.43.0


From a9dae3214c69293e1bf8db711f718975ad187d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 28/86] fix: cancelled lock request is left in the relation
 wait list

---
 amelie/runtime/runtime/lock_mgr.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index f91a557..be98965 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -81,6 +81,9 @@ lock_resolve(Relation* rel, LockId lock)
 	return false;
 }
 
+hot static inline void
+lock_mgr_unlock(LockMgr*, Lock*);
+
 hot static inline void
 lock_mgr_lock_of(LockMgr* self, Lock* lock)
 {
@@ -116,7 +119,16 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	// wait for the lock
 	if (unlikely(! pass))
 	{
-		event_wait(&lock->event, -1);
+		auto on_error = error_catch
+		(
+			event_wait(&lock->event, -1);
+		);
+		if (unlikely(on_error))
+		{
+			// cancelled, remove the lock from the relation
+			lock_mgr_unlock(self, lock);
+			rethrow();
+		}
 	}
 }
 
@@ -198,8 +210,16 @@ lock_mgr_unlock(LockMgr* self, Lock* lock)
 	auto rel = lock->rel;
 	spinlock_lock(&rel->lock);
 
-	// detach from the relation lock set
-	rel->lock_set[lock->rel_lock]--;
+	// detach from the relation lock set or from the wait list, if
+	// the lock was cancelled
+	if (unlikely(lock->waiting))
+	{
+		lock->waiting = false;
+		rel->lock_wait_count--;
+		list_unlink(&lock->link);
+	} else {
+		rel->lock_set[lock->rel_lock]--;
+	}
 
 	// detach from the lock manager
 	lock_mgr_remove(self, lock);
@@ -222,6 +242,10 @@ lock_mgr_unlock(LockMgr* self, Lock* lock)
 
 	spinlock_unlock(&lock->rel->lock);
 
+	// the lock was cancelled, but already signaled
+	if (unlikely(atomic_u32_of(&lock->event.ipc.refs) > 0))
+		bus_step(&am_task->bus);
+
 	lock->rel      = NULL;
 	lock->rel_lock = LOCK_NONE;
 
-- 
2.43.0


From 4f6773b61a7cd747ae8ecf65e3da8f5cc9d2daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 29/86] fix: statement which reads and writes a table locks it
 only for reading

---
 amelie/runtime/runtime/access.h  |  3 +--
 amelie/runtime/runtime/lock_id.h | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/runtime/access.h b/amelie/runtime/runtime/access.h
index 347bcde..5a9b85b 100644
--- a/amelie/runtime/runtime/access.h
+++ b/amelie/runtime/runtime/access.h
@@ -85,8 +85,7 @@ access_add(Access* self, Relation* rel, LockId lock)
 		auto record = access_at(self, i);
 		if (record->rel == rel)
 		{
-			if (record->lock < lock)
-				record->lock = lock;
+			record->lock = lock_id_merge(record->lock, lock);
 			return;
 		}
 	}
diff --git a/amelie/runtime/runtime/lock_id.h b/amelie/runtime/runtime/lock_id.h
index 7ae2380..83501cc 100644
--- a/amelie/runtime/runtime/lock_id.h
+++ b/amelie/runtime/runtime/lock_id.h
@@ -22,6 +22,25 @@ typedef enum
 	LOCK_MAX
 } LockId;
 
+static inline LockId
+lock_id_merge(LockId a, LockId b)
+{
+	// get a lock which is as strong as both of the locks
+
+	// call conflicts only with exclusive
+	if (a == LOCK_NONE || (a == LOCK_CALL && b != LOCK_NONE))
+		return b;
+	if (b == LOCK_NONE || b == LOCK_CALL)
+		return a;
+
+	// shared_rw and exclusive_ro exclude each other
+	if ((a == LOCK_SHARED_RW && b == LOCK_EXCLUSIVE_RO) ||
+	    (b == LOCK_SHARED_RW && a == LOCK_EXCLUSIVE_RO))
+		return LOCK_EXCLUSIVE;
+
+	return a > b ? a : b;
+}
+
 static inline LockId
 lock_id_of(Str* name)
 {
-- 
2.43.0


From 3b4dc7a2302c710d01e6db14c339b992e434abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 30/86] fix: incomplete partition files are not recognized on
 recovery

---
 amelie/db/storage/id.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/amelie/db/storage/id.h b/amelie/db/storage/id.h
index 3f58677..d2283cb 100644
--- a/amelie/db/storage/id.h
+++ b/amelie/db/storage/id.h
@@ -79,15 +79,10 @@ id_of(const char* name, int64_t* id, int64_t* version)
 	if (! *name)
 		return STATE_COMPLETE;
 
-	// .
-	name++;
-	if (unlikely(! *name))
-		return -1;
-
-	// <version>[.]
-	if (isdigit(*name))
+	// .<version>[.]
+	if (isdigit(name[1]))
 	{
-		name = id_of_next(name, version);
+		name = id_of_next(name + 1, version);
 		if (! name)
 			return -1;
 	}
-- 
2.43.0


From 96f8bf7543731439c5dbe851886d1c4976ef04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 31/86] fix: dates which do not exist in the calendar are
 accepted

---
 amelie/runtime/lib/date.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/amelie/runtime/lib/date.c b/amelie/runtime/lib/date.c
index 2981142..a0bd713 100644
--- a/amelie/runtime/lib/date.c
+++ b/amelie/runtime/lib/date.c
@@ -107,6 +107,16 @@ date_set_gregorian(int year, int month, int day)
 	julian_day  = day + (((153 * m) + 2) / 5);
 	julian_day += (y * 365) + (y / 4) - (y / 100) + (y / 400) - 32045;
 	date_validate(julian_day);
+
+	// the day must exist in the calendar
+	int date_year;
+	int date_month;
+	int date_day;
+	date_get_gregorian(julian_day, &date_year, &date_month, &date_day);
+	if (unlikely(date_year  != year  ||
+	             date_month != month ||
+	             date_day   != day))
+		error("invalid date");
 	return julian_day;
 }
 
-- 
2.43.0


From d986e519f31d099a38db31ee265006a97b290760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 32/86] fix: timestamp parser reads past the end of string with
 leading whitespace

---
 amelie/runtime/lib/timestamp.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index ed805c7..fe572f1 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -48,14 +48,12 @@ timestamp_parse(Timestamp* self, Str* str)
 	auto pos = str->pos;
 	auto end = str->end;
 
-	// yyyy-mm-dd hh:mm:ss (minimum allowed)
-	if (unlikely(str_size(str) < 19))
-		goto error;
-
 	// whitespace
 	while (pos < end && isspace(*pos))
 		pos++;
-	if (pos == end)
+
+	// yyyy-mm-dd hh:mm:ss (minimum allowed)
+	if (unlikely(end - pos < 19))
 		goto error;
 
 	// year
-- 
2.43.0


From 028d125610b211e2379683f0ac5e8aff37a3ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 33/86] fix: timezone transition search returns wrong offset
 and reads past the table

---
 amelie/runtime/lib/timezone.c | 39 +++++++++--------------------------
 amelie/runtime/lib/timezone.h |  2 +-
 2 files changed, 11 insertions(+), 30 deletions(-)

diff --git a/amelie/runtime/lib/timezone.c b/amelie/runtime/lib/timezone.c
index 8b1b88a..75fe656 100644
--- a/amelie/runtime/lib/timezone.c
+++ b/amelie/runtime/lib/timezone.c
@@ -120,41 +120,22 @@ timezone_free(Timezone* self)
 hot TimezoneTime*
 timezone_match(Timezone* self, time_t time)
 {
-	if (self->header.timecnt == 0)
-		return &self->times[0];
-
-	int min = 1;
+	// find the last transition which is not after the time
+	int min = 0;
 	int max = self->header.timecnt;
-	int mid = (min + max) / 2;
-	while (mid > min)
+	while (min < max)
 	{
-		if (min >= (int)self->header.timecnt)
-		{
-			mid = self->header.timecnt;
-			break;
-		}
-		if (min == mid)
-			break;
-
-		if (self->transition_times[mid] == time)
-		{
-			mid++;
-			break;
-		}
-		if (self->transition_times[mid] < time)
+		int mid = min + (max - min) / 2;
+		if (self->transition_times[mid] <= time)
 			min = mid + 1;
 		else
-			max = mid - 1;
-
-		mid = (min + max) / 2;
+			max = mid;
 	}
 
-	if (mid > (int)self->header.timecnt)
-		mid = self->header.timecnt;
-
-	if (time > self->transition_times[mid])
-		mid++;
+	// before the first transition
+	if (min == 0)
+		return &self->times[0];
 
-	auto type = self->transition_types[mid - 1];
+	auto type = self->transition_types[min - 1];
 	return &self->times[type];
 }
diff --git a/amelie/runtime/lib/timezone.h b/amelie/runtime/lib/timezone.h
index 571c402..c175d59 100644
--- a/amelie/runtime/lib/timezone.h
+++ b/amelie/runtime/lib/timezone.h
@@ -39,7 +39,7 @@ struct Timezone
 {
 	Str            name;
 	TimezoneHeader header;
-	uint32_t*      transition_times;
+	int32_t*       transition_times;
 	uint8_t*       transition_types;
 	TimezoneTime*  times;
 	HashtableNode  node;
-- 
2.43.0


From 3fa4aaf114476f341895e26f4b311f3b33eec6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 34/86] fix: local time close to a timezone transition is
 converted using wrong offset

---
 amelie/runtime/lib/timestamp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index fe572f1..6cdfc3f 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -283,6 +283,9 @@ timestamp_get_unixtime(Timestamp* self, Timezone* timezone)
 		{
 			auto tztime = timezone_match(timezone, time);
 			assert(tztime);
+			// time is local, use the offset which is active at the
+			// resulting utc time
+			tztime = timezone_match(timezone, time - tztime->utoff);
 			time -= tztime->utoff;
 		}
 	} else
-- 
2.43.0


From 4798c74665488f4b90394578a3a5092e11fd1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 35/86] fix: negative intervals are truncated and extracted as
 unsigned

---
 amelie/runtime/lib/interval.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index ea50232..4d67402 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -418,31 +418,31 @@ interval_trunc(Interval* self, Str* field)
 		break;
 	case INTERVAL_DAY:
 	{
-		const auto hour = 24ULL * 60 * 60 * 1000 * 1000;
+		const auto hour = 24LL * 60 * 60 * 1000 * 1000;
 		self->us = (self->us / hour) * hour;
 		break;
 	}
 	case INTERVAL_HOUR:
 	{
-		const auto min = 60ULL * 60 * 1000 * 1000;
+		const auto min = 60LL * 60 * 1000 * 1000;
 		self->us = (self->us / min) * min;
 		break;
 	}
 	case INTERVAL_MINUTE:
 	{
-		const auto sec = 60ULL * 1000 * 1000;
+		const auto sec = 60LL * 1000 * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_SECOND:
 	{
-		const auto sec = 1000ULL * 1000;
+		const auto sec = 1000LL * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_MILLISECOND:
 	{
-		const auto ms = 1000ULL;
+		const auto ms = 1000LL;
 		self->us = (self->us / ms) * ms;
 		break;
 	}
@@ -470,16 +470,16 @@ interval_extract(Interval* self, Str* field)
 		result = self->d;
 		break;
 	case INTERVAL_HOUR:
-		result = (self->us / (60ULL * 60 * 1000 * 1000));
+		result = (self->us / (60LL * 60 * 1000 * 1000));
 		break;
 	case INTERVAL_MINUTE:
-		result = (self->us % (60ULL * 60 * 1000 * 1000)) / (60ULL * 1000 * 1000);
+		result = (self->us % (60LL * 60 * 1000 * 1000)) / (60LL * 1000 * 1000);
 		break;
 	case INTERVAL_SECOND:
-		result = (self->us % (60ULL * 1000 * 1000)) / (1000ULL * 1000);
+		result = (self->us % (60LL * 1000 * 1000)) / (1000LL * 1000);
 		break;
 	case INTERVAL_MILLISECOND:
-		result = (self->us % (1000ULL * 1000)) / (1000ULL);
+		result = (self->us % (1000LL * 1000)) / (1000LL);
 		break;
 	case INTERVAL_MICROSECOND:
 		result = (self->us % (1000));
-- 
2.43.0


From 8a3ef7408b3ccb984cc7976c7e57d161ad217309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 36/86] fix: interval overflow is not detected

---
 amelie/runtime/lib/interval.c | 90 +++++++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 19 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index 4d67402..db73edc 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -32,6 +32,49 @@ interval_error_field(Str* str)
 	error("invalid interval field '%.*s'", str_size(str), str_of(str));
 }
 
+static inline void
+interval_error_overflow(void)
+{
+	error("interval overflow");
+}
+
+static inline int32_t
+interval_add32(int32_t a, int64_t b)
+{
+	int64_t result;
+	if (unlikely(int64_add_overflow(&result, a, b) ||
+	             result < INT32_MIN || result > INT32_MAX))
+		interval_error_overflow();
+	return result;
+}
+
+static inline int64_t
+interval_add64(int64_t a, int64_t b)
+{
+	int64_t result;
+	if (unlikely(int64_add_overflow(&result, a, b)))
+		interval_error_overflow();
+	return result;
+}
+
+static inline int64_t
+interval_sub64(int64_t a, int64_t b)
+{
+	int64_t result;
+	if (unlikely(int64_sub_overflow(&result, a, b)))
+		interval_error_overflow();
+	return result;
+}
+
+static inline int64_t
+interval_mul64(int64_t a, int64_t b)
+{
+	int64_t result;
+	if (unlikely(int64_mul_overflow(&result, a, b)))
+		interval_error_overflow();
+	return result;
+}
+
 static inline void
 interval_read_type(Interval* self, Str* type, int64_t value)
 {
@@ -46,7 +89,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "minutes", 7) ||
 		    str_is(type, "minute", 6))
 		{
-			self->us += value * 60LL * 1000 * 1000;
+			self->us = interval_add64(self->us, interval_mul64(value, 60LL * 1000 * 1000));
 			return;
 		}
 
@@ -55,7 +98,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "months", 6) ||
 		    str_is(type, "month", 5))
 		{
-			self->m += value;
+			self->m = interval_add32(self->m, value);
 			return;
 		}
 
@@ -66,7 +109,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "milliseconds", 12) ||
 		    str_is(type, "millisecond", 11))
 		{
-			self->us += value * 1000LL;
+			self->us = interval_add64(self->us, interval_mul64(value, 1000));
 			return;
 		}
 
@@ -75,7 +118,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "microseconds", 12) ||
 		    str_is(type, "microsecond", 11))
 		{
-			self->us += value;
+			self->us = interval_add64(self->us, value);
 			return;
 		}
 		break;
@@ -83,7 +126,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		// us
 		if (str_is(type, "us", 2))
 		{
-			self->us += value;
+			self->us = interval_add64(self->us, value);
 			return;
 		}
 		break;
@@ -97,7 +140,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "seconds", 7) ||
 		    str_is(type, "second", 6))
 		{
-			self->us += value * 1000LL * 1000;
+			self->us = interval_add64(self->us, interval_mul64(value, 1000LL * 1000));
 			return;
 		}
 		break;
@@ -111,7 +154,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "hours", 5) ||
 		    str_is(type, "hour", 4))
 		{
-			self->us += value * 60LL * 60 * 1000 * 1000;
+			self->us = interval_add64(self->us, interval_mul64(value, 60LL * 60 * 1000 * 1000));
 			return;
 		}
 		break;
@@ -121,7 +164,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "days", 4) ||
 		    str_is(type, "day", 3))
 		{
-			self->d += value;
+			self->d = interval_add32(self->d, value);
 			return;
 		}
 		break;
@@ -131,7 +174,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "weeks", 5) ||
 		    str_is(type, "week", 4))
 		{
-			self->d += value * 7;
+			self->d = interval_add32(self->d, interval_mul64(value, 7));
 			return;
 		}
 		break;
@@ -141,7 +184,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "years", 5) ||
 		    str_is(type, "year", 4))
 		{
-			self->m += value * 12;
+			self->m = interval_add32(self->m, interval_mul64(value, 12));
 			return;
 		}
 		break;
@@ -301,25 +344,34 @@ interval_compare(Interval* a, Interval* b)
 void
 interval_add(Interval* result, Interval* a, Interval* b)
 {
-	result->m  = a->m + b->m;
-	result->d  = a->d + b->d;
-	result->us = a->us + b->us;
+	auto m  = interval_add32(a->m, b->m);
+	auto d  = interval_add32(a->d, b->d);
+	auto us = interval_add64(a->us, b->us);
+	result->m  = m;
+	result->d  = d;
+	result->us = us;
 }
 
 void
 interval_sub(Interval* result, Interval* a, Interval* b)
 {
-	result->m  = a->m - b->m;
-	result->d  = a->d - b->d;
-	result->us = a->us - b->us;
+	auto m  = interval_add32(a->m, -(int64_t)b->m);
+	auto d  = interval_add32(a->d, -(int64_t)b->d);
+	auto us = interval_sub64(a->us, b->us);
+	result->m  = m;
+	result->d  = d;
+	result->us = us;
 }
 
 void
 interval_neg(Interval* result, Interval* a)
 {
-	result->m  = -a->m;
-	result->d  = -a->d;
-	result->us = -a->us;
+	auto m  = interval_add32(0, -(int64_t)a->m);
+	auto d  = interval_add32(0, -(int64_t)a->d);
+	auto us = interval_sub64(0, a->us);
+	result->m  = m;
+	result->d  = d;
+	result->us = us;
 }
 
 typedef enum
-- 
2.43.0


From 908357e615a265e4b538c7e0c718de715bf99678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 37/86] fix: timestamp out of range is accepted when conversion
 to microseconds overflows

---
 amelie/runtime/lib/timestamp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 6cdfc3f..981ed76 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -298,7 +298,8 @@ timestamp_get_unixtime(Timestamp* self, Timezone* timezone)
 	if (zone_set)
 		time -= self->zone;
 
-	if (unlikely(time < 0))
+	// fraction can be out of the second after the interval subtraction
+	if (unlikely(time < 0 || time > TIMESTAMP_MAX / 1000000LL + 1))
 		error("timestamp overflow");
 
 	int64_t value = time * 1000000ULL; // convert to us
-- 
2.43.0


From a7462f4eff59e57b36dbdc962415766a60a114c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 38/86] fix: base64 decode reads past the table for bytes above
 127

---
 amelie/runtime/lib/base64.c    | 2 +-
 amelie/runtime/lib/base64url.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/lib/base64.c b/amelie/runtime/lib/base64.c
index 6cf47fb..1a02dbf 100644
--- a/amelie/runtime/lib/base64.c
+++ b/amelie/runtime/lib/base64.c
@@ -105,7 +105,7 @@ base64_decode(Buf* self, Str* str)
 		if (*pos == '=')
 			break;
 
-		auto c = base64_decode_table[*pos];
+		auto c = *pos < sizeof(base64_decode_table) ? base64_decode_table[*pos] : 255;
 		if (unlikely(c == 255))
 			goto error;
 
diff --git a/amelie/runtime/lib/base64url.c b/amelie/runtime/lib/base64url.c
index 5d4d5e3..5cb2911 100644
--- a/amelie/runtime/lib/base64url.c
+++ b/amelie/runtime/lib/base64url.c
@@ -130,7 +130,7 @@ base64url_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
-		auto c = base64url_decode_table[*pos];
+		auto c = *pos < sizeof(base64url_decode_table) ? base64url_decode_table[*pos] : 255;
 		if (unlikely(c == 255))
 			goto error;
 		switch (order & 0x03) {
-- 
2.43.0


From 4a0cc81cc6bc471b78714eae9ba856372c84906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 39/86] fix: uuid accepts trailing garbage

---
 amelie/runtime/lib/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/uuid.c b/amelie/runtime/lib/uuid.c
index 243bb77..e684f51 100644
--- a/amelie/runtime/lib/uuid.c
+++ b/amelie/runtime/lib/uuid.c
@@ -29,7 +29,7 @@ struct uuid_bits
 int
 uuid_set_nothrow(Uuid* self, Str* src)
 {
-	if (unlikely(str_size(src) < (UUID_SZ - 1)))
+	if (unlikely(str_size(src) != (UUID_SZ - 1)))
 		return -1;
 
 	auto string = str_of(src);
-- 
2.43.0


From e0785d2873f870fa51f430086f29bfdd4103ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 40/86] fix: utf8 accepts surrogates and code points above
 10FFFF

---
 amelie/runtime/lib/utf8.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/lib/utf8.h b/amelie/runtime/lib/utf8.h
index 26cba63..ef77ba8 100644
--- a/amelie/runtime/lib/utf8.h
+++ b/amelie/runtime/lib/utf8.h
@@ -55,7 +55,7 @@ utf8_next(char** pos, const char* end)
 		unicode = ((data[0] & ~0xE0) << 12) |
 		          ((data[1] & ~0x80) << 6)  |
 		           (data[2] & ~0x80);
-		if (unlikely(unicode < 0x800))
+		if (unlikely(unicode < 0x800 || (unicode >= 0xD800 && unicode <= 0xDFFF)))
 			return -1;
 		*pos += 3;
 	} else
@@ -68,7 +68,7 @@ utf8_next(char** pos, const char* end)
 		          ((data[1] & ~0x80) << 12) |
 		          ((data[2] & ~0x80) << 6)  |
 		           (data[3] & ~0x80);
-		if (unicode < 0x10000)
+		if (unlikely(unicode < 0x10000 || unicode > 0x10FFFF))
 			return -1;
 		*pos += 4;
 	}
-- 
2.43.0


From 0fdceeacaef536e43712b99fafcc11a77ae4ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:01 +0000
Subject: [PATCH 41/86] fix: large buffers are kept in the buffer cache

---
 amelie/runtime/base/buf_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/base/buf_cache.h b/amelie/runtime/base/buf_cache.h
index da40628..be7abab 100644
--- a/amelie/runtime/base/buf_cache.h
+++ b/amelie/runtime/base/buf_cache.h
@@ -56,7 +56,7 @@ buf_cache_pop(BufCache* self)
 static inline void
 buf_cache_push(BufCache* self, Buf* buf)
 {
-	if (unlikely(buf_capacity(buf)) >= self->limit_buf)
+	if (unlikely(buf_capacity(buf) >= self->limit_buf))
 	{
 		buf_free_memory(buf);
 		return;
-- 
2.43.0


From 4ad4b6612fd28d616947c82b039f32feeb132c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 42/86] fix: case-insensitive prefix match is case-sensitive

---
 amelie/runtime/base/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/base/str.h b/amelie/runtime/base/str.h
index daf5f98..9287233 100644
--- a/amelie/runtime/base/str.h
+++ b/amelie/runtime/base/str.h
@@ -127,7 +127,7 @@ str_is_prefix(Str* self, const void* string, int size)
 static inline bool
 str_is_prefix_case(Str* self, const void* string, int size)
 {
-	return str_size(self) >= size && !memcmp(self->pos, string, size);
+	return str_size(self) >= size && !strncasecmp(self->pos, string, size);
 }
 
 static inline bool
-- 
2.43.0


From 0df8306db3297f2e5a8f0029915856f7ec9e8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 43/86] fix: hash table loses the nodes which follow a deleted
 one

---
 amelie/runtime/lib/hash_table.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/amelie/runtime/lib/hash_table.h b/amelie/runtime/lib/hash_table.h
index 11d343a..1646340 100644
--- a/amelie/runtime/lib/hash_table.h
+++ b/amelie/runtime/lib/hash_table.h
@@ -92,8 +92,26 @@ hashtable_delete(Hashtable* self, HashtableNode* node)
 {
 	auto index = (HashtableNode**)(self->buf.start);
 	assert(index[node->pos] == node);
-	index[node->pos] = NULL;
+	uint32_t pos = node->pos;
+	index[pos] = NULL;
 	self->count--;
+
+	// move the rest of the chain, to keep it reachable
+	uint32_t size = self->size;
+	uint32_t next = (pos + 1) % size;
+	while (index[next])
+	{
+		auto ref = index[next];
+		auto distance = (next + size - ref->hash % size) % size;
+		if (distance >= (next + size - pos) % size)
+		{
+			index[pos] = ref;
+			ref->pos = pos;
+			index[next] = NULL;
+			pos = next;
+		}
+		next = (next + 1) % size;
+	}
 }
 
 hot static inline HashtableNode*
@@ -107,11 +125,6 @@ hashtable_get(Hashtable*       self,
 	for (;;)
 	{
 		auto current = index[pos];
-		/*
-		if (current == NULL || current->hash != hash)
-			break;
-			*/
-		/* todo: if first is deleted, second will not be found? */
 		if (current == NULL)
 			break;
 		if (current->hash == hash && compare(current, compare_arg))
-- 
2.43.0


From 9182e8fe809e9fec3d247c4c3feaf3adcd8ced8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 44/86] fix: auth cache leaks removed tokens

---
 amelie/server/auth/auth_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/server/auth/auth_cache.c b/amelie/server/auth/auth_cache.c
index 357b074..96f9895 100644
--- a/amelie/server/auth/auth_cache.c
+++ b/amelie/server/auth/auth_cache.c
@@ -78,6 +78,7 @@ void
 auth_cache_del(AuthCache* self, AuthCacheNode* node)
 {
 	hashtable_delete(&self->ht, &node->node);
+	auth_cache_node_free(node);
 }
 
 hot static inline bool
-- 
2.43.0


From 97485219dddf762cf180762324b8de56728bd339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 45/86] fix: decoding of real and null fields accepts only
 booleans

---
 amelie/runtime/json/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/decode.h b/amelie/runtime/json/decode.h
index 1d8cc15..e7f51db 100644
--- a/amelie/runtime/json/decode.h
+++ b/amelie/runtime/json/decode.h
@@ -103,7 +103,7 @@ decode_obj(Decode* self, const char* context, uint8_t** pos)
 			}
 			case DECODE_REAL:
 			{
-				if (unlikely(! json_is_bool(*pos)))
+				if (unlikely(! json_is_real(*pos)))
 					error("%s: real expected for '%s'", context,
 					      ref->key);
 				auto value = (double*)ref->value;
@@ -112,7 +112,7 @@ decode_obj(Decode* self, const char* context, uint8_t** pos)
 			}
 			case DECODE_NULL:
 			{
-				if (unlikely(! json_is_bool(*pos)))
+				if (unlikely(! json_is_null(*pos)))
 					error("%s: null expected for '%s'", context,
 					      ref->key);
 				json_read_null(pos);
-- 
2.43.0


From 12b57b2c6392d3ff612aa90504925edc19317e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 46/86] fix: JSON integers accept a sign without digits and
 refuse INT64_MIN

---
 amelie/runtime/json/json_parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 32c72de..3b7e54b 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -144,6 +144,8 @@ json_integer_read(Json* self, int64_t* value, double* real)
 		minus = true;
 		self->pos++;
 	}
+	// accumulate negative numbers downwards, to cover INT64_MIN
+	auto sign  = minus ? -1 : 1;
 	auto start = self->pos;
 	while (self->pos < self->end)
 	{
@@ -156,12 +158,12 @@ json_integer_read(Json* self, int64_t* value, double* real)
 		}
 		if (! isdigit(*self->pos))
 			break;
-		if (unlikely(int64_mul_add_overflow(value, *value, 10, *self->pos - '0')))
+		if (unlikely(int64_mul_add_overflow(value, *value, 10, sign * (*self->pos - '0'))))
 			error("JSON int overflow");
 		self->pos++;
 	}
-	if (minus)
-		*value = -(*value);
+	if (unlikely(self->pos == start))
+		error("bad JSON number");
 	return true;
 
 read_as_double:
-- 
2.43.0


From 1e770ca322198cbf6715bf12ebf235f15399fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 47/86] fix: JSON floats are read beyond the end of the text

---
 amelie/runtime/json/json_parser.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 3b7e54b..779e501 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -168,11 +168,23 @@ json_integer_read(Json* self, int64_t* value, double* real)
 
 read_as_double:
 	errno = 0;
+	// the text is not zero-terminated, copy the number
+	int size = 0;
+	while (start + size < self->end &&
+	       (isdigit(start[size]) || (start[size] && strchr(".eE+-", start[size]))))
+		size++;
+	char number[512];
+	if (unlikely(size >= (int)sizeof(number)))
+		error("bad JSON float number");
+	memcpy(number, start, size);
+	number[size] = 0;
 	char* end = NULL;
-	*real = strtod(start, &end);
-	if (errno == ERANGE)
+	*real = strtod(number, &end);
+	if (unlikely(end == number))
+		error("bad JSON float number");
+	if (unlikely(errno == ERANGE && isinf(*real)))
 		error("bad JSON float number");
-	self->pos = end;
+	self->pos = start + (end - number);
 	if (minus)
 		*real = -(*real);
 	return false;
-- 
2.43.0


From 4d5fe3811d18513bb2328b1ee3e60736aa4ab22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 48/86] fix: unknown and unicode string escapes produce
 uninitialized bytes

---
 amelie/runtime/json/escape.h | 77 ++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 521db14..871668c 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -11,6 +11,54 @@
 // AGPL-3.0 Licensed.
 //
 
+hot static inline int
+unescape_hex(char* pos, char* end)
+{
+	// XXXX
+	if (unlikely(end - pos < 4))
+		return -1;
+	int value = 0;
+	for (auto i = 0; i < 4; i++)
+	{
+		int digit;
+		if (pos[i] >= '0' && pos[i] <= '9')
+			digit = pos[i] - '0';
+		else
+		if (pos[i] >= 'a' && pos[i] <= 'f')
+			digit = pos[i] - 'a' + 10;
+		else
+		if (pos[i] >= 'A' && pos[i] <= 'F')
+			digit = pos[i] - 'A' + 10;
+		else
+			return -1;
+		value = value * 16 + digit;
+	}
+	return value;
+}
+
+hot static inline int
+unescape_unicode(char** pos, char* end)
+{
+	// XXXX | XXXX\uXXXX
+	auto unicode = unescape_hex(*pos, end);
+	if (unlikely(unicode == -1 || (unicode >= 0xDC00 && unicode <= 0xDFFF)))
+		error("invalid unicode escape sequence");
+	*pos += 4;
+
+	// surrogate pair
+	if (unicode >= 0xD800 && unicode <= 0xDBFF)
+	{
+		auto low = -1;
+		if (end - *pos >= 2 && (*pos)[0] == '\\' && (*pos)[1] == 'u')
+			low = unescape_hex(*pos + 2, end);
+		if (unlikely(low < 0xDC00 || low > 0xDFFF))
+			error("invalid unicode escape sequence");
+		*pos += 6;
+		unicode = 0x10000 + ((unicode - 0xD800) << 10) + (low - 0xDC00);
+	}
+	return unicode;
+}
+
 hot static inline void
 unescape_str(Buf* self, Str* string)
 {
@@ -61,6 +109,35 @@ unescape_str(Buf* self, Str* string)
 		case 'v':
 			*result = '\v';
 			break;
+		case 'u':
+		{
+			auto next = pos + 1;
+			auto unicode = unescape_unicode(&next, end);
+			if (unicode < 0x80) {
+				*result = unicode;
+			} else
+			if (unicode < 0x800) {
+				*result++ = 0xC0 | (unicode >> 6);
+				*result = 0x80 | (unicode & 0x3F);
+			} else
+			if (unicode < 0x10000) {
+				*result++ = 0xE0 | (unicode >> 12);
+				*result++ = 0x80 | ((unicode >> 6) & 0x3F);
+				*result = 0x80 | (unicode & 0x3F);
+			} else
+			{
+				*result++ = 0xF0 | (unicode >> 18);
+				*result++ = 0x80 | ((unicode >> 12) & 0x3F);
+				*result++ = 0x80 | ((unicode >> 6) & 0x3F);
+				*result = 0x80 | (unicode & 0x3F);
+			}
+			pos = next - 1;
+			break;
+		}
+		default:
+			// keep the character, including quotes and /
+			*result = *pos;
+			break;
 		}
 		slash = false;
 		result++;
-- 
2.43.0


From 8129044cd7302df1f24230dc23bedd5d06cb3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 49/86] fix: control characters are exported to JSON without
 escaping

---
 amelie/runtime/json/escape.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 871668c..0356d8c 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -176,7 +176,11 @@ escape_str(Buf* self, Str* raw)
 			buf_write(self, "\\t", 2);
 			break;
 		default:
-			buf_write(self, pos, 1);
+			// other control characters
+			if (unlikely((uint8_t)*pos < 0x20))
+				buf_printf(self, "\\u%04x", *pos);
+			else
+				buf_write(self, pos, 1);
 			break;
 		}
 	}
-- 
2.43.0


From 2d428749b5a12170672709f23f501d6f870d2a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 50/86] fix: export of deeply nested JSON overflows the
 coroutine stack

---
 amelie/runtime/json/json_parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 779e501..aaa7248 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -50,6 +50,16 @@ typedef enum
 	JSON_MAP_NEXT
 } JsonState;
 
+// values are exported recursively
+#define JSON_NESTING_MAX 100
+
+hot static inline void
+json_nest(Json* self)
+{
+	if (unlikely(buf_size(&self->stack) / sizeof(JsonState) >= JSON_NESTING_MAX))
+		error("JSON nesting is too deep");
+}
+
 hot static inline void
 json_push(Json* self, JsonState state)
 {
@@ -331,6 +341,7 @@ json_parse(Json* self, Str* text, Buf* buf)
 				}
 
 				// [value, ...]
+				json_nest(self);
 				json_push(self, JSON_ARRAY_NEXT);
 				json_push(self, JSON_VALUE);
 			} else
@@ -349,6 +360,7 @@ json_parse(Json* self, Str* text, Buf* buf)
 				}
 
 				// {"key": value}
+				json_nest(self);
 				json_push(self, JSON_MAP_KEY);
 			} else
 			{
-- 
2.43.0


From 486eb65e5ab5d2304d9a5de1d7bcaca4b07c50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 51/86] fix: cached token digest authenticates any header and
 payload

---
 amelie/server/auth/auth.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index 5487726..72175b3 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -49,8 +49,12 @@ auth_run(Auth* self, Str* token)
 
 	int64_t now = time_ms() / 1000;
 
-	// check auth cache, if the digest is already authenticated
-	auto user_ref = auth_cache_find(&self->cache, &jwt->digest);
+	// check auth cache, if the token (header.payload.digest) is already
+	// authenticated
+	Str key;
+	str_set(&key, str_of(&jwt->digest_origin),
+	        str_of(&jwt->digest) + str_size(&jwt->digest) - str_of(&jwt->digest_origin));
+	auto user_ref = auth_cache_find(&self->cache, &key);
 	if (user_ref)
 	{
 		// ensure cached token has not expired
@@ -94,8 +98,8 @@ auth_run(Auth* self, Str* token)
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-	// add user and token digest to the cache
-	auth_cache_add(&self->cache, user, &jwt->digest, exp);
+	// add user and token to the cache
+	auth_cache_add(&self->cache, user, &key, exp);
 	return user;
 }
 
-- 
2.43.0


From 782ffef3b92b8b65d84675b9d7f32780dd88c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 52/86] fix: tokens signed with the empty secret authenticate
 users without secret

---
 amelie/server/auth/jwt_decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/server/auth/jwt_decode.c b/amelie/server/auth/jwt_decode.c
index 4075dc8..fec5e35 100644
--- a/amelie/server/auth/jwt_decode.c
+++ b/amelie/server/auth/jwt_decode.c
@@ -160,6 +160,10 @@ jwt_decode_data(JwtDecode* self, Str* sub,
 hot void
 jwt_decode_validate(JwtDecode* self, Str* secret)
 {
+	// tokens cannot be issued for a user without secret
+	if (unlikely(str_empty(secret)))
+		error("jwt: user secret is not set");
+
 	// decode digest from base64url
 	buf_reset(&self->data);
 	base64url_decode(&self->data, &self->digest);
-- 
2.43.0


From ead3116e0e04c21a5882540cd95dce00ec2aa306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 53/86] fix: exported uri has the user name in place of the
 secret

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index bbf8c3e..e5c7d63 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -448,7 +448,7 @@ uri_export(Endpoint* self, Buf* buf)
 		if (! opt_string_empty(&self->secret))
 		{
 			buf_write(buf, ":", 1);
-			buf_write_str(buf, &self->user.string);
+			buf_write_str(buf, &self->secret.string);
 		}
 		buf_write(buf, "@", 1);
 	}
-- 
2.43.0


From 14d16a7fab041c11d0048c2efce40364fb688b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 54/86] fix: uri argument "uri" replaces the text being parsed
 (use after free)

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index e5c7d63..80f0e64 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -249,7 +249,7 @@ uri_parse_args_set(Uri* self, Buf* buf, int name_size, int value_size)
 
 	// find and set endpoint option
 	auto opt = opts_find(&self->endpoint->opts, &name);
-	if (! opt)
+	if (! opt || opt == &self->endpoint->uri)
 		error("unknown uri argument '%.*s'", str_size(&name),
 		      str_of(&name));
 
-- 
2.43.0


From 48c1b36f36d20a863d6d7dbbef0005af766021aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 55/86] fix: uri arguments are exported without
 percent-encoding

---
 amelie/server/http/uri.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 80f0e64..f555ce4 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -416,9 +416,15 @@ uri_export_arg(Opt* opt, Buf* buf, bool* first)
 	if (opt_string_empty(opt))
 		return;
 	// [?|&]name=value
-	buf_printf(buf, "%c%s=%.*s", *first? '?': '&',
-	           str_of(&opt->name),
-	           str_size(&opt->string), str_of(&opt->string));
+	buf_printf(buf, "%c%s=", *first? '?': '&', str_of(&opt->name));
+	for (auto pos = opt->string.pos; pos < opt->string.end; pos++)
+	{
+		auto c = *(uint8_t*)pos;
+		if (isalnum(c) || (c && strchr("-._~,:/+", c)))
+			buf_write(buf, pos, 1);
+		else
+			buf_printf(buf, "%%%02X", c);
+	}
 	*first = false;
 }
 
-- 
2.43.0


From ab050be4c1c419ee05477b46b9b08b6f69fb2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 56/86] fix: ports above 65535 are accepted and wrap

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index f555ce4..2441498 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -129,7 +129,7 @@ uri_parse_host(Uri* self)
 				uri_error();
 			self->pos++;
 		}
-		if (start == self->pos)
+		if (start == self->pos || port > UINT16_MAX)
 			uri_error();
 
 		// set port
-- 
2.43.0


From 13e26b0ec490927326ad096223f846bc4ca0af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 57/86] fix: exported uri with an IPv6 host cannot be parsed

---
 amelie/server/http/uri.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 2441498..d7a161f 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -464,7 +464,15 @@ uri_export(Endpoint* self, Buf* buf)
 	{
 		if (! opt_string_empty(&self->host))
 		{
-			buf_write_str(buf, &self->host.string);
+			// [ipv6]
+			if (str_chr(&self->host.string, ':'))
+			{
+				buf_write(buf, "[", 1);
+				buf_write_str(buf, &self->host.string);
+				buf_write(buf, "]", 1);
+			} else {
+				buf_write_str(buf, &self->host.string);
+			}
 			buf_write(buf, ":", 1);
 			buf_printf(buf, "%d", (int)self->port.integer);
 		}
-- 
2.43.0


From eef7f04352b18553194d25351c2dd0e72ee2d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 58/86] fix: exported https uri loses the TLS options

---
 amelie/server/http/uri.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index d7a161f..675b910 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -498,12 +498,12 @@ uri_export(Endpoint* self, Buf* buf)
 	{
 		uri_export_arg(&self->content_type, buf, &first);
 		uri_export_arg(&self->accept, buf, &first);
-		uri_export_arg(&self->tls_capath, buf, &first);
-		uri_export_arg(&self->tls_ca, buf, &first);
-		uri_export_arg(&self->tls_cert, buf, &first);
-		uri_export_arg(&self->tls_key, buf, &first);
-		uri_export_arg(&self->tls_server, buf, &first);
 	}
+	uri_export_arg(&self->tls_capath, buf, &first);
+	uri_export_arg(&self->tls_ca, buf, &first);
+	uri_export_arg(&self->tls_cert, buf, &first);
+	uri_export_arg(&self->tls_key, buf, &first);
+	uri_export_arg(&self->tls_server, buf, &first);
 	uri_export_arg(&self->columns, buf, &first);
 	uri_export_arg(&self->timezone, buf, &first);
 	uri_export_arg(&self->format, buf, &first);
-- 
2.43.0


From ce5fc8881cabc5e14aba24d3abfe20462c4cc599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 59/86] fix: content length above 2 GiB is truncated, the rest
 is read as the next request

---
 amelie/server/http/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 5d77933..0ef65f3 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -239,6 +239,10 @@ http_read_content_limit(Http* self, Readahead* readahead, Buf* content,
 	if (unlikely((uint64_t)len >= limit))
 		return true;
 
+	// buffer size is limited by int
+	if (unlikely(len >= INT_MAX))
+		error("http: content is too large");
+
 	buf_reserve(content, len + 1);
 	for (;;)
 	{
-- 
2.43.0


From 4679839ef60b3b7d25e5f8b58691dae85f817e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 60/86] fix: parsing of an empty uri crashes

---
 amelie/server/http/uri.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 675b910..1015bd6 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -348,6 +348,9 @@ uri_parse_args(Uri* self)
 void
 uri_parse(Endpoint* endpoint, Str* spec)
 {
+	if (unlikely(str_empty(spec)))
+		uri_error();
+
 	// set uri
 	opt_string_set(&endpoint->uri, spec);
 	Uri self = {
-- 
2.43.0


From 0169457d5cdb1b1d34f9f6e952d3565d993d7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 61/86] fix: HTTP header line without a name hides the header
 which follows it

---
 amelie/server/http/http.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 0ef65f3..0f828d7 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -145,9 +145,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 	}
 
 	// a
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos == '\r'))
 		goto error;
 	str_set_u8(a, start, pos - start);
 	pos++;
@@ -156,9 +156,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 	// b
 	start = pos;
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos == '\r'))
 		goto error;
 	str_set_u8(b, start, pos - start);
 	pos++;
@@ -194,9 +194,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 		// <name>: value\r\n
 		start = pos;
-		while (pos < end && *pos != ':')
+		while (pos < end && *pos != ':' && *pos != '\r')
 			pos++;
-		if (unlikely(pos == end))
+		if (unlikely(pos == end || *pos == '\r'))
 			goto error;
 		str_set_u8(&header->name, start, pos - start);
 		pos++;
-- 
2.43.0


From 48f03c8974f5bee084f6ee2aca515f745d558799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 62/86] fix: chunked HTTP content is read as the next request

---
 amelie/server/http/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 0f828d7..1de1f57 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -227,6 +227,10 @@ hot bool
 http_read_content_limit(Http* self, Readahead* readahead, Buf* content,
                         uint64_t limit)
 {
+	// chunked content is not supported
+	if (unlikely(http_find(self, "transfer-encoding", 17)))
+		error("http: transfer encoding is not supported");
+
 	// read content
 	auto content_len = http_find(self, "content-length", 14);
 	if (! content_len)
-- 
2.43.0


From 8fd3bb9f9a451b719482c5c05cb3bb5337f44b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:19 +0000
Subject: [PATCH 63/86] fix: HTTP client sends the authorization token without
 a space, the server refuses it

---
 amelie/server/http/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 1de1f57..c7d00c1 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -319,7 +319,7 @@ http_begin_request(Http* self, Endpoint* endpoint, uint64_t size)
 	auto token = opt_string_of(&endpoint->token);
 	if (! str_empty(token))
 	{
-		buf_write(buf, "Authorization: Bearer ", 21);
+		buf_write(buf, "Authorization: Bearer ", 22);
 		buf_write_str(buf, token);
 		buf_write(buf, "\r\n", 2);
 	}
-- 
2.43.0


From ce72732d9f5524fd5f676596fba99346d73e82f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 64/86] fix: crash while the state file is being saved loses
 users and replicas

---
 amelie/runtime/runtime/state.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/amelie/runtime/runtime/state.c b/amelie/runtime/runtime/state.c
index ec5d5ac..1bfc586 100644
--- a/amelie/runtime/runtime/state.c
+++ b/amelie/runtime/runtime/state.c
@@ -80,29 +80,23 @@ state_save_to(State* self, const char* path)
 	defer(file_close, &file);
 	file_open_as(&file, path, O_CREAT|O_RDWR, 0600);
 	file_write_buf(&file, &text);
+	file_sync(&file);
 }
 
 void
 state_save(State* self, const char* path)
 {
-	if (! fs_exists("%s", path))
-	{
-		state_save_to(self, path);
-		return;
-	}
-
-	// remove old saved state, if exists
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
+	// remove incomplete state file, if exists
+	char path_incomplete[PATH_MAX];
+	sfmt(path_incomplete, sizeof(path_incomplete), "%s.incomplete", path);
+	if (fs_exists("%s", path_incomplete))
+		fs_unlink("%s", path_incomplete);
 
-	// save existing state as a old
-	fs_rename(path, "%s.old", path);
-
-	// create state file
-	state_save_to(self, path);
+	// create incomplete state file
+	state_save_to(self, path_incomplete);
 
-	// remove old state file
-	fs_unlink("%s.old", path);
+	// replace existing state file
+	fs_rename(path_incomplete, "%s", path);
 }
 
 void
-- 
2.43.0


From 39f4b9dc4a3efafb6fa0bce4bb98e0ead4b02699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 65/86] fix: closing a catalog that has tables fails an
 assertion

---
 amelie/db/part/part_mgr.c | 1 +
 amelie/db/tier/tier.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 080dbf3..b742e3a 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -45,6 +45,7 @@ part_mgr_free(PartMgr* self)
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
+		part_mgr_remove(self, part);
 		part_free(part);
 	}
 	part_mapping_free(&self->mapping);
diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index f542478..8c1a98a 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -35,6 +35,7 @@ tier_free(Tier* self)
 	list_foreach_safe(&self->list)
 	{
 		auto object = list_at(Object, link);
+		tier_remove(self, object);
 		object_free(object);
 	}
 	am_free(self);
-- 
2.43.0


From 3c9ad21ea684739e2e17ef1c8beccbab42e0ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:08 +0000
Subject: [PATCH 66/86] fix: region and object sizes of 2 GiB and more are
 truncated by the catalog

---
 amelie/db/tier/tier_config.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/tier/tier_config.h b/amelie/db/tier/tier_config.h
index e1406fe..2a94652 100644
--- a/amelie/db/tier/tier_config.h
+++ b/amelie/db/tier/tier_config.h
@@ -62,13 +62,13 @@ tier_config_set_name(TierConfig* self, Str* name)
 }
 
 static inline void
-tier_config_set_region_size(TierConfig* self, int value)
+tier_config_set_region_size(TierConfig* self, int64_t value)
 {
 	self->region_size = value;
 }
 
 static inline void
-tier_config_set_object_size(TierConfig* self, int value)
+tier_config_set_object_size(TierConfig* self, int64_t value)
 {
 	self->object_size = value;
 }
-- 
2.43.0


From 058398e2e131dafdf6c4a9135b53a3a1e5e68ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:07 +0000
Subject: [PATCH 67/86] fix: aborting CREATE INDEX crashes, rollback uses a
 wrong pointer

---
 amelie/db/catalog/table_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 52cc877..1c28362 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -62,7 +62,7 @@ table_index_add(Table* self, Tr* tr, IndexConfig* config)
 	table_config_index_add(self->config, config);
 
 	// update table
-	log_relation(&tr->log, &add_if, index, &self->rel);
+	log_relation(&tr->log, &add_if, config, &self->rel);
 
 	// use separate log command for create
 	// index processing
-- 
2.43.0


From 4bf08dcd5863c870e26fa3d706bc6226606caf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:51 +0000
Subject: [PATCH 68/86] fix: dropped columns are back after a restart

---
 amelie/db/row/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/row/column.h b/amelie/db/row/column.h
index ceefd95..28c4128 100644
--- a/amelie/db/row/column.h
+++ b/amelie/db/row/column.h
@@ -77,6 +77,7 @@ column_copy(Column* self)
 	auto copy = column_allocate();
 	column_set_name(copy, &self->name);
 	column_set_type(copy, self->type, self->type_size);
+	column_set_dropped(copy, self->dropped);
 	constraints_copy(&self->constraints, &copy->constraints);
 	return copy;
 }
-- 
2.43.0


From b9d0c3a09bae9c6bc54cee2467f003279f3fbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 69/86] fix: aborting SET UNLOGGED/LOGGED which changes nothing
 inverts the setting

---
 amelie/db/catalog/table_mgr_alter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_mgr_alter.c b/amelie/db/catalog/table_mgr_alter.c
index da57bc7..958dd8d 100644
--- a/amelie/db/catalog/table_mgr_alter.c
+++ b/amelie/db/catalog/table_mgr_alter.c
@@ -152,7 +152,10 @@ set_unlogged_if_abort(Log* self, LogOp* op)
 {
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
-	table_set_unlogged(table, !table->config->unlogged);
+	uint8_t* pos = relation->data;
+	bool value;
+	json_read_bool(&pos, &value);
+	table_set_unlogged(table, value);
 }
 
 static LogIf set_unlogged_if =
@@ -181,6 +184,9 @@ table_mgr_set_unlogged(TableMgr* self,
 	// update table
 	log_relation(&tr->log, &set_unlogged_if, NULL, &table->rel);
 
+	// save previous value
+	encode_bool(&tr->log.data, table->config->unlogged);
+
 	// set table and partitions as unlogged
 	table_set_unlogged(table, value);
 	return true;
-- 
2.43.0


From 3f6104750016fe093ad1e68664dec5d73ba7e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:43 +0000
Subject: [PATCH 70/86] fix: storages stay in use after CREATE TABLE fails

---
 amelie/db/part/part_mgr.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index b742e3a..2a87a70 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -97,9 +97,6 @@ part_mgr_close(PartMgr* self)
 void
 part_mgr_drop(PartMgr* self)
 {
-	if (! self->list_count)
-		return;
-
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
-- 
2.43.0


From ded60172caf3dc837fea651607bb9e1d8bedad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:27 +0000
Subject: [PATCH 71/86] fix: ALTER TIER IF EXISTS .. SET fails when the tier
 does not exist

---
 amelie/db/catalog/catalog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index f1849a9..53c3577 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -477,8 +477,8 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 		auto table = table_mgr_find(&self->table_mgr, &db, &name, true);
 		auto config = tier_config_read(&config_pos);
 		defer(tier_config_free, config);
-		auto if_not_exists = ddl_if_not_exists(flags);
-		write = table_tier_set(table, tr, config, mask, if_not_exists);
+		auto if_exists = ddl_if_exists(flags);
+		write = table_tier_set(table, tr, config, mask, if_exists);
 		break;
 	}
 	case DDL_TIER_STORAGE_DROP:
-- 
2.43.0


From 3936cb88d698f47d32ea57cfe14118ca86671649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 72/86] fix: aborting RENAME of a database or a storage changes
 the case of its name

---
 amelie/db/catalog/database_mgr.c | 2 +-
 amelie/db/storage/storage_mgr.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/catalog/database_mgr.c b/amelie/db/catalog/database_mgr.c
index 71eeb97..ac68a6a 100644
--- a/amelie/db/catalog/database_mgr.c
+++ b/amelie/db/catalog/database_mgr.c
@@ -134,7 +134,7 @@ database_mgr_rename(DatabaseMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &db->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &db->config->name);
 
 	// set new name
 	database_config_set_name(db->config, name_new);
diff --git a/amelie/db/storage/storage_mgr.c b/amelie/db/storage/storage_mgr.c
index 8d9c68f..b8b30d1 100644
--- a/amelie/db/storage/storage_mgr.c
+++ b/amelie/db/storage/storage_mgr.c
@@ -137,7 +137,7 @@ storage_mgr_rename(StorageMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &storage->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &storage->config->name);
 
 	// set new name
 	storage_config_set_name(storage->config, name_new);
-- 
2.43.0


From e3004b9137e3ff524c19f4cd1a5b692e183300e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:29 +0000
Subject: [PATCH 73/86] fix: removing an empty storage from a tier deletes the
 objects on its other storages

---
 amelie/db/catalog/table_tier.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 7c49393..bf6e085 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -308,7 +308,6 @@ storage_drop_if_commit(Log* self, LogOp* op)
 
 	auto volume = volume_mgr_find(&tier->config->volumes, &storage_name);
 	assert(volume);
-	tier_truncate(tier);
 	error_catch (
 		volume_rmdir(volume);
 	);
-- 
2.43.0


From 74219dee14897c9332d89dd41f780834c281665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 74/86] fix: catalog is lost when saving it fails and the next
 attempt crashes

---
 amelie/db/catalog/catalog_file.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/amelie/db/catalog/catalog_file.c b/amelie/db/catalog/catalog_file.c
index a89f867..df63365 100644
--- a/amelie/db/catalog/catalog_file.c
+++ b/amelie/db/catalog/catalog_file.c
@@ -254,14 +254,7 @@ catalog_write(Catalog* self)
 	if (opt_int_of(&config()->catalog_sync))
 		file_sync(&file);
 
-	// remove catalog.json file, if exsists
-	sfmt(path, sizeof(path), "%s/catalog.json",
-	     state_directory());
-
-	if (fs_exists("%s", path))
-		fs_unlink("%s", path);
-
-	// rename
+	// rename (replaces current catalog.json file, if exists)
 	sfmt(path, sizeof(path), "%s/catalog.json.incomplete",
 	     state_directory());
 	fs_rename(path, "%s/catalog.json", state_directory());
-- 
2.43.0


From 2013e5799bf4f3c8e91bddc3e5aab39b83d90e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:41 +0000
Subject: [PATCH 75/86] fix: wait for every request of a set before reporting a
 cancel

rpc_set_wait() left on cancel as soon as one request was complete. The
caller then freed the set while other tasks were still executing the
remaining requests.
---
 amelie/runtime/base/rpc_set.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/runtime/base/rpc_set.h b/amelie/runtime/base/rpc_set.h
index 9d53352..b82b952 100644
--- a/amelie/runtime/base/rpc_set.h
+++ b/amelie/runtime/base/rpc_set.h
@@ -67,6 +67,10 @@ static inline void
 rpc_set_wait(RpcSet* self)
 {
 	// collect responses
+	//
+	// do not leave on cancel until every request is complete
+	//
+	cancel_pause();
 	Error* error = NULL;
 	for (auto at = 0; at < self->set_count; at++)
 	{
@@ -75,6 +79,7 @@ rpc_set_wait(RpcSet* self)
 		if (rpc->error.code != ERROR_NONE && !error)
 			error = &rpc->error;
 	}
+	cancel_resume();
 
 	// rethrow error
 	if (unlikely(error))
-- 
2.43.0


From 5424c03e8c49959878d0524ba90b93ac8ff2e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:41 +0000
Subject: [PATCH 76/86] fix: do not reset an event that belongs to another
 waiter

The coroutine object (and its on_exit event) is used again right after the
coroutine has ended. If the one that waited for it runs only after another
coroutine has started to wait for the new one, it cleared the new waiter and
the wakeup was lost.
---
 amelie/runtime/base/wait.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index aba9402..cc3fc7a 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -40,6 +40,10 @@ wait_event(Event* event, Coroutine* coro)
 	event->wait = coro;
 	// wait for signal
 	coroutine_suspend(coro);
+
+	// the event might be reused for another waiter by now (coroutine on_exit)
+	if (event->wait != coro)
+		return;
 	event->wait   = NULL;
 	event->signal = false;
 }
-- 
2.43.0


From 74dafed214b95770a96e4f0986d9113f065e2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:11 +0000
Subject: [PATCH 77/86] fix: scan of a table with a hash index fails an
 assertion

---
 amelie/db/tier/tier_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/tier/tier_mgr.h b/amelie/db/tier/tier_mgr.h
index ab307b0..8a21775 100644
--- a/amelie/db/tier/tier_mgr.h
+++ b/amelie/db/tier/tier_mgr.h
@@ -37,7 +37,7 @@ Buf*    tier_mgr_list(TierMgr*, Str*, int);
 static inline bool
 tier_mgr_created(TierMgr* self)
 {
-	return !self->list_count;
+	return self->list_count > 0;
 }
 
 static inline Tier*
-- 
2.43.0


From 673f9caca01a90f508b92f28fd8eee73904ba74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:11 +0000
Subject: [PATCH 78/86] fix: reading of a table with a tier never ends

---
 amelie/db/part/cursor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/cursor.c b/amelie/db/part/cursor.c
index aa96196..7fcfb2c 100644
--- a/amelie/db/part/cursor.c
+++ b/amelie/db/part/cursor.c
@@ -58,6 +58,7 @@ cursor_lookup(PartMgr*     self,
 				iterator_close(it);
 				return &branch_it->it;
 			}
+			branch = branch->next;
 		}
 	}
 
@@ -104,6 +105,7 @@ cursor_scan(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
@@ -154,6 +156,7 @@ cursor_scan_cross(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
-- 
2.43.0


From 7ceb29c4b68a3a20278851d3c2b4cbfcf4544508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:04 +0000
Subject: [PATCH 79/86] fix: cancelled wait for a connection leaves its event
 registered in the poller

---
 amelie/runtime/os/poll.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/os/poll.h b/amelie/runtime/os/poll.h
index 065cab9..7e225d6 100644
--- a/amelie/runtime/os/poll.h
+++ b/amelie/runtime/os/poll.h
@@ -42,8 +42,9 @@ poll_read(Fd* fd, int time_ms)
 	Event on_read;
 	event_init(&on_read);
 	poll_read_start(fd, &on_read);
+	// the event must be unregistered even if cancelled
+	defer(poll_read_stop, fd);
 	event_wait(&on_read, time_ms);
-	poll_read_stop(fd);
 
 	cancellation_point();
 }
@@ -55,6 +56,13 @@ poll_on_write_event(Fd* fd)
 	event_signal(on_write);
 }
 
+static inline void
+poll_write_stop(Fd* fd)
+{
+	auto poller = &am_task->poller;
+	poller_write(poller, fd, NULL, NULL);
+}
+
 static inline void
 poll_write(Fd* fd, int time_ms)
 {
@@ -67,8 +75,9 @@ poll_write(Fd* fd, int time_ms)
 	rc = poller_write(poller, fd, poll_on_write_event, &on_write);
 	if (unlikely(rc == -1))
 		error_system();
+	// the event must be unregistered even if cancelled
+	defer(poll_write_stop, fd);
 	event_wait(&on_write, time_ms);
-	poller_write(poller, fd, NULL, NULL);
 
 	cancellation_point();
 }
-- 
2.43.0


From 2bcab425a9f1377374b7e1fcecde196328c0d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:04 +0000
Subject: [PATCH 80/86] fix: incomplete tls record is counted as a received
 byte less

---
 amelie/runtime/os/tcp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/os/tcp.c b/amelie/runtime/os/tcp.c
index 2873e7b..f6c0e85 100644
--- a/amelie/runtime/os/tcp.c
+++ b/amelie/runtime/os/tcp.c
@@ -295,7 +295,8 @@ tcp_read(Tcp* self, Buf* buf, int size)
 		self->eof = true;
 
 	// update stats
-	atomic_u64_add(self->stat_recv, rc);
+	if (rc > 0)
+		atomic_u64_add(self->stat_recv, rc);
 	return rc;
 }
 
-- 
2.43.0


From cbce5b96d146e6ab30bc9d7eff467994d76ab114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:04 +0000
Subject: [PATCH 81/86] fix: certificate without a common name, or with a zero
 byte in it, can be accepted

---
 amelie/runtime/os/tls.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 2023804..8251fa6 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -219,7 +219,13 @@ tls_verify_common_name(Tls* self, const char* name)
 			tls_error(self, 0, "X509_get_subject_name()");
 
 		char common_name[256];
-		X509_NAME_get_text_by_NID(subject_name, NID_commonName, common_name, sizeof(common_name));
+		int rc;
+		rc = X509_NAME_get_text_by_NID(subject_name, NID_commonName, common_name, sizeof(common_name));
+		if (rc < 0)
+			tls_error(self, 0, "certificate has no common name (expected %s)", name);
+		// embedded zero
+		if (rc != (int)strlen(common_name))
+			tls_error(self, 0, "bad common name (expected %s)", name);
 		if (! tls_verify_name(common_name, name))
 			tls_error(self, 0, "bad common name: %s (expected %s)",
 			          common_name, name);
-- 
2.43.0


From 3b4379a9ab656b461957fa6d5f7a5691e12ef711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:04 +0000
Subject: [PATCH 82/86] fix: client connects again without tls after the first
 connection

---
 amelie/server/client/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/client/client.c b/amelie/server/client/client.c
index 81c3847..4a782a2 100644
--- a/amelie/server/client/client.c
+++ b/amelie/server/client/client.c
@@ -152,8 +152,8 @@ client_connect_to(Client* self, Str* host, int port)
 			                opt_string_of(&endpoint->tls_capath),
 			                opt_string_of(&endpoint->tls_server));
 			tls_context_create(&self->tls_context);
-			tcp_set_tls(&self->tcp, &self->tls_context);
 		}
+		tcp_set_tls(&self->tcp, &self->tls_context);
 	}
 
 	// connect
-- 
2.43.0


From fa29565465ffc8f4f2305b3bd5d96413ccdfc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:24 +0000
Subject: [PATCH 83/86] fix: incomplete tls record is polled for in a busy loop

---
 amelie/runtime/os/tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 8251fa6..4c586fe 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -269,7 +269,8 @@ tls_handshake(Tls* self)
 bool
 tls_read_pending(Tls* self)
 {
-	return SSL_has_pending(self->ssl);
+	// decrypted data only, rest of an incomplete record must be polled for
+	return SSL_pending(self->ssl) > 0;
 }
 
 int
-- 
2.43.0


From caf1b32f05185137b6e92df8c0125829fbcc8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:43 +0000
Subject: [PATCH 84/86] fix: write to a closed tls connection never ends

---
 amelie/runtime/os/tls.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 4c586fe..a98c1e0 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -310,8 +310,7 @@ tls_write(Tls* self, void* buf, int size)
 		errno = EAGAIN;
 		return -1;
 	}
-	if (error == SSL_ERROR_ZERO_RETURN)
-		return 0;
+	// including SSL_ERROR_ZERO_RETURN, the connection is closed
 	tls_error(self, rc, "SSL_write()");
 	return -1;
 }
-- 
2.43.0


From d8765cc73ac71f7b33d5f82bf99febd3ac381e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 85/86] fix: tls context can be used without verification after
 failed creation

---
 amelie/runtime/os/tls_context.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/os/tls_context.c b/amelie/runtime/os/tls_context.c
index ac61f4e..b6fac9e 100644
--- a/amelie/runtime/os/tls_context.c
+++ b/amelie/runtime/os/tls_context.c
@@ -38,6 +38,7 @@ tls_context_free(TlsContext* self)
 {
 	if (self->ctx)
 		SSL_CTX_free(self->ctx);
+	self->ctx = NULL;
 }
 
 void
@@ -77,6 +78,9 @@ tls_context_create(TlsContext* self)
 		error("%s", "SSL_CTX_NEW() failed");
 	self->ctx = ctx;
 
+	// context must not be used unless it is completely set
+	errdefer(tls_context_free, self);
+
 	SSL_CTX_set_options(ctx, SSL_OP_NO_SSLv2);
 	SSL_CTX_set_options(ctx, SSL_OP_NO_SSLv3);
 	SSL_CTX_set_mode(ctx, SSL_MODE_ENABLE_PARTIAL_WRITE);
-- 
2.43.0


From 72b2b010f513c6ec8471e4ccc10c5a91892587a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:07 +0000
Subject: [PATCH 86/86] fix: tls connection fails because of an error of
 another one

---
 amelie/runtime/os/tls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index a98c1e0..bba3880 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -277,6 +277,8 @@ int
 tls_read(Tls* self, void* buf, int size)
 {
 	errno = 0;
+	// ignore errors left by other connections
+	ERR_clear_error();
 	int rc = SSL_read(self->ssl, buf, size);
 	if (rc > 0) {
 		// might have data buffered
@@ -301,6 +303,8 @@ int
 tls_write(Tls* self, void* buf, int size)
 {
 	errno = 0;
+	// ignore errors left by other connections
+	ERR_clear_error();
 	int rc = SSL_write(self->ssl, buf, size);
 	if (rc > 0)
 		return rc;
-- 
2.43.0

