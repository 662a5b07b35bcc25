From cdd9602cec6789c831f8fe51a7744dd2266d15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 1/3] fix: don't carve the last block past the end of the
 allocator segment

The space taken by the segment header was not subtracted from the available
size, so with some block sizes the last block ended up to
sizeof(tommy_allocator_entry) bytes after the end of the allocated segment.
---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From c211baf2819328b3cf5a7799cf32f72eda4e8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 2/3] fix: don't read over the string terminator in
 tommy_strhash_u32()

The string was read four bytes at a time, reading up to three bytes after the
terminator, possibly outside the memory of the string.
---
 tommyds/tommyhash.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..973cc7a 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -42,6 +42,26 @@ tommy_inline tommy_uint32_t tommy_le_uint32_read(const void* ptr)
 #endif
 }
 
+/**
+ * Reads four chars of a 0 terminated string in little endian order.
+ * Nothing is read after the terminator, and the missing chars are set to 0.
+ */
+tommy_inline tommy_uint32_t tommy_le_uint32_read_str(const unsigned char* str)
+{
+	tommy_uint32_t v = str[0];
+
+	if (str[0] != 0) {
+		v |= (tommy_uint32_t)str[1] << 8;
+		if (str[1] != 0) {
+			v |= (tommy_uint32_t)str[2] << 16;
+			if (str[2] != 0)
+				v |= (tommy_uint32_t)str[3] << 24;
+		}
+	}
+
+	return v;
+}
+
 #define tommy_rot(x, k) \
 	(((x) << (k)) | ((x) >> (32 - (k))))
 
@@ -175,7 +195,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_le_uint32_read_str(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -192,7 +212,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_le_uint32_read_str(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -209,7 +229,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_le_uint32_read_str(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From 99f1bd986350fde8b9e36eacbee963b970b3f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 3/3] fix: give a new tree leaf the height that balance
 computes for it

A new leaf was recorded with height 0 and any other leaf with height 1, so
the tree was left with subtrees differing in height by two, as after
inserting 1, 5 and 8.
---
 tommyds/tommytree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..beec7b7 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -145,7 +145,7 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	insert->data = data;
 	insert->prev = 0;
 	insert->next = 0;
-	insert->index = 0;
+	insert->index = 1; /* height of a leaf, as computed by balance */
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-- 
2.43.0

