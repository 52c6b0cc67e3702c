From 7fe404df2515b081ae70f7b7922e92eb4067ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:36 +0000
Subject: [PATCH 01/78] fix: axl_list_add leaked the internal node when the
 item was already stored

---
 src/axl_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_list.c b/src/axl_list.c
index 3be79a9..3467517 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -622,6 +622,7 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 				return;
 			case 0:
 				/* the node found is equal, do not perform any operation */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 			default:
@@ -642,6 +643,7 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 			case 0:
 
 				/* the node found is equal, do not perform any operation */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 				/* the node should be added after */
-- 
2.43.0


From a38e222489516e4353929eaf03eecfde436efe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:36 +0000
Subject: [PATCH 02/78] fix: axl_list_exists missed items stored on lists not
 ordered by the comparator

---
 src/axl_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 3467517..daa25b4 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -1353,7 +1353,7 @@ axl_bool          axl_list_exists (axlList * list, axlPointer pointer)
 	axl_return_val_if_fail (list, axl_false);
 	axl_return_val_if_fail (pointer, axl_false);
 
-	if (axl_list_internal_lookup (list, pointer) != NULL)
+	if (axl_list_internal_linear_lookup (list, pointer) != NULL)
 		return axl_true;
 	return axl_false;
 }
-- 
2.43.0


From a11c99fe634d543b97f5729082b1c15c7a385322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:37 +0000
Subject: [PATCH 03/78] fix: axl_list_copy changed the order of the items (or
 lost them)

---
 src/axl_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index daa25b4..4fe6a8d 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -400,7 +400,7 @@ axlList  * axl_list_copy   (axlList * list, axlDuplicateFunc func)
 			data = func (data);
 		
 		/* add the data to the new list */
-		axl_list_add (result, data);
+		axl_list_append (result, data);
 
 		/* update index */
 		iterator++;
-- 
2.43.0


From 759ced445211159a245f99046624ddb01fb75f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:19 +0000
Subject: [PATCH 04/78] fix: axl_list_equal_string reported two empty strings
 as different

---
 src/axl_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 4fe6a8d..6225745 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -437,7 +437,7 @@ int      axl_list_equal_string (axlPointer a, axlPointer b)
 	if (length != strlen (b))
 		return 1;
 
-	if (axl_stream_cmp (a, b, length))
+	if (length == 0 || axl_stream_cmp (a, b, length))
 		return 0;
 	/* differs */
 	return 1;
-- 
2.43.0


From 4be6a30e3821a2d5fbcdd30632a518a544c902dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:19 +0000
Subject: [PATCH 05/78] fix: axl_stream_cmp read out of bounds when called with
 size 0

---
 src/axl_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 854a34f..7ded600 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2024,7 +2024,7 @@ axl_bool        axl_stream_cmp             (const char * chunk1, const char * ch
 		return axl_false;
 	if (chunk2 == NULL)
 		return axl_false;
-	if (size < 0)
+	if (size <= 0)
 		return axl_false;
 	
 	/* report current comparation status */
-- 
2.43.0


From 27128276119c7089e0f5ee2185ec4c67fa7d4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 06/78] fix: factories for blocks larger than 512 bytes handed
 out zero sized blocks

---
 src/axl_factory.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/axl_factory.c b/src/axl_factory.c
index c5dee3a..2a96601 100644
--- a/src/axl_factory.c
+++ b/src/axl_factory.c
@@ -118,6 +118,10 @@ axlPointer   axl_factory_get (axlFactory * factory)
 		else if (factory->step == (1024 / factory->type_size))
 			factory->step = 2048 / factory->type_size;
 
+		/* big types: allocate, at least, one item */
+		if (factory->step == 0)
+			factory->step = 1;
+
 		block          = axl_new (axlItemBlock, 1);
 		block->items   = axl_calloc (factory->step, factory->type_size);
 		factory->count = 1;
-- 
2.43.0


From 51581371ca8ef15489fc83f1f46608766af4ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 07/78] fix: axl_hash_cursor_last never found items stored at
 the first bucket

---
 src/axl_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 6cd21cf..77c5165 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1569,7 +1569,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 		/* find last value */
 		cursor->index = cursor->hash->hash_size - 1;
 		cursor->node  = NULL;
-		while (cursor->index > 0) {
+		while (cursor->index >= 0) {
 			/* check the table at the current position */
 			node = cursor->hash->table[cursor->index];
 			if (node != NULL) {
-- 
2.43.0


From 55de13beea08959860f5de9d2bd6bf7c985d10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 08/78] fix: axl_hash_cursor_first kept pointing to a released
 item when the hash is empty

---
 src/axl_hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 77c5165..03749aa 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1551,6 +1551,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 	if (first) {
 		/* configure first */
 		cursor->index = 0;
+		cursor->node  = NULL;
 
 		/* foreach element inside the hash, check the first value */
 		while (cursor->index < cursor->hash->hash_size) {
-- 
2.43.0


From e972a60cb7a23159ae85a2da546e2844aa1f7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:21 +0000
Subject: [PATCH 09/78] fix: axl_hash_cursor_remove went back to items already
 visited at the same bucket

---
 src/axl_hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 03749aa..141655a 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1853,6 +1853,8 @@ void            axl_hash_cursor_remove       (axlHashCursor * cursor)
 	/* configure next item */
 	cursor->node = node;
 	if (cursor->node == NULL) {
+		/* previous items at this bucket were already visited */
+		cursor->index++;
 		while (cursor->index < cursor->hash->hash_size) {
 			/* check the table at the current position */
 			if (cursor->hash->table[cursor->index] != NULL) {
-- 
2.43.0


From 7a5a3448034a28621e220e9387c3f03c46b3d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:21 +0000
Subject: [PATCH 10/78] fix: axl_hash_equal_string inverted its result for NULL
 keys

---
 src/axl_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 141655a..3dfedfc 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -156,9 +156,9 @@ int             axl_hash_equal_string (axlPointer keya,
 	int    i     = 0;
 
 	if (keya == NULL)
-		return (keyb == NULL);
+		return (keyb != NULL);
 	if (keyb == NULL)
-		return (keya == NULL);
+		return 1;
 
 	while (_keya [i] != 0 && _keyb [i] != 0) {
 
-- 
2.43.0


From 528b8267438fa12465b5e386ccaeb9edeb03c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:40 +0000
Subject: [PATCH 11/78] fix: inspecting a stream after a short read compared
 bytes that were not read yet

---
 src/axl_stream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 7ded600..6ee4bef 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2090,8 +2090,9 @@ axl_bool        axl_stream_casecmp           (const char * chunk1, const char *
 axl_bool axl_stream_fall_outside (axlStream * stream, int inspected_size)
 {
 	/* if the content is inside memory, check it */
-	if (fall_out_side_checking (stream, inspected_size)) {
-		return (! axl_stream_prebuffer (stream));
+	while (fall_out_side_checking (stream, inspected_size)) {
+		if (! axl_stream_prebuffer (stream))
+			return axl_true;
 	}
 	
 	/* otherwise, axl_false is returned */
-- 
2.43.0


From dc0374edcd59af3bdb8da0188d5c504c0ed2f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:40 +0000
Subject: [PATCH 12/78] fix: get until (zero variants) moved the stream beyond
 its data when no terminator was found

---
 src/axl_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 6ee4bef..a6b8ac4 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1352,6 +1352,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 						/* flag that chunk matched
 						 * will be -2 */
 						stream->chunk_matched = -2;
+						length = 0;
 						goto matched_return_result;
 					} /* end if */
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "failed while prebuffer (stream->type = %d)", stream->type);
@@ -1385,6 +1386,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 					/* flag that chunk matched
 					 * will be -2 */
 					stream->chunk_matched = -2;
+					length = 0;
 					goto matched_return_result;
 				}
 
-- 
2.43.0


From 0ebcf8826b4637941999bfac5fa494fa8d54ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:40 +0000
Subject: [PATCH 13/78] fix: get until missed terminators split between two
 reads and the last byte of a file

---
 src/axl_stream.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index a6b8ac4..b354449 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1360,18 +1360,17 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 					return NULL;
 				}
 				
+				/* check again the last positions where a
+				 * terminator could have started, but without
+				 * having enough data to be found */
+				index -= (max_length > 1) ? (max_length - 1) : 0;
+				if (index < 0)
+					index = 0;
+
 				/* update remains value but this time removing
 				 * one unit (the unit to be consumed at the
 				 * next sentence) */
 				remains = stream->stream_size - index - 1;
-
-				/* work around: because the index is updated
-				 * at the end of the loop, it is required to
-				 * decrease the index in one unit in the case
-				 * a prebuffer operation happens */
-				if (index > 0) {
-					index--;
-				}
 				
 			} /* end if */
 		}
@@ -1460,7 +1459,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			/* check for matching a more specific
 			 * terminal than a general */
 			if ((length < max_length) && 
-			    ((_index + length) == stream->stream_size)) {
+			    ((_index + max_length) > stream->stream_size)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "detected possible false positive");
 				
 				/* do a prebuffer operation,
-- 
2.43.0


From 6e494cc0d79bb45b26c2b538e95372a209419e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:40 +0000
Subject: [PATCH 14/78] fix: get until returning a reference reported a failure
 for empty content (<!----> was rejected)

---
 src/axl_doc.c    | 2 +-
 src/axl_stream.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 3e65744..5e52093 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1069,7 +1069,7 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 	}
 
 	/* check for optional white space inside the trailing result */
-	if (axl_stream_is_white_space (string + result_size - 1)) {
+	if (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
 		/* nullify to remove the optional white spaces */
 		string [result_size - 1] = 0;
 	} /* end if */
diff --git a/src/axl_stream.c b/src/axl_stream.c
index b354449..9d0915e 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1514,7 +1514,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			
 			
 			/* return allocated result */
-			if (! stream->result_size)
+			if (string == NULL)
 				return stream->last_chunk;
 
 			/* return reference result */
-- 
2.43.0


From 17082768e9a8e6b7ae6967d09d398f9fd928bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:40 +0000
Subject: [PATCH 15/78] fix: a failing read made the stream size wrong (or the
 decode loop endless) instead of ending the stream

---
 src/axl_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 9d0915e..8852da8 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -390,7 +390,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 				/* update the amount of data available tat the decode temp */
 				if (bytes_read > 0)
 					stream->decode_temp_last += bytes_read;
-				else if (bytes_read == 0 && stream->fd > 0) {
+				else if (bytes_read <= 0 && stream->fd > 0) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 					close (stream->fd);
 					stream->fd = -1;
@@ -430,7 +430,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		} /* end if */
 		
 		/* check for end of file reached */
-		if (bytes_read == 0) {
+		if (bytes_read <= 0) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 			close (stream->fd);
 			stream->fd = -1;
-- 
2.43.0


From 7d5c630dca946ed033b6e7037bdace2900d2095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:53 +0000
Subject: [PATCH 16/78] fix: axl_stream_remove matched stale bytes after a
 removal and wrote before the string

---
 src/axl_stream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 8852da8..bdb8dc8 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2334,6 +2334,7 @@ void        axl_stream_remove            (char * chunk, const char * value, axl_
 			
 			/* update length to the new value */
 			length -= v_length;
+			chunk [length] = 0;
 
 			/* check to terminate for first ocurrence */
 			if (first) {
-- 
2.43.0


From bb134ed1b828f10dc65687620b9d4ccea94beea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 17/78] fix: truncated xml headers were accepted, valid ones
 and documents starting with PI or comments were rejected

---
 src/axl_doc.c | 102 ++++++++++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 49 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 5e52093..70ffa80 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -594,10 +594,32 @@ axl_bool axl_doc_configure_encoding (axlDoc * doc, axlStream * stream, axlError
  * with the given stream will be released. If the document is
  * associated, it will also be released.
  */
+axl_bool __axl_doc_parse_header_value (axlStream * stream, const char * name, axl_bool * found, char ** value)
+{
+	/* check for the declaration */
+	*value = NULL;
+	*found = axl_stream_inspect (stream, name, strlen (name)) > 0;
+	if (! (*found))
+		return axl_true;
+
+	/* get the = and the value initiator */
+	AXL_CONSUME_SPACES (stream);
+	if (! (axl_stream_inspect (stream, "=", 1) > 0))
+		return axl_false;
+	AXL_CONSUME_SPACES (stream);
+	if (! (axl_stream_inspect_several (stream, 2, "\"", 1, "'", 1) > 0))
+		return axl_false;
+
+	/* get the value */
+	*value = axl_stream_get_until (stream, NULL, NULL, axl_true, 2, "'", "\"");
+	return *value != NULL;
+}
+
 axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError ** error)
 {
 	char      * string_aux;
 	int         size;
+	axl_bool    found;
 
 	/* check if the user is defining the header many times */
 	if (doc->headerProcess) {
@@ -615,32 +637,22 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 	}
 
 	/* check for initial XMLDec (production 23) */
-	if (axl_stream_inspect (stream, "<?", 2)) {
+	if (axl_stream_inspect_several (stream, 4, "<?xml ", 6, "<?xml\n", 6, "<?xml\t", 6, "<?xml\r", 6) > 0) {
 		
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found xml declaration");
 
-		/* check initial <?xml xml header */
-		if (! (axl_stream_inspect (stream, "xml", 3) > 0)) {
-			axl_error_new (-2, "expected initial <?xml declaration, not found.", stream, error);
-			axl_stream_free (stream);
-			return axl_false;
-		}
-		
 		/* consume spaces */
 		AXL_CONSUME_SPACES (stream);
 
-		if (! axl_stream_inspect (stream, "version=", 8)) {
+		if (! __axl_doc_parse_header_value (stream, "version", &found, &string_aux) || ! found) {
 			axl_error_new (-2, "expected to find 'version=' declaration, not found.", stream, error);
 			axl_stream_free (stream);
 			return axl_false;
 		}
 
-		/* consume spaces */
-		AXL_CONSUME_SPACES (stream);
-
-		/* check for " or ' */
-		if (! axl_stream_inspect_several (stream, 2, "\"1.0\"", 5, "'1.0'", 5)) {
-			axl_error_new (-2, "expected to find either \" or ' while procesing version number, not found.", stream, error);
+		/* check version found */
+		if (! axl_cmp (string_aux, "1.0")) {
+			axl_error_new (-2, "expected to find 1.0 while procesing version number, not found.", stream, error);
 			axl_stream_free (stream);
 			return axl_false;
 		}
@@ -649,17 +661,12 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		AXL_CONSUME_SPACES(stream);
 
 		/* now check for encoding */
-		if (axl_stream_inspect_several (stream, 2, "encoding=\"", 10, "encoding='", 10) > 0) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found encoding declaration");
-
-			/* found encoding instruction */
-			string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 2, "'", "\"");
-			if (string_aux == NULL) {
-				axl_error_new (-2, "expected encoding value, not found.", stream, error);
-				axl_stream_free (stream);
-				return axl_false;
-			}
+		if (! __axl_doc_parse_header_value (stream, "encoding", &found, &string_aux)) {
+			axl_error_new (-2, "expected encoding value, not found.", stream, error);
+			axl_stream_free (stream);
+			return axl_false;
+		}
+		if (found) {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "encoding found=%s", string_aux);
 
@@ -676,22 +683,15 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		AXL_CONSUME_SPACES(stream);
 
 		/* get standalone configuration */
-		if ((axl_stream_inspect_several (stream, 2, "standalone=\"", 12, "standalone='", 12) > 0)) {
-			
-			/* found standalone instruction */
-			string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 2, "'", "\"");
-			if (string_aux == NULL) {
-				axl_error_new (-2, "expected to receive standalone value, not found.", stream, error);
-				axl_stream_free (stream);
-				return axl_false;
-			}
-
-			/* set standalone configuration */
-			if (memcmp ("yes", string_aux, 3))
-				doc->standalone = axl_false;
-			else
-				doc->standalone = axl_true;
+		if (! __axl_doc_parse_header_value (stream, "standalone", &found, &string_aux)) {
+			axl_error_new (-2, "expected to receive standalone value, not found.", stream, error);
+			axl_stream_free (stream);
+			return axl_false;
 		}
+
+		/* set standalone configuration */
+		if (found)
+			doc->standalone = axl_cmp (string_aux, "yes");
 		
 		/* check for an space */
 		AXL_CONSUME_SPACES(stream);
@@ -702,10 +702,6 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 			axl_stream_free (stream);
 			return axl_false;
 		}
-
-		/* consume a possible comment */
-		if (! axl_doc_consume_comments (doc, stream, error))
-			return axl_false;
 	}
 
 	/* configure encoding again, now we could have more data */
@@ -714,12 +710,23 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		return axl_false;
 	}
 
+	/* signal that this document have processed its header */
+	doc->headerProcess = axl_true;
+
+	/* consume possible comments and process instructions */
+	if (! axl_doc_consume_comments (doc, stream, error))
+		return axl_false;
+
 	/* now process the document type declaration */
 	if (axl_stream_inspect (stream, "<!DOCTYPE", 9) > 0) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found doc type declaration..");
 		/* found document type declaration, just skip it for
 		 * now */
-		axl_stream_get_until_ref (stream, NULL, NULL, axl_true, &size, 1, ">");
+		if (axl_stream_get_until_ref (stream, NULL, NULL, axl_true, &size, 1, ">") == NULL) {
+			axl_error_new (-2, "expected to find the document type declaration ending, not found.", stream, error);
+			axl_stream_free (stream);
+			return axl_false;
+		}
 
 		/* consume a possible comment */
 		if (! axl_doc_consume_comments (doc, stream, error))
@@ -1147,9 +1154,6 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 	if (!__axl_doc_parse_xml_header (stream, doc, error))
 		return NULL;
 
-	/* signal that this document have processed its header */
-	doc->headerProcess = axl_true;
-	
 	/* parse the rest of the document, setting as parent NULL
 	 * because still no parent is found. */
 	if (!__axl_doc_parse_node (stream, doc, &node, &is_empty, error))
-- 
2.43.0


From cd839e6e7b3b2c6dd8cb1259d8d8aa36ff365bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:19 +0000
Subject: [PATCH 18/78] fix: documents whose first element does not start with
 < (or elements started with <<) were accepted

---
 src/axl_doc.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 70ffa80..ae125a7 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -794,7 +794,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		return axl_false;
 
 	/* check for initial < definition */
-	if (! (axl_stream_inspect (stream, "<", 1) > 0)  && ! axl_stream_remains (stream)) {
+	if (! (axl_stream_inspect (stream, "<", 1) > 0)) {
 		/* check if we are reading the first node node */
 		if (doc->rootNode == NULL)
 			axl_error_new (-2, "expected initial < for a root node definition, not found. An xml document must have, at least, one node definition.", 
@@ -1249,9 +1249,6 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 
 
 			if ((axl_stream_peek (stream, "<", 1) > 0)) {
-				/* accept previous peek */
-				axl_stream_accept (stream);
-
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a new node being opened");
 
 				/* seems that another node is being opened */
-- 
2.43.0


From d792785357661d67aa975d8f6c5ea2ad1a7cd8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:19 +0000
Subject: [PATCH 19/78] fix: element and attribute names took markup in, hiding
 unclosed tags and attributes without value

---
 src/axl_doc.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index ae125a7..cd9474b 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -846,6 +846,15 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		} /* end if */
 	} /* end if */
 
+	/* check the name found */
+	if (string_aux[0] == 0 || strpbrk (string_aux, "</") != NULL) {
+		axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+		axl_error_new (-2, "found an empty node name or a node name with characters not allowed.", stream, error);
+		axl_stream_free (stream);
+		return axl_false;
+	} /* end if */
+
 	/* create the node and associate it the node name found */
 	node = axl_node_factory_get (doc->node_factory);
 	axl_node_set_name_from_factory (node, string_aux); 
@@ -952,13 +961,31 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * name */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			/* remove white spaces before the = */
+			length = strlen (string_aux);
+			while (length > 0 && axl_stream_is_white_space (string_aux + length - 1))
+				length--;
+			string_aux [length] = 0;
+
 			/* check for empty values at the attribute definition */
 			if (string_aux [0] == 0) {
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
 				axl_error_new (-5, "Expected to find an attribute name (but found an empty value)", stream, error);
 				axl_stream_free (stream);
 				return axl_false;
 			} /* end if */
 
+			/* check the attribute name found */
+			if (strpbrk (string_aux, " \t\r\n<>/\"'") != NULL) {
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+				axl_error_new (-5, "Found an attribute name with characters not allowed (or an attribute without value)", stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
+
+			/* get rid from spaces after the = */
+			AXL_CONSUME_SPACES (stream);
+
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "attribute found: [%s]", string_aux);
 
 			/* remove next " and ' if defined */
@@ -993,6 +1020,13 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * inside string_aux2 */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			if (string_aux2 == NULL) {
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+				axl_error_new (-2, "Expected to find the attribute value terminator, not found", stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
+
 			if (axl_node_has_attribute (node, string_aux)) {
 				/* parse error */
 				axl_error_report (error, -3, "Unable to add attribute '%s' to node <%s> which already has this attribute. Duplicate attribute error. Error was found near to: %s", 
-- 
2.43.0


From 90f5eb0e83b5a1d1830d4a968b07fdf289267f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:19 +0000
Subject: [PATCH 20/78] fix: the xml:space setting leaked out of (or was lost
 inside) elements

---
 src/axl_doc.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index cd9474b..e2606cd 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -888,6 +888,13 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "node found: [%s]", string_aux);
 
+	/* xml:space: make the current node to inherint default from
+	 * parent */
+	if (axl_binary_stack_is_empty (doc->xmlPreserve))
+		axl_binary_stack_push (doc->xmlPreserve, axl_false);
+	else
+		axl_binary_stack_push_the_same (doc->xmlPreserve);
+
 
 	/* now, until the node ends, we have to find the node
 	 * attributes or the node defintion end */
@@ -914,6 +921,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			/* make this node to be completed and no child
 			 * could be set. */
 			axl_stack_pop (doc->parentNode);
+			axl_binary_stack_pop (doc->xmlPreserve);
 
 			/* set the parent node to receive all content
 			 * found in the next parsing elements because
@@ -1046,6 +1054,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 1: xml:space=preserve (found)
 					 * make current node and all its childs to preserve (by
 					 * default) all white spaces found */
+					axl_binary_stack_pop (doc->xmlPreserve);
 					axl_binary_stack_push (doc->xmlPreserve, axl_true);
 
 				} else if (axl_cmp (string_aux2, "default")) {
@@ -1054,6 +1063,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 2: xml:space=default  (found)
 					 * make current node and all its childs to not
 					 * preserve white spaces (by default) */
+					axl_binary_stack_pop (doc->xmlPreserve);
 					axl_binary_stack_push (doc->xmlPreserve, axl_false);
 				} else {
 					/* parse error */
@@ -1062,14 +1072,6 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					return axl_false;
 
 				} /* end if */
-			} else {
-				/* 3: xml:space (not found) 
-				 * make the current node to inherint
-				 * default from parent */
-				if (axl_binary_stack_is_empty (doc->xmlPreserve))
-					axl_binary_stack_push (doc->xmlPreserve, axl_false);
-				else
-					axl_binary_stack_push_the_same (doc->xmlPreserve);
 			} /* end if */
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "attribute installed..");
-- 
2.43.0


From 3484b3dc28bffa34c87b85da9b0ef9c82a23e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:20 +0000
Subject: [PATCH 21/78] fix: closing tags with more than one trailing white
 space were rejected

---
 src/axl_doc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index e2606cd..b23a7f7 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1112,10 +1112,11 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 	}
 
 	/* check for optional white space inside the trailing result */
-	if (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
+	while (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
 		/* nullify to remove the optional white spaces */
-		string [result_size - 1] = 0;
-	} /* end if */
+		result_size--;
+		string [result_size] = 0;
+	} /* end while */
 
 	/* get current parent node */
 	node   = axl_stack_peek (doc->parentNode);
-- 
2.43.0


From 3b1044f2154c9b9a5ef430f5a441038244510e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:43 +0000
Subject: [PATCH 22/78] fix: white space after comments was lost under
 xml:space=preserve, and text crossing a read boundary was corrupted

---
 src/axl_doc.c | 55 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index b23a7f7..6ce2637 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1167,7 +1167,7 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 	axlDoc    * doc           = NULL;
 	axlNode   * node          = NULL;
 	char      * string        = NULL;
-	int         index;
+	int         size          = 0;
 	axl_bool    is_empty      = axl_false;
 	
 	/* create the xml stream using provided data */
@@ -1204,26 +1204,37 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		/* while the stream have data */
 		while (axl_stream_remains (stream)) {
 
-			/* get current index */
-			index = axl_stream_get_index (stream);
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "current index: %d (global: %d)", index,
+			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "current index: %d (global: %d)", axl_stream_get_index (stream),
 				   axl_stream_get_global_index (stream));
 			
-			/* get rid from spaces according to the
-			 * xml:space configuration */
-			if (! axl_binary_stack_peek (doc->xmlPreserve)) {
-				AXL_CONSUME_SPACES(stream);
-			} /* end if */
-
-			/* consume a possible comment and process instructions */
-			if (axl_stream_peek (stream, "<?", 2) > 0 || axl_stream_peek (stream, "<!--", 4) > 0) {
-				if (! axl_doc_consume_comments (doc, stream, error))
+			/* consume a possible comment and process
+			 * instructions. White space found after them
+			 * is only kept if configured by xml:space */
+			if (axl_stream_peek (stream, "<?", 2) > 0) {
+				if (! axl_doc_consume_pi (doc, node, stream, error))
 					return NULL;
+				if (! axl_binary_stack_peek (doc->xmlPreserve)) {
+					AXL_CONSUME_SPACES(stream);
+				} /* end if */
 				
 				/* continue on the next index */
 				continue;
 			} /* end if */
+
+			if (axl_stream_inspect (stream, "<!--", 4) > 0) {
+				string = axl_stream_get_until_ref (stream, NULL, NULL, axl_true, &size, 1, "-->");
+				if (string == NULL) {
+					axl_error_new (-1, "detected an opened comment but not found the comment ending", 
+						       stream, error);
+					axl_stream_free (stream);
+					return NULL;
+				} /* end if */
+				axl_node_set_comment (node, string, size);
+				if (! axl_binary_stack_peek (doc->xmlPreserve)) {
+					AXL_CONSUME_SPACES(stream);
+				} /* end if */
+				continue;
+			} /* end if */
 			
 			if ((axl_stream_peek (stream, "</", 2) > 0)) {
 				/* accept previous peek */
@@ -1298,12 +1309,6 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 				continue;
 			}
 			
-			/* restore index position previous to the axl
-			 * space consuming */
-			if (axl_stream_get_index (stream) > index) {
-				axl_stream_move (stream, index);
-			}
-			
 			/* found node content */
 			axl_stream_set_buffer_alloc (stream, (axlStreamAlloc)__axl_doc_alloc, doc);
 			string = axl_stream_get_until (stream, NULL, NULL, axl_false, 1, "<");
@@ -1320,6 +1325,16 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 			 * the unique reference */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			/* get rid from content having only spaces
+			 * according to the xml:space configuration */
+			if (! axl_binary_stack_peek (doc->xmlPreserve)) {
+				size = 0;
+				while (string[size] != 0 && axl_stream_is_white_space (string + size))
+					size++;
+				if (string[size] == 0)
+					continue;
+			} /* end if */
+
 			/* set current data */
 			/* axl_node_set_content_ref (node, string, -1); */
 			axl_node_set_content_from_factory (doc->content_factory, node, string, -1); 
-- 
2.43.0


From 462c13aaa7797e50e81942cc3b8230a0e06d2f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:26 +0000
Subject: [PATCH 23/78] fix: content and other elements found after the root
 element were silently ignored

---
 src/axl_doc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 6ce2637..15ef867 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1357,6 +1357,17 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		return NULL;
 	}
 
+	/* consume comments and process instructions after the root
+	 * element and check nothing else follows (a null byte ends
+	 * the content) */
+	if (! axl_doc_consume_comments (doc, stream, error))
+		return NULL;
+	if (axl_stream_remains (stream) && ! axl_stream_inspect_code (stream, 0, 0)) {
+		axl_error_new (-1, "Found content after the root element", stream, error);
+		axl_stream_free (stream);
+		return NULL;
+	} /* end if */
+
 	/* parse complete */
 	axl_stream_unlink (stream);
 	axl_stream_free (stream);
-- 
2.43.0


From c515b6eacff3fae57847b5953a77610588488e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:19 +0000
Subject: [PATCH 24/78] fix: an element without attributes followed by the text
 /> was taken as an empty element

---
 src/axl_doc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 15ef867..9604be1 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -908,7 +908,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		 * the value 0 or 1 was matched, this means that we
 		 * are on "/>" case */
 		if ((matched_chunk == 1) ||
-		    axl_stream_inspect (stream, "/>", 2) > 0) {
+		    (matched_chunk != 0 && axl_stream_inspect (stream, "/>", 2) > 0)) {
 			/* use alloc though string factory */
 			axl_stream_set_buffer_alloc (stream, NULL, NULL);
 
-- 
2.43.0


From 4ad9ab00aa535dba2273420df78796453cfe8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:19 +0000
Subject: [PATCH 25/78] fix: axl_doc_parse_strings without strings returned no
 document and no error

---
 src/axl_doc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 9604be1..bf2855a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2055,8 +2055,10 @@ axlDoc  * axl_doc_parse_strings            (axlError ** error,
 
 	/* check that we have received, at least, an string
 	 * parseable */
-	if (stream == NULL)
+	if (stream == NULL) {
+		axl_error_new (-1, "No string was provided to be parsed", NULL, error);
 		return NULL;
+	}
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "string to parse: %s", stream);
 
-- 
2.43.0


From 930d11ac5b14f45a3d541d1ecb9a33752111d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:53 +0000
Subject: [PATCH 26/78] build: compile as gnu89 instead of strict ansi (accept
 line comments)

---
 configure.ac | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure.ac b/configure.ac
index 59d0d19..2c66444 100644
--- a/configure.ac
+++ b/configure.ac
@@ -58,7 +58,7 @@ AC_CHECK_SIZEOF(void *)
 compiler_options=""
 STRICT_PROTOTYPES=""
 if test "$compiler" = "gcc" ; then
-   compiler_options="-Wstrict-prototypes -Wall -Werror -g -ansi -fstack-protector-all -Wstack-protector"
+   compiler_options="-Wstrict-prototypes -Wall -Werror -g -std=gnu89 -fstack-protector-all -Wstack-protector"
    echo "Detected gcc compiler: $compiler, adding options: $compiler_options"
 fi
 AC_SUBST(compiler_options)
@@ -136,7 +136,7 @@ AM_CONDITIONAL(ENABLE_PY_AXL, test "x$python_devel_found" = "xyes")
 compiler_options=""
 STRICT_PROTOTYPES=""
 if test "$compiler" = "gcc" ; then
-   compiler_options="-Wstrict-prototypes -Wall -Werror -g -ansi"
+   compiler_options="-Wstrict-prototypes -Wall -Werror -g -std=gnu89"
    echo "Detected gcc compiler: $compiler, adding options: $compiler_options"
 fi
 AC_SUBST(compiler_options)
-- 
2.43.0


From 2cd849d3c0d24174db265bb1b50e84986bcc59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:04 +0000
Subject: [PATCH 27/78] fix: processing instructions without content crashed
 the dump functions and were never equal to themselves

---
 src/axl_doc.c  | 14 ++++++++++++++
 src/axl_node.c | 15 ++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index bf2855a..8703052 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2949,6 +2949,10 @@ axl_bool      axl_pi_are_equal                 (axlPI * pi,
 	if (! axl_cmp (pi->name, pi2->name))
 		return axl_false;
 
+	/* check for PIs without content */
+	if (pi->content == NULL || pi2->content == NULL)
+		return pi->content == pi2->content;
+
 	/* final check, both content must be equal */
 	return axl_cmp (pi->content, pi2->content);
 }
@@ -3016,6 +3020,10 @@ int       axl_pi_get_size                  (axlPI  * pi)
 {
 	axl_return_val_if_fail (pi, -1);
 
+	/* <?name?> */
+	if (pi->content == NULL)
+		return strlen (pi->name) + 4;
+
 	/* <?name content?> */
 	return strlen (pi->name) + strlen (pi->content) + 5;
 }
@@ -3550,6 +3558,12 @@ axl_bool      axl_doc_consume_pi (axlDoc * doc, axlNode * node,
 				return axl_false;
 			}
 
+			/* remove white spaces around the content,
+			 * which may leave the PI without it */
+			axl_stream_trim (string_aux2);
+			if (string_aux2[0] == 0)
+				string_aux2 = NULL;
+
 			/* check the destination for the pi */			
 			if (node != NULL) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "PI processing finished, adding PI (node) and its content");
diff --git a/src/axl_node.c b/src/axl_node.c
index 0e3d890..9e45046 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4900,14 +4900,15 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			memcpy (content + desp, string_aux, strlen (string_aux));
 			desp += strlen (string_aux);
 			
-			/* write pi start */
-			memcpy (content + desp, " ", 1);
-			desp += 1;
-			
-			/* write pi content */
+			/* write pi content (if defined) */
 			string_aux = axl_pi_get_content (item->data);
-			memcpy (content + desp, string_aux, strlen (string_aux));
-			desp += strlen (string_aux);
+			if (string_aux != NULL) {
+				memcpy (content + desp, " ", 1);
+				desp += 1;
+			
+				memcpy (content + desp, string_aux, strlen (string_aux));
+				desp += strlen (string_aux);
+			}
 			
 			/* write pi start */
 			memcpy (content + desp, "?>", 2);
-- 
2.43.0


From 75f865031383ad92b6138799b1c958abac297538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:04 +0000
Subject: [PATCH 28/78] fix: dumping an empty comment read the byte before its
 content

---
 src/axl_node.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 9e45046..5393cf9 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4692,7 +4692,9 @@ int       axl_node_get_flat_size            (axlNode * node, axl_bool pretty_pri
 			content = (axlNodeContent *) item->data;
 
 			/* check if the content has already defined white spaces */
-			if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
+			if (content->content_size == 0)
+				result += 9;
+			else if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 7;
 			else if (content->content[0] != ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 8;
@@ -4942,7 +4944,7 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			
 			/* add an space if the content is found to not
 			 * have one */
-			if (nodeContent->content [nodeContent->content_size - 1] == ' ') {
+			if (nodeContent->content_size > 0 && nodeContent->content [nodeContent->content_size - 1] == ' ') {
 				memcpy (content + desp, "-->", 3);
 				desp += 3;
 			} else {
-- 
2.43.0


From e6f596cff0e93b9811fe07d9278591024911a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:21 +0000
Subject: [PATCH 29/78] fix: the UTF-8 mark was not recognised when the first
 read returned less than 3 bytes

---
 src/axl_doc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 8703052..ed55bbc 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -631,9 +631,8 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "looking for an xml header declaration");
 
 	/* check for boms declarations */
-	if (axl_stream_check (stream, "\xEF\xBB\xBF", 3)) {
+	if (axl_stream_inspect (stream, "\xEF\xBB\xBF", 3) > 0) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  found UTF-8 bom mark");
-		axl_stream_move (stream, 3);
 	}
 
 	/* check for initial XMLDec (production 23) */
-- 
2.43.0


From d4e87ff362ac453ba84798bdda7f30ced2cbcda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:46 +0000
Subject: [PATCH 30/78] fix: content with explicit size was read beyond it
 looking for ]]>, and CDATA ignored the size provided

---
 src/axl_node.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 5393cf9..5a60ec7 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -409,7 +409,7 @@ char * __axl_node_content_copy_and_escape (const char * content,
 		}
 
 		/* check for ]]> declaration */
-		if (content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
+		if ((iterator2 + 2) < content_size && content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
 			if (cdata) {
 				memcpy (result + iterator, "]]>]]&gt;<![CDATA[", 18);
 				iterator  += 18;
@@ -2994,7 +2994,8 @@ void      axl_node_set_cdata_content  (axlNode    * node,
 			   content_size, copy);
 	} else {
 		/* call to set node content */	
-		copy = axl_strdup (content);
+		copy = axl_new (char, content_size + 1);
+		memcpy (copy, content, content_size);
 	} /* end if */
 
 	/* set content */
@@ -5210,7 +5211,7 @@ axl_bool      axl_node_has_invalid_chars_internal        (const char * content,
 		}
 
 		/* check for ]]> */
-		if (content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
+		if ((iterator + 2) < content_size && content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found invalid sequence=']]>'");
 			result = axl_true;
 			if (cdata) {
-- 
2.43.0


From 84c69a8eedebc8d93dabf790186f8525064697d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 31/78] fix: CDATA content with ]]> was read back with its
 escape sequence inside

---
 src/axl_node.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index 5a60ec7..174fd65 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -474,6 +474,16 @@ char * axl_node_content_translate_defaults (char * content,
 	/* iterate over all content defined */
 	while (iterator < (*content_size)) {
 		
+		/* check for the sequence placed by CDATA content
+		 * having ]]> */
+		if (axl_stream_cmp (content + iterator, "]]>]]&gt;<![CDATA[", 18)) {
+			memcpy (content + iterator2, "]]>", 3);
+			iterator2 += 3;
+			
+			iterator += 18;
+			continue;
+		}
+		
 		/* check for &apos; */
 		if (axl_stream_cmp (content + iterator, "&apos;", 6)) {
 			content [iterator2] = '\'';
-- 
2.43.0


From 2d9e60b375323983126d038458e896dfc4b4f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 32/78] fix: removing an attribute from a node having 11
 escaped again the values of the others

---
 src/axl_node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 174fd65..8a0863a 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -1323,8 +1323,8 @@ axl_bool          axl_node_has_attribute      (axlNode * node, const char * attr
 axl_bool __axl_node_remove_attribute_reinsert  (axlPointer key, axlPointer data, axlPointer user_data)
 {
 	
-	/* re-add attributes into the node */
-	axl_node_set_attribute (user_data, key, data);
+	/* re-add attributes into the node (values are already escaped) */
+	axl_node_set_attribute_ref (user_data, axl_strdup (key), axl_strdup (data));
 
 	return axl_false; /* do not stop until process all nodes */
 }
-- 
2.43.0


From b5a7cd86d8e0da67cc13a88b2d58328ec06b0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:45 +0000
Subject: [PATCH 33/78] fix: attribute cursors placed after the last attribute
 crashed on has next, get key and get value

---
 src/axl_node.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 8a0863a..f88f743 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5699,7 +5699,7 @@ axl_bool                 axl_node_attr_cursor_has_next  (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return (((axlNodeAttr *) cursor->data)->next) != NULL;
+		return cursor->data != NULL && (((axlNodeAttr *) cursor->data)->next) != NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
@@ -5753,7 +5753,7 @@ const char *         axl_node_attr_cursor_get_key   (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return ((axlNodeAttr *) cursor->data)->attribute;
+		return cursor->data ? ((axlNodeAttr *) cursor->data)->attribute : NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
@@ -5780,7 +5780,7 @@ const char *         axl_node_attr_cursor_get_value (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return ((axlNodeAttr *) cursor->data)->value;
+		return cursor->data ? ((axlNodeAttr *) cursor->data)->value : NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
-- 
2.43.0


From 0173867b42b7e649b9bed0543ced06dcd2850c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:21 +0000
Subject: [PATCH 34/78] fix: renaming (by reference) an element read from a
 document leaked the name

---
 src/axl_node.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index f88f743..25420b8 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -847,6 +847,7 @@ void      axl_node_set_name_ref             (axlNode * node, char * name)
 
 	/* alloc the new name */
 	node->name = name;
+	node->conf &= ~NODE_NAME_FROM_FACTORY;
 	
 	return;
 }
-- 
2.43.0


From a012d4c28ca0ed22b75ab9765cbe9c3849bf8880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:21 +0000
Subject: [PATCH 35/78] fix: elements removed from the document kept their
 parent, so removing them again dropped all its childs

---
 src/axl_node.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index 25420b8..08c6eed 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3550,6 +3550,7 @@ void      axl_node_remove             (axlNode  * node,
 			/* disconnect the item */
 			item->previous = NULL;
 			item->next     = NULL;
+			item->parent   = NULL;
 		} /* end if */
 
 	} /* end if */
-- 
2.43.0


From ca211f4dae76282d4961e2b26758e29f0f325515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:22 +0000
Subject: [PATCH 36/78] fix: removing a content, comment or PI item placed
 first or last left the parent pointing to it

---
 src/axl_node.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 08c6eed..3f2bf44 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6539,8 +6539,8 @@ void          axl_item_remove          (axlItem   * item,
 	if (item->next != NULL)
 		item->next->previous = item->previous;
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = item->next;
 
@@ -6551,6 +6551,7 @@ void          axl_item_remove          (axlItem   * item,
 	/* free the item */
 	item->next     = NULL;
 	item->previous = NULL;
+	item->parent   = NULL;
 
 	if (dealloc) {
 		axl_item_free (item, axl_true);
-- 
2.43.0


From f1514249081d8d32157b4d3ce7482a5418039e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:22 +0000
Subject: [PATCH 37/78] fix: replacing a content, comment or PI item placed
 first or last left the parent pointing to it

---
 src/axl_node.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 3f2bf44..b4283ac 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6594,8 +6594,8 @@ void          axl_item_replace        (axlItem  * item,
 		new_item->next       = item->next;
 	}
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = new_item;
 
@@ -6603,14 +6603,15 @@ void          axl_item_replace        (axlItem  * item,
 			item->parent->last = new_item;
 	} /* end if */
 
-	/* free the item */
-	item->next     = NULL;
-	item->previous = NULL;
-
 	/* configure values */
 	new_item->parent = item->parent;
 	new_item->doc    = item->doc;
 
+	/* free the item */
+	item->next     = NULL;
+	item->previous = NULL;
+	item->parent   = NULL;
+
 	if (dealloc) {
 		axl_item_free (item, axl_true);
 
-- 
2.43.0


From 64afc228a314bfc51131b114a035365b602746e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:22 +0000
Subject: [PATCH 38/78] fix: childs transferred to an empty parent kept the
 links to their previous siblings

---
 src/axl_node.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index b4283ac..0cd14f9 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6435,8 +6435,10 @@ void axl_item_set_child_ref (axlNode * parent, axlItem * item)
 	if (parent->first == NULL) {
 		/* init first and last reference to the only one
 		 * child */
-		parent->first = item;
-		parent->last  = item;
+		parent->first  = item;
+		parent->last   = item;
+		item->previous = NULL;
+		item->next     = NULL;
 	}else {
 		/* configure the next item to the current last
 		 * child */
-- 
2.43.0


From cdad34660b394e3619d1709d32d1577501641b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:22 +0000
Subject: [PATCH 39/78] fix: replacing an element with another one previously
 detached leaked the item holding it

---
 src/axl_node.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index 0cd14f9..fdcb6d4 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3468,6 +3468,8 @@ void      axl_node_replace             (axlNode   * node,
 			/* nullify the holder reference, and configure
 			 * the holder reference in the node */
 			node->holder     = NULL;
+			if (new_node->holder != NULL && ! (new_node->holder->type & ITEM_FROM_FACTORY))
+				axl_free (new_node->holder);
 			new_node->holder = p_item;
 			
 		} /* end if */
-- 
2.43.0


From 089684fa71afe33ddc47dcf5c8f9a1d9f8d2792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:29 +0000
Subject: [PATCH 40/78] fix: axl_item_new for elements copied nothing and
 crashed

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index fdcb6d4..f6ad192 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5918,7 +5918,7 @@ axlItem     * axl_item_new             (AxlItemType type,
 	switch (axl_item_get_type (item)) {
 	case ITEM_NODE:
 		/* item the node */
-		node                 = axl_node_copy (item->data, axl_true, axl_true);
+		node                 = axl_node_copy (data, axl_true, axl_true);
 		node->holder         = item;
 		item->data           = node;
 		break;
-- 
2.43.0


From bac5dbfebe72c16732c9d75fed1d103b0c3fad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:56 +0000
Subject: [PATCH 41/78] fix: axl_node_free_full never released the childs, even
 when asked to

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index f6ad192..f1c84e8 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5513,7 +5513,7 @@ void      axl_node_free_full       (axlNode * node, axl_bool also_childs)
 	hash = node->annotate_data;
 
 	/* free node */
-	__axl_node_free_internal (node, axl_false);
+	__axl_node_free_internal (node, also_childs);
 
 	/* free the node itself */
 	if (!(node->conf & NODE_FROM_FACTORY))
-- 
2.43.0


From efeb7a9a56ae704089f5a5fbd94c198f6c823f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:02 +0000
Subject: [PATCH 42/78] fix: axl_doc_are_equal ignored differences on white
 space around content (it must compare byte by byte)

---
 src/axl_doc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index ed55bbc..34a5f6b 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2233,8 +2233,8 @@ axl_bool      axl_doc_are_equal_trimmed        (axlDoc * doc,
 axl_bool      axl_doc_are_equal                (axlDoc * doc, 
 						axlDoc * doc2)
 {
-	/* call to common implemenation, activating triming */
-	return axl_doc_are_equal_common (doc, doc2, axl_true, NULL);
+	/* call to common implemenation, without triming */
+	return axl_doc_are_equal_common (doc, doc2, axl_false, NULL);
 }
 
 /** 
-- 
2.43.0


From fcb6663d88c486640ebcc3949a495c4e6679df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:08 +0000
Subject: [PATCH 43/78] fix: documents without root element were not equal to
 themselves

---
 src/axl_doc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 34a5f6b..9b03176 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2179,6 +2179,10 @@ axl_bool      axl_doc_are_equal_common (axlDoc    * doc,
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "document(b) doesn't have document root ..");
 	}
 
+	/* two documents without root are equal */
+	if (node == NULL && node2 == NULL)
+		return axl_true;
+
 	/* call to common implemenation, activating triming */
 	return __axl_doc_are_equal (node, node2, trimmed, error);
 }
-- 
2.43.0


From 5c539d5a456f4ab2425e2b7834f6e17a4d380f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:08 +0000
Subject: [PATCH 44/78] fix: comparing documents reported no error for some of
 the differences found

---
 src/axl_doc.c  |  9 +++++++--
 src/axl_node.c | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 9b03176..57d4231 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2085,7 +2085,7 @@ axl_bool __axl_doc_are_equal (axlNode * node, axlNode * node2, axl_bool trimmed,
 	axlItem * child2;
 	
 	/* check if parent nodes are equal */
-	if (! axl_node_are_equal (node, node2))
+	if (! axl_node_are_equal_full (node, node2, error))
 		return axl_false;
 
 	/* iterate over all childs inside the node */
@@ -2141,8 +2141,13 @@ axl_bool __axl_doc_are_equal (axlNode * node, axlNode * node2, axl_bool trimmed,
 		
 	} /* end while */
 
+	if (child != NULL || child2 != NULL) {
+		axl_error_report (error, -1, "number of items found inside the node differs, documents aren't equal");
+		return axl_false;
+	} /* end if */
+
 	/* the nodes recieved are equal */
-	return (child == NULL && child2 == NULL);
+	return axl_true;
 }
 
 /** 
diff --git a/src/axl_node.c b/src/axl_node.c
index f1c84e8..3fd75c1 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6774,7 +6774,13 @@ axl_bool          axl_item_are_equal_full      (axlItem    * item,
 			}
 			
 			/* now check content value */
-			return axl_cmp (content->content, content2->content);
+			if (memcmp (content->content, content2->content, content->content_size) != 0) {
+				axl_error_report (error, -1, "Items content differs ('%s' != '%s')", 
+						  content->content, content2->content);
+				return axl_false;
+			} /* end if */
+
+			return axl_true;
 		}else {
 			/* duplicate the content */
 			trim = axl_strdup (content->content);
@@ -6800,7 +6806,12 @@ axl_bool          axl_item_are_equal_full      (axlItem    * item,
 		}
 	case ITEM_PI:
 		/* pi case */
-		return axl_pi_are_equal (item->data, item2->data);
+		if (! axl_pi_are_equal (item->data, item2->data)) {
+			axl_error_report (error, -1, "Process instructions differs");
+			return axl_false;
+		} /* end if */
+
+		return axl_true;
 	default:
 		/* no case identified, not equal */
 		break;
-- 
2.43.0


From 33b536eb95481c356fb7937f1337ee3945aed81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:08 +0000
Subject: [PATCH 45/78] fix: copies of content having NUL bytes were shorter
 than the size recorded

---
 src/axl_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 3fd75c1..d2c2848 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6495,7 +6495,8 @@ axlItem * axl_item_copy (axlItem * item, axlNode * set_parent)
 	case ITEM_COMMENT:
 		/* copy content */
 		content               = axl_new (axlNodeContent, 1);
-		content->content      = axl_strdup (((axlNodeContent * ) item->data)->content);
+		content->content      = axl_new (char, ((axlNodeContent * ) item->data)->content_size + 1);
+		memcpy (content->content, ((axlNodeContent * ) item->data)->content, ((axlNodeContent * ) item->data)->content_size);
 		content->content_size = ((axlNodeContent * ) item->data)->content_size;
 
 		/* copy content */
-- 
2.43.0


From 868ee807a5b907710bc0a724f6d537a7aeb6f5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:51 +0000
Subject: [PATCH 46/78] fix: axl_doc_get_list never found nodes with * and only
 returned the first node at the path

---
 src/axl_doc.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 57d4231..f16b49b 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2441,8 +2441,23 @@ axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 			return NULL;
 		}
 
-		/* get a reference to the node searched */
-		node = axl_node_get_child_called (node, paths[iterator]);
+		/* check if this is the last path, to get all nodes
+		 * found at it */
+		if (paths[iterator + 1] == NULL || strlen (paths[iterator + 1]) == 0) {
+			node = axl_node_get_first_child (node);
+			while (node != NULL) {
+				if (axl_cmp (paths[iterator], "*") || NODE_CMP_NAME (node, paths[iterator]))
+					axl_list_append (nodes, node);
+				node = axl_node_get_next (node);
+			} /* end while */
+
+			/* get the first node found */
+			node = axl_list_get_first (nodes);
+		} else {
+			/* get a reference to the node searched */
+			node = axl_node_get_child_called (node, paths[iterator]);
+		} /* end if */
+
 		if (node == NULL) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "the node located at %s wasn't found.", path_to);
 
@@ -2456,12 +2471,19 @@ axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 		iterator++;
 	}
 
-	/* add the node found */
-	axl_list_add (nodes, node);
-
 	/* free paths */
 	axl_stream_freev (paths);
 
+	/* no root node to return */
+	if (node == NULL) {
+		axl_list_free (nodes);
+		return NULL;
+	} /* end if */
+
+	/* add the node found */
+	if (axl_list_length (nodes) == 0)
+		axl_list_add (nodes, node);
+
 	/* return the node found */
 	return nodes;
 }
-- 
2.43.0


From c9001bc0d14e20ed777ecb95eef048dfea80e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:51 +0000
Subject: [PATCH 47/78] fix: the list returned by axl_node_get_pi_target_list
 owned the PIs of the document (released twice)

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index d2c2848..0357c65 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4538,7 +4538,7 @@ axlList * axl_node_get_pi_target_list       (axlNode * node)
 		if (axl_item_get_type (item) == ITEM_PI) {
 			/* create the result list */
 			if (result == NULL)
-				result = axl_list_new (axl_list_always_return_1, (axlDestroyFunc) axl_pi_free);	 
+				result = axl_list_new (axl_list_always_return_1, NULL);	 
 
 			/* add the list */
 			axl_list_add (result, item->data);
-- 
2.43.0


From 02fc29480745372ba6412ba2055afd5844fb05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:35 +0000
Subject: [PATCH 48/78] fix: only xmlns and xmlns:prefix attributes are
 namespace declarations

---
 ns/axl_ns_doc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 91e0772..140ad30 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -96,7 +96,7 @@ axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor
 
 		/* get the key */
 		attr = axl_node_attr_cursor_get_key (cursor);
-		if (! axl_memcmp (attr, "xmlns", 5)) {
+		if (! axl_memcmp (attr, "xmlns", 5) || (attr[5] != 0 && attr[5] != ':')) {
 			/* no xml namespace declaration found, go next */
 			axl_node_attr_cursor_next (cursor);
 			continue;
@@ -257,7 +257,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 			
 			/* get the key */
 			name = (char*) axl_node_attr_cursor_get_key (cursor);
-			if (axl_memcmp (name, "xmlns", 5)) {
+			if (axl_memcmp (name, "xmlns", 5) && (name[5] == 0 || name[5] == ':')) {
 				/* skip namespace declarations */
 				axl_node_attr_cursor_next (cursor);
 				continue;
-- 
2.43.0


From ad5896449adb81bc1aa0c4a5d26e327526dffc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:35 +0000
Subject: [PATCH 49/78] fix: the xml prefix needs no namespace declaration
 (documents with xml:space or xml:lang failed validation)

---
 ns/axl_ns_doc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 140ad30..1673658 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -225,7 +225,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 			ns_table = axl_node_annotate_get (parent, NS_TABLE, axl_false);
 
 			/* check the namespace */
-			if (ns_table != NULL && axl_hash_exists (ns_table->table, name)) {
+			if (axl_cmp (name, "xml") || (ns_table != NULL && axl_hash_exists (ns_table->table, name))) {
 				/* prefix found, restore node name */
 				name[iterator] = ':';
 				break;
@@ -290,7 +290,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 					ns_table = axl_node_annotate_get (parent, NS_TABLE, axl_false);
 					
 					/* check the namespace */
-					if (ns_table != NULL && axl_hash_exists (ns_table->table, name)) {
+					if (axl_cmp (name, "xml") || (ns_table != NULL && axl_hash_exists (ns_table->table, name))) {
 						/* prefix found, restore attribute name */
 						name[iterator] = ':';
 						break;
-- 
2.43.0


From a549ac0cc66051f290f69bf2fabdd98de8c93f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 50/78] fix: in-memory documents whose text grows when decoded
 to UTF-8 were cut (and rejected)

---
 src/axl_stream.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index bdb8dc8..6f2081e 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3657,6 +3657,9 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 						axlPointer          user_data,
 						axlError         ** error)
 {
+	int  op_result;
+	int  decoded;
+
 	axl_return_val_if_fail (stream, axl_false);
 
 	/* do not check if the decode_f function is NULL (it's a valid
@@ -3691,13 +3694,28 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 					 stream->buffer_size - stream->stream_index,
 					 /* output decoded */
 					 &(stream->stream_size),
-					 /* do not define op result */
-					 NULL,
+					 &op_result,
 					 error))
 			return axl_false;
 		
 		/* add to the stream size the current index */
 		stream->stream_size += stream->stream_index;
+
+		/* memory streams won't be prebuffered: get more room
+		 * until all the content is decoded */
+		while (op_result == 2 && stream->type == STREAM_MEM) {
+			stream->buffer_size += stream->buffer_size;
+			stream->stream       = realloc (stream->stream, stream->buffer_size + 1);
+			axl_free (stream->temp);
+			stream->temp         = NULL;
+			if (! axl_stream_decode (stream,
+						 stream->stream + stream->stream_size,
+						 stream->buffer_size - stream->stream_size,
+						 &decoded, &op_result, error))
+				return axl_false;
+			stream->stream_size += decoded;
+			stream->stream[stream->stream_size] = 0;
+		} /* end while */
 		
 	} /* end if */
 
-- 
2.43.0


From 0552c277d6e476c37c1c7c74292b1b76677ab895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 51/78] fix: prebuffering a decoded stream used an
 uninitialised result, reported the end of file as data, and showed again
 consumed content after a buffer expansion

---
 src/axl_stream.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 6f2081e..62c8028 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -252,8 +252,9 @@ struct _axlStream {
  */
 axl_bool axl_stream_prebuffer (axlStream * stream)
 {
-	int  bytes_read;
-	int  op_result;
+	int  bytes_read = 0;
+	int  op_result  = 0;
+	int  size_before;
 
 	/* check some environment conditions */
 	axl_return_val_if_fail (stream, axl_false);
@@ -292,7 +293,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		/* check here if the buffer is full of content and a call to
 		 * prebuffer was done */
 		if (((stream->stream_size == stream->buffer_size) && 
-		    (stream->stream_index == 0)) || stream->needs_expansion) {
+		    (stream->stream_index == 0)) || (stream->needs_expansion && stream->stream_index == 0)) {
 			/* looks like the caller is prebuffering
 			 * having all buffers full of content .. */
 			
@@ -335,6 +336,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 
 	/* reset current index */
 	stream->stream_index = 0;
+	size_before          = stream->stream_size;
 
 	/* check if we have decode functions defined */
 	if (stream->decode_f) {
@@ -404,7 +406,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 			if (stream->decode_temp_index == 0 && 
 			    stream->decode_temp_last == 0 && 
 			    stream->fd == -1) 
-				return axl_true;
+				return stream->stream_size > size_before;
 			
 		} /* end while */
 
-- 
2.43.0


From 2012a584b1ac89ac8930f92d99d119d43a0fe57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 52/78] fix: bytes not defined by the declared encoding were
 decoded as the end of the text, now they are an error

---
 babel/axl_babel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index e3e3e16..4bed094 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -275,6 +275,10 @@ int axl_babel_single_to_utf8 (const char * source, int source_size,
 
 		/* __axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "translating value=%c (%d)", source[iterator], value); */
 
+		/* check for values not defined by the encoding */
+		if (value != 0 && table[value].buffer[0] == 0)
+			return 0;
+
 		/* check if we are able to place all the encoded item */
 		if ((iterator2 + table[value].size) > output_size) {
 			/* __axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "unable to completely decode following sequence (%d size, on remain: %d)",
-- 
2.43.0


From aec04ee9ca41424c1a14eb1dd8691146193dfba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 53/78] fix: a failing read, decode or content check while
 prebuffering is a parse error (the rest of the file was ignored or the
 failing block skipped)

---
 src/axl_doc.c    |  5 +++++
 src/axl_stream.c | 36 +++++++++++++++++++++++++++++++++++-
 src/axl_stream.h |  2 ++
 src/libaxl.def   |  1 +
 4 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index f16b49b..43d1271 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1366,6 +1366,11 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		axl_stream_free (stream);
 		return NULL;
 	} /* end if */
+	if (axl_stream_read_failed (stream)) {
+		axl_error_new (-1, "Failed to read document content", stream, error);
+		axl_stream_free (stream);
+		return NULL;
+	} /* end if */
 
 	/* parse complete */
 	axl_stream_unlink (stream);
diff --git a/src/axl_stream.c b/src/axl_stream.c
index 62c8028..75b73ff 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -219,6 +219,12 @@ struct _axlStream {
 	 * the content check function (check_f).
 	 */
 	axlPointer            check_f_data;
+
+	/** 
+	 * @internal Signals that prebuffering stopped because an
+	 * error was found and not because the end of the content.
+	 */
+	axl_bool              prebuffer_failed;
 };
 
 
@@ -357,6 +363,9 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 							 /* output decoded */
 							 &bytes_read, &op_result, NULL)) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to decode content at the temporal decode buffer");
+					stream->prebuffer_failed = axl_true;
+					close (stream->fd);
+					stream->fd = -1;
 					return axl_false;
 				} /* end if */
 
@@ -394,6 +403,8 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 					stream->decode_temp_last += bytes_read;
 				else if (bytes_read <= 0 && stream->fd > 0) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
+					if (bytes_read < 0)
+						stream->prebuffer_failed = axl_true;
 					close (stream->fd);
 					stream->fd = -1;
 				} /* end if */
@@ -423,10 +434,13 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   bytes read from the file, size %d", bytes_read);
 
 		/* call to check */
-		if (stream->check_f) {
+		if (stream->check_f && bytes_read > 0) {
 			/* call to check */
 			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size, bytes_read, NULL)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to prebuffer, content check function have failed");
+				stream->prebuffer_failed = axl_true;
+				close (stream->fd);
+				stream->fd = -1;
 				return axl_false;
 			}
 		} /* end if */
@@ -434,6 +448,8 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		/* check for end of file reached */
 		if (bytes_read <= 0) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
+			if (bytes_read < 0)
+				stream->prebuffer_failed = axl_true;
 			close (stream->fd);
 			stream->fd = -1;
 			return axl_false;
@@ -2152,6 +2168,24 @@ axl_bool        axl_stream_remains         (axlStream * stream)
 	return axl_true;
 }
 
+/** 
+ * @brief Allows to check if the stream stopped delivering content
+ * because an error was found (a failing read, content that can't be
+ * decoded or content that doesn't pass the check function installed)
+ * and not because the end of the content was reached.
+ * 
+ * @param stream The stream to check.
+ * 
+ * @return axl_true if an error was found reading the stream content,
+ * otherwise axl_false is returned.
+ */
+axl_bool        axl_stream_read_failed     (axlStream * stream)
+{
+	axl_return_val_if_fail (stream, axl_false);
+
+	return stream->prebuffer_failed;
+}
+
 
 /* @} */
 
diff --git a/src/axl_stream.h b/src/axl_stream.h
index 4557f28..3beba64 100644
--- a/src/axl_stream.h
+++ b/src/axl_stream.h
@@ -164,6 +164,8 @@ void        axl_stream_consume_white_spaces (axlStream * stream);
 
 axl_bool    axl_stream_remains         (axlStream * stream);
 
+axl_bool    axl_stream_read_failed     (axlStream * stream);
+
 /* @} */
 
 /* string handling interface */
diff --git a/src/libaxl.def b/src/libaxl.def
index fb84987..1ede128 100644
--- a/src/libaxl.def
+++ b/src/libaxl.def
@@ -451,6 +451,7 @@ axl_stream_printf_buffer
 axl_stream_printf_len
 axl_stream_printf_limit
 axl_stream_push
+axl_stream_read_failed
 axl_stream_remains
 axl_stream_remove
 axl_stream_replace
-- 
2.43.0


From f44efd3750e19a9b6a6383415d6c3fac1ad49a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 54/78] fix: the UTF-8 check accepts overlong forms, surrogates
 and values beyond U+10FFFF

---
 babel/axl_babel.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 4bed094..3c5d34d 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -480,6 +480,7 @@ axl_bool        axl_babel_check_utf8_content  (const char  * content,
 {
 	int           iterator = 0;
 	unsigned char value;
+	unsigned char first;
 
 
 	if (index_error)
@@ -495,11 +496,13 @@ axl_bool        axl_babel_check_utf8_content  (const char  * content,
 	while (iterator < content_length) {
 		/* utf with 4 octects */
 		value = content[iterator];
-		if (value >= 240 && value <= 247 && (iterator + 1) < content_length ) {
+		if (value >= 240 && value <= 244 && (iterator + 1) < content_length ) {
 			
-			/* get next value */
+			/* get next value (no overlong forms and nothing
+			 * beyond U+10FFFF) */
+			first = value;
 			value = content[iterator + 1];
-			if (value >= 128 && value <= 191 && (iterator + 2) < content_length ) {
+			if (value >= (first == 240 ? 144 : 128) && value <= (first == 244 ? 143 : 191) && (iterator + 2) < content_length ) {
 
 				/* get next value */
 				value = content[iterator + 2];
@@ -523,9 +526,11 @@ axl_bool        axl_babel_check_utf8_content  (const char  * content,
 			
 		/* utf with 3 octects */
 		if (value >= 224 && value <= 239  && (iterator + 1) < content_length ) {
-			/* get next value */
+			/* get next value (no overlong forms and no
+			 * surrogates) */
+			first = value;
 			value = content[iterator + 1];
-			if (value >= 128 && value <= 191 && (iterator + 2) < content_length ) {
+			if (value >= (first == 224 ? 160 : 128) && value <= (first == 237 ? 159 : 191) && (iterator + 2) < content_length ) {
 
 				/* get next value */
 				value = content[iterator + 2];
@@ -544,7 +549,7 @@ axl_bool        axl_babel_check_utf8_content  (const char  * content,
 		} 
 
 		/* utf with 2 octects */
-		if (value >= 192 && value <= 223  && (iterator + 1) < content_length ) {
+		if (value >= 194 && value <= 223  && (iterator + 1) < content_length ) {
 			/* get next value */
 			value = content[iterator + 1];
 			if (value >= 128 && value <= 191) {
-- 
2.43.0


From b45356ee94c64f16257311111ccef46ab7b29479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:54 +0000
Subject: [PATCH 55/78] fix: valid UTF-8 documents rejected when a character
 falls across two reads, and no error reported for invalid ones

---
 babel/axl_babel.c | 68 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 3 deletions(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 3c5d34d..35b9a89 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -315,6 +315,28 @@ int axl_babel_single_to_utf8 (const char * source, int source_size,
 	return 2;
 }
 
+/** 
+ * @internal Content of a character not completed yet by the content
+ * received to be checked.
+ */
+typedef struct _axlBabelPending {
+	char buffer[4];
+	int  count;
+} axlBabelPending;
+
+/** 
+ * @internal Number of octets of the utf-8 character starting with the
+ * octet provided.
+ */
+int __axl_babel_utf8_length (unsigned char value)
+{
+	if (value >= 240)
+		return 4;
+	if (value >= 224)
+		return 3;
+	return value >= 192 ? 2 : 1;
+}
+
 /** 
  * @internal Function that performs translation from encoding
  * representations using 1 octect (0..255) into utf-8.
@@ -329,8 +351,45 @@ int axl_babel_utf8_check (const char  * source,
 			  axlPointer    user_data,
 			  axlError   ** error)
 {
+	axlBabelPending * pending = (axlBabelPending *) user_data;
+	int               iterator;
+	int               length;
+	axl_bool          result;
+
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received notification to check content size=%d to have valid utf-8: %s", source_size, source);
-	return axl_babel_check_utf8_content (source, source_size, NULL) ? 1 : 0;
+
+	/* complete the character left unfinished by the previous content */
+	while (pending->count > 0 && source_size > 0) {
+		pending->buffer[pending->count] = *source;
+		pending->count++;
+		source++;
+		source_size--;
+		if (pending->count == __axl_babel_utf8_length (pending->buffer[0])) {
+			result         = axl_babel_check_utf8_content (pending->buffer, pending->count, NULL);
+			pending->count = 0;
+			if (! result) {
+				axl_error_new (-1, "found content that is not valid utf-8", NULL, error);
+				return 0;
+			} /* end if */
+		} /* end if */
+	} /* end while */
+
+	/* leave for the next call a character that is not complete */
+	for (length = 1; length <= 3 && length <= source_size; length++) {
+		if (__axl_babel_utf8_length (source[source_size - length]) > length) {
+			for (iterator = 0; iterator < length; iterator++)
+				pending->buffer[iterator] = source[source_size - length + iterator];
+			pending->count  = length;
+			source_size    -= length;
+			break;
+		} /* end if */
+	} /* end for */
+
+	if (! axl_babel_check_utf8_content (source, source_size, NULL)) {
+		axl_error_new (-1, "found content that is not valid utf-8", NULL, error);
+		return 0;
+	} /* end if */
+	return 1;
 }
 
 
@@ -358,7 +417,8 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 				       const char * detected, 
 				       axlPointer user_data, axlError ** error)
 {
-	axlBabelTable * table = NULL;
+	axlBabelTable   * table = NULL;
+	axlBabelPending * pending;
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "configuring final document enconding, previously detected=%s, declared=%s",
 		   detected ? detected : "none",
@@ -435,7 +495,9 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "installed handler encoding for utf-8");
 		
 		/* install checker without table */
-		if (! axl_stream_setup_check (stream, encoding, axl_babel_utf8_check, NULL, error)) 
+		pending = axl_new (axlBabelPending, 1);
+		axl_stream_link_full (stream, pending, axl_free, axl_true);
+		if (! axl_stream_setup_check (stream, encoding, axl_babel_utf8_check, pending, error)) 
 			return axl_false; 
 		return axl_true;
 	} /* end if */
-- 
2.43.0


From a8f89ffcd106105f051bb3fb61d99572186a6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:34 +0000
Subject: [PATCH 56/78] fix: encoding detection fails without an error on short
 content, when the first read is short and on leading white spaces

---
 babel/axl_babel.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 35b9a89..81a4fdb 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -128,8 +128,9 @@ axl_bool axl_babel_detect_codification (axlStream        * stream,
 {
 	/* check basic case where the stream have no content to
 	 * parse */
-	if (axl_stream_get_size (stream) < 4) {
+	if (axl_stream_fall_outside (stream, 4)) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "unable to detect codification, stream received doesn't have enough content to parse");
+		axl_error_new (-1, "unable to detect encoding format, not enough content", NULL, error);
 		return axl_false;
 	} /* end if */
 
@@ -204,6 +205,12 @@ axl_bool axl_babel_detect_codification (axlStream        * stream,
 		return axl_true;
 	} /* end if */
 
+	/* white spaces before the first node, without xml header */
+	if (axl_stream_inspect_code (stream, 0x20, 0) || axl_stream_inspect_code (stream, 0x09, 0) ||
+	    axl_stream_inspect_code (stream, 0x0A, 0) || axl_stream_inspect_code (stream, 0x0D, 0)) {
+		goto assume_utf8;
+	}
+
 	/* check last case where an utf-8 document could be found without xml header */
 	if (axl_stream_inspect_code (stream, 0x3C, 0) &&
 	  ! axl_stream_inspect_code (stream, 0x3C, 1) &&
-- 
2.43.0


From 6b7b5ab78e9565a91f36c290b93f67294ae02a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:12 +0000
Subject: [PATCH 57/78] fix: documents without an encoding declaration were not
 checked to be valid UTF-8 (detected encoding ignored, unfinished characters
 at the end of the content accepted)

---
 babel/axl_babel.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 81a4fdb..233bdbd 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -367,6 +367,10 @@ int axl_babel_utf8_check (const char  * source,
 
 	/* complete the character left unfinished by the previous content */
 	while (pending->count > 0 && source_size > 0) {
+		if ((*source & 0xC0) != 0x80) {
+			axl_error_new (-1, "found content that is not valid utf-8", NULL, error);
+			return 0;
+		} /* end if */
 		pending->buffer[pending->count] = *source;
 		pending->count++;
 		source++;
@@ -390,6 +394,9 @@ int axl_babel_utf8_check (const char  * source,
 			source_size    -= length;
 			break;
 		} /* end if */
+		/* without a character started by the octets following */
+		if ((source[source_size - length] & 0xC0) != 0x80)
+			break;
 	} /* end for */
 
 	if (! axl_babel_check_utf8_content (source, source_size, NULL)) {
@@ -432,9 +439,10 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 		   encoding ? encoding : "none");
 
 	/* check case were a encoding was detected (the entity content
-	 * is encoded as detected due to marks or other means) */
-	if (detected && encoding == NULL)
-		detected = encoding;
+	 * is encoded as detected due to marks or other means),
+	 * assuming utf-8 if neither was declared nor detected */
+	if (encoding == NULL)
+		encoding = detected ? detected : "utf8";
 
 	/* check encoding found (either detected or defined) */
 	if (axl_cmp (encoding, "iso88591")) {
-- 
2.43.0


From e5f6e6676322295ed0cde9eb924d1ad531dee4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:25 +0000
Subject: [PATCH 58/78] fix: a DTD whose elements contain each other (or
 themselves) made the search for the root element loop forever

---
 src/axl_dtd.c | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 99ed59e..4a4499e 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -474,36 +474,57 @@ axl_bool     __axl_dtd_get_is_parent (axlDtdElement * dtd_element_parent,
 axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd) 
 {
 	int             iterator;
-	axl_bool        change_detected;
+	int             pending;
+	axl_bool        have_parent;
+	axlList       * ancestors;
 
 	axlDtdElement * dtd_element_aux;
 	axlDtdElement * dtd_element_the_root_is_on_fire;
 
 	/* set the very first root node */
 	dtd_element_the_root_is_on_fire = axl_list_get_nth (dtd->elements, 0);
-	
-	do {
+
+	/* elements that contain, directly or not, the first one, each
+	 * of them visited only once because elements may contain each
+	 * other or themselves */
+	ancestors = axl_list_new (axl_list_equal_ptr, NULL);
+	axl_list_add (ancestors, dtd_element_the_root_is_on_fire);
+	pending   = 0;
+	while (pending < axl_list_length (ancestors)) {
 		/* check which is the top */
-		iterator        = 0;
-		change_detected = axl_false;
+		dtd_element_the_root_is_on_fire = axl_list_get_nth (ancestors, pending);
+		iterator    = 0;
+		have_parent = axl_false;
 		while (iterator < axl_list_length (dtd->elements)) {
 			
 			/* get the next reference */
 			dtd_element_aux = axl_list_get_nth (dtd->elements, iterator);
 			
 			/* check which is the top */
-			if (__axl_dtd_get_is_parent (dtd_element_aux,
+			if (dtd_element_aux != dtd_element_the_root_is_on_fire &&
+			    __axl_dtd_get_is_parent (dtd_element_aux,
 						     dtd_element_the_root_is_on_fire)) {
-				/* it seems that the new element is the root
-				 * one, update the reference */
-				dtd_element_the_root_is_on_fire = dtd_element_aux;
-				change_detected = axl_true;
+				/* it seems that the new element is
+				 * nearer to the root */
+				have_parent = axl_true;
+				if (! axl_list_exists (ancestors, dtd_element_aux))
+					axl_list_append (ancestors, dtd_element_aux);
 			}
 			
 			/* update inner loop iterator */
 			iterator ++;
 		} /* while end */
-	}while (change_detected);
+
+		/* found an element that is not contained by others */
+		if (! have_parent)
+			break;
+		pending++;
+	} /* end while */
+
+	/* no element found, all of them contained by others */
+	if (pending == axl_list_length (ancestors))
+		dtd_element_the_root_is_on_fire = axl_list_get_nth (dtd->elements, 0);
+	axl_list_free (ancestors);
 
 	/* return the root found */
 	return dtd_element_the_root_is_on_fire;
-- 
2.43.0


From 0300ed9cf38773dce184b361154ddf8c350b1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:14 +0000
Subject: [PATCH 59/78] fix: content models: wrong separator or missing
 separator accepted, separator after a nested list ignored or stolen by the
 list closed, type of single item nested lists undefined

---
 src/axl_dtd.c | 99 +++++++++++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 46 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 4a4499e..a57fdc3 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -830,9 +830,18 @@ char * __axl_dtd_read_content_particule (axlStream  * stream,
 		return NULL;
 	}
 	
+	/* check that there is a name */
+	if (axl_cmp (string_aux, "")) {
+		axl_error_new (-1, "Expected to find a element content specification particule, but an empty one was found",
+			       stream, error);
+		axl_stack_free (dtd_item_stack);
+		axl_stream_free (stream);
+		return NULL;
+	}
+
 	/* check the user doesn't nest item list in a not
 	 * proper way */
-	if (*chunk_matched == 8) {
+	if (*chunk_matched == 7) {
 		axl_error_new (-1, "Found a not proper nesting item list for a DTD element, before using ( a separator must be used (CHOICE: |, SEQUENCE: ,)",
 			       stream, error);
 		axl_stack_free (dtd_item_stack);
@@ -986,8 +995,9 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 		if (!__axl_dtd_element_content_particule_add (dtd_item_list, string_aux, chunk_matched, stream, error))
 			return axl_false;
 
-		if (chunk_matched == 4 || chunk_matched == 5 || chunk_matched == 6) {
-			/* found a repetition pattern */
+		if (chunk_matched != 1 && chunk_matched != 2 && chunk_matched != 3) {
+			/* found a repetition pattern (or only white
+			 * spaces) */
 			if (! __axl_dtd_element_spec_update_chunk_matched_for_cp_separator (stream, &chunk_matched)) {
 				axl_error_new (-1, "Before a repetition pattern (*,+,?) expected to find a content particule separator",
 					       stream, error);
@@ -997,31 +1007,6 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 			}
 		}
 
-		/* set current sequence type accoring to separators
-		 * used */
-		switch (chunk_matched) {
-		case 1:
-			if (dtd_item_list->type == CHOICE) {
-				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a sequence spec (,) but then detected a choice element (|)",
-					       stream, error);
-				axl_stack_free (dtd_item_stack);
-				axl_stream_free (stream);		
-				return axl_false;
-			}
-			dtd_item_list->type = SEQUENCE;
-			break;
-		case 2:
-			if (dtd_item_list->type == SEQUENCE) {
-				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a choice spec (|) but then detected a sequence element (,)",
-					       stream, error);
-				axl_stack_free (dtd_item_stack);
-				axl_stream_free (stream);		
-				return axl_false;
-			}
-			dtd_item_list->type = CHOICE;
-			break;
-		}
-
 		/* set element type if a element list terminator was
 		 * found ( 3 = ')' = chunk_matched) */
 		if ((chunk_matched == 3) && is_pcdata) {
@@ -1040,19 +1025,10 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 				AXL_CONSUME_SPACES (stream);
 				dtd_item_list->times = __axl_dtd_get_repetition_conf (stream);
 
-				/* consume previous white spaces */
-				AXL_CONSUME_SPACES (stream);
-
-				if (axl_stream_inspect (stream, ",", 1) > 0) {
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a sequence (,) separator while reading terminator list");
+				/* set default content element separator */
+				if (dtd_item_list->type == STILL_UNDEF)
+					dtd_item_list->type = SEQUENCE;
 
-					chunk_matched = 1;
-				}
-				else if (axl_stream_inspect (stream, "|", 1) > 0) {
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a choice (|) separator while reading terminator list");
-					chunk_matched = 2;
-				}
-				
 				/* this means that a ) was found, we have to
 				 * pop current queue */
 				is_empty              = axl_stack_is_empty (dtd_item_stack);
@@ -1060,14 +1036,20 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 					dtd_item_list = axl_stack_pop (dtd_item_stack);
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "getting the next item list in the stack, stack status: %d",
 						   axl_stack_size (dtd_item_stack));
-				}
 
-				/* special case: check if the next element to
-				 * be read is a new ) */
-				/* consume previous white spaces */
-				AXL_CONSUME_SPACES (stream);
+					/* read what follows to the
+					 * list closed: a separator or
+					 * a new ) */
+					if (! __axl_dtd_element_spec_update_chunk_matched_for_cp_separator (stream, &chunk_matched)) {
+						axl_error_new (-1, "After an item list expected to find a content particule separator or the end of the list containing it",
+							       stream, error);
+						axl_stack_free (dtd_item_stack);
+						axl_stream_free (stream);		
+						return axl_false;
+					}
+				}
 
-			}while ((axl_stream_inspect (stream, ")", 1) > 0) && !is_empty);
+			}while (chunk_matched == 3 && !is_empty);
 
 			/* drop a log */
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "terminator sequence status: chunk matched=%d ans stack status: %d",
@@ -1075,6 +1057,31 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 
 		}
 
+		/* set current sequence type accoring to separators
+		 * used */
+		switch (chunk_matched) {
+		case 1:
+			if (dtd_item_list->type == CHOICE) {
+				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a sequence spec (,) but then detected a choice element (|)",
+					       stream, error);
+				axl_stack_free (dtd_item_stack);
+				axl_stream_free (stream);		
+				return axl_false;
+			}
+			dtd_item_list->type = SEQUENCE;
+			break;
+		case 2:
+			if (dtd_item_list->type == SEQUENCE) {
+				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a choice spec (|) but then detected a sequence element (,)",
+					       stream, error);
+				axl_stack_free (dtd_item_stack);
+				axl_stream_free (stream);		
+				return axl_false;
+			}
+			dtd_item_list->type = CHOICE;
+			break;
+		}
+
 		/* check if we have finished */
 	} while (chunk_matched != 3 || (! axl_stack_is_empty (dtd_item_stack)));
 
-- 
2.43.0


From f1499ff65d075f45d713165220bfd0dcc4e0c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:41 +0000
Subject: [PATCH 60/78] fix: element declarations: leaked when their content
 model is wrong or they are repeated, missing > or ( at the end of the text
 accepted, empty names accepted

---
 src/axl_dtd.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index a57fdc3..4b73510 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -907,7 +907,7 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 	AXL_CONSUME_SPACES (stream);
 
 	/* check that the content specification have an ( */
-	if (! (axl_stream_inspect (stream, "(", 1))) {
+	if (! (axl_stream_inspect (stream, "(", 1) > 0)) {
 		axl_error_new (-1, "Expected to find a element content specification opener \"(\", but it wasn't found",
 			       stream, error);
 		axl_stack_free (dtd_item_stack);
@@ -1211,8 +1211,8 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 	AXL_CONSUME_SPACES (stream);
 	
 	/* get the element name */
-	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 3, ">", "(", " ", "<!ELEMENT");
-	if (string_aux == NULL) {
+	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 4, ">", "(", " ", "<!ELEMENT");
+	if (string_aux == NULL || axl_cmp (string_aux, "")) {
 		axl_error_new (-1, "Expected to receive a DTD element name for <!ELEMENT declaration, but not found", stream, error);
 		axl_stream_free (stream);
 		return axl_false;
@@ -1259,19 +1259,23 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 		 * which leads to the two possible values: Mixed and
 		 * PcData */
 		element->type = ELEMENT_TYPE_CHILDREN;
-		if (!__axl_dtd_read_element_spec (stream, element, error))
+		if (!__axl_dtd_read_element_spec (stream, element, error)) {
+			axl_dtd_element_free (element);
 			return axl_false;
+		} /* end if */
 	}
 
 	/* add element found */
-	if (! __axl_dtd_add_element (dtd, element, stream, error))
+	if (! __axl_dtd_add_element (dtd, element, stream, error)) {
+		axl_dtd_element_free (element);
 		return axl_false;
+	} /* end if */
 	
 	/* consume previous white spaces */
 	AXL_CONSUME_SPACES (stream);
 
 	/* check for the last DTD declaration */
-	if (! (axl_stream_inspect (stream, ">", 1))) {
+	if (! (axl_stream_inspect (stream, ">", 1) > 0)) {
 		axl_error_new (-1, "Unable to find last, > terminator for the DTD <!ELEMENT declaration", stream, error);
 		axl_stream_free (stream);
 		return axl_false;
-- 
2.43.0


From 1c13261a2149d54d19afe9b8ec2ed47835e18ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:41 +0000
Subject: [PATCH 61/78] fix: a failing read while loading a DTD is an error

---
 src/axl_dtd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 4b73510..ada238d 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1947,6 +1947,12 @@ axlDtd * __axl_dtd_parse_common (const char * entity, int entity_size,
 		iterator++;
 	}
 
+	/* check that all the content was read */
+	if (axl_stream_read_failed (stream)) {
+		axl_error_new (-1, "Failed to read DTD content", stream, error);
+		axl_stream_free (stream);
+		return NULL;
+	} /* end if */
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "DTD elements totally loaded, building references..");
 
-- 
2.43.0


From 3d30735008b09e0ae3228e493f0e672c1ae6a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 62/78] fix: axl_dtd_get_attr_contraints fails for elements
 without attribute declarations

---
 src/axl_dtd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index ada238d..34be4e7 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3654,6 +3654,8 @@ int                  axl_dtd_get_attr_contraints (axlDtd * dtd,
 
 	/* get the attribute specification for the node */
 	attr = axl_dtd_get_attr (dtd, nodeName);
+	if (attr == NULL)
+		return 0;
 
 	/* return the number of items */
 	return axl_list_length (attr->list);
-- 
2.43.0


From d9351ef28f42ecc5a39c7a4ace10c4f64eea1f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:53 +0000
Subject: [PATCH 63/78] fix: mixed content declared as XML requires (#PCDATA
 first) is taken as element content

---
 src/axl_dtd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 34be4e7..07bad57 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1009,10 +1009,10 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 
 		/* set element type if a element list terminator was
 		 * found ( 3 = ')' = chunk_matched) */
-		if ((chunk_matched == 3) && is_pcdata) {
-			if (axl_list_length (dtd_item_list->itemList) == 1)
+		if (is_pcdata) {
+			if (chunk_matched == 3 && axl_list_length (dtd_item_list->itemList) == 1)
 				dtd_element->type = ELEMENT_TYPE_PCDATA;
-			else if (axl_list_length (dtd_item_list->itemList) > 1)
+			else
 				dtd_element->type = ELEMENT_TYPE_MIXED;
 		}
 
-- 
2.43.0


From 5b01a62a732c0af0ac21271b9b22dbeb31766237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:26 +0000
Subject: [PATCH 64/78] fix: axl_dtd_are_equal ignores the names and number of
 the particles, nested lists and default values

---
 src/axl_dtd.c | 69 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 07bad57..08bb254 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3313,6 +3313,46 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	return result;
 }
 
+/** 
+ * @internal Checks if both item lists have the same structure.
+ */
+axl_bool __axl_dtd_item_list_are_equal (axlDtdElementList * list, axlDtdElementList * list2)
+{
+	int                     iterator;
+	axlDtdElementListNode * node, * node2;
+
+	/* check internal values */
+	if (list->type != list2->type)
+		return axl_false;
+	if (list->times != list2->times)
+		return axl_false;
+	if (axl_dtd_item_list_count (list) != axl_dtd_item_list_count (list2))
+		return axl_false;
+
+	iterator = 0;
+	while (iterator < axl_dtd_item_list_count (list)) {
+
+		/* get references */
+		node  = axl_dtd_item_list_get_node (list, iterator);
+		node2 = axl_dtd_item_list_get_node (list2, iterator);
+
+		if (node->type != node2->type)
+			return axl_false;
+		if (node->times != node2->times)
+			return axl_false;
+		if (node->type == AXL_ELEMENT_NODE && ! axl_cmp (node->data, node2->data))
+			return axl_false;
+		if (node->type == AXL_ELEMENT_LIST && ! __axl_dtd_item_list_are_equal (node->data, node2->data))
+			return axl_false;
+
+		/* next value */
+		iterator++;
+
+	} /* end while */
+
+	return axl_true;
+}
+
 /** 
  * @brief Allows to check if the provided two references represents
  * DTD documents with the same rules. 
@@ -3336,7 +3376,6 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 	int iterator3;
 	axlDtdEntity          * entity,      * entity2;
 	axlDtdElement         * element,     * element2;
-	axlDtdElementListNode * node,        * node2;
 	axlDtdAttribute       * attribute,   * attribute2;
 	axlDtdAttributeDecl   * attr_decl,   * attr_decl2;
 
@@ -3422,28 +3461,8 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 		if (element->list != NULL && element2->list != NULL) {
 
 			/* check internal values */
-			if (element->list->type != element2->list->type)
+			if (! __axl_dtd_item_list_are_equal (element->list, element2->list))
 				return axl_false;
-			if (element->list->times != element2->list->times)
-				return axl_false;
-
-			iterator2 = 0;
-			while (iterator2 < axl_list_length (element->list->itemList)) {
-				
-				/* get references */
-				node  = axl_list_get_nth (element->list->itemList, iterator2);
-				node2 = axl_list_get_nth (element2->list->itemList, iterator2);
-
-				if (node->type != node2->type)
-					return axl_false;
-				if (node->times != node2->times)
-					return axl_false;
-				
-				/* next value */
-				iterator2++;
-
-			} /* end while */
-			
 		} /* end if */
 
 		/* next iterator */
@@ -3486,6 +3505,12 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 					return axl_false;
 				if (! axl_cmp (attr_decl->name, attr_decl2->name))
 					return axl_false;
+				if (attr_decl->default_value == NULL && attr_decl2->default_value != NULL)
+					return axl_false;
+				if (attr_decl->default_value != NULL && attr_decl2->default_value == NULL)
+					return axl_false;
+				if (attr_decl->default_value != NULL && ! axl_cmp (attr_decl->default_value, attr_decl2->default_value))
+					return axl_false;
 				
 				if (attr_decl->enumvalues == NULL && attr_decl2->enumvalues != NULL)
 					return axl_false;
-- 
2.43.0


From eae81e443327558b7fec9cab7833a5298e16547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:20 +0000
Subject: [PATCH 65/78] fix: content models with repeated, optional or nested
 lists are matched as declared

---
 src/axl_dtd.c | 90 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 08bb254..2f3dbfe 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1122,6 +1122,7 @@ int __axl_dtd_parse_element_get_compulsory_num (axlDtdElementList * list)
 {
 	axlDtdElementListNode * itemNode;
 	int                     count    = 0;
+	int                     minimum;
 	int                     iterator = 0;
 
 	/* check for null parameters */
@@ -1137,28 +1138,23 @@ int __axl_dtd_parse_element_get_compulsory_num (axlDtdElementList * list)
 			/* get the reference for the item node */
 			itemNode = axl_list_get_nth (list->itemList, iterator);
 			
-			/* check if the repetitiong patter is
-			 * compulsory */
-			if (itemNode->times == ONE_OR_MANY ||
-			    itemNode->times == ONE_AND_ONLY_ONE) {
-				/* check if we have an itemNode that has an
-				 * Node or a list */
-				if (itemNode->type == AXL_ELEMENT_NODE) {
-					/* we have an item node */
-					count++;
-					if (list->type == CHOICE) {
-						/* because we have a
-						 * choice list, once
-						 * validated one item,
-						 * it is the minimum
-						 * requirement. */
-						return count;
-					}
-				} else {
-					/* we have a list */
-					count += __axl_dtd_parse_element_get_compulsory_num (itemNode->data);
-				}
+			/* get the minimum required by the item, being
+			 * it a node or a list (which has its own
+			 * repetition pattern) */
+			if (itemNode->type == AXL_ELEMENT_NODE) {
+				minimum = (itemNode->times == ONE_OR_MANY ||
+					   itemNode->times == ONE_AND_ONLY_ONE);
+			} else {
+				minimum = __axl_dtd_parse_element_get_compulsory_num (itemNode->data);
 			}
+
+			/* a sequence requires all its items while a
+			 * choice list requires only one: the item
+			 * having the lowest requirement */
+			if (list->type != CHOICE)
+				count += minimum;
+			else if (iterator == 0 || minimum < count)
+				count  = minimum;
 			
 			/* update the index */
 			iterator++;
@@ -2140,8 +2136,11 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 				 * including the one used */
 				status = axl_true;
 				do {
+					times = axl_dtd_item_node_get_repeat (itemNode);
 					if (times != ZERO_OR_MANY &&
-					    times != ZERO_OR_ONE) {
+					    times != ZERO_OR_ONE &&
+					    (axl_dtd_item_node_get_type (itemNode) != AXL_ELEMENT_LIST ||
+					     __axl_dtd_parse_element_get_compulsory_num (axl_dtd_item_node_get_list (itemNode)) > 0)) {
 
 						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found item, inside the DTD item list, that is not optional: %d (repeat value: %d)", 
 							   iterator, times);
@@ -2184,7 +2183,7 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 
 				/* element list found, validate its content */
 				if (! __axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-								    parent, &child_pos, error, axl_false)) {
+								    parent, &child_pos, try_match ? NULL : error, axl_false)) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sub item list validation have failed (not critical)");
 					/* check if we are the top
 					 * level list and the itemNode
@@ -2307,7 +2306,7 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 
 	/* check if more nodes where specified than the DTD spec */
 	times = axl_dtd_item_list_repeat (itemList);
-	if ((times == ONE_OR_MANY || times == ONE_AND_ONLY_ONE) && 
+	if (times == ONE_AND_ONLY_ONE && 
 	    top_level && (child_pos  < axl_node_get_child_num (parent))) {
 
 		/* drop a log */
@@ -2353,6 +2352,7 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 	axl_bool                status;
 	AxlDtdTimes             times;
 	axl_bool                one_match;
+	int                     child_pos = *child_position;
 
 	
 	if (*child_position < axl_node_get_child_num (parent)) {
@@ -2361,7 +2361,10 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validated choice list at position: %d=<%s>", *child_position, axl_node_get_name (node));
 	} else {
 		/* tried to match a choice list with a child index
-		 * outside the maximum number of childs */
+		 * outside the maximum number of childs: only matched
+		 * if some of its items allow having no child */
+		if (__axl_dtd_parse_element_get_compulsory_num (itemList) == 0)
+			return axl_true;
 		if (! try_match) {
 			axl_error_new (-1, "Unable to match choice list, it seems that the are not enough childs to validate the choice list",
 				       NULL, error);
@@ -2428,16 +2431,26 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 			/* an element list was found, call to validate it */
 			/* element list found, validate its content */
 			if (__axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-							  parent, child_position, error, axl_false)) {
+							  parent, child_position, NULL, axl_false) &&
+			    *child_position != child_pos) {
 				/* item list matched */
 				return axl_true;
 			}
+
+			/* not matched (or matched without any child),
+			 * restore the position to check next items */
+			*child_position = child_pos;
 		}
 
 		/* no item was matched, update iterator indexes */
 		iterator++;
 	}
 
+	/* no item was matched by the current child, which is right if
+	 * some of them allow having no child */
+	if (__axl_dtd_parse_element_get_compulsory_num (itemList) == 0)
+		return axl_true;
+
 	/* seems that the choice list wasn't matched */
 	if (! try_match) {
 		axl_error_new (-1, "Unable to match choice list, after checking all posibilities, choice list wasn't validated", 
@@ -2533,8 +2546,6 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 						       NULL, error);
 					return axl_false;
 				}
-
-				return axl_false;
 			}
 			
 		}else {
@@ -2574,7 +2585,7 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 						return axl_false;
 					}
 				}
-			}while (status);
+			}while (status && temp_child_pos != *child_position);
 		}else {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
@@ -2582,9 +2593,10 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 			 * specification represents the nodes, in the
 			 * order they must appear */
 			do {
+				temp_child_pos = *child_position;
 				status = __axl_dtd_validate_choice (parent, child_position, itemList, error,
 								    axl_true, top_level);
-			}while (status);
+			}while (status && temp_child_pos != *child_position);
 		}
 		break;
 	case ONE_OR_MANY:
@@ -2614,9 +2626,12 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 
 						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch, matched partially (%d != %d)", 
 							   temp_child_pos, *child_position);
-						axl_error_new (-1, 
-							       "Found an DTD item list definition, that should be matched entirely or not, one or many times, but it was matched partially",
-							       NULL, error);
+						/* (the first match reports its own error) */
+						if (already_matched) {
+							axl_error_new (-1, 
+								       "Found an DTD item list definition, that should be matched entirely or not, one or many times, but it was matched partially",
+								       NULL, error);
+						}
 						return axl_false;
 					}
 				}else {
@@ -2626,7 +2641,7 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 
 				
 
-			}while (status);
+			}while (status && temp_child_pos != *child_position);
 		}else {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
@@ -2638,6 +2653,7 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 				/* the next choice matching is done
 				 * according to the value stored in
 				 * already matched */
+				temp_child_pos = *child_position;
 				status = __axl_dtd_validate_choice (parent, child_position, itemList, error,
 								    already_matched, top_level);
 				/* if the validation successed, set
@@ -2645,8 +2661,12 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 				 * to be successful ones */
 				if (status)
 					already_matched = axl_true;
-			}while (status);
+			}while (status && temp_child_pos != *child_position);
 		}
+
+		/* at least one match is required */
+		if (! already_matched)
+			return axl_false;
 		break;
 	default:
 		/* this case will never be reached */
-- 
2.43.0


From 912b236b0bb66c7a5c65113dbbc73b127abd2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:26 +0000
Subject: [PATCH 66/78] fix: validation of an ANY element never ended and
 skipped its children

---
 src/axl_dtd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 2f3dbfe..66af453 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3244,8 +3244,9 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 		case ELEMENT_TYPE_ANY:
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  ANY dtd element");
 			/* the anything is allowed cased from this
-			 * parent node. */
-			goto continue_with_validation;
+			 * parent node (its childs are still validated
+			 * against their own declarations). */
+			break;
 		case ELEMENT_TYPE_MIXED:
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  MIXED dtd element");
 
@@ -3279,7 +3280,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			
 		/* update the reference to the new parent node, only
 		 * if there are new parents on the stack */
-	continue_with_validation:
 		if (! axl_stack_is_empty (stack)) {
 
 
-- 
2.43.0


From 89a0e76d88fade079c437e30f256f11d31bb1ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:32 +0000
Subject: [PATCH 67/78] fix: a root declared EMPTY that is not was rejected
 without error

---
 src/axl_dtd.c | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 66af453..889857a 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3135,23 +3135,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 		idref_validation = axl_list_new (axl_list_always_return_1, NULL);
 	} /* end if */
 
-	/* check empty content spec */
-	if (axl_dtd_get_element_type (element) == ELEMENT_TYPE_EMPTY) {
-		/* check if the document provided have only one node */
-		result = axl_node_is_empty (parent) && !axl_node_have_childs (parent) && axl_dtd_attr_validate (parent, dtd, error, id_validation, idref_validation);
-
-		/* check references */
-		if (result)
-			result = axl_dtd_validate_references (id_validation, idref_validation, error);
-		
-		/* free and return */
-		axl_hash_free (id_validation);
-
-		/* free the list */
-		axl_list_free (idref_validation);
-		return result;
-	} /* end if */
-
 	/* queue initial nodes to validate */
 	stack     = axl_stack_new (NULL);
 	
-- 
2.43.0


From 0a1f92c18a928469dd0bc9359d64694fa5044907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:39 +0000
Subject: [PATCH 68/78] fix: the name of the expected root in the error

---
 src/axl_dtd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 889857a..c145852 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3106,7 +3106,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			/* root node doesn't match */
 			err_msg = axl_strdup_printf ("Found that root node doesn't match (%s != %s!",
 						     axl_node_get_name (parent), 
-						     axl_dtd_get_element_name (element));
+						     axl_dtd_get_element_name (axl_dtd_get_root (dtd)));
 			axl_error_new (-1, err_msg, NULL, error);
 			axl_free (err_msg);
 			return axl_false;
-- 
2.43.0


From 14a4dc648933201e2cfae2245b678e58d59e4086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:46 +0000
Subject: [PATCH 69/78] fix: children not listed by a mixed declaration were
 accepted

---
 src/axl_dtd.c | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index c145852..e43f6fc 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2752,6 +2752,42 @@ axl_bool     __axl_dtd_validate_element_type_children (axlDtdElement  * element,
 	return axl_false;
 }
 
+/** 
+ * @internal
+ * Internal support function to validate mixed nodes: childs found
+ * must be some of the listed by the content declaration.
+ */
+axl_bool     __axl_dtd_validate_element_type_mixed (axlDtdElement  * element, 
+						    axlNode        * parent, 
+						    axlError      ** error)
+{
+	axlDtdElementList * itemList = axl_dtd_get_item_list (element);
+	axlNode           * node     = axl_node_get_first_child (parent);
+	int                 iterator;
+
+	while (node != NULL) {
+		/* find the item allowing the child */
+		iterator = 0;
+		while (iterator < axl_dtd_item_list_count (itemList)) {
+			if (NODE_CMP_NAME (node, axl_dtd_item_node_get_value (axl_dtd_item_list_get_node (itemList, iterator))))
+				break;
+			iterator++;
+		} /* end while */
+
+		if (iterator == axl_dtd_item_list_count (itemList)) {
+			axl_error_report (error, -1, 
+					  "Found a node <%s> inside <%s> which is not allowed by its mixed content declaration",
+					  axl_node_get_name (node), axl_node_get_name (parent));
+			return axl_false;
+		} /* end if */
+
+		/* get next child node */
+		node = axl_node_get_next (node);
+	} /* end while */
+
+	return axl_true;
+}
+
 /** 
  * @internal
  * Internal support function to validate #PCDATA nodes.
@@ -3235,6 +3271,18 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 
 			/* the mixed case, where nodes and PC data
 			 * could be mixed */
+			if (!__axl_dtd_validate_element_type_mixed (element, parent, error)) {
+				/* free id_validation */
+				axl_hash_free (id_validation);
+
+				/* free the stack */
+				axl_stack_free (stack);
+
+				/* free the list */
+				axl_list_free (idref_validation);
+
+				return axl_false;
+			}
 			break;
 		default:
 			/* do not do any thing on this case */
-- 
2.43.0


From a9e32a6a4db700f56d598fe018848a3bf8ad4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:52 +0000
Subject: [PATCH 70/78] fix: text was accepted inside elements declared to have
 only children

---
 src/axl_dtd.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index e43f6fc..569eca0 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2713,10 +2713,28 @@ axl_bool     __axl_dtd_validate_element_type_children (axlDtdElement  * element,
 	axlDtdElementList * itemList;
 	int                 child_pos = 0;
 	char              * err_msg;
+	axlItem           * item;
+	const char        * content;
 
 	/* get a reference to the item list */
 	itemList = axl_dtd_get_item_list (element);
 
+	/* character data, other than white space, is not allowed
+	 * between childs */
+	item = axl_item_get_first_child (parent);
+	while (item != NULL) {
+		content = NULL;
+		if (axl_item_get_type (item) == ITEM_CONTENT)
+			content = axl_item_get_content (item, NULL);
+		if ((content != NULL && content[strspn (content, " \t\r\n")] != 0) || axl_item_get_type (item) == ITEM_CDATA) {
+			axl_error_report (error, -1,
+					  "Found content inside the node <%s> which is declared to have only child nodes",
+					  axl_node_get_name (parent));
+			return axl_false;
+		} /* end if */
+		item = axl_item_get_next (item);
+	} /* end while */
+
 	/* check for xml nodes with fewer content than the initially
 	 * expected. */
 	if (axl_node_get_child_num (parent) < element->minimum_match) {
-- 
2.43.0


From 262f6e27c316752948ec9e5ebd704450566a3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:58 +0000
Subject: [PATCH 71/78] fix: elements without their implied identifier were
 reported as duplicated

---
 src/axl_dtd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 569eca0..6f9cea9 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2997,8 +2997,9 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		/* check if the node have TOKENIZED_TYPE_ID */
 		decl = axl_list_lookup (attribute->list, __find_id_decl, NULL);
 		
-		/* if we have a tokenized */
-		if (decl != NULL) {
+		/* if we have a tokenized, and the node has it (it
+		 * could be #IMPLIED) */
+		if (decl != NULL && HAS_ATTR (node, decl->name)) {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found ID unique attribute declaration %s=\"%s\"..",
 				   decl->name, ATTR_VALUE (node, decl->name));
-- 
2.43.0


From 8e8b77322a39a2996afda89ccc5d1cc8684b8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:05 +0000
Subject: [PATCH 72/78] fix: references in IDREFS attributes were not checked

---
 src/axl_dtd.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 6f9cea9..a7439c7 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2953,6 +2953,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 	axlDtdAttributeDecl * decl;
 	char                * err_msg;
 	int                   iterator;
+	int                   position;
+	char               ** references;
 	axlError            * _error = NULL;
 
 	/* find attribute contraints for the node */
@@ -3039,8 +3041,19 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 				if (ATTR_VALUE (node, decl->name)) {
 					/* store the id ref reference
 					 * if defined */
-					axl_list_add (idref_validation, (axlPointer) ATTR_VALUE (node, decl->name));
+					axl_list_add (idref_validation, axl_strdup (ATTR_VALUE (node, decl->name)));
 				}
+			} else if (decl->type == TOKENIZED_TYPE_IDREFS && HAS_ATTR (node, decl->name)) {
+				/* several references separated by
+				 * white spaces, store all of them */
+				references = axl_split (ATTR_VALUE (node, decl->name), 4, " ", "\t", "\n", "\r");
+				position   = 0;
+				while (references[position]) {
+					if (strlen (references[position]) > 0)
+						axl_list_add (idref_validation, axl_strdup (references[position]));
+					position++;
+				} /* end while */
+				axl_freev (references);
 			} /* end if */
 
 			/* get the next */
@@ -3187,7 +3200,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	/* check if the dtd contains Id ref declarations */
 	if (dtd->haveIdRefDecl) {
 		/* create a list that could contain all references done */
-		idref_validation = axl_list_new (axl_list_always_return_1, NULL);
+		idref_validation = axl_list_new (axl_list_always_return_1, axl_free);
 	} /* end if */
 
 	/* queue initial nodes to validate */
-- 
2.43.0


From ebf45affb56a5254b6d549012a488bdaa39b0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 73/78] fix: error leaked when validating attributes without
 error reference

---
 src/axl_dtd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index a7439c7..1ae9cc2 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2972,6 +2972,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		/* reconfigure error returned */
 		if (error != NULL)
 			*error = _error;
+		else
+			axl_error_free (_error);
 		return axl_false;
 	} /* end if */
 		
-- 
2.43.0


From d061ecce1721fe8e5857517ea0b61888e75a3df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 74/78] fix: report a failed dump when closing the file fails

The content is buffered, so a full device is only noticed while closing
the file; the functions returned axl_true in that case.
---
 src/axl_doc.c  | 12 ++++++++----
 src/axl_node.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 43d1271..87dd295 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1735,8 +1735,10 @@ axl_bool      axl_doc_dump_to_file             (axlDoc      * doc,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, checking that the buffered content was
+	 * also written */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
@@ -1814,8 +1816,10 @@ axl_bool      axl_doc_dump_pretty_to_file      (axlDoc      * doc,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, checking that the buffered content was
+	 * also written */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
diff --git a/src/axl_node.c b/src/axl_node.c
index 0357c65..bfab0b2 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4398,8 +4398,10 @@ axl_bool      axl_node_dump_to_file            (axlNode  * node,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, checking that the buffered content was
+	 * also written */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
@@ -4456,8 +4458,10 @@ axl_bool      axl_node_dump_pretty_to_file     (axlNode  * node,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, checking that the buffered content was
+	 * also written */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
-- 
2.43.0


From 749c53309d6841b6a31ca5d974e861eee52a7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 75/78] fix: axl_node_dump_to_file writes the plain dump of the
 node

It produced the pretty printed form (with white space added to the
content), as axl_node_dump_pretty_to_file, unlike axl_node_dump and
axl_doc_dump_to_file.
---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index bfab0b2..acda3c6 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4377,7 +4377,7 @@ axl_bool      axl_node_dump_to_file            (axlNode  * node,
 	int    written;
 
 	/* use common implementation for all functions */
-	if (!  __axl_node_dump_common (node, &content, &size, axl_true, 0, 0))
+	if (!  __axl_node_dump_common (node, &content, &size, axl_false, 0, 0))
 		return axl_false;
 
 	/* open the file and check */
-- 
2.43.0


From 1faedb48b8ad794e25905fe00c6e5f9598eb6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 76/78] fix: parse strings also when no error reference is
 provided

The error is documented as optional, but axl_doc_parse_strings and
axl_node_parse_strings returned NULL for any content without it.
---
 src/axl_doc.c  | 3 ---
 src/axl_node.c | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 87dd295..ed5187a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2043,9 +2043,6 @@ axlDoc  * axl_doc_parse_strings            (axlError ** error,
 	char     * stream     = NULL;
 	char     * stream_aux = NULL;
 	
-	/* check incoming data */
-	axl_return_val_if_fail (error, NULL);
-	
 	/* open the stdargs */
 	va_start (args, error);
 	
diff --git a/src/axl_node.c b/src/axl_node.c
index acda3c6..b4ad9fa 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -640,9 +640,6 @@ axlNode * axl_node_parse_strings      (axlError ** error, ...)
 	char     * stream     = NULL;
 	char     * stream_aux = NULL;
 	
-	/* check incoming data */
-	axl_return_val_if_fail (error, NULL);
-	
 	/* open the stdargs */
 	va_start (args, error);
 	
-- 
2.43.0


From a015ee5ba849e2aa519a92a2ac662e3c1c6d457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:17 +0000
Subject: [PATCH 77/78] fix: report the error when axl_node_parse_strings gets
 no strings

It returned NULL and left the error reference untouched, unlike
axl_doc_parse_strings.
---
 src/axl_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index b4ad9fa..ccf71e1 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -657,8 +657,10 @@ axlNode * axl_node_parse_strings      (axlError ** error, ...)
 
 	/* check that we have received, at least, an string
 	 * parseable */
-	if (stream == NULL)
+	if (stream == NULL) {
+		axl_error_new (-1, "No string was provided to be parsed", NULL, error);
 		return NULL;
+	}
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "string to parse: %s", stream);
 
-- 
2.43.0


From 402306f8cef1d1eaa6a4144ca550367c1c1af363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 78/78] fix: axl_node_replace kept the item of the node
 replaced, which is released with the document of that node

---
 src/axl_node.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index ccf71e1..61114df 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -40,6 +40,9 @@
 #include <axl.h>
 #define LOG_DOMAIN "axl-node"
 
+/* prototype */
+axlItem *  __axl_item_common_configure (axlNode * parent, AxlItemType type, axlPointer data);
+
 /**
  * \defgroup axl_node_module Axl Node: Xml node interface functions to use and manipulate xml nodes inside documents.
  */
@@ -3454,22 +3457,24 @@ void      axl_node_replace             (axlNode   * node,
 		/* check for holder reference */
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "replacing a non-root node=<%s> with <%s>..",
 			   axl_node_get_name (node), axl_node_get_name (new_node));
-		if (node->holder != NULL) {
+		if (node->holder != NULL && node != new_node) {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "axl item holder is defined for node=<%s>",
 				   axl_node_get_name (node));
 			/* get a reference to the holder item */
 			p_item       = node->holder;
 
-			/* configure the new node */
-			p_item->data = new_node;
+			/* place the new node, held by its own item: the
+			 * item of the node replaced may be owned by
+			 * the document of that node (see \ref
+			 * axl_node_parse), and be released with it */
+			axl_item_replace (p_item, __axl_item_common_configure (p_item->parent, ITEM_NODE, new_node), axl_false);
 
-			/* nullify the holder reference, and configure
-			 * the holder reference in the node */
+			/* nullify the holder reference and release the
+			 * item that was held by the node */
 			node->holder     = NULL;
-			if (new_node->holder != NULL && ! (new_node->holder->type & ITEM_FROM_FACTORY))
-				axl_free (new_node->holder);
-			new_node->holder = p_item;
+			if (! (p_item->type & ITEM_FROM_FACTORY))
+				axl_free (p_item);
 			
 		} /* end if */
 	}
-- 
2.43.0

