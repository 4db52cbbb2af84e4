From ef6a4d81f8ecff3242fa5345dabd9dd1ea7e7588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 01/26] fix: free every entry of sequences of non-pointer fixed
 sequences

The stride between entries that are themselves non-pointer fixed sequences
ignored their entry count, so their pointers were freed twice or leaked.
---
 src/free.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/free.c b/src/free.c
index 266cd7b..431a39e 100644
--- a/src/free.c
+++ b/src/free.c
@@ -67,6 +67,8 @@ static void cyaml__free_sequence(
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
+	} else if (schema->type == CYAML_SEQUENCE_FIXED) {
+		data_size *= schema->sequence.max;
 	}
 
 	for (unsigned i = 0; i < count; i++) {
-- 
2.43.0


From ea0cd9dc9ce9e8b1c3ed4fc6b8a44d5e4bf71bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 02/26] fix: use the stored size of entries when copying
 embedded sequences

The entry schema's data size is neither the stored size of pointer entries
nor that of entries which are fixed sequences, so copying to (or defaulting
of) non-pointer sequences of those overflowed the temporary buffer.
---
 src/copy.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 64176aa..d995617 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -647,9 +647,18 @@ static size_t cyaml__get_data_len(
 		const cyaml_schema_value_t *schema,
 		unsigned seq_count)
 {
-	size_t len = cyaml__is_sequence(schema) ?
-			schema->sequence.entry->data_size :
-			schema->data_size;
+	size_t len = schema->data_size;
+
+	if (cyaml__is_sequence(schema)) {
+		const cyaml_schema_value_t *entry = schema->sequence.entry;
+
+		len = entry->data_size;
+		if (entry->flags & CYAML_FLAG_POINTER) {
+			len = sizeof(NULL);
+		} else if (entry->type == CYAML_SEQUENCE_FIXED) {
+			len *= entry->sequence.max;
+		}
+	}
 
 	if (schema->type == CYAML_SEQUENCE) {
 		len *= seq_count;
-- 
2.43.0


From c6a7c4b84f8730c42390fa1661960b0fc21b1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:15 +0000
Subject: [PATCH 03/26] fix: copy NULL values that the schema allows

NULL for a value with the nullable flag, or for an empty sequence, is what
load produces, but copying it was an error.  For an optional fixed sequence
the entries were copied from the NULL pointer anyway.
---
 src/copy.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index d995617..9dec97f 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -396,6 +396,28 @@ static cyaml_err_t cyaml__write_sequence_count(
 	return err;
 }
 
+/**
+ * Check for a pointer value that is allowed to be, and stays, NULL in the copy.
+ *
+ * \param[in]  schema     CYAML schema for the value.
+ * \param[in]  data       The place to read the value from in the client data.
+ * \param[in]  seq_count  Entry count for sequence values.
+ * \return true if there is nothing to copy for the value, false otherwise.
+ */
+static bool cyaml__value_is_null(
+		const cyaml_schema_value_t *schema,
+		const uint8_t *data,
+		uint64_t seq_count)
+{
+	if (!(schema->flags & CYAML_FLAG_POINTER) ||
+			cyaml_data_read_pointer(data) != NULL) {
+		return false;
+	}
+
+	return cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL) ||
+			(cyaml__is_sequence(schema) && seq_count == 0);
+}
+
 /**
  * Handle a YAML event corresponding to a YAML data value.
  *
@@ -425,6 +447,9 @@ static cyaml_err_t cyaml__clone_value(
 		/* Since sequences extend their allocation for each entry,
 		 * they're handled in the sequence-specific code.
 		 */
+		if (cyaml__value_is_null(schema, data, seq_count)) {
+			return CYAML_OK;
+		}
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
 		if (err != CYAML_OK) {
 			return err;
@@ -456,8 +481,15 @@ static cyaml_err_t cyaml__clone_value(
 			return err;
 		}
 		ctx->state->sequence.count = seq_count;
+		if (cyaml__value_is_null(schema, data, seq_count)) {
+			return cyaml__stack_pop(ctx);
+		}
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
 		if (err != CYAML_OK) {
+			if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
+				/* Nothing to walk, if NULL is acceptable. */
+				cyaml__stack_pop(ctx);
+			}
 			return err;
 		}
 		err = cyaml__write_sequence_count(ctx, schema, seq_count);
-- 
2.43.0


From 004e70333edd42d4c9155907ac648d9514f456f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:20 +0000
Subject: [PATCH 04/26] fix: copy empty sequences that have a non-NULL pointer

The copy requested a zero-sized allocation, which is a free, and reported
it as out of memory.
---
 src/copy.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 9dec97f..7035e00 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -409,11 +409,15 @@ static bool cyaml__value_is_null(
 		const uint8_t *data,
 		uint64_t seq_count)
 {
-	if (!(schema->flags & CYAML_FLAG_POINTER) ||
-			cyaml_data_read_pointer(data) != NULL) {
+	if (!(schema->flags & CYAML_FLAG_POINTER)) {
 		return false;
 	}
 
+	if (cyaml_data_read_pointer(data) != NULL) {
+		/* Empty sequences have no entries to allocate. */
+		return schema->type == CYAML_SEQUENCE && seq_count == 0;
+	}
+
 	return cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL) ||
 			(cyaml__is_sequence(schema) && seq_count == 0);
 }
-- 
2.43.0


From 1d81c8d7267e08343b0887290b9e0107e1d739f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 05/26] fix: save empty sequences that have no data pointer

---
 src/save.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 6fbcfe3..e61dc8b 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1003,7 +1003,9 @@ static cyaml_err_t cyaml__write_value(
 				CYAML_FLAG_POINTER_NULL)) {
 			return cyaml__emit_scalar(ctx, schema, "",
 					YAML_STR_TAG);
-		} else {
+		} else if (schema->type != CYAML_SEQUENCE || seq_count != 0) {
+			/* A sequence with no entries is represented in the
+			 * client's data by a NULL pointer. */
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From 32ae7ea61dbac004c664fbaf6d2f17005025fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 06/26] fix: state NULL optional values on save when missing
 means a default

---
 src/save.c | 79 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 8 deletions(-)

diff --git a/src/save.c b/src/save.c
index e61dc8b..ca738ff 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1110,6 +1110,73 @@ static cyaml_err_t cyaml__write_doc(
 	return err;
 }
 
+/**
+ * Check whether loading gives a value to a missing pointer field.
+ *
+ * \param[in]  schema  The schema for a mapping field's value.
+ * \return true if the field gets a non-NULL default when it is missing from
+ *         the YAML, false otherwise.
+ */
+static bool cyaml__has_default(
+		const cyaml_schema_value_t *schema)
+{
+	switch (schema->type) {
+	case CYAML_INT:
+		return schema->integer.missing != 0;
+	case CYAML_UINT:
+		return schema->unsigned_integer.missing != 0;
+	case CYAML_BOOL:
+		return schema->boolean.missing;
+	case CYAML_ENUM: /* Fall through. */
+	case CYAML_FLAGS:
+		return schema->enumeration.missing != 0;
+	case CYAML_FLOAT:
+		return schema->floating_point.missing != 0;
+	case CYAML_STRING:
+		return schema->string.missing != NULL;
+	case CYAML_MAPPING:
+		return schema->mapping.missing != NULL;
+	case CYAML_BITFIELD:
+		return schema->bitfield.missing != 0;
+	case CYAML_SEQUENCE: /* Fall through. */
+	case CYAML_SEQUENCE_FIXED:
+		return schema->sequence.missing != NULL;
+	default:
+		return false;
+	}
+}
+
+/**
+ * Check whether a mapping field is to be left out of the YAML.
+ *
+ * Optional fields with a NULL pointer are left out, unless loading would
+ * then give the field a default value, where the NULL can be stated.
+ *
+ * \param[in]  field  The mapping field's schema.
+ * \param[in]  data   The place to read the field's value from.
+ * \return true if the field is to be omitted, false otherwise.
+ */
+static bool cyaml__omit_field(
+		const cyaml_schema_field_t *field,
+		const uint8_t *data)
+{
+	const cyaml_schema_value_t *schema = &field->value;
+
+	if (!(schema->flags & CYAML_FLAG_OPTIONAL) ||
+	    !(schema->flags & CYAML_FLAG_POINTER) ||
+	    cyaml_data_read_pointer(data) != NULL) {
+		return false;
+	}
+
+	if (cyaml__has_default(schema)) {
+		return (schema->type != CYAML_SEQUENCE) &&
+		       !cyaml__flag_check_all(schema->flags,
+				CYAML_FLAG_POINTER_NULL);
+	}
+
+	return true;
+}
+
 /**
  * YAML saving handler for the \ref CYAML_STATE_IN_MAP_KEY and \ref
  * CYAML_STATE_IN_MAP_VALUE states.
@@ -1131,14 +1198,10 @@ static cyaml_err_t cyaml__write_mapping(
 			return CYAML_OK;
 		}
 
-		if ((field->value.flags & CYAML_FLAG_OPTIONAL) &&
-		    (field->value.flags & CYAML_FLAG_POINTER)) {
-			const void *ptr = cyaml_data_read_pointer(
-					ctx->state->data + field->data_offset);
-			if (ptr == NULL) {
-				ctx->state->mapping.field++;
-				return CYAML_OK;
-			}
+		if (cyaml__omit_field(field,
+				ctx->state->data + field->data_offset)) {
+			ctx->state->mapping.field++;
+			return CYAML_OK;
 		}
 
 		err = cyaml__emit_scalar(ctx, ctx->state->schema,
-- 
2.43.0


From 8cf0e308b5c553227bb90dc20d63007d63e04ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 07/26] fix: find the strings of negative enum values when
 saving

---
 src/save.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/save.c b/src/save.c
index ca738ff..fda53b8 100644
--- a/src/save.c
+++ b/src/save.c
@@ -687,15 +687,18 @@ static cyaml_err_t cyaml__write_enum(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
-	int64_t number;
+	uint64_t raw;
 	cyaml_err_t err;
 
-	number = (int64_t)cyaml_data_read(schema->data_size, data, &err);
+	raw = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
 		const cyaml_strval_t *strings = schema->enumeration.strings;
+		int64_t number = cyaml_sign_pad(raw, schema->data_size);
 		const char *string = NULL;
 		for (uint32_t i = 0; i < schema->enumeration.count; i++) {
-			if (number == strings[i].val) {
+			/* The client's enum may be signed or unsigned. */
+			if (number == strings[i].val ||
+			    (int64_t)raw == strings[i].val) {
 				string = strings[i].str;
 				break;
 			}
-- 
2.43.0


From b3ba89362612ceb04348703ea6cc48915a7549ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 08/26] fix: reject negative numbers for unsigned values

---
 src/load.c | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/load.c b/src/load.c
index b0c8483..42aa201 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1874,32 +1874,57 @@ static cyaml_err_t cyaml__read_int(
 }
 
 /**
- * Helper to read a number into a uint64_t.
+ * Helper to convert a string to a uint64_t.
  *
- * \param[in]  ctx    The CYAML loading context.
  * \param[in]  value  String containing scaler value.
- * \param[in]  out    The place to write the value in the output data.
- * \return \ref CYAML_OK on success, or appropriate error code otherwise.
+ * \param[out] out    Returns the number on success.
+ * \return true if the whole string is a number that fits a uint64_t,
+ *         false otherwise.
  */
-static inline cyaml_err_t cyaml__read_uint64_t(
-		const cyaml_ctx_t *ctx,
+static inline bool cyaml__str_to_uint64_t(
 		const char *value,
 		uint64_t *out)
 {
 	unsigned long long temp;
 	char *end = NULL;
 
+	/* The standard library wraps negative numbers, rather than
+	 * treating them as out of range. */
+	if (value[strspn(value, " \t\n\v\f\r")] == '-') {
+		return false;
+	}
+
 	errno = 0;
 	temp = strtoull(value, &end, 0);
 
 	if (end == value || end == NULL || *end != '\0' || errno == ERANGE) {
+		return false;
+	}
+
+	*out = (uint64_t)temp;
+	return true;
+}
+
+/**
+ * Helper to read a number into a uint64_t.
+ *
+ * \param[in]  ctx    The CYAML loading context.
+ * \param[in]  value  String containing scaler value.
+ * \param[in]  out    The place to write the value in the output data.
+ * \return \ref CYAML_OK on success, or appropriate error code otherwise.
+ */
+static inline cyaml_err_t cyaml__read_uint64_t(
+		const cyaml_ctx_t *ctx,
+		const char *value,
+		uint64_t *out)
+{
+	if (!cyaml__str_to_uint64_t(value, out)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Invalid uint64_t value: '%s'\n",
 				value);
 		return CYAML_ERR_INVALID_VALUE;
 	}
 
-	*out = (uint64_t)temp;
 	return CYAML_OK;
 }
 
-- 
2.43.0


From 5606cc52d480e7cfa62f781f3c8e9b59aed5fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 09/26] fix: accept every number that fits a 64-bit flags value

---
 src/load.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/load.c b/src/load.c
index 42aa201..ab33d15 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2166,16 +2166,11 @@ static cyaml_err_t cyaml__set_flag(
 	}
 
 	if (!(schema->flags & CYAML_FLAG_STRICT)) {
-		long long temp;
-		char *end = NULL;
+		uint64_t temp;
 		uint64_t max = (~(uint64_t)0) >> ((8 - schema->data_size) * 8);
 
-		errno = 0;
-		temp = strtoll(value, &end, 0);
-
-		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || temp < 0 || (uint64_t)temp > max)) {
-			*flags_out |= ((uint64_t)temp);
+		if (cyaml__str_to_uint64_t(value, &temp) && temp <= max) {
+			*flags_out |= temp;
 			return CYAML_OK;
 		}
 	}
-- 
2.43.0


From 1a0bd1d65366889c5e3fd1239a4076b02942ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 10/26] fix: check flags and bitfield data sizes before using
 them as shifts

---
 src/load.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index ab33d15..404c0ba 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2202,7 +2202,7 @@ static cyaml_err_t cyaml__read_flags_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
-	if (schema->data_size == 0) {
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
 
@@ -2358,6 +2358,10 @@ static cyaml_err_t cyaml__read_bitfield_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	while (!exit) {
 		cyaml_event_t cyaml_event;
 		err = cyaml_get_next_event(ctx);
-- 
2.43.0


From b0bf0fc08d46f1278a1a537897d4d5f162775ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 11/26] fix: don't shift by the integer width for bit values
 with no bits

---
 src/load.c | 7 +++++--
 src/save.c | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/load.c b/src/load.c
index 404c0ba..26c6f86 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2325,7 +2325,8 @@ static cyaml_err_t cyaml__set_bitval(
 		return CYAML_ERR_UNEXPECTED_EVENT;
 	}
 
-	mask = (~(uint64_t)0) >> ((8 * sizeof(uint64_t)) - bitdef[index].bits);
+	mask = (bitdef[index].bits == 0) ? 0 : (~(uint64_t)0) >>
+			((8 * sizeof(uint64_t)) - bitdef[index].bits);
 	if (value > mask) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Value too big for bits: %s\n",
@@ -2333,7 +2334,9 @@ static cyaml_err_t cyaml__set_bitval(
 		return CYAML_ERR_INVALID_VALUE;
 	}
 
-	*bits_out |= value << bitdef[index].offset;
+	if (value != 0) {
+		*bits_out |= value << bitdef[index].offset;
+	}
 	return CYAML_OK;
 }
 
diff --git a/src/save.c b/src/save.c
index fda53b8..64f2f6a 100644
--- a/src/save.c
+++ b/src/save.c
@@ -917,6 +917,10 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 			return CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
 		}
 
+		if (bitdef[i].bits == 0) {
+			continue;
+		}
+
 		mask = ((~(uint64_t)0) >>
 		        ((8 * sizeof(uint64_t)) - bitdef[i].bits)
 		       ) << bitdef[i].offset;
-- 
2.43.0


From 3d8bcf72a84e736ac6d64b32e09c37aae31e9db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 12/26] fix: handle unsupported sequence count sizes without
 leaks or double frees

---
 src/free.c |  8 ++++++--
 src/load.c | 18 ++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/free.c b/src/free.c
index 431a39e..9df2912 100644
--- a/src/free.c
+++ b/src/free.c
@@ -22,6 +22,7 @@
  * are unbound, e.g. for a data tree structure.
  */
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <assert.h>
 #include <string.h>
@@ -63,7 +64,8 @@ static void cyaml__free_sequence(
 	uint32_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
-			"Free: Freeing sequence with count: %u\n", count);
+			"Free: Freeing sequence with count: %"PRIu64"\n",
+			count);
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
@@ -102,7 +104,9 @@ static void cyaml__free_mapping(
 			count = cyaml_data_read(schema->count_size,
 					data + schema->count_offset, &err);
 			if (err != CYAML_OK) {
-				return;
+				/* Sequences with a bad count size are never
+				 * loaded, so there are no entries. */
+				count = 0;
 			}
 		}
 		cyaml__free_value(cfg, &schema->value,
diff --git a/src/load.c b/src/load.c
index 26c6f86..e40af86 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1439,6 +1439,10 @@ static cyaml_err_t cyaml__field_apply_default(
 		}
 		schema_default = schema->sequence.missing;
 		if (schema->type == CYAML_SEQUENCE) {
+			if (field->count_size == 0 ||
+			    field->count_size > sizeof(seq_count)) {
+				return CYAML_ERR_INVALID_DATA_SIZE;
+			}
 			seq_count = schema->sequence.missing_count;
 		} else {
 			seq_count = schema->sequence.max;
@@ -1601,6 +1605,14 @@ static cyaml_err_t cyaml__stack_push(
 				s.sequence.count_data = (void *)&ctx->seq_count;
 				s.sequence.count_size = sizeof(ctx->seq_count);
 			}
+			if (s.sequence.count_size == 0 ||
+			    s.sequence.count_size > sizeof(uint64_t)) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"Load: Bad sequence count "
+						"size: %u\n",
+						s.sequence.count_size);
+				return CYAML_ERR_INVALID_DATA_SIZE;
+			}
 		}
 		break;
 	default:
@@ -2863,12 +2875,6 @@ static cyaml_err_t cyaml__seq_entry(
 		if (err != CYAML_OK) {
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Failed writing sequence count\n");
-			if (schema->flags & CYAML_FLAG_POINTER) {
-				cyaml__log(ctx->config, CYAML_LOG_DEBUG,
-						"Load: Freeing %p\n",
-						state->sequence.data);
-				cyaml__free(ctx->config, state->sequence.data);
-			}
 			return err;
 		}
 	}
-- 
2.43.0


From 401e73d93ff25d3cc3b45c39c2e8f4deb1e8a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 13/26] fix: refuse sequences with more entries than the count
 member can hold

---
 src/load.c | 60 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/load.c b/src/load.c
index e40af86..889568e 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1397,6 +1397,37 @@ static cyaml_err_t cyaml__field_scalar_apply_default(
 	}
 }
 
+/**
+ * Check whether a sequence entry count can be stored in the client's data.
+ *
+ * \param[in]  ctx         The CYAML loading context.
+ * \param[in]  count       The entry count.
+ * \param[in]  count_size  Number of bytes available for storing the count.
+ * \return \ref CYAML_OK if the count fits, or appropriate error code otherwise.
+ */
+static cyaml_err_t cyaml__check_seq_count(
+		const cyaml_ctx_t *ctx,
+		uint64_t count,
+		uint8_t count_size)
+{
+	if (count_size == 0 || count_size > sizeof(count)) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Bad sequence count size: %u\n",
+				count_size);
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
+	if (count > (UINT64_MAX >> ((sizeof(count) - count_size) * 8))) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Sequence entry count %"PRIu64" "
+				"doesn't fit count size: %u\n",
+				count, count_size);
+		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+	}
+
+	return CYAML_OK;
+}
+
 /**
  * Store any default value for a missing field.
  *
@@ -1439,11 +1470,12 @@ static cyaml_err_t cyaml__field_apply_default(
 		}
 		schema_default = schema->sequence.missing;
 		if (schema->type == CYAML_SEQUENCE) {
-			if (field->count_size == 0 ||
-			    field->count_size > sizeof(seq_count)) {
-				return CYAML_ERR_INVALID_DATA_SIZE;
-			}
 			seq_count = schema->sequence.missing_count;
+			err = cyaml__check_seq_count(ctx, seq_count,
+					field->count_size);
+			if (err != CYAML_OK) {
+				return err;
+			}
 		} else {
 			seq_count = schema->sequence.max;
 		}
@@ -1605,13 +1637,10 @@ static cyaml_err_t cyaml__stack_push(
 				s.sequence.count_data = (void *)&ctx->seq_count;
 				s.sequence.count_size = sizeof(ctx->seq_count);
 			}
-			if (s.sequence.count_size == 0 ||
-			    s.sequence.count_size > sizeof(uint64_t)) {
-				cyaml__log(ctx->config, CYAML_LOG_ERROR,
-						"Load: Bad sequence count "
-						"size: %u\n",
-						s.sequence.count_size);
-				return CYAML_ERR_INVALID_DATA_SIZE;
+			err = cyaml__check_seq_count(ctx, 0,
+					s.sequence.count_size);
+			if (err != CYAML_OK) {
+				return err;
 			}
 		}
 		break;
@@ -2857,6 +2886,15 @@ static cyaml_err_t cyaml__seq_entry(
 		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
 	}
 
+	if (schema->type == CYAML_SEQUENCE) {
+		err = cyaml__check_seq_count(ctx,
+				(uint64_t)state->sequence.count + 1,
+				state->sequence.count_size);
+		if (err != CYAML_OK) {
+			return err;
+		}
+	}
+
 	err = cyaml__data_handle_pointer(ctx, schema, event, &value_data);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From 4c19e86b5f89c86c313e3c166fecac93d1a972a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:10 +0000
Subject: [PATCH 14/26] fix: report failure to write the saved file when
 closing it

---
 src/save.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 64f2f6a..e73d154 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1454,7 +1454,12 @@ cyaml_err_t cyaml_save_file(
 
 	/* Cleanup */
 	yaml_emitter_delete(&emitter);
-	fclose(file);
+	if (fclose(file) != 0) {
+		/* Buffered output may not have been written. */
+		cyaml__log(config, CYAML_LOG_ERROR,
+				"Save: Failed to write file: %s\n", path);
+		return CYAML_ERR_LIBYAML_EMITTER;
+	}
 
 	return CYAML_OK;
 }
-- 
2.43.0


From 7c9e287d3544a280ac5124476b678e3c2fd7f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 15/26] fix: consume only the invalid bytes of a truncated
 UTF-8 sequence

---
 src/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 6e32218..58e4f27 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -63,7 +63,7 @@ unsigned cyaml_utf8_get_codepoint(
 			if ((s[i] & 0xc0) != 0x80) {
 				/* Need to shorten length so we don't consume
 				 * this byte with this invalid character. */
-				*len -= i;
+				*len = i;
 				goto invalid;
 			}
 
-- 
2.43.0


From 1d489d55d2c8fa15db29c759ad7e4457e7101dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 16/26] fix: match U+01F6 and U+0195 ignoring case

---
 src/utf8.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utf8.c b/src/utf8.c
index 58e4f27..53b436e 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -161,6 +161,7 @@ static unsigned cyaml_utf8_to_lower(unsigned c)
 		case 0x01f1: return 0x01f3; /* Latin Extended-B */
 		case 0x01f2: return 0x01f3; /* Latin Extended-B */
 		case 0x01f4: return 0x01f5; /* Latin Extended-B */
+		case 0x01f6: return 0x0195; /* Latin Extended-B */
 		case 0x01f7: return 0x01bf; /* Latin Extended-B */
 		case 0x0220: return 0x019e; /* Latin Extended-B */
 		case 0x023b: return 0x023c; /* Latin Extended-B */
-- 
2.43.0


From b6345326ef88a4e0ae477e6c4439389021229687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 17/26] fix: don't share number conversion buffers between
 concurrent saves

---
 src/save.c | 61 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/save.c b/src/save.c
index e73d154..903f7b8 100644
--- a/src/save.c
+++ b/src/save.c
@@ -504,17 +504,21 @@ static cyaml_err_t cyaml__emit_scalar(
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
 
+/**
+ * Size of buffer required for the string representation of any number.
+ */
+#define CYAML_NUMBER_LEN 64
+
 /**
  * Convert signed integer to string.
  *
- * \param[in]  value  The integer to convert.
+ * \param[in]  value   The integer to convert.
+ * \param[in]  string  Buffer of at least \ref CYAML_NUMBER_LEN bytes.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_int(
-		int64_t value)
+		int64_t value, char *string)
 {
-	static char string[32];
-
 	sprintf(string, "%"PRIi64, value);
 
 	return string;
@@ -523,15 +527,14 @@ static const char * cyaml__get_int(
 /**
  * Convert unsigned integer to string.
  *
- * \param[in]  value  The integer to convert.
- * \param[in]  hex    Whether to render the number as hexadecimal.
+ * \param[in]  value   The integer to convert.
+ * \param[in]  hex     Whether to render the number as hexadecimal.
+ * \param[in]  string  Buffer of at least \ref CYAML_NUMBER_LEN bytes.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_uint(
-		uint64_t value, bool hex)
+		uint64_t value, bool hex, char *string)
 {
-	static char string[32];
-
 	if (hex) {
 		sprintf(string, "0x%"PRIx64, value);
 	} else {
@@ -544,14 +547,13 @@ static const char * cyaml__get_uint(
 /**
  * Get string representation for single precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[in]  string  Buffer of at least \ref CYAML_NUMBER_LEN bytes.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
-		double value)
+		double value, char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%g", value);
 
 	return string;
@@ -560,14 +562,13 @@ static const char * cyaml__get_float(
 /**
  * Get string representation for double precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[in]  string  Buffer of at least \ref CYAML_NUMBER_LEN bytes.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_double(
-		double value)
+		double value, char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%.16e", value);
 
 	return string;
@@ -608,6 +609,7 @@ static cyaml_err_t cyaml__write_int(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char string[CYAML_NUMBER_LEN];
 	cyaml_err_t err;
 	int64_t number;
 	uint64_t raw;
@@ -620,7 +622,7 @@ static cyaml_err_t cyaml__write_int(
 	number = cyaml_sign_pad(raw, schema->data_size);
 
 	return cyaml__emit_scalar(ctx, schema,
-			cyaml__get_int(number),
+			cyaml__get_int(number, string),
 			YAML_INT_TAG);
 }
 
@@ -642,8 +644,10 @@ static cyaml_err_t cyaml__write_uint(
 
 	number = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
-		const char *string = cyaml__get_uint(number, false);
-		err = cyaml__emit_scalar(ctx, schema, string, YAML_INT_TAG);
+		char string[CYAML_NUMBER_LEN];
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(number, false, string),
+				YAML_INT_TAG);
 	}
 
 	return err;
@@ -735,17 +739,18 @@ static cyaml_err_t cyaml__write_float(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char buffer[CYAML_NUMBER_LEN];
 	const char *string = NULL;
 
 	if (schema->data_size == sizeof(float)) {
 		float number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_float(number);
+		string = cyaml__get_float(number, buffer);
 
 	} else if (schema->data_size == sizeof(double)) {
 		double number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_double(number);
+		string = cyaml__get_double(number, buffer);
 	} else {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
@@ -843,8 +848,9 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		if (schema->flags & CYAML_FLAG_STRICT) {
 			return CYAML_ERR_INVALID_VALUE;
 		} else {
-			const char *string = cyaml__get_uint(number, false);
-			err = cyaml__emit_scalar(ctx, schema, string,
+			char string[CYAML_NUMBER_LEN];
+			err = cyaml__emit_scalar(ctx, schema,
+					cyaml__get_uint(number, false, string),
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
 				return err;
@@ -909,7 +915,7 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 	}
 
 	for (uint32_t i = 0; i < schema->bitfield.count; i++) {
-		const char *value_str;
+		char value_str[CYAML_NUMBER_LEN];
 		uint64_t value;
 		uint64_t mask;
 
@@ -939,8 +945,9 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		}
 
 		/* Emit bitfield value's value */
-		value_str = cyaml__get_uint(value, true);
-		err = cyaml__emit_scalar(ctx, schema, value_str, YAML_INT_TAG);
+		err = cyaml__emit_scalar(ctx, schema,
+				cyaml__get_uint(value, true, value_str),
+				YAML_INT_TAG);
 		if (err != CYAML_OK) {
 			return err;
 		}
-- 
2.43.0


From aaff94bd808da962345b315b56a1eed4d20f633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 18/26] fix: save enough digits of single precision floats to
 get them back

---
 src/save.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 903f7b8..38cb2cf 100644
--- a/src/save.c
+++ b/src/save.c
@@ -16,6 +16,7 @@
 #include <stdbool.h>
 #include <assert.h>
 #include <limits.h>
+#include <stdlib.h>
 
 #include <yaml.h>
 
@@ -552,9 +553,13 @@ static const char * cyaml__get_uint(
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
-		double value, char *string)
+		float value, char *string)
 {
 	sprintf(string, "%g", value);
+	if (strtof(string, NULL) != value) {
+		/* More digits are needed to represent the exact value. */
+		sprintf(string, "%.9g", value);
+	}
 
 	return string;
 }
-- 
2.43.0


From 6ba2b160797d6502134005071a40f3e287791608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 19/26] fix: convert single precision floats at their own
 precision

---
 src/load.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 889568e..c3cee05 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2100,8 +2100,14 @@ static cyaml_err_t cyaml__read_float(
 	double temp;
 	char *end = NULL;
 
+	/* Convert directly to the precision of the value, to avoid rounding
+	 * twice, and to detect what can't be represented. */
 	errno = 0;
-	temp = strtod(value, &end);
+	if (schema->data_size == sizeof(float)) {
+		temp = strtof(value, &end);
+	} else {
+		temp = strtod(value, &end);
+	}
 
 	if (end == value || end == NULL || *end != '\0') {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
-- 
2.43.0


From a79d29c7aca8d80f0643b0913632cf5729028bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 20/26] fix: name the failing field and entry in save and copy
 backtraces

---
 src/copy.c | 11 ++++++++---
 src/save.c | 30 ++++++++++++++++++------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 7035e00..b2da007 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -44,6 +44,8 @@ typedef struct cyaml_state {
 			uint8_t *data;
 			uint8_t *c;
 			const cyaml_schema_field_t *field;
+			/** The field being copied, or NULL. */
+			const cyaml_schema_field_t *current;
 		} mapping;
 		/** Additional state for \ref CYAML_STATE_IN_SEQUENCE state. */
 		struct {
@@ -306,15 +308,17 @@ static void cyaml__backtrace(
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
+			if (state->mapping.current == NULL) {
+				break;
+			}
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					state->mapping.current->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in sequence entry: %"PRIu64"\n",
-					state->sequence.count);
+					state->sequence.entry);
 			break;
 		default:
 			break;
@@ -549,6 +553,7 @@ static cyaml_err_t cyaml__clone_mapping(
 		/* Advance the field before writing value, since writing the
 		 * value can put a new state entry on the stack. */
 		ctx->state->mapping.field++;
+		ctx->state->mapping.current = field;
 
 		if (field->value.type == CYAML_SEQUENCE) {
 			seq_count = cyaml_data_read(field->count_size,
diff --git a/src/save.c b/src/save.c
index 38cb2cf..dccd599 100644
--- a/src/save.c
+++ b/src/save.c
@@ -40,6 +40,8 @@ typedef struct cyaml_state {
 		 */
 		struct {
 			const cyaml_schema_field_t *field;
+			/** The field being written, or NULL. */
+			const cyaml_schema_field_t *current;
 		} mapping;
 		/**  Additional state for \ref CYAML_STATE_IN_SEQUENCE state. */
 		struct {
@@ -452,15 +454,17 @@ static void cyaml__backtrace(
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
+			if (state->mapping.current == NULL) {
+				break;
+			}
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					state->mapping.current->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in sequence entry: %"PRIu32"\n",
-					state->sequence.count);
+					"  in sequence entry: %"PRIu64"\n",
+					state->sequence.entry);
 			break;
 		default:
 			/** \todo \ref CYAML_STATE_IN_DOC handling for multi
@@ -1223,6 +1227,8 @@ static cyaml_err_t cyaml__write_mapping(
 			return CYAML_OK;
 		}
 
+		ctx->state->mapping.current = field;
+
 		err = cyaml__emit_scalar(ctx, ctx->state->schema,
 				field->key, YAML_STR_TAG);
 		if (err != CYAML_OK) {
@@ -1273,10 +1279,15 @@ static cyaml_err_t cyaml__write_sequence(
 	if (ctx->state->sequence.entry < ctx->state->sequence.count) {
 		const cyaml_schema_value_t *schema = ctx->state->schema;
 		const cyaml_schema_value_t *value = schema->sequence.entry;
+		uint64_t entry = ctx->state->sequence.entry;
 		unsigned seq_count = 0;
 		size_t data_size;
 		size_t offset;
 
+		/* Advance the entry before writing value, since writing the
+		 * value can put a new state entry on the stack. */
+		ctx->state->sequence.entry++;
+
 		if (value->type == CYAML_SEQUENCE) {
 			return CYAML_ERR_SEQUENCE_IN_SEQUENCE;
 
@@ -1292,16 +1303,11 @@ static cyaml_err_t cyaml__write_sequence(
 				data_size *= seq_count;
 			}
 		}
-		offset = data_size * ctx->state->sequence.entry;
+		offset = data_size * entry;
 
 		cyaml__log(ctx->config, CYAML_LOG_INFO,
-				"Save: Sequence entry %u of %u\n",
-				ctx->state->sequence.entry + 1,
-				ctx->state->sequence.count);
-
-		/* Advance the entry before writing value, since writing the
-		 * value can put a new state entry on the stack. */
-		ctx->state->sequence.entry++;
+				"Save: Sequence entry %"PRIu64" of %"PRIu64"\n",
+				entry + 1, ctx->state->sequence.count);
 
 		err = cyaml__write_value(ctx, value,
 				ctx->state->data + offset,
-- 
2.43.0


From 04fa4763df2d66e0a06066b8b6385485296b5143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 21/26] fix: name the right mapping field and key position in
 load backtraces

---
 src/load.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index c3cee05..4e71f31 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1608,6 +1608,7 @@ static cyaml_err_t cyaml__stack_push(
 	case CYAML_STATE_IN_MAP_KEY:
 		assert(schema->type == CYAML_MAPPING);
 		s.mapping.fields = schema->mapping.fields;
+		s.mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
 		s.mapping.fields_count = cyaml__get_mapping_field_count(
 				schema->mapping.fields);
 		err = cyaml__mapping_bitfieid_create(ctx, &s);
@@ -2764,6 +2765,9 @@ static cyaml_err_t cyaml__map_key(
 	const char *key;
 	cyaml_err_t err = CYAML_OK;
 
+	ctx->state->line = event->start_mark.line;
+	ctx->state->column = event->start_mark.column;
+
 	key = (const char *)event->data.scalar.value;
 	ctx->state->mapping.fields_idx = cyaml__get_mapping_field_idx(
 			ctx->config, ctx->state->schema, key);
@@ -2797,9 +2801,6 @@ static cyaml_err_t cyaml__map_key(
 	/* Toggle mapping sub-state to value */
 	ctx->state->state = CYAML_STATE_IN_MAP_VALUE;
 
-	ctx->state->line = event->start_mark.line;
-	ctx->state->column = event->start_mark.column;
-
 	return err;
 }
 
@@ -2820,6 +2821,9 @@ static cyaml_err_t cyaml__map_end(
 
 	CYAML_UNUSED(event);
 
+	/* No longer in any of the mapping's fields. */
+	ctx->state->mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
+
 	err = cyaml__mapping_bitfieid_validate(ctx);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From 60d8194ad038fea759ce0ea75ba5ec5e93dcc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 22/26] fix: pass the sequence to validation callbacks for
 pointer sequences

---
 src/load.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 4e71f31..bc10f4e 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2963,9 +2963,16 @@ static cyaml_err_t cyaml__seq_end(
 	}
 
 	if (schema->sequence.validation_cb != NULL) {
+		const cyaml_data_t *seq = state->data;
+
+		if (schema->flags & CYAML_FLAG_POINTER) {
+			/* The state's data is where the pointer is stored. */
+			seq = state->sequence.data;
+		}
+
 		if (!schema->sequence.validation_cb(
 				ctx->config->validation_ctx,
-				schema, state->data, state->sequence.count)) {
+				schema, seq, state->sequence.count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From ebf94fd8121cc943e9f59dae010e479d07c83c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 23/26] fix: load backtrace names the place of an alias that
 can't be handled

---
 src/load.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/load.c b/src/load.c
index bc10f4e..cce13f9 100644
--- a/src/load.c
+++ b/src/load.c
@@ -3082,6 +3082,37 @@ static inline cyaml_err_t cyaml__load_event(
 	return err;
 }
 
+/**
+ * Record the location of an alias that can't be handled, for the backtrace.
+ *
+ * The alias is the next event, so the state does not yet refer to it.
+ *
+ * \param[in]  ctx  The CYAML loading context.
+ */
+static void cyaml__locate_bad_alias(
+		const cyaml_ctx_t *ctx)
+{
+	const cyaml_event_ctx_t *e_ctx = &ctx->event_ctx;
+
+	if (!e_ctx->have_event || e_ctx->event.type != YAML_ALIAS_EVENT) {
+		return;
+	}
+
+	ctx->state->line = e_ctx->event.start_mark.line;
+	ctx->state->column = e_ctx->event.start_mark.column;
+
+	switch (ctx->state->state) {
+	case CYAML_STATE_IN_MAP_KEY:
+		ctx->state->mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
+		break;
+	case CYAML_STATE_IN_SEQUENCE:
+		ctx->state->sequence.count++;
+		break;
+	default:
+		break;
+	}
+}
+
 /**
  * The main YAML loading function.
  *
@@ -3129,6 +3160,7 @@ static cyaml_err_t cyaml__load(
 
 		err = cyaml_get_next_event(&ctx);
 		if (err != CYAML_OK) {
+			cyaml__locate_bad_alias(&ctx);
 			goto out;
 		}
 
-- 
2.43.0


From 20511688ee36ace6161f93e1b456b4bd0d0a2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 24/26] fix: copy of a non-pointer value from NULL data is an
 error

---
 src/copy.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/copy.c b/src/copy.c
index b2da007..93f4c2d 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -645,6 +645,7 @@ static cyaml_err_t cyaml__clone_sequence(
  *
  * \param[in] config     The client's CYAML library config.
  * \param[in] schema     The schema describing the content of data.
+ * \param[in] data       The caller-owned data to be copied.
  * \param[in] seq_count  Top level sequence count.
  * \param[in] data_out   Points to client's address to write data to.
  * \return \ref CYAML_OK on success, or appropriate error code otherwise.
@@ -652,6 +653,7 @@ static cyaml_err_t cyaml__clone_sequence(
 static inline cyaml_err_t cyaml__validate_copy_params(
 		const cyaml_config_t *config,
 		const cyaml_schema_value_t *schema,
+		const cyaml_data_t *data,
 		unsigned seq_count,
 		cyaml_data_t **data_out)
 {
@@ -670,6 +672,9 @@ static inline cyaml_err_t cyaml__validate_copy_params(
 	if (data_out == NULL) {
 		return CYAML_ERR_BAD_PARAM_NULL_DATA;
 	}
+	if (!(schema->flags & CYAML_FLAG_POINTER) && (data == NULL)) {
+		return CYAML_ERR_BAD_PARAM_NULL_DATA;
+	}
 	if ((schema->flags & CYAML_FLAG_POINTER) && (*data_out != NULL)) {
 		return CYAML_ERR_DATA_TARGET_NON_NULL;
 	}
@@ -733,7 +738,8 @@ cyaml_err_t cyaml_copy(
 	};
 	cyaml_err_t err = CYAML_OK;
 
-	err = cyaml__validate_copy_params(config, schema, seq_count, data_out);
+	err = cyaml__validate_copy_params(config, schema, data, seq_count,
+			data_out);
 	if (err != CYAML_OK) {
 		if (ctx.config != NULL) {
 			cyaml__log(ctx.config, CYAML_LOG_ERROR,
-- 
2.43.0


From b9a78f289d8f5d40599545ee3eaa65e5262ab27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 25/26] fix: save FLAGS values of several bits only where all
 of them are set

---
 src/save.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index dccd599..7191d40 100644
--- a/src/save.c
+++ b/src/save.c
@@ -828,6 +828,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		const cyaml_schema_value_t *schema,
 		uint64_t number)
 {
+	const uint64_t all = number;
 	yaml_event_t event;
 	cyaml_err_t err;
 	int ret;
@@ -844,7 +845,8 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 	for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 		const cyaml_strval_t *strval = &schema->enumeration.strings[i];
 		uint64_t flag = (uint64_t)strval->val;
-		if (number & flag) {
+		/* A flag of several bits is only set if all of them are. */
+		if ((number & flag) && (all & flag) == flag) {
 			err = cyaml__emit_scalar(ctx, schema, strval->str,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
-- 
2.43.0


From 572129a898344eeb218b2f1552c30a11f40ab41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 26/26] fix: load: accept a default sequence without entries

A missing optional sequence whose schema default has an entry count of 0
made the load fail with CYAML_ERR_BAD_PARAM_SEQ_COUNT, since the default
is applied with cyaml_copy, which refuses sequences without entries.
---
 src/load.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/load.c b/src/load.c
index cce13f9..2e5a7ee 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1471,6 +1471,11 @@ static cyaml_err_t cyaml__field_apply_default(
 		schema_default = schema->sequence.missing;
 		if (schema->type == CYAML_SEQUENCE) {
 			seq_count = schema->sequence.missing_count;
+			if (seq_count == 0) {
+				/* The default is a sequence without entries,
+				 * which is what a cleared field has. */
+				return CYAML_OK;
+			}
 			err = cyaml__check_seq_count(ctx, seq_count,
 					field->count_size);
 			if (err != CYAML_OK) {
-- 
2.43.0

