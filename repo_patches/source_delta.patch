From 1336093aa1423ca90c014423a149b91b9c4153ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 01/51] fix: check TLV header and length against the remaining
 data when decoding

A SEI is untrusted data. A tag or length running past the end of the TLV data, and the
reserved tag 0 that has no decoder, made tlv_decode() and
tlv_find_and_decode_optional_tags() read outside the data or call a NULL decoder.
---
 lib/src/signed_video_tlv.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..5771964 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -178,7 +178,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -1151,10 +1155,14 @@ tlv_list_encode_or_get_size(signed_video_t *self,
 }
 
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -1166,13 +1174,22 @@ decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *ta
   }
   *tag = tag_from_data;
 
+  // Tags without a length, e.g., UNDEFINED_TAG, cannot be decoded.
+  if (tlv.bytes_for_length == 0) return SV_INVALID_PARAMETER;
+  // The header has to fit in the data.
+  if (data_size < (size_t)1 + tlv.bytes_for_length) return SV_INVALID_PARAMETER;
+
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_16bits = 0;
+    data_ptr += read_16bits(data_ptr, &length_16bits);
+    *length = length_16bits;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // So does the value, which never is empty.
+  if (*length == 0 || *length > data_size - *data_bytes_read) return SV_INVALID_PARAMETER;
 
   return SV_OK;
 }
@@ -1189,7 +1206,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = decode_tlv_header(
+        data_ptr, (data + data_size) - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1257,7 +1275,8 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = decode_tlv_header(tlv_data_ptr, (tlv_data + tlv_data_size) - tlv_data_ptr,
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
-- 
2.43.0


From 9ac13234edf14875ec5cdf2ddfa8fc9d7fd4a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 02/51] fix: look up vendor tags in the vendor table when
 decoding optional tags

tlv_tuples[] was indexed with vendor tags (129), which reads outside the array.
---
 lib/src/signed_video_tlv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 5771964..8022407 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1282,7 +1282,7 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From 341914bcd73b8bb05a2d496abf45841d6a215fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 03/51] fix: do not scan past the end of the TLV data in
 tlv_find_tag()

---
 lib/src/signed_video_tlv.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 8022407..97d49f9 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1154,6 +1154,23 @@ tlv_list_encode_or_get_size(signed_video_t *self,
   return tlv_list_size;
 }
 
+/* Reads one byte, like read_byte(), if it is located before |data_end|. */
+static bool
+read_byte_before(uint16_t *last_two_bytes,
+    const uint8_t **data,
+    const uint8_t *data_end,
+    bool do_emulation_prevention,
+    uint8_t *byte)
+{
+  if (*data >= data_end) return false;
+  // An emulation prevention byte is followed by the byte to read.
+  bool is_epb = do_emulation_prevention && **data == 0x03 && *last_two_bytes == 0;
+  if (is_epb && data_end - *data < 2) return false;
+
+  *byte = read_byte(last_two_bytes, data, do_emulation_prevention);
+  return true;
+}
+
 static svrc_t
 decode_tlv_header(const uint8_t *data,
     size_t data_size,
@@ -1235,24 +1252,29 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
   if (!tlv_data || tlv_data_size == 0) return 0;
 
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  while (tlv_data_ptr < tlv_data + tlv_data_size) {
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
+  uint8_t byte = 0;
+  while (tlv_data_ptr < tlv_data_end) {
     latest_tag_location = tlv_data_ptr;
     // Read the tag
-    sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    if (!read_byte_before(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+    sv_tlv_tag_t this_tag = byte;
     if (this_tag == tag) {
       return latest_tag_location;
     }
 
     // Read the length
-    uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    if (!read_byte_before(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+    uint16_t length = byte;
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
     if (tlv.bytes_for_length == 2) {
+      if (!read_byte_before(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
       length <<= 8;
-      length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      length |= byte;
     }
     // Scan past the data
     for (int i = 0; i < length; i++) {
-      read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      if (!read_byte_before(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
     }
   }
   DEBUG_LOG("Never found the tag %d", tag);
-- 
2.43.0


From 95e974fd8be032a64218157033f2ed1425febc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:14 +0000
Subject: [PATCH 04/51] fix: check sizes when decoding the GENERAL_TAG

The size of the linked hash and GOP hash is derived from the untrusted TLV length, and could
exceed the memory (MAX_HASH_SIZE bytes) they are copied to.
---
 lib/src/signed_video_tlv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 97d49f9..c335add 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -318,10 +318,13 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
   char sw_version_str[SV_VERSION_MAX_STRLEN] = {0};
   char *code_version_str = sw_version_str;
   size_t hash_size = 0;
+  // Size of the fields present in all versions.
+  const size_t kMinSize = sizeof(version) + 4 + 2 + SV_VERSION_BYTES;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 3, SV_INCOMPATIBLE_VERSION);
+    SV_THROW_IF(data_size < kMinSize + (version >= 2 ? 1 : 0), SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -341,6 +344,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
       uint8_t flags = 0;
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
+      SV_THROW_IF(gop_info->has_timestamp && data_size < kMinSize + 1 + 8, SV_AUTHENTICATION_ERROR);
       if (gop_info->has_timestamp) {
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
@@ -353,6 +357,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     }
     if (version >= 3) {
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
-- 
2.43.0


From 0213d6c4d9c72c1c8fc0154747b865f13578fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:14 +0000
Subject: [PATCH 05/51] fix: check sizes when decoding public key, signature
 and crypto info tags

---
 lib/src/signed_video_tlv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index c335add..7e027f0 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -718,6 +718,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
+    SV_THROW_IF(data_size < (size_t)(data_ptr - data), SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(pubkey_size == 0, SV_AUTHENTICATION_ERROR);
 
     if (pem_public_key->key_size != pubkey_size) {
@@ -905,6 +906,9 @@ encode_signature(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The fields before the signature have to be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -1006,6 +1010,9 @@ encode_crypto_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The OID has to be located inside the data.
+  if (data_size < 2 || data_size - 2 < data[1]) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
-- 
2.43.0


From bdc3f73c43e7226d4fca21d3b24eeeaf0ce0d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:14 +0000
Subject: [PATCH 06/51] fix: only decode null-terminated product info strings
 located in the data

---
 lib/src/signed_video_tlv.c | 42 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 7e027f0..a151dc3 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -520,6 +520,23 @@ encode_product_info(signed_video_t *self, uint8_t *data)
   return (data_ptr - data);
 }
 
+/**
+ * @brief Decodes a string, stored as size (1 byte) and null-terminated characters, from data
+ */
+static svrc_t
+decode_string(const uint8_t **data, const uint8_t *data_end, char **str)
+{
+  if (*data >= data_end) return SV_AUTHENTICATION_ERROR;
+  const uint8_t str_size = **data;
+  const uint8_t *str_data = *data + 1;
+  // The string has to be located inside the data and be null-terminated.
+  if (str_size == 0 || data_end - str_data < str_size) return SV_AUTHENTICATION_ERROR;
+  if (str_data[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+
+  *data = str_data + str_size;
+  return allocate_memory_and_copy_string(str, (const char *)str_data);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
@@ -537,26 +554,11 @@ decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(decode_string(&data_ptr, data + data_size, &product_info->hardware_id));
+    SV_THROW(decode_string(&data_ptr, data + data_size, &product_info->firmware_version));
+    SV_THROW(decode_string(&data_ptr, data + data_size, &product_info->serial_number));
+    SV_THROW(decode_string(&data_ptr, data + data_size, &product_info->manufacturer));
+    SV_THROW(decode_string(&data_ptr, data + data_size, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     if (self->authenticity) {
-- 
2.43.0


From a64676f6cc51d53bcba436c23b7e7bd4528572f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:17 +0000
Subject: [PATCH 07/51] fix: check sizes when decoding TLVs of legacy SEIs

Same missing checks as in signed_video_tlv.c; tags, lengths and strings of an untrusted SEI
could make the decoders access memory outside the data.
---
 lib/src/legacy/legacy_tlv.c | 76 +++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..0fc3701 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -180,10 +181,13 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   uint8_t version = *data_ptr++;
   char sw_version_str[SV_VERSION_MAX_STRLEN] = {0};
   char *code_version_str = sw_version_str;
+  // Size of the fields present in all versions.
+  const size_t kMinSize = sizeof(version) + 4 + 2 + SV_VERSION_BYTES;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 2, SV_INCOMPATIBLE_VERSION);
+    SV_THROW_IF(data_size < kMinSize + (version >= 2 ? 1 : 0), SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -203,6 +207,7 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
       uint8_t flags = 0;
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
+      SV_THROW_IF(gop_info->has_timestamp && data_size < kMinSize + 1 + 8, SV_AUTHENTICATION_ERROR);
       if (gop_info->has_timestamp) {
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
@@ -235,6 +240,23 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/**
+ * @brief Decodes a string, stored as size (1 byte) and null-terminated characters, from data
+ */
+static svrc_t
+legacy_decode_string(const uint8_t **data, const uint8_t *data_end, char **str)
+{
+  if (*data >= data_end) return SV_AUTHENTICATION_ERROR;
+  const uint8_t str_size = **data;
+  const uint8_t *str_data = *data + 1;
+  // The string has to be located inside the data and be null-terminated.
+  if (str_size == 0 || data_end - str_data < str_size) return SV_AUTHENTICATION_ERROR;
+  if (str_data[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+
+  *data = str_data + str_size;
+  return allocate_memory_and_copy_string(str, (const char *)str_data);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
@@ -252,26 +274,11 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(legacy_decode_string(&data_ptr, data + data_size, &product_info->hardware_id));
+    SV_THROW(legacy_decode_string(&data_ptr, data + data_size, &product_info->firmware_version));
+    SV_THROW(legacy_decode_string(&data_ptr, data + data_size, &product_info->serial_number));
+    SV_THROW(legacy_decode_string(&data_ptr, data + data_size, &product_info->manufacturer));
+    SV_THROW(legacy_decode_string(&data_ptr, data + data_size, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     SV_THROW(transfer_product_info(&self->authenticity->product_info, product_info));
@@ -352,6 +359,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
+    SV_THROW_IF(data_size < (size_t)(data_ptr - data), SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(pubkey_size == 0, SV_AUTHENTICATION_ERROR);
 
     if (pem_public_key->key_size != pubkey_size) {
@@ -442,6 +450,9 @@ legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The fields before the signature have to be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -499,6 +510,9 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The OID has to be located inside the data.
+  if (data_size < 2 || data_size - 2 < data[1]) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
@@ -556,12 +570,13 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -573,13 +588,22 @@ legacy_decode_tlv_header(const uint8_t *data,
   }
   *tag = tag_from_data;
 
+  // Tags without a length, e.g., UNDEFINED_TAG, cannot be decoded.
+  if (tlv.bytes_for_length == 0) return SV_INVALID_PARAMETER;
+  // The header has to fit in the data.
+  if (data_size < (size_t)1 + tlv.bytes_for_length) return SV_INVALID_PARAMETER;
+
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_16bits = 0;
+    data_ptr += read_16bits(data_ptr, &length_16bits);
+    *length = length_16bits;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // So does the value, which never is empty.
+  if (*length == 0 || *length > data_size - *data_bytes_read) return SV_INVALID_PARAMETER;
 
   return SV_OK;
 }
@@ -596,7 +620,8 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = legacy_decode_tlv_header(
+        data_ptr, (data + data_size) - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -630,13 +655,14 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = legacy_decode_tlv_header(tlv_data_ptr, (tlv_data + tlv_data_size) - tlv_data_ptr,
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From 27231b96669081e21cc6ab6f8cfebf6791abf1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:23 +0000
Subject: [PATCH 08/51] fix: never read outside the NALU when parsing it

---
 lib/src/signed_video_h26x_common.c | 54 ++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..a66f9bc 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,13 +317,15 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
+  // The last size byte is missing.
+  if (data_ptr >= data_end) return 0;
   *payload_size += *data_ptr++;
 
   return (data_ptr - data);
@@ -350,7 +352,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -421,7 +424,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -531,6 +535,11 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   // |reserved_byte| and point to the start of the TLV part.
   nalu->tlv_start_in_nalu_data = nalu->payload + UUID_LEN;
   nalu->tlv_size = nalu->payload_size - UUID_LEN;
+  // The TLV part cannot be larger than the data left.
+  const uint8_t *data_end = nalu->hashable_data + nalu->hashable_data_size;
+  if (nalu->tlv_size > (size_t)(data_end - nalu->tlv_start_in_nalu_data)) {
+    nalu->tlv_size = data_end - nalu->tlv_start_in_nalu_data;
+  }
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
@@ -547,7 +556,7 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   // with the stop bit.
   const size_t data_size = (nalu->payload - nalu->hashable_data) + nalu->payload_size + 1;
   assert(!nalu->nalu_data_wo_epb);
-  nalu->nalu_data_wo_epb = malloc(data_size);
+  nalu->nalu_data_wo_epb = calloc(1, data_size);
   if (!nalu->nalu_data_wo_epb) {
     DEBUG_LOG("Failed allocating |nalu_data_wo_epb|, marking NALU with error");
     nalu->is_valid = -1;
@@ -556,6 +565,10 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
     for (size_t i = 0; i < data_size; i++) {
+      // Never read past the end, even if there are more emulation prevention bytes than expected.
+      const bool is_epb = (last_two_bytes == 0) && (data_end - hashable_data_ptr > 0) &&
+          (*hashable_data_ptr == 0x03);
+      if (data_end - hashable_data_ptr < (is_epb ? 2 : 1)) break;
       nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
@@ -606,7 +619,10 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  // The |nalu_data| may be shorter than a Start Code.
+  uint8_t first_bytes[4] = {0xFF, 0xFF, 0xFF, 0xFF};
+  memcpy(first_bytes, nalu_data, nalu_data_size < 4 ? nalu_data_size : 4);
+  size_t read_bytes = read_32bits(first_bytes, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -621,13 +637,19 @@ parse_nalu_info(const uint8_t *nalu_data,
   }
   nalu.hashable_data = &nalu_data[read_bytes];
   nalu.start_code = start_code;
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
+
+  // Without a complete NALU header the NALU is invalid.
+  nalu_header_len = codec == SV_CODEC_H264 ? H264_NALU_HEADER_LEN : H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    nalu.is_valid = 0;
+    return nalu;
+  }
 
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = parse_h264_nalu_header(&nalu);
-    nalu_header_len = H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = parse_h265_nalu_header(&nalu);
-    nalu_header_len = H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -641,7 +663,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -651,13 +674,14 @@ parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *data_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
+    uint8_t user_data_unregistered = payload < data_end ? *payload : 0;
     payload++;
     if (user_data_unregistered == USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
+      size_t read_bytes = h264_get_payload_size(payload, data_end, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -673,8 +697,10 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      // Decode UUID type, if both the UUID and the reserved byte following it are present.
+      if (read_bytes > 0 && payload_size > UUID_LEN && data_end - payload > UUID_LEN) {
+        nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
-- 
2.43.0


From 535a362fcf287514f2ee11869811d1b8732b99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:23 +0000
Subject: [PATCH 09/51] fix: never read outside the NALU when parsing it in
 legacy code

---
 lib/src/legacy/legacy_h26x_common.c | 52 +++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..5216d40 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,13 +171,15 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
+  // The last size byte is missing.
+  if (data_ptr >= data_end) return 0;
   *payload_size += *data_ptr++;
 
   return (data_ptr - data);
@@ -204,7 +206,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -275,7 +278,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -385,6 +389,11 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   // |reserved_byte| and point to the start of the TLV part.
   nalu->tlv_start_in_nalu_data = nalu->payload + UUID_LEN;
   nalu->tlv_size = nalu->payload_size - UUID_LEN;
+  // The TLV part cannot be larger than the data left.
+  const uint8_t *data_end = nalu->hashable_data + nalu->hashable_data_size;
+  if (nalu->tlv_size > (size_t)(data_end - nalu->tlv_start_in_nalu_data)) {
+    nalu->tlv_size = data_end - nalu->tlv_start_in_nalu_data;
+  }
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
@@ -401,7 +410,7 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   // with the stop bit.
   const size_t data_size = (nalu->payload - nalu->hashable_data) + nalu->payload_size + 1;
   assert(!nalu->nalu_data_wo_epb);
-  nalu->nalu_data_wo_epb = malloc(data_size);
+  nalu->nalu_data_wo_epb = calloc(1, data_size);
   if (!nalu->nalu_data_wo_epb) {
     DEBUG_LOG("Failed allocating |nalu_data_wo_epb|, marking NALU with error");
     nalu->is_valid = -1;
@@ -410,6 +419,10 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
     for (size_t i = 0; i < data_size; i++) {
+      // Never read past the end, even if there are more emulation prevention bytes than expected.
+      const bool is_epb = (last_two_bytes == 0) && (data_end - hashable_data_ptr > 0) &&
+          (*hashable_data_ptr == 0x03);
+      if (data_end - hashable_data_ptr < (is_epb ? 2 : 1)) break;
       nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
@@ -460,7 +473,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  // The |nalu_data| may be shorter than a Start Code.
+  uint8_t first_bytes[4] = {0xFF, 0xFF, 0xFF, 0xFF};
+  memcpy(first_bytes, nalu_data, nalu_data_size < 4 ? nalu_data_size : 4);
+  size_t read_bytes = read_32bits(first_bytes, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -475,13 +491,19 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   }
   nalu.hashable_data = &nalu_data[read_bytes];
   nalu.start_code = start_code;
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
+
+  // Without a complete NALU header the NALU is invalid.
+  nalu_header_len = codec == SV_CODEC_H264 ? LEGACY_H264_NALU_HEADER_LEN : LEGACY_H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    nalu.is_valid = 0;
+    return nalu;
+  }
 
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = legacy_parse_h264_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = legacy_parse_h265_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -495,7 +517,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -505,13 +528,14 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *data_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
+    uint8_t user_data_unregistered = payload < data_end ? *payload : 0;
     payload++;
     if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
+      size_t read_bytes = legacy_get_payload_size(payload, data_end, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -527,8 +551,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      // Decode UUID type, if both the UUID and the reserved byte following it are present.
+      if (read_bytes > 0 && payload_size > UUID_LEN && data_end - payload > UUID_LEN) {
+        nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
-- 
2.43.0


From 430196f3d80d771cfc9ba8e4d536eca27d8d01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 10/51] fix: avoid endless validation loop when more than one
 GOP is lost before a SEI

---
 lib/src/signed_video_h26x_auth.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..7e99dfc 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -84,12 +84,6 @@ decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_siz
   SV_TRY()
     SV_THROW_WITH_MSG(tlv_decode(self, payload, payload_size), "Failed decoding SEI payload");
     detect_lost_sei(self);
-    // Every SEI is associated with a GOP. If a lost SEI has been detected, and no GOP end has been
-    // found prior to this SEI, it means both a SEI and an I-frame was lost. This is defined as a
-    // lost GOP transition.
-    if (self->gop_state.no_gop_end_before_sei && self->gop_state.has_lost_sei) {
-      self->gop_state.gop_transition_is_lost = true;
-    }
   SV_CATCH()
   SV_DONE(status)
 
@@ -120,6 +114,12 @@ detect_lost_sei(signed_video_t *self)
   // Otherwise, the counter cannot be trusted.
   self->gop_state.has_lost_sei =
       (potentially_missed_gops > 0) && self->gop_info->global_gop_counter_is_synced;
+  // Every SEI is associated with a GOP. If a lost SEI has been detected, and no GOP end has been
+  // found prior to this SEI, it means both a SEI and an I-frame was lost. This is defined as a
+  // lost GOP transition.
+  if (self->gop_state.no_gop_end_before_sei && self->gop_state.has_lost_sei) {
+    self->gop_state.gop_transition_is_lost = true;
+  }
 }
 
 /**
-- 
2.43.0


From 17a3b28e90cb201c592d0364c503e29daa2fa867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:45 +0000
Subject: [PATCH 11/51] fix: signed overflow when detecting a wraparound of the
 GOP counter

---
 lib/src/signed_video_h26x_auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 7e99dfc..6aa7cef 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -107,8 +107,9 @@ detect_lost_sei(signed_video_t *self)
   // a reset and a wraparound but provides a reasonable estimate to handle the situation.
   // TODO: Investigate what happens if two SEI frames are interchanged.This will be
   // addressed in future updates.
-  bool is_wraparound = (potentially_missed_gops + INT64_MAX) < (INT64_MAX / 2);
-  if (is_wraparound) potentially_missed_gops += INT64_MAX;
+  const int64_t counter_range = (int64_t)UINT32_MAX + 1;
+  bool is_wraparound = (potentially_missed_gops + counter_range) < (counter_range / 2);
+  if (is_wraparound) potentially_missed_gops += counter_range;
 
   // It is only possible to know if a SEI has been lost if the |global_gop_counter| is in sync.
   // Otherwise, the counter cannot be trusted.
-- 
2.43.0


From d25b16570ffac5136a58047f8483baae2966eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:37 +0000
Subject: [PATCH 12/51] fix: allocate for the worst case number of emulation
 prevention bytes in a SEI

---
 lib/src/signed_video_h26x_sign.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..da6eb36 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -245,12 +245,12 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
     }
     // Compute total SEI NALU data size.
     sei_buffer_size += self->codec == SV_CODEC_H264 ? 6 : 7;  // NALU header
-    sei_buffer_size += payload_size / 256 + 1;  // Size field
+    sei_buffer_size += payload_size / 255 + 1;  // Size field
     sei_buffer_size += payload_size;
     sei_buffer_size += 1;  // Stop bit in a separate byte
 
-    // Secure enough memory for emulation prevention. Worst case will add 1 extra byte per 3 bytes.
-    sei_buffer_size = sei_buffer_size * 4 / 3;
+    // Secure enough memory for emulation prevention. Worst case will add 1 extra byte per 2 bytes.
+    sei_buffer_size = sei_buffer_size * 3 / 2;
 
     // Allocate memory for payload + SEI header to return
     *payload = (uint8_t *)malloc(sei_buffer_size);
-- 
2.43.0


From 94b05c9f05dd590072ecc5a172dc353fef049863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:31 +0000
Subject: [PATCH 13/51] fix: remove a SEI without signature from the buffer
 when freeing it

---
 lib/src/signed_video_h26x_sign.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index da6eb36..b8f9bdc 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -125,6 +125,8 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   // GOP.
   if (self->sign_data->signature_size == 0) {
     signed_video_nalu_data_free(payload);
+    // Remove the freed SEI from the buffer.
+    shift_sei_buffer_at_index(self, self->num_of_completed_seis);
     status = SV_OK;
     goto done;
   } else if (!payload) {
-- 
2.43.0


From 307616f24cdc3ae6d9f72258f5092517bfa75332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:31 +0000
Subject: [PATCH 14/51] fix: do not read past the input buffer of the threaded
 signing plugin

---
 lib/plugins/threaded-signing/plugin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..a377eba 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -612,7 +612,7 @@ local_worker_thread(void *user_data)
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       hash_data_t tmp = self->in[0];
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
-- 
2.43.0


From 623bc1b34c5b508442923ad50fc0995571043709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:31 +0000
Subject: [PATCH 15/51] fix: do not read before the last NALU part when
 removing trailing zeros

---
 lib/src/signed_video_h26x_sign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index b8f9bdc..0dc3a4c 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -499,7 +499,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
+    while (is_last_part && (nalu_data_size > 0) && (nalu_data[nalu_data_size - 1] == 0x00)) {
       nalu_data_size--;
     }
     nalu.hashable_data_size = nalu_data_size;
-- 
2.43.0


From 54bf47f12871c16a68d46f6a983cb52ac604974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:22 +0000
Subject: [PATCH 16/51] fix: check sizes when decoding the Axis Communications
 vendor tag

---
 .../axis-communications/sv_vendor_axis_communications.c    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..0b63a41 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -606,6 +606,9 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
   if (!handle) return SV_INVALID_PARAMETER;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
+  // At least |version| and |attestation_size| have to be present.
+  if (!data || data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint8_t attestation_size = 0;
@@ -617,6 +620,8 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     // Read |attestation_size|.
     attestation_size = *data_ptr++;
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
+    // There has to be data left for the |certificate_chain| after the |attestation|.
+    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
@@ -636,7 +641,6 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     //  - 1 byte for version
     //  - 1 bytes for |attestation_size|
     //  - |attestation_size| bytes for |attestation|
-    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     cert_size = data_size - attestation_size - 2;
 
     // Allocate memory for |certificate_chain| including null-terminated character.
@@ -646,6 +650,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
+    SV_THROW_IF(strlen(self->certificate_chain) != cert_size, SV_NOT_SUPPORTED);
     SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
-- 
2.43.0


From 1cc4421ed77b6b0ffcc6a117bbc0c59d0e3948c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:22 +0000
Subject: [PATCH 17/51] fix: do not copy a serial number that does not fit

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 0b63a41..9536eac 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -258,6 +258,9 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     // Found serial number in certificate. Read that entry and convert to UTF8.
     entry_data = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(subject, ser_no_index));
     SV_THROW_IF(ASN1_STRING_to_UTF8(&serial_number_str, entry_data) <= 0, SV_EXTERNAL_ERROR);
+    // Make sure it fits, including null-termination.
+    SV_THROW_IF(
+        strlen((char *)serial_number_str) >= SV_VENDOR_AXIS_SER_NO_MAX_LENGTH, SV_VENDOR_ERROR);
     // Copy only if necessary.
     if (strcmp(self->supplemental_authenticity.serial_number, (char *)serial_number_str)) {
       memset(self->supplemental_authenticity.serial_number, 0, SV_VENDOR_AXIS_SER_NO_MAX_LENGTH);
-- 
2.43.0


From 99ff0980bef370ab30b3094532f206ebcecdc11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:30 +0000
Subject: [PATCH 18/51] fix: fail setting a hash algorithm if the OID is not a
 digest

---
 lib/src/signed_video_openssl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..d459c3f 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -402,6 +402,7 @@ oid_to_type(message_digest_t *self)
     SV_THROW_IF(
         !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
     self->type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!self->type, SV_EXTERNAL_ERROR);
     self->size = EVP_MD_size(self->type);
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From eff21b47c5ec3a4550082f32fa4e62fb000bafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:37 +0000
Subject: [PATCH 19/51] fix: check the size of the public key tag before moving
 past the algo

---
 lib/src/signed_video_tlv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a151dc3..c36387f 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -705,6 +705,9 @@ encode_public_key(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version, and algo if older version, has to be followed by at least one byte.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -720,7 +723,6 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
-    SV_THROW_IF(data_size < (size_t)(data_ptr - data), SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(pubkey_size == 0, SV_AUTHENTICATION_ERROR);
 
     if (pem_public_key->key_size != pubkey_size) {
-- 
2.43.0


From 06b0816fd5dcc047d19b0db96eb71705b7cc179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:57 +0000
Subject: [PATCH 20/51] fix: report a version mismatch when the signing side is
 newer

The version of the validating side was only written to the report handed out
to the user, not to the local one. Hence, the check against the version on
the signing side compared with an empty string and never detected a newer
version.
---
 lib/src/signed_video_authenticity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..10eb3f9 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -213,6 +213,9 @@ authenticity_report_init(signed_video_authenticity_t *authenticity_report)
   assert(!authenticity_report->this_version);
   authenticity_report->version_on_signing_side = calloc(1, SV_VERSION_MAX_STRLEN);
   authenticity_report->this_version = calloc(1, SV_VERSION_MAX_STRLEN);
+  if (authenticity_report->this_version) {
+    strcpy(authenticity_report->this_version, SIGNED_VIDEO_VERSION);
+  }
 
   latest_validation_init(&authenticity_report->latest_validation);
   accumulated_validation_init(&authenticity_report->accumulated_validation);
-- 
2.43.0


From f439f4f2e060ca9c14bf45153b560fc6c023761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:09 +0000
Subject: [PATCH 21/51] fix: keep the accumulated result when nothing has been
 validated

A first SEI that fails (NOT OK) was forgotten if the next validation could not
be performed (SIGNATURE PRESENT), and the stream could end up as OK.
---
 lib/src/signed_video_authenticity.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 10eb3f9..2fe517b 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -229,6 +229,8 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
     // Still either pending validation or video has no signature. Update with the result from
     // |latest|.
     accumulated->authenticity = latest->authenticity;
+  } else if (latest->authenticity <= SV_AUTH_RESULT_SIGNATURE_PRESENT) {
+    // Nothing has been validated in |latest|. Keep what has been validated so far.
   } else if (latest->authenticity < accumulated->authenticity) {
     // |latest| has validated a worse authenticity compared to what we have validated so far. Update
     // with this worse result, since that is what should rule the total validation.
-- 
2.43.0


From 93d22f3a8f619a87cf1ef36002f8aed18fd3ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:26 +0000
Subject: [PATCH 22/51] fix: do not hide a version mismatch in the accumulated
 result

---
 lib/src/signed_video_authenticity.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 2fe517b..e01bdc0 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -231,6 +231,13 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
     accumulated->authenticity = latest->authenticity;
   } else if (latest->authenticity <= SV_AUTH_RESULT_SIGNATURE_PRESENT) {
     // Nothing has been validated in |latest|. Keep what has been validated so far.
+  } else if (accumulated->authenticity == SV_AUTH_RESULT_VERSION_MISMATCH ||
+      latest->authenticity == SV_AUTH_RESULT_VERSION_MISMATCH) {
+    // A version mismatch cannot be compared with other results. It should rule unless a NALU failed
+    // verification.
+    bool not_ok = (accumulated->authenticity == SV_AUTH_RESULT_NOT_OK) ||
+        (latest->authenticity == SV_AUTH_RESULT_NOT_OK);
+    accumulated->authenticity = not_ok ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_VERSION_MISMATCH;
   } else if (latest->authenticity < accumulated->authenticity) {
     // |latest| has validated a worse authenticity compared to what we have validated so far. Update
     // with this worse result, since that is what should rule the total validation.
-- 
2.43.0


From 19f6f65aea7628a185b54f3b60d6f9f286d85a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:33 +0000
Subject: [PATCH 23/51] fix: keep hashable data without emulation prevention
 bytes when copying a SEI

---
 lib/src/signed_video_h26x_nalu_list.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 0a9e3db..aa4107f 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -319,7 +319,10 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
   while (!(item->nalu)) {
     item = item->prev;
   }
-  int hashable_data_offset = item->nalu->hashable_data - item->nalu->nalu_data;
+  // If emulation prevention bytes have been removed before hashing, the |hashable_data| is not part
+  // of the |nalu_data|.
+  const bool hash_nalu_data_wo_epb =
+      item->nalu->nalu_data_wo_epb && (item->nalu->hashable_data == item->nalu->nalu_data_wo_epb);
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -333,11 +336,16 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     }
     // If the library does not know which hash algo to use, store the |hashable_data| for later.
     if (!hash_algo_known) {
-      nalu_data = malloc(item->nalu->nalu_data_size);
+      const size_t nalu_data_size = item->nalu->nalu_data_size;
+      const size_t wo_epb_size = hash_nalu_data_wo_epb ? item->nalu->hashable_data_size : 0;
+      nalu_data = malloc(nalu_data_size + wo_epb_size);
       SV_THROW_IF(!nalu_data, SV_MEMORY);
-      memcpy(nalu_data, item->nalu->nalu_data, item->nalu->nalu_data_size);
-      if (item->nalu->is_hashable) {
-        hashable_data = nalu_data + hashable_data_offset;
+      memcpy(nalu_data, item->nalu->nalu_data, nalu_data_size);
+      if (hash_nalu_data_wo_epb) {
+        hashable_data = nalu_data + nalu_data_size;
+        memcpy(hashable_data, item->nalu->hashable_data, wo_epb_size);
+      } else if (item->nalu->is_hashable) {
+        hashable_data = nalu_data + (item->nalu->hashable_data - item->nalu->nalu_data);
       }
     }
     copy_nalu_except_pointers(copied_nalu, item->nalu);
-- 
2.43.0


From f2e457caa6b7f0c2356687f94a9aac8a90ac0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 24/51] fix: report a decoding error instead of asserting on a
 SEI without content

---
 lib/src/legacy/legacy_h26x_auth.c | 2 +-
 lib/src/signed_video_h26x_auth.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..dac0669 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -56,7 +56,7 @@ static const char *kLegacyAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES
 static svrc_t
 legacy_decode_sei_data(legacy_sv_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self);
   // Get the last GOP counter before updating.
   uint32_t last_gop_number = self->gop_info->global_gop_counter;
   uint32_t exp_gop_number = last_gop_number + 1;
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 6aa7cef..fc25e9c 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -77,7 +77,7 @@ static const char *kAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES] = {"
 static svrc_t
 decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self);
   DEBUG_LOG("SEI payload size = %zu, exp gop number = %u", payload_size,
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From 891c1a9f7818a3f553adcf686db723289e333d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:43 +0000
Subject: [PATCH 25/51] fix: null pointer NALU when marking items of a GOP
 without SEI

---
 lib/src/signed_video_h26x_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index fc25e9c..82f9d44 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -578,7 +578,8 @@ verify_hashes_without_sei(signed_video_t *self)
     num_marked_items++;
 
     item = item->next;
-    if (item) {
+    // Only a missing item has a null pointer NALU.
+    if (item && item->nalu) {
       found_next_gop = item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
     }
   }
-- 
2.43.0


From a84578c544e81f51b60d7c9657f7f20af5f13ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:47 +0000
Subject: [PATCH 26/51] fix: a GOP whose signature could not be verified is not
 OK

---
 lib/src/signed_video_h26x_auth.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 82f9d44..53a4bb8 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -514,8 +514,6 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
     // An error occurred when verifying the GOP hash. Verify without a SEI.
     validation_status = 'E';
     sei->validation_status = validation_status;
-    // Remove |used_in_gop_hash| from marked NALUs.
-    remove_used_in_gop_hash(self->nalu_list);
     return verify_hashes_without_sei(self);
   }
 
-- 
2.43.0


From 42197bcf1ea6ab4df1a4ef185ac7a627add48d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:05 +0000
Subject: [PATCH 27/51] fix: a SEI with incorrect signature is not OK even if
 no NALU of its GOP was received

---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 53a4bb8..704ed1f 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -510,10 +510,14 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
   } else if (self->gop_info->verified_signature_hash == 0) {
     validation_status = 'N';
     sei->validation_status = validation_status;
+    // Include the SEI in the statistics, since there may be no other NALUs in the GOP.
+    sei->used_in_gop_hash = true;
   } else {
     // An error occurred when verifying the GOP hash. Verify without a SEI.
     validation_status = 'E';
     sei->validation_status = validation_status;
+    // Include the SEI in the statistics, since there may be no other NALUs in the GOP.
+    sei->used_in_gop_hash = true;
     return verify_hashes_without_sei(self);
   }
 
-- 
2.43.0


From ba7a366b002022460688a107b049f113efe6b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:21 +0000
Subject: [PATCH 28/51] fix: a GOP is not OK if only its SEI was received

---
 lib/src/signed_video_h26x_auth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 704ed1f..c056d51 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -526,6 +526,8 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
   while (first_gop_hash_item && !first_gop_hash_item->used_in_gop_hash) {
     first_gop_hash_item = first_gop_hash_item->next;
   }
+  // If none of the NALUs in the GOP was received, add the missing NALUs before the SEI.
+  if (!first_gop_hash_item) first_gop_hash_item = sei;
   num_received_hashes =
       set_validation_status_of_pending_items_used_in_gop_hash(self, validation_status, sei);
 
@@ -660,7 +662,9 @@ validate_authenticity(signed_video_t *self)
   // TODO: Move this inside the verify_hashes_ functions. We should not need to perform any special
   // actions on the output.
   if (!validation_flags->is_first_validation) {
-    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > 1) &&
+    // Without a verified hash list (|verify_success| is false) this also holds for a GOP with one
+    // single NALU.
+    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > (verify_success ? 1 : 0)) &&
         (num_missed_nalus >= num_expected_nalus)) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
-- 
2.43.0


From 35399c9e767ecfc213c60be08c948264590b7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 29/51] fix: never verify a GOP against the hash list of a
 previous SEI

---
 lib/src/signed_video_h26x_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index c056d51..a3d522c 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -82,6 +82,8 @@ decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_siz
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
+    // Never verify against the hash list of a previous SEI.
+    self->gop_info->list_idx = 0;
     SV_THROW_WITH_MSG(tlv_decode(self, payload, payload_size), "Failed decoding SEI payload");
     detect_lost_sei(self);
   SV_CATCH()
-- 
2.43.0


From 4763ba1e1c44817e7f950d7856b59d15782773b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:30 +0000
Subject: [PATCH 30/51] fix: use a new hash algorithm in all hashing contexts
 and forget one that could not be set

---
 lib/src/signed_video_openssl.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index d459c3f..3b626d6 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -499,7 +499,19 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     self->hash_algo.encoded_oid_size = encoded_oid_size;
 
     SV_THROW(oid_to_type(&self->hash_algo));
+    // Free the contexts to be able to assign a new message digest type to them.
+    EVP_MD_CTX_free(self->primary_ctx);
+    self->primary_ctx = NULL;
+    EVP_MD_CTX_free(self->secondary_ctx);
+    self->secondary_ctx = NULL;
+    SV_THROW(openssl_init_hash(self, false));
   SV_CATCH()
+  {
+    // Do not remember an OID that could not be set.
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo.encoded_oid = NULL;
+    self->hash_algo.encoded_oid_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From e9f06084e1eef5f91a3ba52ad117f1c26a1eb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:33 +0000
Subject: [PATCH 31/51] fix: count frames unsigned, since the counter is meant
 to wrap around

---
 lib/src/signed_video_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index 6531f19..57c16ab 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -167,7 +167,7 @@ struct _signed_video_t {
 
   // Frame counter and flag to handle recurrence
   bool has_recurrent_data;
-  int frame_count;
+  unsigned frame_count;
 
   h26x_nalu_t *last_nalu;  // Track last parsed h26x_nalu_t to pass on to next part
 
-- 
2.43.0


From 7e0d7f0ebc0487a681dea95a83d6d92053f8431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 32/51] fix: do not read before an empty directory name when
 generating a key

---
 lib/src/signed_video_openssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 3b626d6..6639cd4 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -700,7 +700,7 @@ get_path_to_key(const char *dir_to_key, const char *key_filename)
 
   strcpy(str, dir_to_key);
   // Add '/' if not exists
-  if (dir_to_key[path_len - 1] != '/') strcat(str, "/");
+  if (path_len > 0 && dir_to_key[path_len - 1] != '/') strcat(str, "/");
   strcat(str, key_filename);
 
   return str;
-- 
2.43.0


From 22520b366ce36d6ae476ef7b7093aaa1f5bd3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 33/51] fix: keep the old signature memory and public key when
 a private key cannot be set

---
 lib/src/signed_video_openssl.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 6639cd4..12ca24b 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -102,6 +102,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
 
   EVP_PKEY_CTX *ctx = NULL;
   EVP_PKEY *signing_key = NULL;
+  uint8_t *signature = NULL;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -114,8 +115,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     // Read the maximum size of the signature that the |private_key| can generate
     size_t max_signature_size = EVP_PKEY_size(signing_key);
     SV_THROW_IF(max_signature_size == 0, SV_EXTERNAL_ERROR);
-    sign_data->signature = malloc(max_signature_size);
-    SV_THROW_IF(!sign_data->signature, SV_MEMORY);
+    signature = malloc(max_signature_size);
+    SV_THROW_IF(!signature, SV_MEMORY);
     // Create a context from the |signing_key|
     ctx = EVP_PKEY_CTX_new(signing_key, NULL /* no engine */);
     SV_THROW_IF(!ctx, SV_EXTERNAL_ERROR);
@@ -129,12 +130,14 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     }
 
     // Set the content in |sign_data|
+    free(sign_data->signature);
+    sign_data->signature = signature;
     sign_data->max_signature_size = max_signature_size;
     sign_data->key = ctx;
   SV_CATCH()
   {
-    free(sign_data->signature);
-    sign_data->signature = NULL;
+    free(signature);
+    signature = NULL;
     EVP_PKEY_CTX_free(ctx);
     ctx = NULL;
   }
@@ -231,10 +234,12 @@ openssl_read_pubkey_from_private_key(sign_or_verify_data_t *sign_data, pem_pkey_
 
   BIO_free(pub_bio);
 
-  // Transfer ownership to |pem_pkey|.
-  free(pem_pkey->key);
-  pem_pkey->key = public_key;
-  pem_pkey->key_size = public_key_size;
+  if (status == SV_OK) {
+    // Transfer ownership to |pem_pkey|.
+    free(pem_pkey->key);
+    pem_pkey->key = public_key;
+    pem_pkey->key_size = public_key_size;
+  }
 
   return status;
 }
-- 
2.43.0


From 3927985d193b8a949868cbd51a232627dc7c9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:41 +0000
Subject: [PATCH 34/51] fix: refuse a hash of another size also when its slot
 has not been used before

---
 lib/plugins/threaded-signing/plugin.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index a377eba..bcab48b 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -246,6 +246,12 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     self->sign_data->hash_size = hash_size;
   }
 
+  // The |hash_size| has to be fixed throughout the session.
+  if (self->sign_data->hash_size != hash_size) {
+    status = SV_NOT_SUPPORTED;
+    goto done;
+  }
+
   if (!self->in[idx].hash) {
     self->in[idx].hash = calloc(1, hash_size);
     if (!self->in[idx].hash) {
-- 
2.43.0


From d26eb61b17b2757ec0e649849e6de48843361482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:41 +0000
Subject: [PATCH 35/51] fix: do not keep a reference to a replaced public key

---
 .../axis-communications/sv_vendor_axis_communications.c       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 9536eac..434cc12 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -687,8 +687,10 @@ set_axis_communications_public_key(void *handle,
   // The |public_key| is on EVP_PKEY_CTX form.
   EVP_PKEY *pkey = EVP_PKEY_CTX_get0_pkey((EVP_PKEY_CTX *)public_key);
 
-  // If the Public key previously has been validated unsuccessful, skip checking type and size.
+  // If the Public key previously has been validated unsuccessful, skip checking type and size, but
+  // do not keep a reference to a key that may have been freed.
   if (self->supplemental_authenticity.public_key_validation == 0) {
+    self->public_key = public_key;
     return SV_OK;
   }
 
-- 
2.43.0


From 95688c36bb0554eb4238c145e8f0a08fc4c3b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:41 +0000
Subject: [PATCH 36/51] fix: free a certificate that exceeds the supported
 number of certificates

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 434cc12..7f62bce 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -227,6 +227,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
+    // A certificate that has not been pushed is not owned by |untrusted_certificates|.
+    X509_free(certificate);
     SV_THROW_IF(num_certificates > NUM_UNTRUSTED_CERTIFICATES, SV_VENDOR_ERROR);
 
     SV_THROW(verify_certificate_chain(self->trusted_ca, untrusted_certificates));
-- 
2.43.0


From b9a703f1b93f9f16a9268aa328708962b7e8cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:41 +0000
Subject: [PATCH 37/51] fix: check the allocation of the attested data

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 7f62bce..3d11861 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -414,6 +414,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From 851ea0c370aa5b85cb4274db4f6fc0edf0a386ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:41 +0000
Subject: [PATCH 38/51] fix: free the message digest context when tearing down
 the Axis vendor

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 3d11861..3593949 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -519,6 +519,7 @@ sv_vendor_axis_communications_teardown(void *handle)
   free(self->attestation);
   free(self->certificate_chain);
   X509_free(self->trusted_ca);
+  EVP_MD_CTX_free(self->md_ctx);
   free(self);
 }
 
-- 
2.43.0


From 6ced8fb2753a95cc058af83d7ede8e9895a549d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:58 +0000
Subject: [PATCH 39/51] fix: free the local signing session when it cannot be
 set up

---
 lib/plugins/threaded-signing/plugin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index bcab48b..8c60193 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -716,6 +716,7 @@ local_setup(const void *private_key, size_t private_key_size)
 
 catch_error:
   free_plugin(self);
+  free(self);
   return NULL;
 }
 
-- 
2.43.0


From 381d939af9444e74f1c4f3c57bb6f29ec0ec7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:58 +0000
Subject: [PATCH 40/51] fix: do not set the attestation when refusing the
 certificate chain

---
 .../axis-communications/sv_vendor_axis_communications.c   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 3593949..8c8469a 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -788,10 +788,12 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)sv->vendor_handle;
   bool allocated_attestation = false;
   bool allocated_certificate_chain = false;
+  // If |attestation| or |certificate_chain| already exists, return error without setting any.
+  if (attestation && self->attestation) return SV_NOT_SUPPORTED;
+  if (certificate_chain && self->certificate_chain) return SV_NOT_SUPPORTED;
+
   // The user wants to set the |attestation|.
   if (attestation) {
-    // If |attestation| already exists, return error.
-    if (self->attestation) return SV_NOT_SUPPORTED;
     // Allocate memory and copy to |self|.
     self->attestation = malloc(attestation_size);
     allocated_attestation = true;
@@ -802,8 +804,6 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
 
   // The user wants to set the |certificate_chain|.
   if (certificate_chain) {
-    // If |certificate_chain| already exists, return error.
-    if (self->certificate_chain) return SV_NOT_SUPPORTED;
     // Check if there is anything to copy.
     size_t certificate_chain_size = strlen(certificate_chain);
     if (certificate_chain_size == 0) goto catch_error;
-- 
2.43.0


From 218df4337ecb87ad5da53999f6784073b1d78612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:03 +0000
Subject: [PATCH 41/51] fix: verify the attestation with the public key in use

---
 lib/src/legacy/legacy_h26x_auth.c | 3 +++
 lib/src/signed_video_h26x_auth.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index dac0669..d78331c 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -732,6 +732,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
 
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
+      // The public key may have been set, or replaced, without the |vendor_handle| being informed,
+      // that is, before the manufacturer was known.
+      SV_THROW(set_axis_communications_public_key(self->vendor_handle, verify_data->key, false));
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
       if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index a3d522c..ca276c7 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -820,6 +820,9 @@ prepare_for_validation(signed_video_t *self)
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
 
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
+      // The public key may have been set, or replaced, without the |vendor_handle| being informed,
+      // that is, before the manufacturer was known.
+      SV_THROW(set_axis_communications_public_key(self->vendor_handle, verify_data->key, false));
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
       if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
-- 
2.43.0


From 723f7fd19c6752764fabfd39e3db3e8a42326d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:39 +0000
Subject: [PATCH 42/51] fix: check the size of the legacy public key tag before
 moving past the algo

---
 lib/src/legacy/legacy_tlv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 0fc3701..212bad1 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -344,6 +344,9 @@ legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data
 static svrc_t
 legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version, and algo if older version, has to be followed by at least one byte.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
-- 
2.43.0


From 8d5212cfed9bd4cd40343bbf49dbf484d426dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:03 +0000
Subject: [PATCH 43/51] fix: copy the latest NALU of an old stream also when
 missing items were added after it

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 57d343e..aa6107a 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -258,6 +258,11 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   legacy_h26x_nalu_t *copied_nalu = NULL;
   uint8_t *nalu_data_wo_epb = NULL;
   legacy_h26x_nalu_list_item_t *item = list->last_item;
+  // Missing items may have been added after the NALU. These have nothing to copy.
+  while (item && !item->nalu && item->validation_status == 'M') {
+    item = item->prev;
+  }
+  if (!item) return SV_UNKNOWN_FAILURE;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From e6f881050fdac9670a6eeffa5ada3f2b8407d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:03 +0000
Subject: [PATCH 44/51] fix: keep a change of public key visible until it is
 reported

---
 lib/src/signed_video_h26x_auth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index ca276c7..de1d0a7 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -799,7 +799,9 @@ prepare_for_validation(signed_video_t *self)
     if (sei) {
       if (!sei->has_been_decoded) {
         // Decode the SEI and set signature->hash
-        self->latest_validation->public_key_has_changed = false;
+        if (!validation_flags->has_auth_result) {
+          self->latest_validation->public_key_has_changed = false;
+        }
         const uint8_t *tlv_data = sei->nalu->tlv_data;
         size_t tlv_size = sei->nalu->tlv_size;
         SV_THROW(decode_sei_data(self, tlv_data, tlv_size));
-- 
2.43.0


From cc8cd9a5ad319ffffc2cbf86f55535ff674bf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:03 +0000
Subject: [PATCH 45/51] fix: do not keep a NALU of an old stream forever after
 it failed its last verification

---
 lib/src/legacy/legacy_h26x_auth.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index d78331c..2308345 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -267,9 +267,9 @@ legacy_verify_hashes_with_hash_list(legacy_sv_t *self,
     if (latest_match_idx != compare_idx) {
       // Last verified hash is invalid.
       last_used_item->first_verification_not_authentic = true;
-      // Give this NALU a second verification because it could be that it is present in the next GOP
-      // and brought in here due to some lost NALUs.
-      last_used_item->need_second_verification = true;
+      // Give this NALU a second verification, if it is still pending, because it could be that it
+      // is present in the next GOP and brought in here due to some lost NALUs.
+      last_used_item->need_second_verification = (last_used_item->validation_status == 'P');
     } else {
       // Last received hash is valid. Check if there are unused hashes in |hash_list|. Note that the
       // index of the hashes span from 0 to |num_expected_hashes| - 1, so if |latest_match_idx| =
-- 
2.43.0


From c89a11426d36cd0724c8fca08875339aaa85cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:03 +0000
Subject: [PATCH 46/51] fix: end the first validation of an old stream once it
 has been repeated

---
 lib/src/legacy/legacy_h26x_auth.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 2308345..ed740c1 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -939,6 +939,7 @@ legacy_maybe_validate_gop(legacy_sv_t *self, legacy_h26x_nalu_t *nalu)
 
       if (validation_flags->reset_first_validation) {
         validation_flags->is_first_validation = true;
+        validation_flags->reset_first_validation = false;
         legacy_h26x_nalu_list_item_t *item = self->nalu_list->first_item;
         while (item) {
           if (item->nalu && item->nalu->is_first_nalu_in_gop) {
-- 
2.43.0


From d988ae03c0fc2b3c10d310c824adf98ad8e20885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:03 +0000
Subject: [PATCH 47/51] fix: keep the worst result and a change of key when
 several GOPs of an old stream are validated at once

---
 lib/src/legacy/legacy_h26x_auth.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index ed740c1..63a0dea 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -581,8 +581,12 @@ legacy_validate_authenticity(legacy_sv_t *self)
   }
   if (latest->public_key_has_changed) valid = SV_AUTH_RESULT_NOT_OK;
 
-  // Update |latest_validation| with the validation result.
-  latest->authenticity = valid;
+  // Update |latest_validation| with the validation result. If several GOPs are validated before the
+  // result is reported, the worst one rules.
+  if (!validation_flags->has_auth_result ||
+      latest->authenticity <= SV_AUTH_RESULT_SIGNATURE_PRESENT || valid < latest->authenticity) {
+    latest->authenticity = valid;
+  }
   latest->number_of_expected_picture_nalus = num_expected_nalus;
   latest->number_of_received_picture_nalus = num_received_nalus;
 }
@@ -705,6 +709,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
     legacy_h26x_nalu_list_item_t *sei = legacy_h26x_nalu_list_get_next_sei_item(nalu_list);
     if (sei && !sei->has_been_decoded) {
       // Decode the SEI and set signature->hash
+      if (!validation_flags->has_auth_result) {
+        self->latest_validation->public_key_has_changed = false;
+      }
       const uint8_t *tlv_data = sei->nalu->tlv_data;
       size_t tlv_size = sei->nalu->tlv_size;
 
@@ -916,11 +923,10 @@ legacy_maybe_validate_gop(legacy_sv_t *self, legacy_h26x_nalu_t *nalu)
     bool stop_validating = false;
     while (legacy_has_pending_gop(self) && !stop_validating) {
       // Initialize latest validation.
-      latest->authenticity = SV_AUTH_RESULT_NOT_OK;
+      if (!validation_flags->has_auth_result) latest->authenticity = SV_AUTH_RESULT_NOT_OK;
       latest->number_of_expected_picture_nalus = -1;
       latest->number_of_received_picture_nalus = -1;
       latest->number_of_pending_picture_nalus = -1;
-      latest->public_key_has_changed = false;
 
       SV_THROW(legacy_prepare_for_validation(self));
 
-- 
2.43.0


From b41fdec6a683ed42ca35cffe9d85f3e41a09c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:49 +0000
Subject: [PATCH 48/51] fix: let the SEI at the end of a stream carry the GOP
 hash of the GOP that ends

---
 lib/src/signed_video_h26x_sign.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 0dc3a4c..1dd933c 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -730,6 +730,11 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    if (self->gop_info->num_nalus_in_gop_hash > 0) {
+      // Finalize the |computed_gop_hash| of the ongoing GOP, which ends here.
+      SV_THROW(openssl_finalize_hash(
+          self->crypto_handle, self->gop_info->computed_gop_hash, true));
+    }
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-- 
2.43.0


From 6fdcdd4a3bdd102caddaaedd0625641790ba45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:52 +0000
Subject: [PATCH 49/51] fix: report it when there is no memory for a SEI to
 prepend

---
 lib/src/signed_video_h26x_sign.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 1dd933c..e5791dd 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -707,6 +707,11 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   svrc_t status = get_latest_sei(self, NULL, sei_size);
   if (SV_OK == status && *sei_size != 0) {
     nalu_to_prepend->nalu_data = malloc(*sei_size);
+    if (!nalu_to_prepend->nalu_data) {
+      // The SEI is kept and can be fetched later.
+      *sei_size = 0;
+      return SV_MEMORY;
+    }
     nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
     status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
   }
-- 
2.43.0


From 7e4605552a9b2ef07a57d1d6bcc5929906662e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:28 +0000
Subject: [PATCH 50/51] fix: avoid integer overflow when counting emulation
 prevention bytes of a SEI with a huge payload size

---
 lib/src/legacy/legacy_h26x_common.c | 9 +++++----
 lib/src/signed_video_h26x_common.c  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 5216d40..fbbef90 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -541,14 +541,15 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.payload_size = payload_size;
       // We now know the payload size, including UUID (16 bytes) and excluding stop bit. This means
       // that we can determine if we have added any emulation prevention bytes.
-      int epb = (int)nalu.hashable_data_size;
-      epb -= (int)(payload - nalu.hashable_data);  // Read bytes so far
-      epb -= (int)payload_size;  // The true encoded payload size, excluding stop byte.
+      int64_t epb = (int64_t)nalu.hashable_data_size;
+      epb -= payload - nalu.hashable_data;  // Read bytes so far
+      epb -= (int64_t)payload_size;  // The true encoded payload size, excluding stop byte.
       // If we have the stop bit in a byte of its own it's not included in the payload size. This is
       // actually always the case for the signed video generated SEI data.
 
       epb -= nalu_data[nalu_data_size - 1] == STOP_BYTE_VALUE ? 1 : 0;
-      nalu.emulation_prevention_bytes = epb;
+      // There are none if the payload size exceeds the size of the NALU.
+      nalu.emulation_prevention_bytes = epb > 0 ? (int)epb : 0;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
       // Decode UUID type, if both the UUID and the reserved byte following it are present.
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a66f9bc..a756b37 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -687,14 +687,15 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.payload_size = payload_size;
       // We now know the payload size, including UUID (16 bytes) and excluding stop bit. This means
       // that we can determine if we have added any emulation prevention bytes.
-      int epb = (int)nalu.hashable_data_size;
-      epb -= (int)(payload - nalu.hashable_data);  // Read bytes so far
-      epb -= (int)payload_size;  // The true encoded payload size, excluding stop byte.
+      int64_t epb = (int64_t)nalu.hashable_data_size;
+      epb -= payload - nalu.hashable_data;  // Read bytes so far
+      epb -= (int64_t)payload_size;  // The true encoded payload size, excluding stop byte.
       // If we have the stop bit in a byte of its own it's not included in the payload size. This is
       // actually always the case for the signed video generated SEI data.
 
       epb -= nalu_data[nalu_data_size - 1] == STOP_BYTE_VALUE ? 1 : 0;
-      nalu.emulation_prevention_bytes = epb;
+      // There are none if the payload size exceeds the size of the NALU.
+      nalu.emulation_prevention_bytes = epb > 0 ? (int)epb : 0;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
       // Decode UUID type, if both the UUID and the reserved byte following it are present.
-- 
2.43.0


From b54c27a902ae5064237a3fc7bf93ca16d2b33c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:38 +0000
Subject: [PATCH 51/51] fix: forget the size of a public key there was no
 memory for

---
 lib/src/legacy/legacy_tlv.c | 1 +
 lib/src/signed_video_tlv.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 212bad1..155d382 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -367,6 +367,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index c36387f..3cfff29 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -727,6 +727,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
-- 
2.43.0

