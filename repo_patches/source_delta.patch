From 5a98db549cb4c47ef2fe654c643355b0413ca57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:35 +0000
Subject: [PATCH 01/30] fix: never report OK unless the signature was
 successfully verified

If the signature verification ended with an error (e.g., a malformed signature) the items were no
longer marked as used in the GOP hash when collecting statistics, hence none was counted as invalid
and the GOP was reported as SV_AUTH_RESULT_OK.
---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..79dd38b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -647,7 +647,10 @@ validate_authenticity(signed_video_t *self)
   DEBUG_LOG("Number of missed NALUs = %d.", num_missed_nalus);
   remove_used_in_gop_hash(self->nalu_list);
 
-  valid = (num_invalid_nalus > 0) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
+  // Nothing can be trusted, hence is not OK, unless the signature was successfully verified.
+  const bool signature_is_ok = (self->gop_info->verified_signature_hash == 1);
+  valid =
+      (num_invalid_nalus > 0 || !signature_is_ok) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
 
   // Post-validation actions.
 
-- 
2.43.0


From 5c97f23b6526d22053bd11ff8ad4224d22c21887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:36 +0000
Subject: [PATCH 02/30] fix: propagate failures when updating the GOP hash

check_and_copy_hash_to_hash_list() ignored failures to initialize or update
the GOP hash, hence a SEI could be signed with a GOP hash that does not cover
all NAL Units.
---
 lib/src/signed_video_h26x_common.c   | 11 ++++++-----
 lib/src/signed_video_h26x_internal.h |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..33eb203 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -828,10 +828,10 @@ update_num_nalus_in_gop_hash(signed_video_t *self, const h26x_nalu_t *nalu)
 /* Initializes and updates the GOP hash regardless of available space. If there is enough
  * room, copies the |hash| and updates |list_idx|. Otherwise, sets |list_idx| to -1.
  */
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size_t hash_size)
 {
-  if (!self || !hash) return;
+  if (!self || !hash) return SV_INVALID_PARAMETER;
 
   uint8_t *hash_list = &self->gop_info->hash_list[0];
   int *list_idx = &self->gop_info->list_idx;
@@ -839,7 +839,8 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
   // If this is the start of the GOP, initialize |crypto_handle| to enable
   // updating the hash with each received NALU.
   if (*list_idx == 0) {
-    openssl_init_hash(self->crypto_handle, true);
+    svrc_t status = openssl_init_hash(self->crypto_handle, true);
+    if (status != SV_OK) return status;
   }
   // If the upcoming hash doesn't fit in the hash list buffer, set *list_idx to -1
   // to indicate that the hash list is full, and the hash list is no longer accessible.
@@ -852,7 +853,7 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
     memcpy(&hash_list[*list_idx], hash, hash_size);
     *list_idx += hash_size;
   }
-  openssl_update_hash(self->crypto_handle, hash, hash_size, true);
+  return openssl_update_hash(self->crypto_handle, hash, hash_size, true);
 }
 
 /*
@@ -1040,7 +1041,7 @@ hash_and_add(signed_video_t *self, const h26x_nalu_t *nalu)
 #endif
     if (nalu->is_last_nalu_part) {
       // The end of the NALU has been reached. Update hash list and GOP hash.
-      check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size);
+      SV_THROW(check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size));
       update_num_nalus_in_gop_hash(self, nalu);
     }
   SV_CATCH()
diff --git a/lib/src/signed_video_h26x_internal.h b/lib/src/signed_video_h26x_internal.h
index a4a2a90..0433445 100644
--- a/lib/src/signed_video_h26x_internal.h
+++ b/lib/src/signed_video_h26x_internal.h
@@ -171,7 +171,7 @@ gop_state_reset(gop_state_t *gop_state);
 void
 update_num_nalus_in_gop_hash(signed_video_t *signed_video, const h26x_nalu_t *nalu);
 
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *signed_video,
     const uint8_t *hash,
     size_t hash_size);
-- 
2.43.0


From cd8fdc6e807482db3012eadddf4e6048ad1e706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:36 +0000
Subject: [PATCH 03/30] fix: report failure if the path to the private key
 cannot be created

If the memory allocation failed, the private key was silently not written to
file and SV_OK was returned.
---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..cda0ee3 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -704,6 +704,7 @@ signed_video_generate_ecdsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_ECDSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_ecdsa_private_key(full_path_to_private_key, &pem_key);
@@ -730,6 +731,7 @@ signed_video_generate_rsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_RSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_rsa_private_key(full_path_to_private_key, &pem_key);
-- 
2.43.0


From 6d59a8b9e09b8aecdb77d3d9ec3ae496f5411090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:36 +0000
Subject: [PATCH 04/30] fix: return SV_MEMORY if the NAL Unit to prepend cannot
 be allocated

Without memory only the size was fetched and the user got SV_OK and an
instruction to prepend a null pointer.
---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..608dcb4 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -705,6 +705,10 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   svrc_t status = get_latest_sei(self, NULL, sei_size);
   if (SV_OK == status && *sei_size != 0) {
     nalu_to_prepend->nalu_data = malloc(*sei_size);
+    if (!nalu_to_prepend->nalu_data) {
+      nalu_to_prepend->nalu_data_size = 0;
+      return SV_MEMORY;
+    }
     nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
     status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
   }
-- 
2.43.0


From 1de75c40af4586163ef817ed6577c90b6b42705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:36 +0000
Subject: [PATCH 05/30] fix: fail creating an authenticity report without
 memory for versions

The version strings are written to without checks.
---
 lib/src/signed_video_authenticity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..ca074f6 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -380,6 +380,10 @@ signed_video_authenticity_report_create()
   if (!auth) return NULL;
 
   authenticity_report_init(auth);
+  if (!auth->version_on_signing_side || !auth->this_version) {
+    signed_video_authenticity_report_free(auth);
+    return NULL;
+  }
 
   return auth;
 }
-- 
2.43.0


From 7c85b3ac66addd094e31bf87c092fecdc474578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:51 +0000
Subject: [PATCH 06/30] fix: fail generating a SEI if the hashable data could
 not be prepared

If there was no memory to remove emulation prevention bytes the SEI was signed
with a hash the validation side cannot reproduce.
---
 lib/src/signed_video_h26x_sign.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 608dcb4..53c6953 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -331,6 +331,7 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
       // Force SEI to be hashable.
       h26x_nalu_t nalu_without_signature_data =
           parse_nalu_info(*payload, fake_payload_size, self->codec, false, true);
+      SV_THROW_IF(nalu_without_signature_data.is_valid < 0, SV_MEMORY);
       // Create a document hash.
       SV_THROW(hash_and_add(self, &nalu_without_signature_data));
       // Note that the "add" part of the hash_and_add() operation above is actually only necessary
-- 
2.43.0


From fbcc3f85bdecf9b5cee9fc9bc5f0cdcfe61d28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:19 +0000
Subject: [PATCH 07/30] fix: return SV_MEMORY if a requested authenticity
 report cannot be created

The validation result was lost, but SV_OK without a report was returned as if
there were no result yet.
---
 lib/src/legacy/legacy_h26x_auth.c | 1 +
 lib/src/signed_video_h26x_auth.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..51b3455 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1061,6 +1061,7 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
       if (authenticity) *authenticity = signed_video_get_authenticity_report(self->parent);
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
+      SV_THROW_IF(authenticity && !*authenticity, SV_MEMORY);
     }
   SV_CATCH()
   SV_DONE(status)
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 79dd38b..b082b9f 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1209,6 +1209,7 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
       if (authenticity) *authenticity = signed_video_get_authenticity_report(self);
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
+      SV_THROW_IF(authenticity && !*authenticity, SV_MEMORY);
     }
     SV_THROW(legacy_sv_add_nalu_and_authenticate(
         self->legacy_sv, nalu_data, nalu_data_size, authenticity));
-- 
2.43.0


From 9338b73a1da2196399236b78d26a70bed649c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:12 +0000
Subject: [PATCH 08/30] fix: report a failed signing even if there is no
 signature to fetch

---
 lib/src/signed_video_h26x_sign.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 53c6953..d75e269 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -564,7 +564,7 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
 
   SV_TRY()
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
+    SignedVideoReturnCode signature_error = SV_OK;
     sign_or_verify_data_t *sign_data = self->sign_data;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
@@ -594,6 +594,8 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
 #endif
       SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
     }
+    // A failed signing is reported through |signature_error| without any signature.
+    SV_THROW(signature_error);
 
   SV_CATCH()
   SV_DONE(status)
@@ -737,12 +739,14 @@ signed_video_set_end_of_stream(signed_video_t *self)
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
     sign_or_verify_data_t *sign_data = self->sign_data;
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
+    SignedVideoReturnCode signature_error = SV_OK;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
       SV_THROW(signature_error);
       SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
     }
+    // A failed signing is reported through |signature_error| without any signature.
+    SV_THROW(signature_error);
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 39eb651310528461231515a19e5ab8799cbfa34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:12 +0000
Subject: [PATCH 09/30] fix: never dereference null arguments in the threaded
 signing plugin

---
 lib/plugins/threaded-signing/plugin.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..1c76738 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -781,7 +781,7 @@ sv_signing_plugin_get_signature(void *handle,
     return get_signature(
         &central, self->central->id, signature, max_signature_size, written_signature_size, error);
   } else {
-    *error = SV_NOT_SUPPORTED;
+    if (error) *error = SV_NOT_SUPPORTED;
     return false;
   }
 }
@@ -843,8 +843,8 @@ sv_signing_plugin_init(void *user_data)
 {
   signature_info_t *signature_info = (signature_info_t *)user_data;
 
-  if (central.thread || id_list || central.sign_data) {
-    // Central thread, id list or sign_data already exists
+  if (central.thread || id_list || central.sign_data || !user_data) {
+    // Central thread, id list or sign_data already exists. Or no |user_data| is set.
     return -1;
   }
 
-- 
2.43.0


From a398d127aa6bfa59e119f7d5016e5839480e9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:49 +0000
Subject: [PATCH 10/30] fix: handle failed memory allocations when creating a
 session and verifying a key

---
 lib/src/signed_video_h26x_common.c                           | 5 +++--
 .../axis-communications/sv_vendor_axis_communications.c      | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 33eb203..80ee4a7 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1157,6 +1157,7 @@ signed_video_create(SignedVideoCodec codec)
     self->sei_epb = true;
     self->signing_started = false;
     self->sign_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->sign_data, SV_MEMORY);
     self->sign_data->hash_size = openssl_get_hash_size(self->crypto_handle);
     // Make sure the hash size matches the default hash size.
     SV_THROW_IF(self->sign_data->hash_size != DEFAULT_HASH_SIZE, SV_EXTERNAL_ERROR);
@@ -1173,8 +1174,7 @@ signed_video_create(SignedVideoCodec codec)
 
     // Initialize validation members
     self->nalu_list = h26x_nalu_list_create();
-    // No need to check if |nalu_list| is a nullptr, since it is only of importance on the
-    // authentication side. The check is done there instead.
+    SV_THROW_IF(!self->nalu_list, SV_MEMORY);
     self->authentication_started = false;
 
     validation_flags_init(&(self->validation_flags));
@@ -1182,6 +1182,7 @@ signed_video_create(SignedVideoCodec codec)
     self->has_public_key = false;
 
     self->verify_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->verify_data, SV_MEMORY);
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
   SV_CATCH()
   {
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..d87c43a 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -409,6 +409,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From 7fef7dbfacf5206cbf525df805f4ba241d64ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 11/30] fix: validate the public key in use and never keep a
 reference to a freed key

The vendor handle kept a pointer to the previous key when that key had been found invalid, and was not
informed of keys that were set or replaced while the manufacturer was not known, hence could use a freed key
or validate another key than the one in use.
---
 lib/src/legacy/legacy_h26x_auth.c                             | 4 ++++
 lib/src/signed_video_h26x_auth.c                              | 4 ++++
 .../axis-communications/sv_vendor_axis_communications.c       | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 51b3455..20bf055 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -732,6 +732,10 @@ legacy_prepare_for_validation(legacy_sv_t *self)
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
 
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
+      // The key to validate is the key in use, even if it was set or replaced without |vendor_handle|
+      // being informed.
+      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
+          self->latest_validation->public_key_has_changed));
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
       if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b082b9f..398bb52 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -813,6 +813,10 @@ prepare_for_validation(signed_video_t *self)
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
 
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
+      // The key to validate is the key in use, even if it was set or replaced without |vendor_handle|
+      // being informed.
+      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
+          self->latest_validation->public_key_has_changed));
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
       if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index d87c43a..40eafc3 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -682,6 +682,8 @@ set_axis_communications_public_key(void *handle,
 
   // If the Public key previously has been validated unsuccessful, skip checking type and size.
   if (self->supplemental_authenticity.public_key_validation == 0) {
+    // Never keep a reference to a key that has been replaced, hence may have been freed.
+    if (self->public_key) self->public_key = public_key;
     return SV_OK;
   }
 
-- 
2.43.0


From 9201fcb4b6e07e81a4aa0cb9b2af963d279db39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:23 +0000
Subject: [PATCH 12/30] fix: record a change of public key even if the rest of
 the SEI is invalid

If a SEI holds another public key than the one in use and a later part of it
could not be decoded, the key was replaced, but no report was made. The flag
was then lowered when decoding the next SEI, so the change was never reported.
---
 lib/src/legacy/legacy_tlv.c | 2 ++
 lib/src/signed_video_tlv.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..edcc4df 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -364,6 +364,8 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
     int key_diff = memcmp(data_ptr, pem_public_key->key, pubkey_size);
     if (self->has_public_key && key_diff) {
       self->latest_validation->public_key_has_changed = true;
+      // Do not rely on a report for this SEI, since the rest of it may be invalid.
+      self->accumulated_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
     self->has_public_key = true;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..cd9f2c7 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -721,6 +721,8 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
     int key_diff = memcmp(data_ptr, pem_public_key->key, pubkey_size);
     if (self->has_public_key && key_diff && self->latest_validation) {
       self->latest_validation->public_key_has_changed = true;
+      // Do not rely on a report for this SEI, since the rest of it may be invalid.
+      self->accumulated_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
     self->has_public_key = true;
-- 
2.43.0


From ee6fe0cde8f88da7391e5fdbf42ac397959cd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:28 +0000
Subject: [PATCH 13/30] fix: do not keep the size of a public key that could
 not be allocated

If the memory of a new public key could not be allocated the old size was kept
with a null pointer, which was then read when the next SEI arrived.
---
 lib/src/legacy/legacy_tlv.c | 1 +
 lib/src/signed_video_tlv.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index edcc4df..23a695c 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -356,6 +356,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index cd9f2c7..8509cc7 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -713,6 +713,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
-- 
2.43.0


From ebbd1bf224b4ea02c36c8ed4bb48c616bae31e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:52 +0000
Subject: [PATCH 14/30] fix: do not read outside the input buffer when moving
 it

---
 lib/plugins/threaded-signing/plugin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 1c76738..09419f5 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -612,7 +612,7 @@ local_worker_thread(void *user_data)
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       hash_data_t tmp = self->in[0];
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
-- 
2.43.0


From 01ec58d710f596712f1309bb56bbf6a43d106df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:52 +0000
Subject: [PATCH 15/30] fix: reject a hash of another size than the memory it
 is signed from

---
 lib/plugins/threaded-signing/plugin.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 09419f5..aa9760c 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -246,6 +246,12 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     self->sign_data->hash_size = hash_size;
   }
 
+  // All hashes are signed from the same memory, also those of different sessions.
+  if (self->sign_data->hash_size != hash_size) {
+    status = SV_NOT_SUPPORTED;
+    goto done;
+  }
+
   if (!self->in[idx].hash) {
     self->in[idx].hash = calloc(1, hash_size);
     if (!self->in[idx].hash) {
-- 
2.43.0


From 43dfcf0e45da42374399d6f36ef6416f9c2da26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 16/30] fix: bound the TLV header and its value by the data

The length of a TLV was trusted, hence a truncated or malformed SEI made the
decoders read past the end of the data. Tags without a decoder were decoded,
and a vendor tag was used as index in the table of the other tags.
---
 lib/src/legacy/legacy_tlv.c | 30 ++++++++++++++++++++--------
 lib/src/signed_video_tlv.c  | 40 +++++++++++++++++++++++++++----------
 2 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 23a695c..3b2286f 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -559,30 +560,40 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   legacy_sv_tlv_tuple_t tlv = legacy_get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
   *tag = tag_from_data;
 
+  // Both the header and the value it announces have to fit in |data|.
+  const size_t header_size = 1 + (size_t)tlv.bytes_for_length;
+  if (data_size < header_size) return SV_INVALID_PARAMETER;
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_16bits = 0;
+    read_16bits(data_ptr, &length_16bits);
+    *length = length_16bits;
   } else {
-    *length = *data_ptr++;
+    *length = *data_ptr;
+  }
+  if (*length > data_size - header_size) {
+    DEBUG_LOG("The length (%zu) exceeds the data", *length);
+    return SV_INVALID_PARAMETER;
   }
 
-  *data_bytes_read = (data_ptr - data);
+  *data_bytes_read = header_size;
 
   return SV_OK;
 }
@@ -599,7 +610,8 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    const size_t remaining_size = data_size - (data_ptr - data);
+    status = legacy_decode_tlv_header(data_ptr, remaining_size, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -633,13 +645,15 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    const size_t remaining_size = tlv_data_size - (tlv_data_ptr - tlv_data);
+    status = legacy_decode_tlv_header(
+        tlv_data_ptr, remaining_size, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 8509cc7..8773bc9 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -178,7 +178,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -1154,28 +1158,41 @@ tlv_list_encode_or_get_size(signed_video_t *self,
 }
 
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   sv_tlv_tuple_t tlv = get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
   *tag = tag_from_data;
 
+  // Both the header and the value it announces have to fit in |data|.
+  const size_t header_size = 1 + (size_t)tlv.bytes_for_length;
+  if (data_size < header_size) return SV_INVALID_PARAMETER;
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_16bits = 0;
+    read_16bits(data_ptr, &length_16bits);
+    *length = length_16bits;
   } else {
-    *length = *data_ptr++;
+    *length = *data_ptr;
+  }
+  if (*length > data_size - header_size) {
+    DEBUG_LOG("The length (%zu) exceeds the data", *length);
+    return SV_INVALID_PARAMETER;
   }
 
-  *data_bytes_read = (data_ptr - data);
+  *data_bytes_read = header_size;
 
   return SV_OK;
 }
@@ -1192,7 +1209,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    const size_t remaining_size = data_size - (data_ptr - data);
+    status = decode_tlv_header(data_ptr, remaining_size, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1260,13 +1278,15 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    const size_t remaining_size = tlv_data_size - (tlv_data_ptr - tlv_data);
+    status =
+        decode_tlv_header(tlv_data_ptr, remaining_size, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From f88a899ab8282ef042cb3ccdc92d4db5dab95db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 17/30] fix: validate the sizes of decoded tags

The decoders read a fixed number of bytes, or as many as the data itself
states, without comparing against the size of the tag.
---
 lib/src/legacy/legacy_tlv.c | 53 ++++++++++++++++-------------
 lib/src/signed_video_tlv.c  | 68 ++++++++++++++++++++++++-------------
 lib/src/signed_video_tlv.h  | 22 ++++++++++++
 3 files changed, 97 insertions(+), 46 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 3b2286f..db587e8 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -174,7 +174,7 @@ legacy_get_tlv_tuple(sv_tlv_tag_t tag)
 static svrc_t
 legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
-  if (!self || !data) return SV_INVALID_PARAMETER;
+  if (!self || !data || data_size == 0) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
@@ -185,6 +185,9 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 2, SV_INCOMPATIBLE_VERSION);
+    // The tag version, the GOP counter (4 bytes), the number of NAL Units (2 bytes) and the version.
+    size_t required_size = 1 + 4 + 2 + SV_VERSION_BYTES;
+    SV_THROW_IF(data_size < required_size, SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -202,9 +205,13 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      required_size += sizeof(flags);
+      SV_THROW_IF(data_size < required_size, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        required_size += sizeof(gop_info->timestamp);
+        SV_THROW_IF(data_size < required_size, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -242,37 +249,23 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 static svrc_t
 legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info || data_size == 0) return SV_INVALID_PARAMETER;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->hardware_id));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->firmware_version));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->serial_number));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->manufacturer));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     SV_THROW(transfer_product_info(&self->authenticity->product_info, product_info));
@@ -299,6 +292,8 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 static svrc_t
 legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -338,6 +333,9 @@ legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data
 static svrc_t
 legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // There has to be a version and at least one more byte.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -410,6 +408,8 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 static svrc_t
 legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -446,6 +446,9 @@ legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version, the encoding status, the hash type and the true size of the signature (2 bytes).
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -503,9 +506,13 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version and the size of the OID.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (hash_algo_encoded_oid_size > data_size - 2) return SV_AUTHENTICATION_ERROR;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 8773bc9..41f4e31 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -310,7 +310,7 @@ encode_general(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
-  if (!self || !data) return SV_INVALID_PARAMETER;
+  if (!self || !data || data_size == 0) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
@@ -322,6 +322,9 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 3, SV_INCOMPATIBLE_VERSION);
+    // The tag version, the GOP counter (4 bytes), the number of NAL Units (2 bytes) and the version.
+    size_t required_size = 1 + 4 + 2 + SV_VERSION_BYTES;
+    SV_THROW_IF(data_size < required_size, SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -339,9 +342,13 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      required_size += sizeof(flags);
+      SV_THROW_IF(data_size < required_size, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        required_size += sizeof(gop_info->timestamp);
+        SV_THROW_IF(data_size < required_size, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -353,6 +360,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     }
     if (version >= 3) {
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
@@ -515,43 +523,43 @@ encode_product_info(signed_video_t *self, uint8_t *data)
   return (data_ptr - data);
 }
 
+svrc_t
+tlv_decode_string(const uint8_t **data_ptr, const uint8_t *data_end, char **str)
+{
+  const uint8_t *ptr = *data_ptr;
+  if (ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+
+  const size_t str_size = *ptr++;
+  if (str_size == 0 || str_size > (size_t)(data_end - ptr)) return SV_AUTHENTICATION_ERROR;
+  if (ptr[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+
+  *data_ptr = ptr + str_size;
+  return allocate_memory_and_copy_string(str, (const char *)ptr);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
 static svrc_t
 decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info || data_size == 0) return SV_INVALID_PARAMETER;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->hardware_id));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->firmware_version));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->serial_number));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->manufacturer));
+    SV_THROW(tlv_decode_string(&data_ptr, data_end, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     if (self->authenticity) {
@@ -611,6 +619,8 @@ encode_arbitrary_data(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_arbitrary_data(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -698,6 +708,9 @@ encode_public_key(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // There has to be a version and at least one more byte.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -811,6 +824,8 @@ encode_hash_list(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_hash_list(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -903,6 +918,9 @@ encode_signature(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version, the encoding status, the hash type and the true size of the signature (2 bytes).
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -1004,9 +1022,13 @@ encode_crypto_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version and the size of the OID.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (hash_algo_encoded_oid_size > data_size - 2) return SV_AUTHENTICATION_ERROR;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
diff --git a/lib/src/signed_video_tlv.h b/lib/src/signed_video_tlv.h
index e59d4ba..3e9c555 100644
--- a/lib/src/signed_video_tlv.h
+++ b/lib/src/signed_video_tlv.h
@@ -129,6 +129,28 @@ write_byte(uint16_t *last_two_bytes, uint8_t **payload, uint8_t byte, bool do_em
 uint8_t
 read_byte(uint16_t *last_two_bytes, const uint8_t **payload, bool do_emulation_prevention);
 
+/**
+ * @brief Reads a byte from payload w/wo emulation prevention, without reading at, or past, an end
+ *
+ * @returns False if there is no byte to read before |payload_end|, otherwise true.
+ */
+bool
+read_byte_until(uint16_t *last_two_bytes,
+    const uint8_t **payload,
+    const uint8_t *payload_end,
+    bool do_emulation_prevention,
+    uint8_t *byte);
+
+/**
+ * @brief Decodes a string, stored as its size (1 byte) followed by the null-terminated string itself
+ *
+ * Moves |data_ptr| past the string, which has to end before |data_end|.
+ *
+ * @returns SV_OK if a copy of the string could be stored in |str|, otherwise an error code.
+ */
+svrc_t
+tlv_decode_string(const uint8_t **data_ptr, const uint8_t *data_end, char **str);
+
 /**
  * @brief Scans the TLV part of a SEI payload and decodes all recurrent tags
  *
-- 
2.43.0


From b9e16d60c3dbc2e2ffe619b50cb8edf6d9a26e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 18/30] fix: stop at the end of the data when searching for a
 tag

---
 lib/src/signed_video_tlv.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 41f4e31..45c6ee3 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1259,25 +1259,30 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
 
   if (!tlv_data || tlv_data_size == 0) return 0;
 
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
   while (tlv_data_ptr < tlv_data + tlv_data_size) {
     latest_tag_location = tlv_data_ptr;
     // Read the tag
-    sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    uint8_t byte = 0;
+    if (!read_byte_until(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+    sv_tlv_tag_t this_tag = byte;
     if (this_tag == tag) {
       return latest_tag_location;
     }
 
     // Read the length
-    uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    if (!read_byte_until(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+    uint16_t length = byte;
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
     if (tlv.bytes_for_length == 2) {
+      if (!read_byte_until(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
       length <<= 8;
-      length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      length |= byte;
     }
     // Scan past the data
     for (int i = 0; i < length; i++) {
-      read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      if (!read_byte_until(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
     }
   }
   DEBUG_LOG("Never found the tag %d", tag);
@@ -1412,6 +1417,23 @@ read_byte(uint16_t *last_two_bytes, const uint8_t **data, bool do_emulation_prev
   return curr_byte;
 }
 
+bool
+read_byte_until(uint16_t *last_two_bytes,
+    const uint8_t **data,
+    const uint8_t *data_end,
+    bool do_emulation_prevention,
+    uint8_t *byte)
+{
+  if (*data >= data_end) return false;
+  // An emulation prevention byte has to be followed by the byte to read.
+  if (do_emulation_prevention && **data == 0x03 && *last_two_bytes == 0 && *data + 1 >= data_end) {
+    return false;
+  }
+
+  *byte = read_byte(last_two_bytes, data, do_emulation_prevention);
+  return true;
+}
+
 void
 write_byte(uint16_t *last_two_bytes,
     uint8_t **data,
-- 
2.43.0


From d0617c5f98e6d1a4a49ed7c216e6a391d3317691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 19/30] fix: do not read outside a NAL Unit when parsing it

NAL Units without a complete start code, header or SEI payload were read past
their end.
---
 lib/src/legacy/legacy_h26x_common.c | 60 ++++++++++++++++++++--------
 lib/src/signed_video_h26x_common.c  | 62 ++++++++++++++++++++---------
 lib/src/signed_video_h26x_sign.c    |  2 +-
 3 files changed, 88 insertions(+), 36 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..4818b5b 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,14 +171,15 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -204,7 +205,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -275,7 +277,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -384,7 +387,11 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   // The UUID (16 bytes) has by definition no emulation prevention bytes. Hence, read the
   // |reserved_byte| and point to the start of the TLV part.
   nalu->tlv_start_in_nalu_data = nalu->payload + UUID_LEN;
-  nalu->tlv_size = nalu->payload_size - UUID_LEN;
+  // The payload may be incomplete, hence only include what is present.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t available_size = hashable_data_end - nalu->payload;
+  nalu->tlv_size =
+      (nalu->payload_size < available_size ? nalu->payload_size : available_size) - UUID_LEN;
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
@@ -410,7 +417,15 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
     for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+      if (!read_byte_until(&last_two_bytes, &hashable_data_ptr, hashable_data_end, true,
+              &nalu->nalu_data_wo_epb[i])) {
+        // There is less data than stated, hence not a Signed Video generated SEI.
+        DEBUG_LOG("The SEI is malformed");
+        nalu->uuid_type = UUID_TYPE_UNDEFINED;
+        nalu->is_gop_sei = false;
+        nalu->is_hashable = false;
+        return;
+      }
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
     nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
@@ -460,7 +475,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
+  if (nalu_data_size >= sizeof(start_code)) read_bytes = read_32bits(nalu_data, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -474,14 +490,21 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
+  // If there is no complete NALU header, mark as invalid.
+  nalu_header_len =
+      (codec == SV_CODEC_H264) ? LEGACY_H264_NALU_HEADER_LEN : LEGACY_H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    nalu.is_valid = 0;
+    return nalu;
+  }
+
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = legacy_parse_h264_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = legacy_parse_h265_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -495,7 +518,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && nalu_data_size > read_bytes &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -505,13 +529,13 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *hashable_data_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
-    payload++;
-    if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
+    if (payload < hashable_data_end && *payload == LEGACY_USER_DATA_UNREGISTERED) {
+      payload++;
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
+      size_t read_bytes = legacy_get_payload_size(payload, hashable_data_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -527,8 +551,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      // Decode UUID type, if there is a UUID followed by, at least, the |reserved_byte|.
+      if (payload_size > UUID_LEN && (size_t)(hashable_data_end - payload) > UUID_LEN) {
+        nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 80ee4a7..6bbfda6 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,14 +317,15 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -350,7 +351,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -421,7 +423,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -530,7 +533,11 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   // The UUID (16 bytes) has by definition no emulation prevention bytes. Hence, read the
   // |reserved_byte| and point to the start of the TLV part.
   nalu->tlv_start_in_nalu_data = nalu->payload + UUID_LEN;
-  nalu->tlv_size = nalu->payload_size - UUID_LEN;
+  // The payload may be incomplete, hence only include what is present.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t available_size = hashable_data_end - nalu->payload;
+  nalu->tlv_size =
+      (nalu->payload_size < available_size ? nalu->payload_size : available_size) - UUID_LEN;
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
@@ -556,7 +563,15 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
     for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+      if (!read_byte_until(&last_two_bytes, &hashable_data_ptr, hashable_data_end, true,
+              &nalu->nalu_data_wo_epb[i])) {
+        // There is less data than stated, hence not a Signed Video generated SEI.
+        DEBUG_LOG("The SEI is malformed");
+        nalu->uuid_type = UUID_TYPE_UNDEFINED;
+        nalu->is_gop_sei = false;
+        nalu->is_hashable = false;
+        return;
+      }
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
     nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
@@ -606,7 +621,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
+  if (nalu_data_size >= sizeof(start_code)) read_bytes = read_32bits(nalu_data, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -620,14 +636,21 @@ parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
+  // If there is no complete NALU header, mark as invalid.
+  nalu_header_len =
+      (codec == SV_CODEC_H264) ? H264_NALU_HEADER_LEN : H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    nalu.is_valid = 0;
+    return nalu;
+  }
+
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = parse_h264_nalu_header(&nalu);
-    nalu_header_len = H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = parse_h265_nalu_header(&nalu);
-    nalu_header_len = H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -641,7 +664,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && nalu_data_size > read_bytes &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -651,13 +675,13 @@ parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *hashable_data_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
-    payload++;
-    if (user_data_unregistered == USER_DATA_UNREGISTERED) {
+    if (payload < hashable_data_end && *payload == USER_DATA_UNREGISTERED) {
+      payload++;
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
+      size_t read_bytes = h264_get_payload_size(payload, hashable_data_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -673,8 +697,10 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      // Decode UUID type, if there is a UUID followed by, at least, the |reserved_byte|.
+      if (payload_size > UUID_LEN && (size_t)(hashable_data_end - payload) > UUID_LEN) {
+        nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index d75e269..202b534 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -498,7 +498,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
+    while (is_last_part && nalu_data_size > 0 && (nalu_data[nalu_data_size - 1] == 0x00)) {
       nalu_data_size--;
     }
     nalu.hashable_data_size = nalu_data_size;
-- 
2.43.0


From b977043bf812725141587529f7c3bb04b3e05f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 20/30] fix: do not read or write outside the vendor specific
 data

The sizes of the attestation, the certificate chain and the serial number were
not validated against the data and the memory they are copied to.
---
 .../sv_vendor_axis_communications.c                    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 40eafc3..4837890 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -258,6 +258,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     // Found serial number in certificate. Read that entry and convert to UTF8.
     entry_data = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(subject, ser_no_index));
     SV_THROW_IF(ASN1_STRING_to_UTF8(&serial_number_str, entry_data) <= 0, SV_EXTERNAL_ERROR);
+    SV_THROW_IF(
+        strlen((char *)serial_number_str) >= SV_VENDOR_AXIS_SER_NO_MAX_LENGTH, SV_VENDOR_ERROR);
     // Copy only if necessary.
     if (strcmp(self->supplemental_authenticity.serial_number, (char *)serial_number_str)) {
       memset(self->supplemental_authenticity.serial_number, 0, SV_VENDOR_AXIS_SER_NO_MAX_LENGTH);
@@ -605,6 +607,8 @@ svrc_t
 decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data_size)
 {
   if (!handle) return SV_INVALID_PARAMETER;
+  // The version and the size of the attestation.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
   const uint8_t *data_ptr = data;
@@ -618,6 +622,8 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     // Read |attestation_size|.
     attestation_size = *data_ptr++;
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
+    // There has to be an |attestation| followed by a |certificate_chain|.
+    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
@@ -637,7 +643,6 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     //  - 1 byte for version
     //  - 1 bytes for |attestation_size|
     //  - |attestation_size| bytes for |attestation|
-    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     cert_size = data_size - attestation_size - 2;
 
     // Allocate memory for |certificate_chain| including null-terminated character.
@@ -647,7 +652,8 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
-    SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
+    SV_THROW_IF(
+        strncmp((const char *)data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
 
-- 
2.43.0


From 39046a060abe9e1f50336ed7b233a7e60e9a5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 21/30] fix: reject an OID which is not a hash algorithm

The size of such hashes became negative.
---
 lib/src/signed_video_openssl.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index cda0ee3..3176a9e 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -401,8 +401,12 @@ oid_to_type(message_digest_t *self)
     encoded_oid_ptr = self->encoded_oid;
     SV_THROW_IF(
         !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
-    self->type = EVP_get_digestbyobj(obj);
-    self->size = EVP_MD_size(self->type);
+    const EVP_MD *type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!type, SV_EXTERNAL_ERROR);
+    const int size = EVP_MD_size(type);
+    SV_THROW_IF(size <= 0 || size > MAX_HASH_SIZE, SV_EXTERNAL_ERROR);
+    self->type = type;
+    self->size = (size_t)size;
   SV_CATCH()
   SV_DONE(status)
 
@@ -499,6 +503,12 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
 
     SV_THROW(oid_to_type(&self->hash_algo));
   SV_CATCH()
+  {
+    // The |hash_algo| is unchanged. Make sure the |encoded_oid| is not taken for the present one.
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo.encoded_oid = NULL;
+    self->hash_algo.encoded_oid_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From d5d769b09c8eaddc5039c2cd252fa183001f0096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:44 +0000
Subject: [PATCH 22/30] fix: release the arbitrary data together with the
 session

---
 lib/src/legacy/legacy_h26x_common.c | 1 +
 lib/src/signed_video_h26x_common.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 4818b5b..a653b12 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -970,6 +970,7 @@ legacy_sv_free(legacy_sv_t *self)
 
   free(self->gop_info);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 6bbfda6..2ca1359 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1284,6 +1284,7 @@ signed_video_free(signed_video_t *self)
   sign_or_verify_data_free(self->sign_data);
   sign_or_verify_data_free(self->verify_data);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From 41560fd7044a6a31af8d3969511336847a94f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:44 +0000
Subject: [PATCH 23/30] fix: release the message digest context at vendor
 teardown

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 4837890..fabad6c 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -516,6 +516,7 @@ sv_vendor_axis_communications_teardown(void *handle)
   free(self->attestation);
   free(self->certificate_chain);
   X509_free(self->trusted_ca);
+  EVP_MD_CTX_free(self->md_ctx);
   free(self);
 }
 
-- 
2.43.0


From f67ee7151c6c82f7c70698579e35d893f9b33468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:44 +0000
Subject: [PATCH 24/30] fix: release a certificate that is not put in the chain

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index fabad6c..52807d3 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -227,6 +227,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
+    // If there are too many certificates, the last one read has not been pushed.
+    X509_free(certificate);
     SV_THROW_IF(num_certificates > NUM_UNTRUSTED_CERTIFICATES, SV_VENDOR_ERROR);
 
     SV_THROW(verify_certificate_chain(self->trusted_ca, untrusted_certificates));
-- 
2.43.0


From 69c3129aa1687a6b1c32c4c74b393f648237e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:45 +0000
Subject: [PATCH 25/30] fix: release the object of a hash algorithm

---
 lib/src/signed_video_openssl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 3176a9e..0afff07 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -454,9 +454,11 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
     name_or_oid = DEFAULT_HASH_ALGO;
   }
 
+  ASN1_OBJECT *hash_algo_obj = NULL;
+
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    ASN1_OBJECT *hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
+    hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
     SV_THROW_IF_WITH_MSG(!hash_algo_obj, SV_INVALID_PARAMETER,
         "Could not identify hashing algorithm: %s", name_or_oid);
     SV_THROW(obj_to_oid_and_type(&self->hash_algo, hash_algo_obj));
@@ -472,6 +474,8 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
   SV_CATCH()
   SV_DONE(status)
 
+  ASN1_OBJECT_free(hash_algo_obj);
+
   return status;
 }
 
-- 
2.43.0


From 97af15549801e6f96a839e1e9724feede72608e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:45 +0000
Subject: [PATCH 26/30] fix: release previous key and signature when a new
 private key is set

---
 lib/src/signed_video_openssl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 0afff07..e542b40 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -114,6 +114,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     // Read the maximum size of the signature that the |private_key| can generate
     size_t max_signature_size = EVP_PKEY_size(signing_key);
     SV_THROW_IF(max_signature_size == 0, SV_EXTERNAL_ERROR);
+    // Free any existing memory for the signature
+    free(sign_data->signature);
     sign_data->signature = malloc(max_signature_size);
     SV_THROW_IF(!sign_data->signature, SV_MEMORY);
     // Create a context from the |signing_key|
@@ -130,6 +132,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
 
     // Set the content in |sign_data|
     sign_data->max_signature_size = max_signature_size;
+    // Free any existing key
+    EVP_PKEY_CTX_free(sign_data->key);
     sign_data->key = ctx;
   SV_CATCH()
   {
-- 
2.43.0


From e5ab1fbb08923de3a207499fb238ba2b2cc2bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:45 +0000
Subject: [PATCH 27/30] fix: tear down the previous signing session when a new
 private key is set

---
 lib/src/signed_video_h26x_sign.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 202b534..3b2e2ae 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -822,6 +822,8 @@ signed_video_set_private_key_new(signed_video_t *self,
     SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
     SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
 
+    // Teardown any existing plugin session before setting up a new one.
+    sv_signing_plugin_session_teardown(self->plugin_handle);
     self->plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
     SV_THROW_IF(!self->plugin_handle, SV_EXTERNAL_ERROR);
   SV_CATCH()
-- 
2.43.0


From 51711387df9dc4ab4d9cc33db872a8295aa1ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:45 +0000
Subject: [PATCH 28/30] fix: release the data without emulation prevention if
 hashing the SEI fails

---
 lib/src/signed_video_h26x_sign.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 3b2e2ae..c1a8ee3 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -333,7 +333,10 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
           parse_nalu_info(*payload, fake_payload_size, self->codec, false, true);
       SV_THROW_IF(nalu_without_signature_data.is_valid < 0, SV_MEMORY);
       // Create a document hash.
-      SV_THROW(hash_and_add(self, &nalu_without_signature_data));
+      status = hash_and_add(self, &nalu_without_signature_data);
+      // Free the memory allocated when parsing the NALU.
+      free(nalu_without_signature_data.nalu_data_wo_epb);
+      SV_THROW(status);
       // Note that the "add" part of the hash_and_add() operation above is actually only necessary
       // for SV_AUTHENTICITY_LEVEL_GOP where we need to update the |gop_hash|. For
       // SV_AUTHENTICITY_LEVEL_FRAME adding this hash to the |hash_list| is pointless, since we have
@@ -344,8 +347,6 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
       // The current |nalu_hash| is the document hash. Copy to |document_hash|. In principle we only
       // need to do this for SV_AUTHENTICITY_LEVEL_FRAME, but for simplicity we always copy it.
       memcpy(self->gop_info->document_hash, self->gop_info->nalu_hash, hash_size);
-      // Free the memory allocated when parsing the NALU.
-      free(nalu_without_signature_data.nalu_data_wo_epb);
     }
 
     gop_info_t *gop_info = self->gop_info;
-- 
2.43.0


From 8d99d2094cd69f8f11f327b16351c42cfd06aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:45 +0000
Subject: [PATCH 29/30] fix: forget a SEI that is released because it got no
 signature

---
 lib/src/signed_video_h26x_sign.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index c1a8ee3..6bf4ad8 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -125,6 +125,7 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   // GOP.
   if (self->sign_data->signature_size == 0) {
     signed_video_nalu_data_free(payload);
+    if (payload) shift_sei_buffer_at_index(self, self->num_of_completed_seis);
     status = SV_OK;
     goto done;
   } else if (!payload) {
-- 
2.43.0


From 08ca6e593f7ce268ab09042a0b388d7931bb5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:56 +0000
Subject: [PATCH 30/30] fix: fill in this version in the report a session keeps

The version was only written to the copy handed out to the user. The version compared with the one on
the signing side was therefore always an empty string and a version mismatch was never reported.
---
 lib/src/signed_video_authenticity.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index ca074f6..a23517c 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -358,6 +358,8 @@ create_local_authenticity_report_if_needed(signed_video_t *self)
     // Create a new one.
     signed_video_authenticity_t *auth_report = signed_video_authenticity_report_create();
     SV_THROW_IF(auth_report == NULL, SV_MEMORY);
+    // The version is compared with the one on the signing side when validating.
+    strcpy(auth_report->this_version, SIGNED_VIDEO_VERSION);
     // Transfer |product_info| from |self|.
     SV_THROW(transfer_product_info(&auth_report->product_info, self->product_info));
 
-- 
2.43.0

