From 649932091221b37ae6f684c21883f28e97751bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:06 +0000
Subject: [PATCH 01/14] fix: treat a handshake message without data as complete

A handshake message whose header announces zero bytes of data was never
completed: its header stayed in the fragment buffer, so the next message's
header was appended to it, its length was computed from a negative shift
(undefined behaviour) and both messages were lost.
---
 src/record_protocol/handshake_message_handler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index f128d56..4b5b84b 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -81,6 +81,9 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
           if (num_data_bytes_expecting_to_read_ > 0) {
             state_ = State::READ_DATA;
+          } else {
+            /* The message has no data, so it ends with its header. */
+            full_hs_message_read = true;
           }
         } else {
           /* Read incomplete message header. Read all remaining bytes. */
@@ -225,7 +228,7 @@ uint32_t HandshakeMessageHandler::GetMessageDataSizeFromHeader() {
       at_byte++;
       shift_by -= 8;
       if (at_byte > kTlsHandshakeHeaderLength) {
-        break;
+        return message_data_size;
       }
     }
   }
-- 
2.43.0


From c5c6519e74d058133729da5bb9861ae66a2b152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:35 +0000
Subject: [PATCH 02/14] fix: zero the plaintext buffer when it is too small for
 the decrypted ciphertext

---
 src/crypto/aes_gcm_crypter.cc             | 1 +
 src/crypto/chacha_poly_crypter_openssl.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 367df50..98bc239 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -335,6 +335,7 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             Status(
                 StatusCode::kInvalidArgument,
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5d06c20..7be0eba 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -342,6 +342,7 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             absl::InvalidArgumentError(
                 "|plaintext| is too small to hold the decrypted ciphertext."),
-- 
2.43.0


From 13e0bd3feb8bb31bccebe425ab90d41f3a2f87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:35 +0000
Subject: [PATCH 03/14] fix: reject a null component in the tag part of
 |ciphertext_and_tag|

---
 src/crypto/aes_gcm_crypter.cc             | 10 ++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 98bc239..1cca7f8 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -385,6 +385,16 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 7be0eba..aef5eef 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -391,6 +391,16 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
-- 
2.43.0


From 6c6b68c3359bc00a2be8b2af52eaa3105230f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:02 +0000
Subject: [PATCH 04/14] fix: serialize the whole application protocol and
 certificate fingerprints of a context

---
 src/handshaker/s2a_context.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 2ba1532..6038028 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -75,7 +75,8 @@ S2AContext::GetSerializedContext() const {
   upb::Arena arena;
   s2a_proto_S2AContext* context = s2a_proto_S2AContext_new(arena.ptr());
   s2a_proto_S2AContext_set_application_protocol(
-      context, upb_strview_makez(application_protocol_.c_str()));
+      context, upb_strview_make(application_protocol_.data(),
+                                application_protocol_.size()));
 
   // Set the TLS version.
   absl::variant<Status, s2a_proto_TLSVersion> tls_version_status =
@@ -135,9 +136,11 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context, upb_strview_makez(peer_cert_fingerprint_.c_str()));
+      context, upb_strview_make(peer_cert_fingerprint_.data(),
+                                peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context, upb_strview_makez(local_cert_fingerprint_.c_str()));
+      context, upb_strview_make(local_cert_fingerprint_.data(),
+                                local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
-- 
2.43.0


From 1885efd3c5663ca57ae93acebc6af54ec804d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:02 +0000
Subject: [PATCH 05/14] fix: send identities, tokens, protocols and hostnames
 to the S2A in full length

---
 src/handshaker/s2a_proxy.cc                  | 81 ++++++++++++++------
 src/handshaker/s2a_util.cc                   | 12 ++-
 src/record_protocol/s2a_upb_ticket_sender.cc | 12 ++-
 3 files changed, 75 insertions(+), 30 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 7418acc..5b966ca 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -370,7 +370,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the application protocol.
   s2a_proto_ClientSessionStartReq_add_application_protocols(
-      client_start, upb_strview_makez(application_protocol_.c_str()),
+      client_start, upb_strview_make(application_protocol_.data(),
+                                     application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -434,15 +435,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (target_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -469,15 +476,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -489,7 +502,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the target name to the hostname of the server.
   s2a_proto_ClientSessionStartReq_set_target_name(
-      client_start, upb_strview_makez(target_hostname_.c_str()));
+      client_start, upb_strview_make(target_hostname_.data(),
+                                     target_hostname_.size()));
 
   // Attach tokens per local identity, if a token manager exists.
   PopulateTokenCache();
@@ -497,26 +511,30 @@ ProxyStatus S2AProxy::GetClientStart() {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism, upb_strview_make(pair.second.data(),
+                                         pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -552,7 +570,8 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
 
   // Set the application protocol.
   s2a_proto_ServerSessionStartReq_add_application_protocols(
-      server_start, upb_strview_makez(application_protocol_.c_str()),
+      server_start, upb_strview_make(application_protocol_.data(),
+                                     application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -617,15 +636,21 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -648,26 +673,30 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism, upb_strview_make(pair.second.data(),
+                                         pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -717,26 +746,30 @@ ProxyStatus S2AProxy::GetNext(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism, upb_strview_make(pair.second.data(),
+                                         pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
diff --git a/src/handshaker/s2a_util.cc b/src/handshaker/s2a_util.cc
index d1daa84..955c08a 100644
--- a/src/handshaker/s2a_util.cc
+++ b/src/handshaker/s2a_util.cc
@@ -66,17 +66,23 @@ absl::variant<Status, s2a_proto_Identity*> ConvertIdentityToProto(
     case IdentityType::SPIFFE_ID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_spiffe_id(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::HOSTNAME:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_hostname(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::UID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_uid(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     default:
       return nullptr;
diff --git a/src/record_protocol/s2a_upb_ticket_sender.cc b/src/record_protocol/s2a_upb_ticket_sender.cc
index c7c5ee7..9b40e2f 100644
--- a/src/record_protocol/s2a_upb_ticket_sender.cc
+++ b/src/record_protocol/s2a_upb_ticket_sender.cc
@@ -56,15 +56,21 @@ bool PrepareResumptionTicketReq(
   switch (local_identity.GetIdentityType()) {
     case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
       s2a_proto_Identity_set_spiffe_id(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::HOSTNAME:
       s2a_proto_Identity_set_hostname(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::UID:
       s2a_proto_Identity_set_uid(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     default:
       return false;
-- 
2.43.0


From 442648d185144a134daaa8cbd575d25feb324517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:52 +0000
Subject: [PATCH 06/14] fix: update the inbound key only once a key update
 message is complete

---
 src/record_protocol/s2a_crypter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index bd35e14..b694f82 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -496,8 +496,8 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           result.expecting_to_read_more_bytes;
 
       // Update the inbound key if handshake message contained a key update
-      // message.
-      if (result.contains_key_update) {
+      // message, once the key update message has been read completely.
+      if (result.contains_key_update && !result.expecting_to_read_more_bytes) {
         // TODO(matthewstevenson88): If |result.key_update_type == 0x01|, then
         // the peer is expecting a key update to be sent from us. See
         // https://tools.ietf.org/html/rfc8446#section-4.6.3.
-- 
2.43.0


From 1fd503ca8f11e2b98b3212c730a4276320682efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 07/14] fix: keep session tickets when the fifth is followed by
 a partial message

---
 src/record_protocol/s2a_crypter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index b694f82..0b33448 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -517,11 +517,11 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           ABSL_FALLTHROUGH_INTENDED;
         case TicketHandlingPhase::RECEIVING:
           // If the limit of number of tickets to process is reached, send all
-          // stored tickets to the S2A.
-          if (result.contains_ticket &&
-              result.num_full_tickets_stored >= kMaxNumTicketsToProcess) {
+          // stored tickets to the S2A. The stored tickets cannot be retrieved
+          // while a further message is only partially read.
+          if (result.num_full_tickets_stored >= kMaxNumTicketsToProcess &&
+              !result.expecting_to_read_more_bytes) {
             RetrieveStoredTicketsAndSendToS2A();
-            hs_message_handling_state_->expecting_to_read_more_bytes = false;
             hs_message_handling_state_->phase = TicketHandlingPhase::DONE;
             return absl::Status();
           }
-- 
2.43.0


From ea05c61c2621a0b950c88d23e59b5171c5150977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:33 +0000
Subject: [PATCH 08/14] fix: do not destroy the caller's buffer when protecting
 fails

---
 src/frame_protector/s2a_frame_protector.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d231dce..9373c1c 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -286,8 +286,8 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
 
     // Protect the bytes in |bytes_to_protect| and write them to
     // |protected_bytes|. If a failure occurs or an unexpected number of bytes
-    // are written, then free the |protected_bytes| buffer and return an error
-    // status.
+    // are written, then return an error status. The |protected_bytes| buffer is
+    // owned by the caller.
     S2ACrypterStatus status =
         crypter_->Protect(RecordType::APPLICATION_DATA, bytes_to_protect,
                           {static_cast<uint8_t*>(protected_bytes.iov_base) +
@@ -297,7 +297,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
       std::string error =
           absl::StrCat("Failed to protect: ", status.GetErrorMessage());
       logger_(error);
-      destroy_(protected_bytes);
       return Status(ConvertStatusCode(status.GetCode()),
                     status.GetErrorMessage());
     }
@@ -305,7 +304,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
         number_bytes_to_protect + crypter_->RecordOverhead()) {
       std::string error = "Protected an unexpected number of bytes.";
       logger_(error);
-      destroy_(protected_bytes);
       return Status(StatusCode::kInternal, error);
     }
 
-- 
2.43.0


From 56826fec7b6f8cc7aa97289674781c072c24edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:54 +0000
Subject: [PATCH 09/14] fix: skip empty buffers when splitting TLS records

---
 src/frame_protector/s2a_frame_protector.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 9373c1c..8fda2a9 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -101,6 +101,12 @@ absl::variant<Status, ComputeTlsRecordSizeResult> ComputeTlsRecordSize(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record header.");
     }
+    if (on_iovec_index >= vecs[iovec_index].iov_len) {
+      // Skip empty |Iovec|'s.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t buffer_length = vecs[iovec_index].iov_len;
@@ -166,6 +172,12 @@ absl::variant<Status, IsolateTlsPayloadResult> IsolateTlsPayload(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record.");
     }
+    if (on_iovec_index >= vecs[iovec_index].iov_len) {
+      // Skip empty |Iovec|'s.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t bytes_remaining_on_iovec =
-- 
2.43.0


From 694951f1f44c4d4873a9c8371dc898207651b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:54 +0000
Subject: [PATCH 10/14] fix: destroy earlier plaintexts when a later TLS record
 is malformed

---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 8fda2a9..44ecc2d 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -417,6 +417,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to compute TLS record size: ",
                              absl::get<0>(record_size_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(record_size_status), /*bytes=*/{}};
       case 1:
         break;
@@ -441,6 +444,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to isolate TLS payload: ",
                              absl::get<0>(isolate_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(isolate_status), /*bytes=*/{}};
       case 1:
         break;
-- 
2.43.0


From 03a73365353553ff31fc541c737e64b9bacdda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:54 +0000
Subject: [PATCH 11/14] fix: reject bytes that follow the last complete TLS
 record

---
 src/frame_protector/s2a_frame_protector.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 44ecc2d..ade88b7 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -353,6 +353,12 @@ Status S2AFrameProtector::Unprotect(
   }
   ComputeTlsRecordSizeResult record_size_result =
       absl::get<1>(record_size_status);
+  if (GetTotalIovecLength(protected_bytes) > record_size_result.record_size) {
+    unprotected_bytes.iov_len = 0;
+    std::string error = "|protected_bytes| contains more than one TLS record.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
 
   // Create a vector of Iovec's that consists only of the TLS payload.
   absl::variant<Status, IsolateTlsPayloadResult> isolate_status =
@@ -401,7 +407,7 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
 
   absl::MutexLock lock(&unprotect_mu_);
   std::vector<Iovec> plaintext;
-  while (bytes_remaining >= crypter_->RecordOverhead()) {
+  while (bytes_remaining > 0) {
     // Copy the header of the next TLS record in |protected_bytes| into
     // |header|, and update |current_iovec_index| and |on_iovec_index| so that
     // |protected_bytes[current_iovec_index].iov_base[on_iovec_index]| is the
-- 
2.43.0


From d6d3899cba0a8d85ac14f482ec8349e97bfe6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:24 +0000
Subject: [PATCH 12/14] fix: count the handshake as finished only after a valid
 result

---
 src/handshaker/s2a_proxy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 5b966ca..a9904e6 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -252,7 +252,8 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
   }
 
   if (s2a_proto_SessionResp_has_result(response)) {
-    is_handshake_finished_ = true;
+    // The handshake is finished only once the whole result is found to be valid.
+    is_handshake_finished_ = false;
     const s2a_proto_SessionResult* result =
         s2a_proto_SessionResp_result(response);
     if (result == nullptr || !s2a_proto_SessionResult_has_state(result)) {
@@ -352,6 +353,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
         s2a_util::ParseUpbStrview(
             s2a_proto_SessionResult_local_cert_fingerprint(result)),
         s2a_proto_SessionState_is_handshake_resumed(state));
+    is_handshake_finished_ = true;
   }
 
   // Retrieve the |out_frames| to send to the peer.
-- 
2.43.0


From 085abc107d018fd3013b9b522d3e6d59932d73eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:24 +0000
Subject: [PATCH 13/14] fix: GetS2AContext hands out a context every time it is
 called

---
 src/handshaker/s2a_proxy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index a9904e6..8fc6c64 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -847,7 +847,8 @@ absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
   }
-  return std::move(context_);
+  absl::MutexLock lock(&mu_);
+  return absl::make_unique<S2AContext>(*context_);
 }
 
 }  // namespace s2a_proxy
-- 
2.43.0


From 6356128da7219c0f509c3aa4b61e9bf7760cdf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:05 +0000
Subject: [PATCH 14/14] fix: take the lock when reading the tag length

S2AHalfConnection::TagLength read |aead_crypter_| without |mu_|, so that
protecting raced with a key update in the inbound direction, which replaces
and destroys the AEAD crypter.
---
 src/record_protocol/s2a_half_connection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_half_connection.cc b/src/record_protocol/s2a_half_connection.cc
index 167600e..9845906 100644
--- a/src/record_protocol/s2a_half_connection.cc
+++ b/src/record_protocol/s2a_half_connection.cc
@@ -253,7 +253,10 @@ Status S2AHalfConnection::UpdateKey() {
   return Status();
 }
 
-size_t S2AHalfConnection::TagLength() { return aead_crypter_->TagLength(); }
+size_t S2AHalfConnection::TagLength() {
+  absl::MutexLock lock(&mu_);
+  return aead_crypter_->TagLength();
+}
 
 S2AHalfConnection::S2AHalfConnection(
     Ciphersuite ciphersuite, size_t key_size, uint64_t sequence,
-- 
2.43.0

