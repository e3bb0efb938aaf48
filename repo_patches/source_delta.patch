From d164f34d6648b792319159e9b54f0aaa8c4f9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 01/41] fix: zero-length array when encrypting an empty payload
 with OpenSSL AESGCM

Encrypting an empty plaintext (every handshake message without a payload)
declared a variable length array of size zero, which is undefined.
---
 src/backend/openssl/cipher-aesgcm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index cb11bc1..cf78b6f 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -99,7 +99,7 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    uint8_t out[data_len];
+    uint8_t out[data_len ? data_len : 1];
     if (EVP_EncryptUpdate(st->ctx, out, &len, data, data_len) != 1) {
         ERR_clear_error();
         return NOISE_ERROR_SYSTEM;
-- 
2.43.0


From e81d4ea1bf7a19795f40ea062a9c1951294083b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 02/41] fix: do not release unauthenticated plaintext from
 OpenSSL AESGCM

Decryption happened in place before the MAC was checked, so a forged packet
left its would-be plaintext in the caller's buffer.  Wipe it on MAC failure.
---
 src/backend/openssl/cipher-aesgcm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index cf78b6f..f61916c 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -172,6 +172,7 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (EVP_DecryptFinal_ex(st->ctx, data + len, &len) <= 0) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_MAC_FAILURE;
     }
 
-- 
2.43.0


From 621f8cda185d8447af78df567f53ff4ab5f050d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 03/41] fix: leak of the OpenSSL AESGCM state when its context
 cannot be allocated

---
 src/backend/openssl/cipher-aesgcm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index f61916c..be7498d 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -191,8 +191,10 @@ NoiseCipherState *noise_aesgcm_new_openssl(void)
     NoiseAESGCMState *state = noise_new(NoiseAESGCMState);
     if (!state)
         return 0;
-    if (!(state->ctx = EVP_CIPHER_CTX_new()))
+    if (!(state->ctx = EVP_CIPHER_CTX_new())) {
+        noise_free(state, sizeof(NoiseAESGCMState));
         return 0;
+    }
     state->parent.cipher_id = NOISE_CIPHER_AESGCM;
     state->parent.key_len = 32;
     state->parent.mac_len = 16;
-- 
2.43.0


From 7c159951547fa00b37158d7d038b3ec29b43bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 04/41] fix: do not return a freed HandshakeState when its
 creation fails

---
 src/protocol/handshakestate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 87ce1ea..371bac0 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -223,6 +223,7 @@ static int noise_handshakestate_new
     /* Bail out if we had an error trying to create the DHState objects */
     if (err != NOISE_ERROR_NONE) {
         noise_handshakestate_free(*state);
+        *state = 0;
         return err;
     }
 
-- 
2.43.0


From 11629bfd133495b60404a80dfcabb3a0d68c2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 05/41] fix: XXfallback+hfs must not start without a fallback,
 like XXfallback

---
 src/protocol/handshakestate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 371bac0..e085272 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -805,7 +805,8 @@ int noise_handshakestate_start(NoiseHandshakeState *state)
         return NOISE_ERROR_INVALID_PARAM;
     if (state->action != NOISE_ACTION_NONE)
         return NOISE_ERROR_INVALID_STATE;
-    if (state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK &&
+    if ((state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK ||
+         state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK_HFS) &&
             (state->requirements & NOISE_REQ_FALLBACK_PREMSG) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From 0bfd667c3172fe96ef11bd110b43d13d6df09d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 06/41] fix: forget a rejected null ephemeral so that fallback
 cannot use it

---
 src/protocol/handshakestate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index e085272..52a5d73 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -1468,6 +1468,7 @@ static int noise_handshakestate_read
                    not contributing anything to the security of the session
                    and is in fact downgrading the security to "none at all"
                    in some of the message patterns.  Reject all such keys. */
+                noise_dhstate_clear_key(state->dh_remote_ephemeral);
                 return NOISE_ERROR_INVALID_PUBLIC_KEY;
             }
             msg.data += len;
@@ -1569,6 +1570,7 @@ static int noise_handshakestate_read
                    not contributing anything to the security of the session
                    and is in fact downgrading the security to "none at all"
                    in some of the message patterns.  Reject all such keys. */
+                noise_dhstate_clear_key(state->dh_remote_hybrid);
                 err = NOISE_ERROR_INVALID_PUBLIC_KEY;
                 break;
             }
-- 
2.43.0


From 41315b4ff42f8d7cabebf674c77fd6dfd5aa19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 07/41] fix: limit whole handshake messages to 65535 bytes

---
 src/protocol/handshakestate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 52a5d73..bbf60d1 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -1324,6 +1324,8 @@ static int noise_handshakestate_write
     if (payload) {
         if ((message->max_size - message->size - mac_len) < payload->size)
             return NOISE_ERROR_INVALID_LENGTH;
+        if ((message->size + mac_len + payload->size) > NOISE_MAX_PAYLOAD_LEN)
+            return NOISE_ERROR_INVALID_LENGTH;
         rest.data = message->data + message->size;
         rest.size = payload->size;
         rest.max_size = message->max_size - message->size;
@@ -1428,6 +1430,10 @@ static int noise_handshakestate_read
     uint8_t token;
     int err;
 
+    /* Noise messages are limited to 65535 bytes in length */
+    if (message->size > NOISE_MAX_PAYLOAD_LEN)
+        return NOISE_ERROR_INVALID_LENGTH;
+
     /* Make a copy of the message buffer.  As we process tokens, the copy
        will become shorter and shorter until only the payload is left. */
     msg = *message;
-- 
2.43.0


From 23b78bb8074f9549d92083db697524285d847dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 08/41] fix: no fallback from the one-way pattern Xnoidh

---
 src/protocol/handshakestate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index bbf60d1..574cd40 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -988,6 +988,7 @@ int noise_handshakestate_fallback_to(NoiseHandshakeState *state, int pattern_id)
 
     /* The original pattern must end in "K" for fallback to be possible */
     if (state->symmetric->id.pattern_id < NOISE_PATTERN_NN ||
+            state->symmetric->id.pattern_id == NOISE_PATTERN_X_NOIDH ||
             (state->requirements & NOISE_REQ_FALLBACK_POSSIBLE) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From 01f38e66791fb42fab55046b0cee202e9b1503df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 09/41] fix: reject Ed25519 signatures whose S is not canonical

---
 src/crypto/ed25519/ed25519.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crypto/ed25519/ed25519.c b/src/crypto/ed25519/ed25519.c
index 58a755b..ddfa184 100644
--- a/src/crypto/ed25519/ed25519.c
+++ b/src/crypto/ed25519/ed25519.c
@@ -104,8 +104,11 @@ ED25519_FN(ed25519_sign_open) (const unsigned char *m, size_t mlen, const ed2551
 	ed25519_hram(hash, RS, pk, m, mlen);
 	expand256_modm(hram, hash, 64);
 
-	/* S */
+	/* S, which must be in canonical form, less than the group order */
 	expand256_modm(S, RS + 32, 32);
+	contract256_modm(checkR, S);
+	if (!ed25519_verify(RS + 32, checkR, 32))
+		return -1;
 
 	/* SB - H(R,A,m)A */
 	ge25519_double_scalarmult_vartime(&R, &A, hram, S);
-- 
2.43.0


From f44c452ac18e60c69faa3472f6ef8afe72f356a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 10/41] fix: peeking at multi-byte protobuf tags and sizes read
 the first byte twice

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index a3826d6..c6ae1e4 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1061,7 +1061,7 @@ static int noise_protobuf_peek_varint
     posn = pbuf->posn + *length;
     if (posn >= pbuf->size)
         return NOISE_ERROR_INVALID_FORMAT;
-    ch = pbuf->data[posn];
+    ch = pbuf->data[posn++];
     ++(*length);
     if ((ch & 0x80) == 0) {
         *value = ch;
-- 
2.43.0


From eaf77dd705a4316defa4578a75d340fa6802d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 11/41] fix: valid three- and four-byte UTF-8 sequences were
 rejected in protobuf strings

---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index c6ae1e4..ae9ecc6 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -874,6 +874,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 2;
             size -= 2;
             if (code >= 0xD800 && code <= 0xDFFF) {
                 /* Surrogate pairs are not allowed */
@@ -899,6 +900,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 3;
             size -= 3;
             if (code > 0x10FFFFUL) {
                 /* Unicode code points stop at U+10FFFF */
-- 
2.43.0


From 61688eee01b509afe2940f6d302d77fb9621ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 12/41] fix: reading a protobuf field with a negative tag
 succeeded

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index ae9ecc6..463d30f 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1218,7 +1218,7 @@ static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
         err = pbuf->error;
     } else {
         /* The caller-supplied tag is negative, which is always an error */
-        if (pbuf->error != NOISE_ERROR_NONE)
+        if (pbuf->error == NOISE_ERROR_NONE)
             pbuf->error = NOISE_ERROR_INVALID_FORMAT;
         err = pbuf->error;
     }
-- 
2.43.0


From 599d5fa3e43bc5fafb6c110b38dd791262821080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 13/41] fix: NULL protobuf was dereferenced when reading
 untagged strings and bytes

---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index 463d30f..f0c3984 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1202,6 +1202,8 @@ static int noise_protobuf_read_varint(NoiseProtobuf *pbuf, uint64_t *value)
 static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
 {
     int err;
+    if (!pbuf)
+        return NOISE_ERROR_INVALID_PARAM;
     if (tag > 0) {
         /* We expect a specific tag value and wire type to occur */
         uint64_t expected = (uint64_t)((((int64_t)tag) << 3) | (int64_t)type);
-- 
2.43.0


From e9cced60e6f448f50afd21d7615963a6200ca3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 14/41] fix: out of memory while reading certificates and keys
 lost entries or looped forever

---
 src/keys/certificate.c           | 99 ++++++++++++++++++++++++--------
 tools/protoc/proto3-generate-c.c | 17 +++++-
 2 files changed, 89 insertions(+), 27 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 99b107b..e1ede9e 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -174,8 +174,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Certificate_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -192,8 +195,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
                 int err;
                 Noise_Signature_read(pbuf, 3, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->signatures), &((*obj)->signatures_count_), &((*obj)->signatures_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_Signature_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -376,8 +382,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_CertificateChain_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -386,8 +395,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
                 int err;
                 Noise_Certificate_read(pbuf, 8, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->certs), &((*obj)->certs_count_), &((*obj)->certs_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_Certificate_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -520,8 +532,11 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_SubjectInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -548,16 +563,22 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
                 int err;
                 Noise_PublicKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_PublicKeyInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -867,8 +888,11 @@ int Noise_PublicKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PublicKeyInfo *
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PublicKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1027,8 +1051,11 @@ int Noise_MetaInfo_read(NoiseProtobuf *pbuf, int tag, Noise_MetaInfo **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_MetaInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1200,8 +1227,11 @@ int Noise_Signature_read(NoiseProtobuf *pbuf, int tag, Noise_Signature **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Signature_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1552,8 +1582,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_ExtraSignedInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1580,8 +1613,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
                 int err;
                 Noise_MetaInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -1837,8 +1873,11 @@ int Noise_EncryptedPrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_Encrypted
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_EncryptedPrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2123,8 +2162,11 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2151,16 +2193,22 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
                 int err;
                 Noise_PrivateKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_PrivateKeyInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -2470,8 +2518,11 @@ int Noise_PrivateKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKeyInfo
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 08732f0..9563ba9 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -837,9 +837,17 @@ static void type_named_read_field
         fprintf(output, "&((*obj)->%s_max_), &value, sizeof(value));\n",
                 field->name.name);
         print_indent();
-        fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)\n");
+        fprintf(output, "if (err != NOISE_ERROR_NONE) {\n");
         print_indent();
-        fprintf(output, "   pbuf->error = err;\n");
+        fprintf(output, "    ");
+        generate_name(output, field->type.name.name);
+        fprintf(output, "_free(value);\n");
+        print_indent();
+        fprintf(output, "    if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "        pbuf->error = err;\n");
+        print_indent();
+        fprintf(output, "}\n");
     } else {
         print_indent();
         generate_name(output, field->type.name.name);
@@ -1586,8 +1594,11 @@ static void generate_implement_read(FILE *output, Proto3Message *message)
     fprintf(output, "    err = ");
     generate_name(output, message->name.name);
     fprintf(output, "_new(obj);\n");
-    fprintf(output, "    if (err != NOISE_ERROR_NONE)\n");
+    fprintf(output, "    if (err != NOISE_ERROR_NONE) {\n");
+    fprintf(output, "        if (pbuf->error == NOISE_ERROR_NONE)\n");
+    fprintf(output, "            pbuf->error = err;\n");
     fprintf(output, "        return err;\n");
+    fprintf(output, "    }\n");
     fprintf(output, "    noise_protobuf_read_start_element(pbuf, tag, &end_posn);\n");
     fprintf(output, "    while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {\n");
     fprintf(output, "        switch (noise_protobuf_peek_tag(pbuf)) {\n");
-- 
2.43.0


From d23cbdab913e57e5a0d8bbaaf2b11a6ccc0ea4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 15/41] fix: generated clear of repeated strings and bytes left
 a dangling size array

---
 tools/protoc/proto3-generate-c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 9563ba9..746c4e2 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -409,6 +409,8 @@ static void type_string_clear_field
     if (field->qualifier == PROTO3_QUAL_REPEATED ||
             field->qualifier == PROTO3_QUAL_PACKED) {
         print_indent();
+        fprintf(output, "obj->%s_size_ = 0;\n", field->name.name);
+        print_indent();
         fprintf(output, "obj->%s_count_ = 0;\n", field->name.name);
         print_indent();
         fprintf(output, "obj->%s_max_ = 0;\n", field->name.name);
-- 
2.43.0


From 0717f545deacc6563e4837cca13ce1dafd2eaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 16/41] fix: generated readers leaked repeated strings and
 ignored errors when adding values

---
 tools/protoc/proto3-generate-c.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 746c4e2..64706be 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -174,6 +174,9 @@ static void type_numeric_read_field
         fprintf(output, "noise_protobuf_read_%s(pbuf, %d, &value);\n",
                 type->proto_name, tag);
         print_indent();
+        fprintf(output, "if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "    pbuf->error = ");
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
     } else if (field->qualifier == PROTO3_QUAL_PACKED) {
@@ -190,6 +193,9 @@ static void type_numeric_read_field
         fprintf(output, "noise_protobuf_read_%s(pbuf, 0, &value);\n",
                 type->proto_name);
         print_indent();
+        fprintf(output, "if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "    pbuf->error = ");
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
         --indent_level;
@@ -468,8 +474,13 @@ static void type_string_read_field
             fprintf(output, "noise_protobuf_read_alloc_bytes(pbuf, %d, &value, 0, &len);\n", tag);
         }
         print_indent();
+        fprintf(output, "if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "    pbuf->error = ");
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value, len);\n", field->name.name);
+        print_indent();
+        fprintf(output, "noise_protobuf_free_memory(value, len);\n");
     } else {
         print_indent();
         fprintf(output, "noise_protobuf_free_memory((*obj)->%s, (*obj)->%s_size_);\n",
-- 
2.43.0


From a94976cc4850c9816aac548dbcaf0946ae64697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 17/41] fix: fields of enum types generated code that does not
 compile

---
 tools/protoc/proto3-ast.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/tools/protoc/proto3-ast.c b/tools/protoc/proto3-ast.c
index 8d0dab7..99aa1cf 100644
--- a/tools/protoc/proto3-ast.c
+++ b/tools/protoc/proto3-ast.c
@@ -488,23 +488,24 @@ void proto3_set_package_name(Proto3Name name)
  *
  * \param name The name to try.
  *
- * \return Non-zero if the name is found, zero if not.
+ * \return PROTO3_TYPE_NAMED if the name is found and it is a message,
+ * PROTO3_TYPE_ENUM if it is an enum, or PROTO3_TYPE_INVALID if not found.
  */
-static int proto3_resolve_try_name(Proto3Name name)
+static Proto3TypeId proto3_resolve_try_name(Proto3Name name)
 {
     Proto3Message *message = messages;
     Proto3Enum *enum_node = enums;
     while (message != 0) {
         if (!strcmp(message->name.name, name.name))
-            return 1;
+            return PROTO3_TYPE_NAMED;
         message = message->next;
     }
     while (enum_node != 0) {
         if (!strcmp(enum_node->name.name, name.name))
-            return 1;
+            return PROTO3_TYPE_ENUM;
         enum_node = enum_node->next;
     }
-    return 0;
+    return PROTO3_TYPE_INVALID;
 }
 
 /**
@@ -512,10 +513,13 @@ static int proto3_resolve_try_name(Proto3Name name)
  *
  * \param parent Name of the parent scope.
  * \param name The name to be resolved.
+ * \param id Returns PROTO3_TYPE_NAMED for a message or PROTO3_TYPE_ENUM
+ * for an enum.
  *
  * \return The resolved version of the name, or NULL if not found.
  */
-static Proto3Name proto3_resolve_name(Proto3Name parent, Proto3Name name)
+static Proto3Name proto3_resolve_name
+    (Proto3Name parent, Proto3Name name, Proto3TypeId *id)
 {
     size_t len = strlen(parent.name);
     Proto3Name trial;
@@ -525,7 +529,8 @@ static Proto3Name proto3_resolve_name(Proto3Name parent, Proto3Name name)
             trial = proto3_qualified_name_2(parent, len, name);
         else
             trial = name;
-        if (proto3_resolve_try_name(trial))
+        *id = proto3_resolve_try_name(trial);
+        if (*id != PROTO3_TYPE_INVALID)
             return trial;
         if (!len)
             break;
@@ -555,13 +560,16 @@ static Proto3Type proto3_resolve_type
 {
     if (type.id == PROTO3_TYPE_NAMED) {
         /* Resolve a type name to either an enum or message type */
-        Proto3Name name = proto3_resolve_name(parent, type.name);
+        Proto3TypeId id;
+        Proto3Name name = proto3_resolve_name(parent, type.name, &id);
         if (!name.name) {
             yywarning_on_line("'%s' cannot be resolved to a type", line,
                               type.name.name);
             return type;
         }
-        return proto3_named_type(name);
+        type = proto3_named_type(name);
+        type.id = id;
+        return type;
     } else if (type.id == PROTO3_TYPE_MAP) {
         /* Resolve a map type */
         Proto3Type key_type;
@@ -589,6 +597,13 @@ void proto3_resolve_types(void)
         while (field != 0) {
             field->type = proto3_resolve_type
                 (message->name, field->type, field->line);
+            if (field->type.id == PROTO3_TYPE_ENUM &&
+                    field->qualifier == PROTO3_QUAL_REPEATED) {
+                /* Repeated enums are packed unless the options say otherwise */
+                if (!field->option.name.name ||
+                        strcmp(field->option.name.name, "packed") != 0)
+                    field->qualifier = PROTO3_QUAL_PACKED;
+            }
             field = field->next;
         }
         message = message->next;
-- 
2.43.0


From 03bc17e810162a81f537e0e72fd80188b8863590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 18/41] fix: noise-protoc refused a final comment that has no
 newline

---
 tools/protoc/proto3-lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/protoc/proto3-lexer.l b/tools/protoc/proto3-lexer.l
index 9e3cc93..81653e8 100644
--- a/tools/protoc/proto3-lexer.l
+++ b/tools/protoc/proto3-lexer.l
@@ -92,7 +92,7 @@ STRCHAR     [^"\n]
 
 \n          { ++yylloc.first_line; }
 
-"//".*\n    { ++yylloc.first_line; }
+"//".*      ;
 
 .           { return yytext[0]; }
 
-- 
2.43.0


From 2a52866c0c899feea3ed0dadf060e3e5ac0cfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 19/41] fix: saving a private key too long to encrypt never
 returned

---
 src/keys/loader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 3cb2580..91401dd 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -906,8 +906,8 @@ int noise_save_private_key_to_buffer
                                    pbuf->posn - pcopy.posn - mac_len,
                                    pbuf->posn - pcopy.posn);
             err = noise_cipherstate_encrypt_with_ad(cipher, 0, 0, &buf);
-            if (err != NOISE_ERROR_NONE) {
-                /* The nonce is probably the reserved value 2^64 - 1,
+            if (err == NOISE_ERROR_INVALID_NONCE) {
+                /* The nonce is the reserved value 2^64 - 1,
                    which we cannot use.  Generate a new salt and try again */
                 noise_randstate_generate_simple(salt, sizeof(salt));
                 retry = 1;
-- 
2.43.0


From 89e2fb093d7b6ffc6d783464bbbba73ae76b2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 20/41] fix: errors while reading or flushing key and
 certificate files were ignored

---
 src/keys/loader.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 91401dd..58ef059 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -127,7 +127,7 @@ static int noise_load_file
 
     /* Read the entire contents of the file into memory */
     size = fread(pbuf->data, 1, pbuf->size, file);
-    if (!size && ferror(file)) {
+    if (ferror(file)) {
         noise_free(pbuf->data, pbuf->size);
         pbuf->data = 0;
         fclose(file);
@@ -607,7 +607,8 @@ static int noise_save_to_file
     if (file) {
         if (fwrite(data, 1, size, file) != size)
             err = NOISE_ERROR_SYSTEM;
-        fclose(file);
+        if (fclose(file) != 0)
+            err = NOISE_ERROR_SYSTEM;
     } else {
         err = NOISE_ERROR_SYSTEM;
     }
@@ -772,7 +773,8 @@ int noise_save_private_key_to_file
             size_t len = pbuf.size - pbuf.posn;
             if (fwrite(pbuf.data + pbuf.posn, 1, len, file) != len)
                 err = NOISE_ERROR_SYSTEM;
-            fclose(file);
+            if (fclose(file) != 0)
+                err = NOISE_ERROR_SYSTEM;
         } else {
             err = NOISE_ERROR_SYSTEM;
         }
-- 
2.43.0


From 69e5a5192ed15e2fc0aba524df98071d48aaf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 21/41] fix: clearing a New Hope key left its secrets in the
 object

---
 src/backend/ref/dh-newhope.c | 10 ++++++++++
 src/protocol/dhstate.c       | 20 +++++++++++++++++---
 src/protocol/internal.h      | 10 ++++++++++
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/backend/ref/dh-newhope.c b/src/backend/ref/dh-newhope.c
index ff0a4ef..e9be22f 100644
--- a/src/backend/ref/dh-newhope.c
+++ b/src/backend/ref/dh-newhope.c
@@ -153,6 +153,15 @@ static void noise_newhope_change_role(NoiseDHState *state)
     }
 }
 
+static void noise_newhope_clear_private_key(NoiseDHState *state)
+{
+    /* The seed, the private polynomial for Alice, or the shared secret for Bob */
+    NoiseNewHopeState *st = (NoiseNewHopeState *)state;
+    noise_clean(st->random_data, sizeof(st->random_data));
+    noise_clean(&(st->private_key), sizeof(st->private_key));
+    st->generated = 0;
+}
+
 NoiseDHState *noise_newhope_new(void)
 {
     NoiseNewHopeState *state = noise_new(NoiseNewHopeState);
@@ -173,5 +182,6 @@ NoiseDHState *noise_newhope_new(void)
     state->parent.copy = noise_newhope_copy;
     state->parent.calculate = noise_newhope_calculate;
     state->parent.change_role = noise_newhope_change_role;
+    state->parent.clear_private_key = noise_newhope_clear_private_key;
     return &(state->parent);
 }
diff --git a/src/protocol/dhstate.c b/src/protocol/dhstate.c
index 45f6341..e06b1f5 100644
--- a/src/protocol/dhstate.c
+++ b/src/protocol/dhstate.c
@@ -483,6 +483,20 @@ int noise_dhstate_get_keypair
     return NOISE_ERROR_NONE;
 }
 
+/**
+ * \brief Clears the private key in a DHState object, together with
+ * everything that the back end derived from it.
+ *
+ * \param state The DHState object.
+ */
+static void noise_dhstate_clear_private_key(NoiseDHState *state)
+{
+    if (state->clear_private_key)
+        (*(state->clear_private_key))(state);
+    else
+        memset(state->private_key, 0, state->private_key_len);
+}
+
 /**
  * \brief Sets the public key in a DHState object.
  *
@@ -527,7 +541,7 @@ int noise_dhstate_set_public_key
         return err;
 
     /* Copy the public key into place and clear the private key */
-    memset(state->private_key, 0, state->private_key_len);
+    noise_dhstate_clear_private_key(state);
     memcpy(state->public_key, public_key, public_key_len);
     state->key_type = NOISE_KEY_TYPE_PUBLIC;
     return NOISE_ERROR_NONE;
@@ -581,7 +595,7 @@ int noise_dhstate_set_null_public_key(NoiseDHState *state)
 
     /* Clear the key to all-zeroes */
     memset(state->public_key, 0, state->public_key_len);
-    memset(state->private_key, 0, state->private_key_len);
+    noise_dhstate_clear_private_key(state);
 
     /* We have a public key but no private key */
     state->key_type = NOISE_KEY_TYPE_PUBLIC;
@@ -627,7 +641,7 @@ int noise_dhstate_clear_key(NoiseDHState *state)
 
     /* Clear the key to all-zeroes */
     memset(state->public_key, 0, state->public_key_len);
-    memset(state->private_key, 0, state->private_key_len);
+    noise_dhstate_clear_private_key(state);
 
     /* There is no key in the object now */
     state->key_type = NOISE_KEY_TYPE_NO_KEY;
diff --git a/src/protocol/internal.h b/src/protocol/internal.h
index be7c7b9..cf50e75 100644
--- a/src/protocol/internal.h
+++ b/src/protocol/internal.h
@@ -341,6 +341,16 @@ struct NoiseDHState_s
      */
     void (*change_role)(NoiseDHState *state);
 
+    /**
+     * \brief Clears the private key and everything derived from it.
+     *
+     * \param state Points to the DHState.
+     *
+     * This pointer can be NULL if the back end does not keep any secrets
+     * apart from the bytes of the private key itself.
+     */
+    void (*clear_private_key)(NoiseDHState *state);
+
     /**
      * \brief Destroys this DHState prior to the memory being freed.
      *
-- 
2.43.0


From fd26b91df36b32abeea68bde014f975fc56c2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 22/41] fix: running out of memory for a hybrid key was
 reported as NOT_APPLICABLE

---
 src/protocol/handshakestate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 574cd40..ec56c1b 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -177,7 +177,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_local_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
     if ((flags & NOISE_PAT_FLAG_REMOTE_STATIC) != 0 && err == NOISE_ERROR_NONE) {
@@ -191,7 +191,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_remote_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
 
-- 
2.43.0


From 8a07c9e4ee3f3178394d147c6bc71d826546b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 23/41] fix: certificate leaked when converting it to a chain
 ran out of memory

---
 src/keys/loader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 58ef059..54cf079 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -336,6 +336,7 @@ int noise_load_certificate_chain_from_buffer
         if (err == NOISE_ERROR_NONE)
             err = Noise_CertificateChain_insert_certs(*chain, 0, cert);
         if (err != NOISE_ERROR_NONE) {
+            Noise_Certificate_free(cert);
             Noise_CertificateChain_free(*chain);
             *chain = 0;
         }
-- 
2.43.0


From c6dd5c31d22feacc47223639a459a402083cef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 24/41] fix: noise-keytool generate ignored the 25519 and 448
 algorithm names

---
 tools/keytool/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/generate.c b/tools/keytool/generate.c
index f6e08c1..13b1042 100644
--- a/tools/keytool/generate.c
+++ b/tools/keytool/generate.c
@@ -103,8 +103,8 @@ static int parse_algorithms(const char *names)
                     fprintf(stderr, "'\n");
                     return 0;
                 }
-                add_algorithm_id(id);
             }
+            add_algorithm_id(id);
         }
         names += len;
         if (*names == ',')
-- 
2.43.0


From cee708749b01f3b46e7c2dc40414dd446badc538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 25/41] fix: noise-keytool show did not recognise certificate
 chains

---
 tools/keytool/show.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 4f3759d..7f37526 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -330,7 +330,7 @@ static int show_file(const char *filename)
     if (data[0] == 0x50) {
         /* Encrypted private key */
         ok = show_private_key(filename, &pbuf);
-    } else if (data[0] == 0x40) {
+    } else if (data[0] == 0x42) {
         /* Certificate chain */
         ok = show_certificate_chain(filename, &pbuf);
     } else {
-- 
2.43.0


From 670da71ae1b83f5e94774152f27658f793a756a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 26/41] fix: noise-keytool show printed the name of meta data
 as its value

---
 tools/keytool/show.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 7f37526..ff34473 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -120,7 +120,7 @@ static void dump_certificate(const Noise_Certificate *cert)
             const Noise_MetaInfo *meta =
                 Noise_SubjectInfo_get_at_meta(subject, index);
             const char *name = Noise_MetaInfo_get_name(meta);
-            const char *value = Noise_MetaInfo_get_name(meta);
+            const char *value = Noise_MetaInfo_get_value(meta);
             if (!name)
                 name = "Unknown";
             if (!value)
@@ -244,7 +244,7 @@ static void dump_private_key(const Noise_PrivateKey *priv_key)
         const Noise_MetaInfo *meta =
             Noise_PrivateKey_get_at_meta(priv_key, index);
         const char *name = Noise_MetaInfo_get_name(meta);
-        const char *value = Noise_MetaInfo_get_name(meta);
+        const char *value = Noise_MetaInfo_get_value(meta);
         if (!name)
             name = "Unknown";
         if (!value)
-- 
2.43.0


From bb7ae50a23ea57f0a59fca9398b76d78515e1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 27/41] fix: do not mix an undefined shared key when a
 Diffie-Hellman calculation fails

---
 src/protocol/handshakestate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index ec56c1b..8313f7b 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -1135,7 +1135,8 @@ static int noise_handshake_mix_dh
     size_t len = private_key->shared_key_len;
     uint8_t *shared = alloca(len);
     int err = noise_dhstate_calculate(private_key, public_key, shared, len);
-    noise_symmetricstate_mix_key(state->symmetric, shared, len);
+    if (err == NOISE_ERROR_NONE)
+        noise_symmetricstate_mix_key(state->symmetric, shared, len);
     noise_clean(shared, len);
     return err;
 }
-- 
2.43.0


From 9aeebb2a1258cdffb45d81c23efd993dbf10c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 28/41] fix: echo-server no longer spins while other clients
 are connected

---
 examples/echo/echo-server/echo-common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index 131ed2c..b801c59 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -487,7 +487,7 @@ int echo_accept(int port)
                 /* Interrupted by a system call.  This is probably due to a
                    child process terminating.  Clean up any waiting children. */
                 int status;
-                while (waitpid(-1, &status, WNOHANG) >= 0)
+                while (waitpid(-1, &status, WNOHANG) > 0)
                     ;   /* Do nothing */
                 continue;
             }
@@ -563,7 +563,7 @@ int echo_accept(int port)
             /* Interrupted by a system call.  This is probably due to a
                child process terminating.  Clean up any waiting children. */
             int status;
-            while (waitpid(-1, &status, WNOHANG) >= 0)
+            while (waitpid(-1, &status, WNOHANG) > 0)
                 ;   /* Do nothing */
         } else {
             perror("accept");
-- 
2.43.0


From 49d03f7477be7bbcd9b14a1f9b413f6e28984044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 29/41] fix: skip white space in echo public key files

---
 examples/echo/echo-server/echo-common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index b801c59..9b2b6f9 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -269,7 +269,9 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
             digit = 63;
         } else if (ch == '=') {
             break;
-        } else if (ch != ' ' && ch != '\t' && ch != '\r' && ch != '\n') {
+        } else if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') {
+            continue;
+        } else {
             fclose(file);
             fprintf(stderr, "%s: invalid character in public key file\n", filename);
             return 0;
-- 
2.43.0


From 01bc084dcf7765261f194737e8db25a9e9a7bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 30/41] fix: echo-client strips the padding from lines without
 a newline

---
 examples/echo/echo-client/echo-client.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/examples/echo/echo-client/echo-client.c b/examples/echo/echo-client/echo-client.c
index e488570..4b65e58 100644
--- a/examples/echo/echo-client/echo-client.c
+++ b/examples/echo/echo-client/echo-client.c
@@ -267,6 +267,7 @@ int main(int argc, char *argv[])
     int action;
     int fd;
     size_t message_size;
+    size_t line_len;
     size_t max_line_len;
 
     /* Parse the command-line options */
@@ -397,6 +398,7 @@ int main(int argc, char *argv[])
     while (ok && fgets((char *)(message + 2), max_line_len, stdin)) {
         /* Pad the message to a uniform size */
         message_size = strlen((const char *)(message + 2));
+        line_len = message_size;
         if (padding) {
             err = noise_randstate_pad
                 (rand, message + 2, message_size, max_line_len,
@@ -444,11 +446,9 @@ int main(int argc, char *argv[])
 
         /* Remove padding from the message if necessary */
         if (padding) {
-            /* Find the first '\n' and strip everything after it */
-            const uint8_t *end = (const uint8_t *)
-                memchr(mbuf.data, '\n', mbuf.size);
-            if (end)
-                mbuf.size = end + 1 - mbuf.data;
+            /* Strip everything after the line that was sent */
+            if (mbuf.size > line_len)
+                mbuf.size = line_len;
         }
 
         /* Write the echo to standard output */
-- 
2.43.0


From 8b67e9538a245d312e4f06f69f5a277633c1a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 31/41] fix: echo-client has room for the NewHope hybrid
 handshakes

---
 examples/echo/echo-client/echo-client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/echo/echo-client/echo-client.c b/examples/echo/echo-client/echo-client.c
index 4b65e58..0973489 100644
--- a/examples/echo/echo-client/echo-client.c
+++ b/examples/echo/echo-client/echo-client.c
@@ -52,7 +52,7 @@ static int padding = 0;
 static int fixed_ephemeral = 0;
 
 /* Message buffer for send/receive */
-#define MAX_MESSAGE_LEN 4096
+#define MAX_MESSAGE_LEN 8192
 static uint8_t message[MAX_MESSAGE_LEN + 2];
 
 /* Curve25519 private key to use when fixed ephemeral mode is selected */
-- 
2.43.0


From 289de274590ad5c60c0e295c400aefef9037770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 32/41] revert 8b67e95: files under examples stay as they were

---
 examples/echo/echo-client/echo-client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/echo/echo-client/echo-client.c b/examples/echo/echo-client/echo-client.c
index 0973489..4b65e58 100644
--- a/examples/echo/echo-client/echo-client.c
+++ b/examples/echo/echo-client/echo-client.c
@@ -52,7 +52,7 @@ static int padding = 0;
 static int fixed_ephemeral = 0;
 
 /* Message buffer for send/receive */
-#define MAX_MESSAGE_LEN 8192
+#define MAX_MESSAGE_LEN 4096
 static uint8_t message[MAX_MESSAGE_LEN + 2];
 
 /* Curve25519 private key to use when fixed ephemeral mode is selected */
-- 
2.43.0


From c090f6bf38d73d44ca8fe5ce4484fe0a41f469c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 33/41] revert 01bc084: files under examples stay as they were

---
 examples/echo/echo-client/echo-client.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/examples/echo/echo-client/echo-client.c b/examples/echo/echo-client/echo-client.c
index 4b65e58..e488570 100644
--- a/examples/echo/echo-client/echo-client.c
+++ b/examples/echo/echo-client/echo-client.c
@@ -267,7 +267,6 @@ int main(int argc, char *argv[])
     int action;
     int fd;
     size_t message_size;
-    size_t line_len;
     size_t max_line_len;
 
     /* Parse the command-line options */
@@ -398,7 +397,6 @@ int main(int argc, char *argv[])
     while (ok && fgets((char *)(message + 2), max_line_len, stdin)) {
         /* Pad the message to a uniform size */
         message_size = strlen((const char *)(message + 2));
-        line_len = message_size;
         if (padding) {
             err = noise_randstate_pad
                 (rand, message + 2, message_size, max_line_len,
@@ -446,9 +444,11 @@ int main(int argc, char *argv[])
 
         /* Remove padding from the message if necessary */
         if (padding) {
-            /* Strip everything after the line that was sent */
-            if (mbuf.size > line_len)
-                mbuf.size = line_len;
+            /* Find the first '\n' and strip everything after it */
+            const uint8_t *end = (const uint8_t *)
+                memchr(mbuf.data, '\n', mbuf.size);
+            if (end)
+                mbuf.size = end + 1 - mbuf.data;
         }
 
         /* Write the echo to standard output */
-- 
2.43.0


From 15eeb78f1a7629c806d1417c3c4e9f8cb5561a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 34/41] revert 49d03f7: files under examples stay as they were

---
 examples/echo/echo-server/echo-common.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index 9b2b6f9..b801c59 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -269,9 +269,7 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
             digit = 63;
         } else if (ch == '=') {
             break;
-        } else if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') {
-            continue;
-        } else {
+        } else if (ch != ' ' && ch != '\t' && ch != '\r' && ch != '\n') {
             fclose(file);
             fprintf(stderr, "%s: invalid character in public key file\n", filename);
             return 0;
-- 
2.43.0


From fe5af031d24dcd6b492f4ead70620234c8cd6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 35/41] revert 9aeebb2: files under examples stay as they were

---
 examples/echo/echo-server/echo-common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index b801c59..131ed2c 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -487,7 +487,7 @@ int echo_accept(int port)
                 /* Interrupted by a system call.  This is probably due to a
                    child process terminating.  Clean up any waiting children. */
                 int status;
-                while (waitpid(-1, &status, WNOHANG) > 0)
+                while (waitpid(-1, &status, WNOHANG) >= 0)
                     ;   /* Do nothing */
                 continue;
             }
@@ -563,7 +563,7 @@ int echo_accept(int port)
             /* Interrupted by a system call.  This is probably due to a
                child process terminating.  Clean up any waiting children. */
             int status;
-            while (waitpid(-1, &status, WNOHANG) > 0)
+            while (waitpid(-1, &status, WNOHANG) >= 0)
                 ;   /* Do nothing */
         } else {
             perror("accept");
-- 
2.43.0


From d710485269f63092b75c56b89a897a4ce99d2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 36/41] fix: generated setters refuse NULL values and allow the
 object's own contents

---
 src/keys/certificate.c           | 582 +++++++++++++++----------------
 tools/protoc/proto3-generate-c.c |  43 +--
 2 files changed, 298 insertions(+), 327 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index e1ede9e..619a2d0 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -621,20 +621,19 @@ size_t Noise_SubjectInfo_get_size_id(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_id(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->id, obj->id_size_);
-        obj->id = (char *)malloc(size + 1);
-        if (obj->id) {
-            memcpy(obj->id, value, size);
-            obj->id[size] = 0;
-            obj->id_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->id_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->id, obj->id_size_);
+    obj->id = copy;
+    obj->id_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_SubjectInfo_clear_name(Noise_SubjectInfo *obj)
@@ -665,20 +664,19 @@ size_t Noise_SubjectInfo_get_size_name(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_name(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->name, obj->name_size_);
-        obj->name = (char *)malloc(size + 1);
-        if (obj->name) {
-            memcpy(obj->name, value, size);
-            obj->name[size] = 0;
-            obj->name_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->name_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->name, obj->name_size_);
+    obj->name = copy;
+    obj->name_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_SubjectInfo_clear_role(Noise_SubjectInfo *obj)
@@ -709,20 +707,19 @@ size_t Noise_SubjectInfo_get_size_role(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_role(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->role, obj->role_size_);
-        obj->role = (char *)malloc(size + 1);
-        if (obj->role) {
-            memcpy(obj->role, value, size);
-            obj->role[size] = 0;
-            obj->role_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->role_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->role, obj->role_size_);
+    obj->role = copy;
+    obj->role_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_SubjectInfo_clear_keys(Noise_SubjectInfo *obj)
@@ -949,20 +946,19 @@ size_t Noise_PublicKeyInfo_get_size_algorithm(const Noise_PublicKeyInfo *obj)
 
 int Noise_PublicKeyInfo_set_algorithm(Noise_PublicKeyInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
-        obj->algorithm = (char *)malloc(size + 1);
-        if (obj->algorithm) {
-            memcpy(obj->algorithm, value, size);
-            obj->algorithm[size] = 0;
-            obj->algorithm_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->algorithm_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
+    obj->algorithm = copy;
+    obj->algorithm_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_PublicKeyInfo_clear_key(Noise_PublicKeyInfo *obj)
@@ -993,19 +989,18 @@ size_t Noise_PublicKeyInfo_get_size_key(const Noise_PublicKeyInfo *obj)
 
 int Noise_PublicKeyInfo_set_key(Noise_PublicKeyInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->key, obj->key_size_);
-        obj->key = (void *)malloc(size ? size : 1);
-        if (obj->key) {
-            memcpy(obj->key, value, size);
-            obj->key_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->key_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    void *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (void *)malloc(size ? size : 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    noise_protobuf_free_memory(obj->key, obj->key_size_);
+    obj->key = copy;
+    obj->key_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_MetaInfo_new(Noise_MetaInfo **obj)
@@ -1112,20 +1107,19 @@ size_t Noise_MetaInfo_get_size_name(const Noise_MetaInfo *obj)
 
 int Noise_MetaInfo_set_name(Noise_MetaInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->name, obj->name_size_);
-        obj->name = (char *)malloc(size + 1);
-        if (obj->name) {
-            memcpy(obj->name, value, size);
-            obj->name[size] = 0;
-            obj->name_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->name_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->name, obj->name_size_);
+    obj->name = copy;
+    obj->name_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_MetaInfo_clear_value(Noise_MetaInfo *obj)
@@ -1156,20 +1150,19 @@ size_t Noise_MetaInfo_get_size_value(const Noise_MetaInfo *obj)
 
 int Noise_MetaInfo_set_value(Noise_MetaInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->value, obj->value_size_);
-        obj->value = (char *)malloc(size + 1);
-        if (obj->value) {
-            memcpy(obj->value, value, size);
-            obj->value[size] = 0;
-            obj->value_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->value_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->value, obj->value_size_);
+    obj->value = copy;
+    obj->value_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_Signature_new(Noise_Signature **obj)
@@ -1310,20 +1303,19 @@ size_t Noise_Signature_get_size_id(const Noise_Signature *obj)
 
 int Noise_Signature_set_id(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->id, obj->id_size_);
-        obj->id = (char *)malloc(size + 1);
-        if (obj->id) {
-            memcpy(obj->id, value, size);
-            obj->id[size] = 0;
-            obj->id_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->id_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->id, obj->id_size_);
+    obj->id = copy;
+    obj->id_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_Signature_clear_name(Noise_Signature *obj)
@@ -1354,20 +1346,19 @@ size_t Noise_Signature_get_size_name(const Noise_Signature *obj)
 
 int Noise_Signature_set_name(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->name, obj->name_size_);
-        obj->name = (char *)malloc(size + 1);
-        if (obj->name) {
-            memcpy(obj->name, value, size);
-            obj->name[size] = 0;
-            obj->name_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->name_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->name, obj->name_size_);
+    obj->name = copy;
+    obj->name_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_Signature_clear_signing_key(Noise_Signature *obj)
@@ -1434,20 +1425,19 @@ size_t Noise_Signature_get_size_hash_algorithm(const Noise_Signature *obj)
 
 int Noise_Signature_set_hash_algorithm(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->hash_algorithm, obj->hash_algorithm_size_);
-        obj->hash_algorithm = (char *)malloc(size + 1);
-        if (obj->hash_algorithm) {
-            memcpy(obj->hash_algorithm, value, size);
-            obj->hash_algorithm[size] = 0;
-            obj->hash_algorithm_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->hash_algorithm_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->hash_algorithm, obj->hash_algorithm_size_);
+    obj->hash_algorithm = copy;
+    obj->hash_algorithm_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_Signature_clear_extra_signed_info(Noise_Signature *obj)
@@ -1514,19 +1504,18 @@ size_t Noise_Signature_get_size_signature(const Noise_Signature *obj)
 
 int Noise_Signature_set_signature(Noise_Signature *obj, const void *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->signature, obj->signature_size_);
-        obj->signature = (void *)malloc(size ? size : 1);
-        if (obj->signature) {
-            memcpy(obj->signature, value, size);
-            obj->signature_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->signature_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    void *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (void *)malloc(size ? size : 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    noise_protobuf_free_memory(obj->signature, obj->signature_size_);
+    obj->signature = copy;
+    obj->signature_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_ExtraSignedInfo_new(Noise_ExtraSignedInfo **obj)
@@ -1660,19 +1649,18 @@ size_t Noise_ExtraSignedInfo_get_size_nonce(const Noise_ExtraSignedInfo *obj)
 
 int Noise_ExtraSignedInfo_set_nonce(Noise_ExtraSignedInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->nonce, obj->nonce_size_);
-        obj->nonce = (void *)malloc(size ? size : 1);
-        if (obj->nonce) {
-            memcpy(obj->nonce, value, size);
-            obj->nonce_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->nonce_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    void *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (void *)malloc(size ? size : 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    noise_protobuf_free_memory(obj->nonce, obj->nonce_size_);
+    obj->nonce = copy;
+    obj->nonce_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_ExtraSignedInfo_clear_valid_from(Noise_ExtraSignedInfo *obj)
@@ -1703,20 +1691,19 @@ size_t Noise_ExtraSignedInfo_get_size_valid_from(const Noise_ExtraSignedInfo *ob
 
 int Noise_ExtraSignedInfo_set_valid_from(Noise_ExtraSignedInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->valid_from, obj->valid_from_size_);
-        obj->valid_from = (char *)malloc(size + 1);
-        if (obj->valid_from) {
-            memcpy(obj->valid_from, value, size);
-            obj->valid_from[size] = 0;
-            obj->valid_from_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->valid_from_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->valid_from, obj->valid_from_size_);
+    obj->valid_from = copy;
+    obj->valid_from_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_ExtraSignedInfo_clear_valid_to(Noise_ExtraSignedInfo *obj)
@@ -1747,20 +1734,19 @@ size_t Noise_ExtraSignedInfo_get_size_valid_to(const Noise_ExtraSignedInfo *obj)
 
 int Noise_ExtraSignedInfo_set_valid_to(Noise_ExtraSignedInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->valid_to, obj->valid_to_size_);
-        obj->valid_to = (char *)malloc(size + 1);
-        if (obj->valid_to) {
-            memcpy(obj->valid_to, value, size);
-            obj->valid_to[size] = 0;
-            obj->valid_to_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->valid_to_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->valid_to, obj->valid_to_size_);
+    obj->valid_to = copy;
+    obj->valid_to_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_ExtraSignedInfo_clear_meta(Noise_ExtraSignedInfo *obj)
@@ -1974,20 +1960,19 @@ size_t Noise_EncryptedPrivateKey_get_size_algorithm(const Noise_EncryptedPrivate
 
 int Noise_EncryptedPrivateKey_set_algorithm(Noise_EncryptedPrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
-        obj->algorithm = (char *)malloc(size + 1);
-        if (obj->algorithm) {
-            memcpy(obj->algorithm, value, size);
-            obj->algorithm[size] = 0;
-            obj->algorithm_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->algorithm_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
+    obj->algorithm = copy;
+    obj->algorithm_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_EncryptedPrivateKey_clear_salt(Noise_EncryptedPrivateKey *obj)
@@ -2018,19 +2003,18 @@ size_t Noise_EncryptedPrivateKey_get_size_salt(const Noise_EncryptedPrivateKey *
 
 int Noise_EncryptedPrivateKey_set_salt(Noise_EncryptedPrivateKey *obj, const void *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->salt, obj->salt_size_);
-        obj->salt = (void *)malloc(size ? size : 1);
-        if (obj->salt) {
-            memcpy(obj->salt, value, size);
-            obj->salt_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->salt_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    void *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (void *)malloc(size ? size : 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    noise_protobuf_free_memory(obj->salt, obj->salt_size_);
+    obj->salt = copy;
+    obj->salt_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_EncryptedPrivateKey_clear_iterations(Noise_EncryptedPrivateKey *obj)
@@ -2089,19 +2073,18 @@ size_t Noise_EncryptedPrivateKey_get_size_encrypted_data(const Noise_EncryptedPr
 
 int Noise_EncryptedPrivateKey_set_encrypted_data(Noise_EncryptedPrivateKey *obj, const void *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->encrypted_data, obj->encrypted_data_size_);
-        obj->encrypted_data = (void *)malloc(size ? size : 1);
-        if (obj->encrypted_data) {
-            memcpy(obj->encrypted_data, value, size);
-            obj->encrypted_data_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->encrypted_data_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    void *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (void *)malloc(size ? size : 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    noise_protobuf_free_memory(obj->encrypted_data, obj->encrypted_data_size_);
+    obj->encrypted_data = copy;
+    obj->encrypted_data_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_PrivateKey_new(Noise_PrivateKey **obj)
@@ -2251,20 +2234,19 @@ size_t Noise_PrivateKey_get_size_id(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_id(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->id, obj->id_size_);
-        obj->id = (char *)malloc(size + 1);
-        if (obj->id) {
-            memcpy(obj->id, value, size);
-            obj->id[size] = 0;
-            obj->id_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->id_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->id, obj->id_size_);
+    obj->id = copy;
+    obj->id_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_PrivateKey_clear_name(Noise_PrivateKey *obj)
@@ -2295,20 +2277,19 @@ size_t Noise_PrivateKey_get_size_name(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_name(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->name, obj->name_size_);
-        obj->name = (char *)malloc(size + 1);
-        if (obj->name) {
-            memcpy(obj->name, value, size);
-            obj->name[size] = 0;
-            obj->name_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->name_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->name, obj->name_size_);
+    obj->name = copy;
+    obj->name_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_PrivateKey_clear_role(Noise_PrivateKey *obj)
@@ -2339,20 +2320,19 @@ size_t Noise_PrivateKey_get_size_role(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_role(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->role, obj->role_size_);
-        obj->role = (char *)malloc(size + 1);
-        if (obj->role) {
-            memcpy(obj->role, value, size);
-            obj->role[size] = 0;
-            obj->role_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->role_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->role, obj->role_size_);
+    obj->role = copy;
+    obj->role_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_PrivateKey_clear_keys(Noise_PrivateKey *obj)
@@ -2579,20 +2559,19 @@ size_t Noise_PrivateKeyInfo_get_size_algorithm(const Noise_PrivateKeyInfo *obj)
 
 int Noise_PrivateKeyInfo_set_algorithm(Noise_PrivateKeyInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
-        obj->algorithm = (char *)malloc(size + 1);
-        if (obj->algorithm) {
-            memcpy(obj->algorithm, value, size);
-            obj->algorithm[size] = 0;
-            obj->algorithm_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->algorithm_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    char *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (char *)malloc(size + 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    copy[size] = 0;
+    noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
+    obj->algorithm = copy;
+    obj->algorithm_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
 int Noise_PrivateKeyInfo_clear_key(Noise_PrivateKeyInfo *obj)
@@ -2623,18 +2602,17 @@ size_t Noise_PrivateKeyInfo_get_size_key(const Noise_PrivateKeyInfo *obj)
 
 int Noise_PrivateKeyInfo_set_key(Noise_PrivateKeyInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
-        noise_protobuf_free_memory(obj->key, obj->key_size_);
-        obj->key = (void *)malloc(size ? size : 1);
-        if (obj->key) {
-            memcpy(obj->key, value, size);
-            obj->key_size_ = size;
-            return NOISE_ERROR_NONE;
-        } else {
-            obj->key_size_ = 0;
-            return NOISE_ERROR_NO_MEMORY;
-        }
-    }
-    return NOISE_ERROR_INVALID_PARAM;
+    void *copy;
+    if (!obj || (!value && size))
+        return NOISE_ERROR_INVALID_PARAM;
+    copy = (void *)malloc(size ? size : 1);
+    if (!copy)
+        return NOISE_ERROR_NO_MEMORY;
+    if (size)
+        memcpy(copy, value, size);
+    noise_protobuf_free_memory(obj->key, obj->key_size_);
+    obj->key = copy;
+    obj->key_size_ = size;
+    return NOISE_ERROR_NONE;
 }
 
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 64706be..1dca76e 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -675,34 +675,27 @@ static void type_string_declare_field_ops
             fprintf(output, ";\n");
         } else {
             fprintf(output, "\n{\n");
-            fprintf(output, "    if (obj) {\n");
-            indent_level = 2;
-            (*(type->free_field))(type, field);
+            fprintf(output, "    %scopy;\n", type->c_name);
+            fprintf(output, "    if (!obj || (!value && size))\n");
+            fprintf(output, "        return NOISE_ERROR_INVALID_PARAM;\n");
             if (field->type.id == PROTO3_TYPE_STRING) {
-                fprintf(output, "        obj->%s = (%s)malloc(size + 1);\n",
-                        field->name.name, type->c_name);
-                fprintf(output, "        if (obj->%s) {\n", field->name.name);
-                fprintf(output, "            memcpy(obj->%s, value, size);\n",
-                        field->name.name);
-                fprintf(output, "            obj->%s[size] = 0;\n",
-                        field->name.name);
+                fprintf(output, "    copy = (%s)malloc(size + 1);\n",
+                        type->c_name);
             } else {
-                fprintf(output, "        obj->%s = (%s)malloc(size ? size : 1);\n",
-                        field->name.name, type->c_name);
-                fprintf(output, "        if (obj->%s) {\n", field->name.name);
-                fprintf(output, "            memcpy(obj->%s, value, size);\n",
-                        field->name.name);
+                fprintf(output, "    copy = (%s)malloc(size ? size : 1);\n",
+                        type->c_name);
             }
-            fprintf(output, "            obj->%s_size_ = size;\n",
-                    field->name.name);
-            fprintf(output, "            return NOISE_ERROR_NONE;\n");
-            fprintf(output, "        } else {\n");
-            fprintf(output, "            obj->%s_size_ = 0;\n",
-                    field->name.name);
-            fprintf(output, "            return NOISE_ERROR_NO_MEMORY;\n");
-            fprintf(output, "        }\n");
-            fprintf(output, "    }\n");
-            fprintf(output, "    return NOISE_ERROR_INVALID_PARAM;\n");
+            fprintf(output, "    if (!copy)\n");
+            fprintf(output, "        return NOISE_ERROR_NO_MEMORY;\n");
+            fprintf(output, "    if (size)\n");
+            fprintf(output, "        memcpy(copy, value, size);\n");
+            if (field->type.id == PROTO3_TYPE_STRING)
+                fprintf(output, "    copy[size] = 0;\n");
+            indent_level = 1;
+            (*(type->free_field))(type, field);
+            fprintf(output, "    obj->%s = copy;\n", field->name.name);
+            fprintf(output, "    obj->%s_size_ = size;\n", field->name.name);
+            fprintf(output, "    return NOISE_ERROR_NONE;\n");
             fprintf(output, "}\n\n");
         }
     }
-- 
2.43.0


From f3177f0bf81226dc609fa7abaabd5ba4bd7dc4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:43 +0000
Subject: [PATCH 37/41] fix: wipe the plaintext when OpenSSL fails during
 AESGCM decryption

---
 src/backend/openssl/cipher-aesgcm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index be7498d..c05bbb6 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -158,12 +158,14 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (!EVP_DecryptUpdate(st->ctx, data, &len, data, data_len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
     /* Set expected tag value. Works in OpenSSL 1.0.1d and later */
     if (!EVP_CIPHER_CTX_ctrl(st->ctx, EVP_CTRL_GCM_SET_TAG, 16, data + len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
-- 
2.43.0


From 61fb0ace04fd157b37c127a72dfe8ab0de47f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 38/41] fix: early-clobber the outputs of the X448
 multiplications

The first instruction writes rax while the operands of the second one are
still needed, and the compiler may have put the address of one in rax: built
without optimization, Curve448 crashes.
---
 src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h b/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h
index 32ee832..8ff8915 100644
--- a/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h
+++ b/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h
@@ -17,7 +17,7 @@ static __inline__ __uint128_t widemul(const uint64_t *a, const uint64_t *b) {
   __asm__ volatile
       ("movq %[a], %%rax;"
        "mulq %[b];"
-       : [c]"=a"(c), [d]"=d"(d)
+       : [c]"=&a"(c), [d]"=&d"(d)
        : [b]"m"(*b), [a]"m"(*a)
        : "cc");
   return (((__uint128_t)(d))<<64) | c;
@@ -39,7 +39,7 @@ static __inline__ __uint128_t widemul_rm(uint64_t a, const uint64_t *b) {
   __asm__ volatile
       ("movq %[a], %%rax;"
        "mulq %[b];"
-       : [c]"=a"(c), [d]"=d"(d)
+       : [c]"=&a"(c), [d]"=&d"(d)
        : [b]"m"(*b), [a]"r"(a)
        : "cc");
   return (((__uint128_t)(d))<<64) | c;
@@ -60,7 +60,7 @@ static __inline__ __uint128_t widemul2(const uint64_t *a, const uint64_t *b) {
       ("movq %[a], %%rax; "
        "addq %%rax, %%rax; "
        "mulq %[b];"
-       : [c]"=a"(c), [d]"=d"(d)
+       : [c]"=&a"(c), [d]"=&d"(d)
        : [b]"m"(*b), [a]"m"(*a)
        : "cc");
   return (((__uint128_t)(d))<<64) | c;
-- 
2.43.0


From 19a85452e38393ae50d6a7d802081895af7c4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 39/41] fix: let big_register_t alias the limbs of field
 elements

p448_copy() and the constant-time helpers move arrays of uint64_t through
vectors of uint32_t. gcc -O2 -mavx2 reorders these accesses and Curve448 gives
wrong public and shared keys.
---
 src/crypto/goldilocks/src/include/word.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/goldilocks/src/include/word.h b/src/crypto/goldilocks/src/include/word.h
index 9ad01e1..f55ab72 100644
--- a/src/crypto/goldilocks/src/include/word.h
+++ b/src/crypto/goldilocks/src/include/word.h
@@ -115,7 +115,7 @@ typedef word_t vecmask_t __attribute__((vector_size(32)));
 
 #if __AVX2__
     #define VECTOR_ALIGNED __attribute__((aligned(32)))
-    typedef uint32x8_t big_register_t;
+    typedef uint32x8_t big_register_t __attribute__((may_alias));
     typedef uint64x4_t uint64xn_t;
     typedef uint32x8_t uint32xn_t;
 
@@ -127,7 +127,7 @@ typedef word_t vecmask_t __attribute__((vector_size(32)));
     }
 #elif __SSE2__
     #define VECTOR_ALIGNED __attribute__((aligned(16)))
-    typedef uint32x4_t big_register_t;
+    typedef uint32x4_t big_register_t __attribute__((may_alias));
     typedef uint64x2_t uint64xn_t;
     typedef uint32x4_t uint32xn_t;
 
-- 
2.43.0


From ffb16f72b1f122aae09fd1e5fafa279d83b60ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:51 +0000
Subject: [PATCH 40/41] fix: do not promise 32-byte alignment for NewHope
 polynomials

The private key is part of the NoiseDHState object, which comes from calloc()
and is aligned to 16 bytes: gcc -O3 -mavx2 trusts the promise and NewHope
crashes.
---
 src/crypto/newhope/poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/newhope/poly.h b/src/crypto/newhope/poly.h
index 3321407..0119731 100644
--- a/src/crypto/newhope/poly.h
+++ b/src/crypto/newhope/poly.h
@@ -6,7 +6,7 @@
 
 typedef struct {
   uint16_t coeffs[PARAM_N];
-} poly __attribute__ ((aligned (32)));
+} poly;
 
 void poly_uniform(poly *a, const unsigned char *seed);
 void poly_getnoise(poly *r, unsigned char *seed, unsigned char nonce);
-- 
2.43.0


From 62176d2f307152eefafeedba7c5843795a29625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 41/41] fix: read and write unaligned words of ChaCha20 and
 BLAKE2s through a suitable type

Callers' buffers have any alignment and are not arrays of uint32_t; the
vector code accessed them as if they were, which is undefined behaviour
(clang -fsanitize=alignment reports it).
---
 src/crypto/blake2/blake2s.c |  4 +++-
 src/crypto/chacha/chacha.c  | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/crypto/blake2/blake2s.c b/src/crypto/blake2/blake2s.c
index 6ced343..8c94cbb 100644
--- a/src/crypto/blake2/blake2s.c
+++ b/src/crypto/blake2/blake2s.c
@@ -111,6 +111,8 @@ static const uint8_t sigma[10][16] = {
         (b) = rightRotate((b) ^ (c), 7); \
     } while (0)
 
+typedef uint32_t UnalignedUInt32
+    __attribute__((__may_alias__, __aligned__(1)));
 #endif
 
 static void blake2s_transform
@@ -119,7 +121,7 @@ static void blake2s_transform
 #if BLAKE2S_USE_VECTOR_MATH
     /* Assumption: CPU is little-endian and supports unaligned 32-bit loads */
     uint8_t index;
-    const uint32_t *m = (const uint32_t *)data;
+    const UnalignedUInt32 *m = (const UnalignedUInt32 *)data;
     BlakeVectorUInt32 v0, v1, v2, v3, mv0, mv1;
     const uint8_t *sigma_row;
 
diff --git a/src/crypto/chacha/chacha.c b/src/crypto/chacha/chacha.c
index b6a29cf..f1d17b6 100644
--- a/src/crypto/chacha/chacha.c
+++ b/src/crypto/chacha/chacha.c
@@ -42,16 +42,18 @@
 
 /* Assumption: CPU is little-endian and can perform unaligned
    32-bit loads and stores */
+typedef uint32_t UnalignedUInt32
+    __attribute__((__may_alias__, __aligned__(1)));
 #define fromLittleVec(ptr)  \
-    (VectorUInt32){((const uint32_t *)(ptr))[0], \
-                   ((const uint32_t *)(ptr))[1], \
-                   ((const uint32_t *)(ptr))[2], \
-                   ((const uint32_t *)(ptr))[3]}
+    (VectorUInt32){((const UnalignedUInt32 *)(ptr))[0], \
+                   ((const UnalignedUInt32 *)(ptr))[1], \
+                   ((const UnalignedUInt32 *)(ptr))[2], \
+                   ((const UnalignedUInt32 *)(ptr))[3]}
 #define toLittleVec(ptr, v) \
-    (((uint32_t *)(ptr))[0] = (v)[0], \
-     ((uint32_t *)(ptr))[1] = (v)[1], \
-     ((uint32_t *)(ptr))[2] = (v)[2], \
-     ((uint32_t *)(ptr))[3] = (v)[3])
+    (((UnalignedUInt32 *)(ptr))[0] = (v)[0], \
+     ((UnalignedUInt32 *)(ptr))[1] = (v)[1], \
+     ((UnalignedUInt32 *)(ptr))[2] = (v)[2], \
+     ((UnalignedUInt32 *)(ptr))[3] = (v)[3])
 
 #endif
 
-- 
2.43.0

