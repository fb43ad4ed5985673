From 59c7eb44e7b213f07481353f28dfedd090a5d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 01/31] fix: re-initialised ciphers start a fresh stream (reset
 num, count and the IV tail)

---
 gost_crypt.c              | 8 ++++++++
 gost_grasshopper_cipher.c | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..daf86f8 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -424,6 +424,9 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
+    /* Forget the position in the previous stream */
+    c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (key)
         gost_key(&(c->cctx), key);
     if (iv) {
@@ -444,6 +447,7 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
     gost_init(&(c->cctx), block);
     c->key_meshing = 1;
     c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (key)
         gost_key(&(c->cctx), key);
     if (iv) {
@@ -509,8 +513,12 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
+    /* Forget the counter and the position in the previous stream */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, 8);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
 
     if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
      || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..23b787d 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -257,8 +257,11 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    /* Forget the counter and the position in the previous stream */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, GRASSHOPPER_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
 
     grasshopper_zero128(&c->buffer);
 
-- 
2.43.0


From a8b3a349358bd8227c22c29fa43d9aaf3bf95e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 02/31] fix: MGM decryption without associated data
 authenticates with Z_1 = E_K(1 || nonce)

---
 gost_gost2015.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..3b6e220 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -385,6 +385,10 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     int bl = ctx->blocklen;
 
     if (mlen == 0) {
+        if (alen == 0) {
+            ctx->nonce.c[0] |= 0x80;
+            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
+        }
         ctx->nonce.c[0] &= 0x7f;
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
     }
-- 
2.43.0


From 27aa1f5e6a639156d2474dbdcfc0778799246352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 03/31] fix: MGM refuses data whose bit length does not fit the
 length block

---
 gost_gost2015.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 3b6e220..f79c141 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -258,7 +258,7 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
     }
 
     alen += len;
-    if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
+    if (alen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
             GOSTerr(GOST_F_GOST_MGM128_AAD,
                     GOST_R_DATA_TOO_LARGE);
@@ -327,9 +327,9 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
 
     mlen += len;
 
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_ENCRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
@@ -394,9 +394,9 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     }
 
     mlen += len;
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_DECRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
-- 
2.43.0


From 11ce2a93a2ddeaccec680637acb6b1759b9d4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 04/31] fix: MGM refuses a nonce length other than the block
 length instead of over-reading it

---
 gost_gost2015.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index f79c141..ff48364 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -220,6 +220,10 @@ void gost_mgm128_init(mgm128_context *ctx, void *key, block128_f block, mul128_f
 int gost_mgm128_setiv(mgm128_context *ctx, const unsigned char *iv,
                          size_t len)
 {
+    /* The nonce fills one block (its top bit is not used) */
+    if (len != (size_t)ctx->blocklen)
+        return 0;
+
     ctx->len.u[0] = 0;          /* AAD length */
     ctx->len.u[1] = 0;          /* message length */
     ctx->ares = 0;
-- 
2.43.0


From 6cc8533d69125ccae2bc85cf9f7a5884dc9a77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 05/31] fix: copied MGM contexts do not refer to the original
 context

---
 gost_crypt.c              | 13 ++++++++++++-
 gost_grasshopper_cipher.c | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index daf86f8..0077ed8 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -258,7 +258,8 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
     .ctrl = gost_magma_mgm_ctrl,
@@ -1152,6 +1153,16 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx = (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* The copy must not refer to the original context */
+        out_mctx->mgm.key = &out_mctx->ks;
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     default:
         return -1;
     }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 23b787d..e9efed1 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,7 +132,8 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
     .init = gost_grasshopper_cipher_init_mgm,
@@ -1088,6 +1089,16 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx = (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* The copy must not refer to the original context */
+        out_mctx->mgm.key = &out_mctx->ks;
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     default:
         return -1;
     }
-- 
2.43.0


From 5899990316b6e84c28b00c647fa7379f6bb7c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 06/31] fix: GOST 28147-89 MAC of an 8-byte message does not
 depend on how it is fed

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 0077ed8..4045921 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1556,7 +1556,8 @@ static int gost_imit_update(EVP_MD_CTX *ctx, const void *data, size_t count)
         for (i = c->bytes_left; i < 8 && bytes > 0; bytes--, i++, p++) {
             c->partial_block[i] = *p;
         }
-        if (i == 8) {
+        /* the last full block is kept until more data follows, see final */
+        if (i == 8 && bytes > 0) {
             mac_block_mesh(c, c->partial_block);
         } else {
             c->bytes_left = i;
-- 
2.43.0


From c3d4ce7ecb12a567a7d3e36ad4fafbd5c2223f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 07/31] fix: get_mac truncates to the requested number of bits

---
 gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost89.c b/gost89.c
index c103e72..94f7b73 100644
--- a/gost89.c
+++ b/gost89.c
@@ -687,7 +687,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From 6b3ea09fdc56f3bd90961f1d7a7ef43b9634391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 08/31] fix: gost_omac: report CMAC failures, keep ownership of
 the CMAC context

A failed CMAC_Init or CMAC_Final was reported as success (with an
uninitialised MAC), initialising or re-keying a used context leaked its
CMAC_CTX, and copying crashed when CMAC_CTX_new failed.
---
 gost_omac.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..2cb2f33 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -41,6 +41,8 @@ typedef struct omac_ctx {
 static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+    /* the context may be in use already: do not lose what it owns */
+    CMAC_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
@@ -90,7 +92,8 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (CMAC_Final(c->cmac_ctx, mac, &mac_size) <= 0)
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
@@ -116,9 +119,11 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
         }
         return 1;
     }
-    if (c_to->cmac_ctx == c_from->cmac_ctx) {
+    if (c_to->cmac_ctx == c_from->cmac_ctx || c_to->cmac_ctx == NULL) {
         c_to->cmac_ctx = CMAC_CTX_new();
     }
+    if (c_to->cmac_ctx == NULL)
+        return 0;
     return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
 }
 
@@ -139,6 +144,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
 {
     int ret = 0;
 
+    c->key_set = 0;
     CMAC_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_CTX_new();
     if (c->cmac_ctx == NULL) {
@@ -150,7 +156,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 /* Called directly by gost_kexp15() */
-- 
2.43.0


From 67ca8db5fba23a9324e4d6c50d94452fd44983bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 09/31] fix: gost_omac_acpkm: report failures, keep ownership
 of the CMAC context

A failed CMAC_ACPKM_Init was reported as success, a missing cipher led
to initialisation with a NULL cipher, a failed final copied an
uninitialised MAC out, setting the section size without a key
dereferenced NULL and re-initialising a used context leaked it.
---
 gost_omac_acpkm.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..389d4ce 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -311,6 +311,8 @@ typedef struct omac_acpkm_ctx {
 static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+    /* the context may be in use already: do not lose what it owns */
+    CMAC_ACPKM_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
@@ -354,6 +356,8 @@ int omac_acpkm_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
     }
 
     ret = CMAC_ACPKM_Final(c->cmac_ctx, mac, &mac_size);
+    if (ret <= 0)
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return ret;
@@ -412,7 +416,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
@@ -438,6 +442,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 && (cipher =
                     EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
+                goto set_key_end;
             }
             if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
@@ -464,6 +469,10 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_CTRL_KEY_MESH:
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+            if (!c->key_set) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return -1;
+            }
             if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
             c->cmac_ctx->section_size = arg;
-- 
2.43.0


From 92f147d945622eb7a728ed62b9f6d67b95bb615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 10/31] fix: gost_keyexpimp: reject exports of a wrong length,
 report failed unwraps

KImp15 compared uninitialised bytes for truncated exports, KExp15 copied
an IV of any length into a 16-byte buffer, and the wrap ciphers reported
failed, truncated or over-long unwraps as success with no output and
unwrapped again into the final call's output.
---
 gost_keyexpimp.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..dc2e42d 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -59,6 +59,11 @@ int gost_kexp15(const unsigned char *shared_key, const int shared_len,
         goto err;
     }
 
+    if (ivlen > sizeof(iv_full)) {
+        GOSTerr(GOST_F_GOST_KEXP15, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
+
     /* we expect IV of half length */
     memset(iv_full, 0, 16);
     memcpy(iv_full, iv, ivlen);
@@ -136,7 +141,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
@@ -348,16 +353,15 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
-			return -1;
+	/* Final call: nothing left to output, but all the input must be there */
+	if (in == NULL)
+		return cctx->wrap_count == (MAGMA_WRAPPED_KEY_LEN) ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= MAGMA_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (inl > (MAGMA_WRAPPED_KEY_LEN) - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < MAGMA_WRAPPED_KEY_LEN)
 		return 0;
@@ -370,7 +374,7 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
@@ -401,16 +405,15 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
-			return -1;
+	/* Final call: nothing left to output, but all the input must be there */
+	if (in == NULL)
+		return cctx->wrap_count == (KUZNYECHIK_WRAPPED_KEY_LEN) ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= KUZNYECHIK_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (inl > (KUZNYECHIK_WRAPPED_KEY_LEN) - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < KUZNYECHIK_WRAPPED_KEY_LEN)
 		return 0;
@@ -423,7 +426,7 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
-- 
2.43.0


From f43ee20d0f59a6cfa33da34628b306fcc340827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 11/31] fix: gost_keyexpimp: wrap ciphers take an IV set after
 the key

Without EVP_CIPH_ALWAYS_CALL_INIT libcrypto does not call the init method
when only the IV is (re)set: the IV was ignored and the input collected so
far was kept.
---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index dc2e42d..d8e4174 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -309,7 +309,7 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
     return 1;
 }
 
-#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
+#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_ALWAYS_CALL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
 
 #define MAGMA_MAC_WRAP_LEN 8
 #define KUZNYECHIK_MAC_WRAP_LEN 16
-- 
2.43.0


From 681d683ffe111af6691cf002342915744c21ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 12/31] fix: gost_kdftree2012_256: refuse what the encoding
 cannot represent, no leak

The HMAC context leaked on a bad output length, a counter width outside
1..4 read outside the counter, counters wrapped for outputs longer than
the width allows, and a length of 2^32 bits or more was truncated.
---
 gost_keyexpimp.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index d8e4174..3e68e9e 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -217,17 +217,26 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
     uint32_t len_repr = be32(keyout_len * 8);
     size_t len_repr_len = 4;
 
-    ctx = HMAC_CTX_new();
-    if (ctx == NULL) {
-        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_MALLOC_FAILURE);
+    if ((keyout_len == 0) || (keyout_len % 32 != 0)
+        || keyout_len > UINT32_MAX / 8) {
+        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
         return 0;
     }
+    iters = keyout_len / 32;
 
-    if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
+    /* The counter must fit into its representation */
+    if (representation < 1 || representation > 4
+        || (representation < 4
+            && ((unsigned int)iters >> (8 * representation)) != 0)) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
         return 0;
     }
-    iters = keyout_len / 32;
+
+    ctx = HMAC_CTX_new();
+    if (ctx == NULL) {
+        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_MALLOC_FAILURE);
+        return 0;
+    }
 
     len_ptr = (unsigned char *)&len_repr;
     while (*len_ptr == 0) {
-- 
2.43.0


From 014abc2fddf8ff18f6958cdd7a4b54c016b7ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 13/31] fix: CTR-ACPKM-OMAC reports MAC failures, refuses data
 without a key, does not leak on re-key

---
 gost_crypt.c              | 24 +++++++++++++++++-------
 gost_gost2015.c           |  9 +++++++--
 gost_grasshopper_cipher.c | 28 +++++++++++++++++++---------
 3 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 4045921..5df410a 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -538,6 +538,10 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 	if (key) {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 		unsigned char cipher_key[32];
+		int ret;
+
+		/* the context may be in use already */
+		EVP_MD_CTX_free(c->omac_ctx);
 		c->omac_ctx = EVP_MD_CTX_new();
 
 		if (c->omac_ctx == NULL) {
@@ -552,7 +556,9 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 		    return 0;
 		}
 
-		return magma_cipher_init(ctx, cipher_key, iv, enc);
+		ret = magma_cipher_init(ctx, cipher_key, iv, enc);
+		OPENSSL_cleanse(cipher_key, sizeof(cipher_key));
+		return ret;
 	}
 
 	return magma_cipher_init(ctx, key, iv, enc);
@@ -889,19 +895,21 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
 	if (in == NULL && inl == 0) /* Final call */
 		return gost2015_final_call(ctx, c->omac_ctx, MAGMA_MAC_MAX_SIZE, c->tag, magma_cipher_do_ctr);
 
-  if (in == NULL)
+  if (in == NULL || c->omac_ctx == NULL)
       return -1;
 
 	/* As in and out can be the same pointer, process unencrypted here */
-	if (EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+	if (EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+		return -1;
 
   if (magma_cipher_do_ctr(ctx, out, in, inl) != inl)
       return -1;
 
 	/* As in and out can be the same pointer, process decrypted here */
-	if (!EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+	if (!EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+		return -1;
 
 	return inl;
 }
@@ -1369,11 +1377,13 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
+			if (in_cctx->omac_ctx == NULL)
+				return 1;
 			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
 					GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
-					return -1;
+					return 0;
 				}
 			}
 			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
diff --git a/gost_gost2015.c b/gost_gost2015.c
index ff48364..93723d5 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -22,8 +22,12 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     unsigned char calculated_mac[KUZNYECHIK_MAC_MAX_SIZE];
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
+    if (omac_ctx == NULL)
+        return -1;
+
     if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
@@ -32,7 +36,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index e9efed1..99e5061 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -355,6 +355,10 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     if (key) {
         unsigned char cipher_key[32];
+        int ret;
+
+        /* the context may be in use already */
+        EVP_MD_CTX_free(c->omac_ctx);
         c->omac_ctx = EVP_MD_CTX_new();
 
         if (c->omac_ctx == NULL) {
@@ -369,7 +373,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
             return 0;
         }
 
-        return gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
+        ret = gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
+        OPENSSL_cleanse(cipher_key, sizeof(cipher_key));
+        return ret;
     }
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
@@ -730,23 +736,25 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
 {
     int result;
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    /* As in and out can be the same pointer, process unencrypted here */
-    if (EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, in, inl);
-
     if (in == NULL && inl == 0) { /* Final call */
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
     }
 
-    if (in == NULL) {
+    if (in == NULL || c->omac_ctx == NULL) {
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC, ERR_R_EVP_LIB);
         return -1;
     }
+    /* As in and out can be the same pointer, process unencrypted here */
+    if (EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+        return -1;
+
     result = gost_grasshopper_cipher_do_ctracpkm(ctx, out, in, inl);
 
     /* As in and out can be the same pointer, process decrypted here */
-    if (!EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+    if (!EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+        return -1;
 
     return result;
 }
@@ -1220,11 +1228,13 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
+        if (in_cctx->omac_ctx == NULL)
+            return 1;
         if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
                 GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
-                return -1;
+                return 0;
             }
         }
         return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
-- 
2.43.0


From 3ec946eee5ba8594876e3af0108531d56df3c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 14/31] fix: gost2015_acpkm_omac_init cleanses the derived keys
 on every path

---
 gost_gost2015.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 93723d5..7d39c7c 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -165,7 +165,7 @@ int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
     int ret = 0;
     unsigned char keys[64];
     const EVP_MD *md = EVP_get_digestbynid(nid);
-    EVP_PKEY *mac_key;
+    EVP_PKEY *mac_key = NULL;
 
     if (md == NULL)
         return 0;
@@ -177,7 +177,7 @@ int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
 
     if (gost_kdftree2012_256(keys, 64, inkey, 32,
        (const unsigned char *)"kdf tree", 8, kdf_seed, 8, 1) <= 0)
-        return 0;
+        goto end;
 
     mac_key = EVP_PKEY_new_mac_key(nid, NULL, keys+32, 32);
 
-- 
2.43.0


From f1f58e5b71fbb4cc3488dae8007f4267b6bdeb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 15/31] fix: a failing random generator makes cipher
 initialisation fail

---
 gost_crypt.c              | 7 +++++--
 gost_gost2015.c           | 2 +-
 gost_grasshopper_cipher.c | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 5df410a..620691f 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -501,8 +501,11 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
         if (enc) {
-            if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(c->kdf_seed) == 0) {
+                /* EVP tests the result for zero; try again next time */
+                EVP_CIPHER_CTX_set_app_data(ctx, NULL);
+                return 0;
+            }
         }
     }
 
diff --git a/gost_gost2015.c b/gost_gost2015.c
index 7d39c7c..0bb805b 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -206,7 +206,7 @@ int init_zero_kdf_seed(unsigned char *kdf_seed)
             is_zero_kdfseed = 0;
     }
 
-    return is_zero_kdfseed ? RAND_bytes(kdf_seed, 8) : 1;
+    return is_zero_kdfseed ? RAND_bytes(kdf_seed, 8) == 1 : 1;
 }
 
 void gost_mgm128_init(mgm128_context *ctx, void *key, block128_f block, mul128_f mul_gf, int blen)
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 99e5061..ce4f56e 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -243,8 +243,11 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
         if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
-            if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(ctr->kdf_seed) == 0) {
+                /* EVP tests the result for zero; try again next time */
+                EVP_CIPHER_CTX_set_app_data(ctx, NULL);
+                return 0;
+            }
         }
     }
 
-- 
2.43.0


From 72c223fba9de4a306456b05d1302a33ffa6aebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 16/31] fix: gost2015_process_unprotected_attributes does not
 leak the attribute type

---
 gost_gost2015.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 0bb805b..c75ce56 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -140,20 +140,28 @@ int gost2015_process_unprotected_attributes(
     int encryption, size_t mac_len, unsigned char *final_tag)
 {
     if (encryption == 0) /*Decrypting*/ {
-        ASN1_OCTET_STRING *osExpectedMac = X509at_get0_data_by_OBJ(attrs,
-            OBJ_txt2obj(OID_GOST_CMS_MAC, 1), -3, V_ASN1_OCTET_STRING);
+        ASN1_OBJECT *obj = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+        ASN1_OCTET_STRING *osExpectedMac = obj == NULL ? NULL
+            : X509at_get0_data_by_OBJ(attrs, obj, -3, V_ASN1_OCTET_STRING);
 
+        ASN1_OBJECT_free(obj);
         if (!osExpectedMac || osExpectedMac->length != (int)mac_len)
             return -1;
 
         memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
     } else {
+        ASN1_OBJECT *obj;
+        STACK_OF(X509_ATTRIBUTE) *added;
+
         if (attrs == NULL)
             return -1;
-        return (X509at_add1_attr_by_OBJ(&attrs,
-               OBJ_txt2obj(OID_GOST_CMS_MAC, 1),
-               V_ASN1_OCTET_STRING, final_tag,
-               mac_len) == NULL) ? -1 : 1;
+        obj = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+        if (obj == NULL)
+            return -1;
+        added = X509at_add1_attr_by_OBJ(&attrs, obj, V_ASN1_OCTET_STRING,
+                                        final_tag, mac_len);
+        ASN1_OBJECT_free(obj);
+        return added == NULL ? -1 : 1;
     }
     return 1;
 }
-- 
2.43.0


From 4224b259d69ec8ae9e96cdd484d263576d7e47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:12 +0000
Subject: [PATCH 17/31] fix: Magma CTR-ACPKM-OMAC keeps the seed its keys were
 derived from

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 620691f..817055e 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -500,7 +500,8 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
-        if (enc) {
+        /* the OMAC variant has derived its keys from the seed already */
+        if (enc && EVP_CIPHER_CTX_nid(ctx) != NID_magma_ctr_acpkm_omac) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0) {
                 /* EVP tests the result for zero; try again next time */
                 EVP_CIPHER_CTX_set_app_data(ctx, NULL);
-- 
2.43.0


From e5437bc4d215bfe1a4bc2801b23b743373445a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 18/31] fix: keyUnwrapCryptoPro does not hand out a key whose
 MAC is wrong

---
 gost_keywrap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_keywrap.c b/gost_keywrap.c
index a2134c2..b7ff87f 100644
--- a/gost_keywrap.c
+++ b/gost_keywrap.c
@@ -101,6 +101,8 @@ int keyUnwrapCryptoPro(gost_ctx * ctx, const unsigned char *keyExchangeKey,
     gost_dec(ctx, wrappedKey + 8, sessionKey, 4);
     gost_mac_iv(ctx, 32, wrappedKey, sessionKey, 32, cek_mac);
     if (memcmp(cek_mac, wrappedKey + 40, 4)) {
+        /* do not hand out a key that is not authentic */
+        memset(sessionKey, 0, 32);
         return 0;
     }
     return 1;
-- 
2.43.0


From 960156994d4c02da65adef67366aceb87b5ada0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 19/31] fix: signatures of digests of another length are
 refused instead of aborting; no leaks on failure

---
 gost_ec_sign.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..e91d992 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -169,6 +169,8 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     }
     ok = 1;
  end:
+    if (grp && grp != params->group)
+        EC_GROUP_free(grp);
     EC_POINT_free(P);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
@@ -196,13 +198,17 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
 
     OPENSSL_assert(dgst != NULL && eckey != NULL);
 
+    if (dlen != 32 && dlen != 64) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_DIGEST_TYPE);
+        return NULL;
+    }
+
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
         return NULL;
     }
 
     BN_CTX_start(ctx);
-    OPENSSL_assert(dlen == 32 || dlen == 64);
     md = BN_lebin2bn(dgst, dlen, NULL);
     newsig = ECDSA_SIG_new();
     if (!newsig || !md) {
@@ -300,6 +306,8 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     new_r = BN_dup(r);
     if (!new_s || !new_r) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
+        BN_free(new_s);
+        BN_free(new_r);
         goto err;
     }
     ECDSA_SIG_set0(newsig, new_r, new_s);
@@ -337,6 +345,11 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
 
     OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
 
+    if (dgst_len != 32 && dgst_len != 64) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, GOST_R_INVALID_DIGEST_TYPE);
+        return 0;
+    }
+
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -371,7 +384,6 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
         goto err;
     }
 
-    OPENSSL_assert(dgst_len == 32 || dgst_len == 64);
     md = BN_lebin2bn(dgst, dgst_len, NULL);
     if (!md || !BN_mod(e, md, order, ctx)) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_INTERNAL_ERROR);
-- 
2.43.0


From 304db2caf35f940ed58322ca0932f333e11929a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:07 +0000
Subject: [PATCH 20/31] fix: KEG with a zero first half of the UKM source uses
 UKM 1

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..4bb9093 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -139,7 +139,7 @@ static int gost_keg(const unsigned char *ukm_source, int pkey_nid,
 
     memset(real_ukm, 0, 16);
     if (memcmp(ukm_source, real_ukm, 16) == 0)
-        real_ukm[15] = 1;
+        real_ukm[0] = 1;        /* UKM is little-endian here */
     else {
         memcpy(real_ukm, ukm_source, 16);
         BUF_reverse(real_ukm, NULL, 16);
-- 
2.43.0


From e32d9cabcebb6e9b5f3b1367d7f2795128a94719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 21/31] fix: key derivation refuses missing keys and short
 buffers

---
 gost_ec_keyx.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 4bb9093..ac5dc82 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -39,6 +39,12 @@ int VKO_compute_key(unsigned char *shared_key,
     int buf_len, half_len;
     int ret = 0;
 
+    if (pub_key == NULL || priv_key == NULL
+        || EC_KEY_get0_private_key(priv_key) == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_ERROR_COMPUTING_SHARED_KEY);
+        return 0;
+    }
+
     if ((ctx = BN_CTX_secure_new()) == NULL) {
         GOSTerr(GOST_F_VKO_COMPUTE_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -197,12 +203,29 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
     EVP_PKEY *peer_key = EVP_PKEY_CTX_get0_peerkey(ctx);
     struct gost_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
     int dgst_nid = NID_undef;
+    size_t needed;
 
     if (!data || data->shared_ukm_size == 0) {
         GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_UKM_NOT_SET);
         return 0;
     }
 
+    if (key) {
+        if (peer_key == NULL || EVP_PKEY_get0(peer_key) == NULL
+            || my_key == NULL || EVP_PKEY_get0(my_key) == NULL) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_NO_PEER_KEY);
+            return 0;
+        }
+        if (data->vko_dgst_nid)
+            needed = data->vko_dgst_nid == NID_id_GostR3411_2012_256 ? 32 : 64;
+        else
+            needed = data->shared_ukm_size == 8 ? 32 : 64;
+        if (*keylen < needed) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+            return 0;
+        }
+    }
+
     /* VKO */
     if (data->vko_dgst_nid) {
         if (!key) {
-- 
2.43.0


From 144254afdd0df5727658138cce9b7e72c4f4ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:25 +0000
Subject: [PATCH 22/31] fix: key transport with fields of a wrong length is
 refused instead of aborting

---
 gost_ec_keyx.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index ac5dc82..e986933 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -646,12 +646,17 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
         goto err;
     }
 
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
+
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
-- 
2.43.0


From f535fb8c43ffd9aab0f3e8e7c4d8c5d243a642cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:25 +0000
Subject: [PATCH 23/31] fix: 2018 key transport refuses foreign ephemeral keys
 and UKMs that are missing or of a wrong length

---
 gost_ec_keyx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index e986933..0006a6d 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -746,7 +746,8 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
    o  q * Q_eph is not equal to zero point.
 */
-    if (eph_key == NULL) {
+    if (eph_key == NULL || EVP_PKEY_base_id(eph_key) != pkey_nid
+        || EVP_PKEY_get0(eph_key) == NULL) {
        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
                GOST_R_ERROR_COMPUTING_EXPORT_KEYS);
        ret = 0;
@@ -755,11 +756,15 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
+        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) <= 0) {
             GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
             goto err;
         }
     }
+    if (data->shared_ukm_size != 32) {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
+    }
 
     if (gost_keg(data->shared_ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
-- 
2.43.0


From 3010c9938b09d338f8119208709ab8202d9dd623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:42 +0000
Subject: [PATCH 24/31] fix: key transport encryption checks its input and
 every sub-operation, frees the ephemeral key once

---
 gost_ec_keyx.c | 55 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 0006a6d..3ce1f98 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -315,8 +315,16 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     int key_is_ephemeral = 1;
     gost_ctx cctx;
     EVP_PKEY *sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
+    EC_KEY *eph = NULL;
     int res_len = 0;
 
+    if (out && key_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
+    /* only the length of these matters when it is asked for */
+    memset(crypted_key, 0, sizeof(crypted_key));
+
     if (data->shared_ukm_size) {
         memcpy(ukm, data->shared_ukm, 8);
     } else {
@@ -339,8 +347,14 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         key_is_ephemeral = 1;
         if (out) {
             sec_key = EVP_PKEY_new();
-            if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-                || !EVP_PKEY_copy_parameters(sec_key, pubk)
+            eph = EC_KEY_new();
+            if (sec_key == NULL || eph == NULL
+                || !EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), eph)) {
+                EC_KEY_free(eph);
+                GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, ERR_R_MALLOC_FAILURE);
+                goto err;
+            }
+            if (!EVP_PKEY_copy_parameters(sec_key, pubk)
                 || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
                 GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT,
                         GOST_R_ERROR_COMPUTING_SHARED_KEY);
@@ -362,7 +376,11 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             goto err;
         }
         gost_init(&cctx, param->sblock);
-        keyWrapCryptoPro(&cctx, shared_key, ukm, key, crypted_key);
+        if (!keyWrapCryptoPro(&cctx, shared_key, ukm, key, crypted_key)) {
+            GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT,
+                    GOST_R_ERROR_COMPUTING_SHARED_KEY);
+            goto err;
+        }
     }
     gkt = GOST_KEY_TRANSPORT_new();
     if (!gkt) {
@@ -388,8 +406,6 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
-        EVP_PKEY_free(sec_key);
     if (!key_is_ephemeral) {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
@@ -412,13 +428,17 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_GOST_KEY_TRANSPORT(gkt, &out)) > 0)
+        res_len = i2d_GOST_KEY_TRANSPORT(gkt, &out);
+        if (res_len > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
     OPENSSL_cleanse(shared_key, sizeof(shared_key));
+    if (key_is_ephemeral)
+        EVP_PKEY_free(sec_key);
     GOST_KEY_TRANSPORT_free(gkt);
     return ret;
  err:
@@ -477,20 +497,23 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     if (!sec_key)
     {
+      EC_KEY *eph = EC_KEY_new();
+
       sec_key = EVP_PKEY_new();
-      if (sec_key == NULL) {
+      key_is_ephemeral = 1;
+      if (sec_key == NULL || eph == NULL
+          || !EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), eph)) {
+        EC_KEY_free(eph);
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE );
         goto err;
       }
 
-      if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-          || !EVP_PKEY_copy_parameters(sec_key, pubk)
+      if (!EVP_PKEY_copy_parameters(sec_key, pubk)
           || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
             GOST_R_ERROR_COMPUTING_SHARED_KEY);
         goto err;
       }
-      key_is_ephemeral = 1;
     }
 
     if (data->shared_ukm_size == 0) {
@@ -500,6 +523,10 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         }
         data->shared_ukm_size = 32;
     }
+    if (data->shared_ukm_size != 32) {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
+    }
 
     if (gost_keg(data->shared_ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(pubk)),
@@ -557,9 +584,11 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_PSKeyTransport_gost(pst, &out)) > 0)
+        res_len = i2d_PSKeyTransport_gost(pst, &out);
+        if (res_len > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
-- 
2.43.0


From 313f24c0c56dcd65ccba6c54d3b34309153a075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:30 +0000
Subject: [PATCH 25/31] fix: signatures are encoded and accepted in the key's
 length only

---
 gost_pmeth.c | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..344660e 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -469,13 +469,15 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
 int pack_sign_cp(ECDSA_SIG *s, int order, unsigned char *sig, size_t *siglen)
 {
     const BIGNUM *sig_r = NULL, *sig_s = NULL;
+    int ok;
+
     ECDSA_SIG_get0(s, &sig_r, &sig_s);
-    *siglen = 2 * order;
-    memset(sig, 0, *siglen);
-    store_bignum(sig_s, sig, order);
-    store_bignum(sig_r, sig + order, order);
+    ok = store_bignum(sig_s, sig, order)
+        && store_bignum(sig_r, sig + order, order);
+    if (ok)
+        *siglen = 2 * order;
     ECDSA_SIG_free(s);
-    return 1;
+    return ok;
 }
 
 static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
@@ -508,6 +510,8 @@ static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
         *siglen = order;
         return 1;
     }
+    if (*siglen < (size_t)order)
+        return 0;
     unpacked_sig = gost_ec_sign(tbs, tbs_len, EVP_PKEY_get0(pkey));
     if (!unpacked_sig) {
         return 0;
@@ -529,7 +533,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
-    ECDSA_SIG_set0(sig, r, s);
+    if (r == NULL || s == NULL || !ECDSA_SIG_set0(sig, r, s)) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(r);
+        BN_free(s);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     return sig;
 }
 
@@ -539,7 +549,23 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 {
     int ok = 0;
     EVP_PKEY *pub_key = EVP_PKEY_CTX_get0_pkey(ctx);
-    ECDSA_SIG *s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
+    ECDSA_SIG *s = NULL;
+
+    /* A signature has exactly the length of the algorithm of the key */
+    if (sig && pub_key) {
+        switch (EVP_PKEY_base_id(pub_key)) {
+        case NID_id_GostR3410_2001:
+        case NID_id_GostR3410_2001DH:
+        case NID_id_GostR3410_2012_256:
+            if (siglen == 64)
+                s = unpack_cp_signature(sig, siglen);
+            break;
+        case NID_id_GostR3410_2012_512:
+            if (siglen == 128)
+                s = unpack_cp_signature(sig, siglen);
+            break;
+        }
+    }
     if (!s)
         return 0;
 #ifdef DEBUG_SIGN
@@ -549,8 +575,7 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
     BN_print_fp(stderr, ECDSA_SIG_get0_s(s));
     fprintf(stderr, "\n");
 #endif
-    if (pub_key)
-        ok = gost_ec_verify(tbs, tbs_len, s, EVP_PKEY_get0(pub_key));
+    ok = gost_ec_verify(tbs, tbs_len, s, EVP_PKEY_get0(pub_key));
     ECDSA_SIG_free(s);
     return ok;
 }
-- 
2.43.0


From 3be497bb598a082f3258b330b3240fe8c9e5f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:30 +0000
Subject: [PATCH 26/31] fix: key generation reports failure

---
 gost_pmeth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 344660e..5d286d8 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -447,8 +447,7 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2001_paramgen(ctx, pkey))
         return 0;
     ec = EVP_PKEY_get0(pkey);
-    gost_ec_keygen(ec);
-    return 1;
+    return gost_ec_keygen(ec);
 }
 
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
@@ -457,8 +456,7 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2012_paramgen(ctx, pkey))
         return 0;
 
-    gost_ec_keygen(EVP_PKEY_get0(pkey));
-    return 1;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
 /* ----------- sign callbacks --------------------------------------*/
-- 
2.43.0


From 6e77dc7aefa0e1241447cdb72cccb26f5a92d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:30 +0000
Subject: [PATCH 27/31] fix: public keys of another length are refused,
 failures while encoding and decoding are reported

---
 gost_ameth.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..203997e 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -61,6 +61,10 @@ static ASN1_STRING *encode_gost_algor_params(const EVP_PKEY *key)
     void *key_ptr = EVP_PKEY_get0((EVP_PKEY *)key);
     int result = 0;
 
+    if (!key_ptr || !EC_KEY_get0_group(key_ptr)) {
+        GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, GOST_R_KEY_PARAMETERS_MISSING);
+        goto err;
+    }
     if (!params || !gkp) {
         GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, ERR_R_MALLOC_FAILURE);
         goto err;
@@ -927,6 +931,10 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
         goto ret;
     }
+    if (octet->length != 2 * (pkey_bits_gost(pk) / 8)) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, EVP_R_DECODE_ERROR);
+        goto ret;
+    }
     databuf = OPENSSL_malloc(octet->length);
     if (!databuf) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
@@ -943,7 +951,8 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
-    if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
+    if (!pub_key
+        || !EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
     }
@@ -977,6 +986,8 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
     params = encode_gost_algor_params(pk);
+    if (params == NULL)
+        return 0;
     pval = params;
 
     order = BN_new();
@@ -1011,8 +1022,11 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
         goto err;
     }
 
-    store_bignum(X, databuf + data_len / 2, data_len / 2);
-    store_bignum(Y, databuf, data_len / 2);
+    if (!store_bignum(X, databuf + data_len / 2, data_len / 2)
+        || !store_bignum(Y, databuf, data_len / 2)) {
+        GOSTerr(GOST_F_PUB_ENCODE_GOST_EC, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
 
     BUF_reverse(databuf, NULL, data_len);
 
@@ -1039,9 +1053,13 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret < 0
+        || !X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret)) {
+        OPENSSL_free(buf);
+        ASN1_STRING_free(params);
         return 0;
-    return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
+    }
+    return 1;
 }
 
 static int pub_cmp_gost_ec(const EVP_PKEY *a, const EVP_PKEY *b)
-- 
2.43.0


From 909fe4e871a872cc39113f82d84f632d915dba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:30 +0000
Subject: [PATCH 28/31] fix: encoding a missing private key fails, failed
 encodings release what they hold

---
 gost_ameth.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 203997e..5b53a2a 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -681,7 +681,8 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     const char *pk_format = get_gost_engine_param(GOST_PARAM_PK_FORMAT);
 
     key_len = (key_len < 0) ? 0 : key_len / 8;
-    if (key_len == 0 || !(buf = OPENSSL_secure_malloc(key_len))) {
+    if (key_len == 0 || gost_get0_priv_key(pk) == NULL
+        || !(buf = OPENSSL_secure_malloc(key_len))) {
         return 0;
     }
 
@@ -717,12 +718,23 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         ASN1_STRING_free(octet);
         OPENSSL_secure_free(buf);
 
-        return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                               priv_buf, priv_len);
+        if (priv_len <= 0
+            || !PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
+                                priv_buf, priv_len)) {
+            OPENSSL_clear_free(priv_buf, priv_len > 0 ? priv_len : 0);
+            ASN1_STRING_free(params);
+            return 0;
+        }
+        return 1;
     }
 
-    return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                           buf, key_len);
+    if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
+                         buf, key_len)) {
+        OPENSSL_secure_clear_free(buf, key_len);
+        ASN1_STRING_free(params);
+        return 0;
+    }
+    return 1;
 }
 
 /* --------- printing keys --------------------------------*/
-- 
2.43.0


From 3e6a4950c3554771cdb6cb081358d1f7ba4ca930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:30 +0000
Subject: [PATCH 29/31] fix: empty, negative and overlong private keys are
 refused, failures of unmasking are reported

---
 gost_ameth.c | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 5b53a2a..7f80be3 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -198,7 +198,10 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
             EC_KEY *ec = EVP_PKEY_get0(pkey);
             if (!ec) {
                 ec = EC_KEY_new();
-                EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
+                if (!EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec)) {
+                    EC_KEY_free(ec);
+                    return 0;
+                }
             }
             if (!EC_KEY_set_private_key(ec, priv))
                 return 0;
@@ -548,6 +551,18 @@ static void pkey_free_gost_ec(EVP_PKEY *key)
 
 /* ------------------ private key functions  -----------------------------*/
 
+/* A little-endian number in secure memory */
+static BIGNUM *key_num_le(const unsigned char *buf, int len)
+{
+    BIGNUM *num = BN_secure_new();
+
+    if (!num || !BN_lebin2bn(buf, len, num)) {
+        BN_free(num);
+        return NULL;
+    }
+    return num;
+}
+
 static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
                                const unsigned char *buf, int len, int num_masks)
 {
@@ -555,7 +570,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
     const EC_KEY *key_ptr = (pk) ? EVP_PKEY_get0(pk) : NULL;
     const EC_GROUP *group = (key_ptr) ? EC_KEY_get0_group(key_ptr) : NULL;
 
-    pknum_masked = BN_lebin2bn(buf, len, BN_secure_new());
+    pknum_masked = key_num_le(buf, len);
     if (!pknum_masked)
         return NULL;
 
@@ -573,13 +588,18 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         }
 
         for (; p != buf; p -= len) {
-            BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
+            BIGNUM *mask = key_num_le(p, len);
             BN_CTX *ctx = BN_CTX_secure_new();
-
-            BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
+            int ok = mask && ctx
+                && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
             BN_free(mask);
+            if (!ok) {
+                BN_free(pknum_masked);
+                pknum_masked = NULL;
+                goto end;
+            }
         }
     }
 
@@ -614,6 +634,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -621,12 +646,12 @@ static int priv_decode_gost(EVP_PKEY *pk,
     } else if (V_ASN1_OCTET_STRING == *p) {
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
-        if (!s || ((s->length != 32) && (s->length != 64))) {
+        if (!s || s->length != expected_key_len) {
             ASN1_STRING_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = BN_lebin2bn(s->data, s->length, BN_secure_new());
+        pk_num = key_num_le(s->data, s->length);
         ASN1_STRING_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
@@ -634,7 +659,13 @@ static int priv_decode_gost(EVP_PKEY *pk,
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = ASN1_INTEGER_to_BN(priv_key, BN_secure_new());
+        pk_num = BN_secure_new();
+        if (!pk_num || !ASN1_INTEGER_to_BN(priv_key, pk_num)
+            || BN_is_negative(pk_num)
+            || BN_num_bytes(pk_num) > expected_key_len) {
+            BN_free(pk_num);
+            pk_num = NULL;
+        }
         ASN1_INTEGER_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
@@ -645,7 +676,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len <= 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
-- 
2.43.0


From 1a424b9979c3abe367f3f7c25b4d1a0309ae6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:24 +0000
Subject: [PATCH 30/31] fix: setting an engine parameter reports a failed copy
 and may be given the current value

---
 gost_ctl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 60280b1..4cf4842 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -60,6 +60,7 @@ const char *get_gost_engine_param(int param)
 int gost_set_default_param(int param, const char *value)
 {
     const char *tmp;
+    char *copy = NULL;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return 0;
     tmp = getenv(gost_envnames[param]);
@@ -70,8 +71,11 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
+    /* value may be the string stored now: copy it before releasing that */
+    if (tmp && !(copy = BUF_strdup(tmp)))
+        return 0;
     OPENSSL_free(gost_params[param]);
-    gost_params[param] = BUF_strdup(tmp);
+    gost_params[param] = copy;
 
     return 1;
 }
-- 
2.43.0


From 6520e78c6d0532875ae6f4777820db344f939186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:43 +0000
Subject: [PATCH 31/31] fix: gost12sum does not look before the start of an
 empty line

---
 gost12sum.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..40cf538 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -180,9 +180,8 @@ int main(int argc, char **argv)
             if (!fgets(filename, PATH_MAX, stdin))
                 break;
             for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
+                *--end = 0;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
@@ -261,8 +260,8 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
             goto nextline;
-- 
2.43.0

