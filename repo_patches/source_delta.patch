From 30f62d6c7d7d4b2e68ed0900d3d873412df575b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:54 +0000
Subject: [PATCH 01/51] fix: padding helpers no longer realloc the caller's
 pointer by value

The padding helpers reallocated dst through a by-value pointer, so whenever
realloc moved the block the caller kept using freed memory (CBC encryption
of any message that is not a multiple of 16 bytes). They now write into the
caller's buffer, and CBC allocates the padded length (and frees it).
---
 include/wbcrypto/utils.h | 8 ++++----
 src/modes/cbc128.c       | 7 ++++++-
 src/utils/padding.c      | 4 ----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/wbcrypto/utils.h b/include/wbcrypto/utils.h
index 730ac81..d49ad96 100644
--- a/include/wbcrypto/utils.h
+++ b/include/wbcrypto/utils.h
@@ -15,7 +15,7 @@
  * reduce: delete bits larger than 16byte
  * @param src initial key
  * @param srclen initial key length
- * @param dst padding key, must be init
+ * @param dst padding key, must have room for 16 bytes
  * @return padding key length
  */
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst);
@@ -26,7 +26,7 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
  * reduce: delete bits larger than 16byte
  * @param src initial key
  * @param srclen initial key length
- * @param dst padding key, must be init
+ * @param dst padding key, must have room for 16 bytes
  * @return padding key length
  */
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst);
@@ -35,7 +35,7 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
  * expand the msg with #pkcs7 standard
  * @param src msg
  * @param srclen msg length
- * @param dst padding msg, must be init
+ * @param dst padding msg, must have room for the padding msg length
  * @return padding msg length
  */
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst);
@@ -52,7 +52,7 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen);
  * remove the msg with #pkcs7 expand, return the removed length
  * @param src expanded msg
  * @param srclen expanded msg length
- * @param dst removed msg, must be init
+ * @param dst removed msg, must have room for the removed msg length
  * @return removed msg length
  */
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst);
diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..2b07f2a 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -5,7 +5,11 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
     int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
+    unsigned char *padded = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen) + 1);
+    unsigned char *afin = padded;
+    if(padded==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
@@ -40,6 +44,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(padded);
     return ret;
 }
 
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..4477f5d 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -2,7 +2,6 @@
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -24,7 +23,6 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -46,7 +44,6 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -66,7 +63,6 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
-- 
2.43.0


From 9c943154d2714fd157a08420f0a0bb4fcc477709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:54 +0000
Subject: [PATCH 02/51] fix: strip PKCS#7 padding only when the whole padding
 is present

The unpadding helpers looked at the last byte only: block-aligned messages
(which get no padding) ending in any byte 0x01..0x10 lost their tail on CBC
decryption, and an empty input read src[-1].
---
 src/utils/padding.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index 4477f5d..b5a2ba8 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -58,11 +58,7 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = (int)src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
-        pad_num = 0;
-    }
-    afpad_len = srclen - pad_num;
+    int afpad_len = WBCRYPTO_padding_pkcs7_separate_length(src, srclen);
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
@@ -74,10 +70,16 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    int pad_num = srclen > 0 ? src[srclen-1] : 0, afpad_len, i;
+    if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
+    // only strip a complete padding: pad_num bytes of value pad_num
+    for(i=0;i<pad_num;i++){
+        if(src[srclen-1-i] != pad_num){
+            pad_num = 0;
+        }
+    }
     afpad_len = srclen - pad_num;
     return afpad_len;
 }
-- 
2.43.0


From f281df7c5c4e217cb57b429dbbf4193a8df96fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:46 +0000
Subject: [PATCH 03/51] fix: AES contexts pad short keys and can decrypt

Only an encryption schedule was set up, so aes_decrypt and CBC decryption
returned garbage; and the caller's key was read for 16 bytes whatever its
length. Short keys are now PKCS#7-extended as for SM4.
---
 include/wbcrypto/aes.h | 1 +
 src/aes/aes.c          | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..bbefd17 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -10,6 +10,7 @@ extern "C" {
 
     struct aes_context {
         AES_KEY aes_key;
+        AES_KEY aes_dec_key;
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..77a2ada 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -17,10 +17,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +30,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From b4ccef592f8c63a00c1007d8087cfab72ae20656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:46 +0000
Subject: [PATCH 04/51] fix: white-box AES table generation honours the key
 length

Keys shorter than 16 bytes were over-read, so the tables depended on
whatever followed the key in memory.
---
 src/wbaes/wbaes.c                 | 4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   | 4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..ff818e9 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -20,7 +20,9 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t padkey[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);
+    expandKey(padkey, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..d7e7fb4 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -5,7 +5,9 @@ void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, con
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t padkey[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);
+    expandKey(padkey, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..17f6c9a 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -31,7 +31,9 @@ void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t padkey[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);
+    expandKey(padkey, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0


From 7b39f0cbd32db7405b59a93c618ab503a9a1ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 05/51] fix: fpe_app_init no longer keys the cipher with stack
 garbage

Keys shorter than 16 bytes left the rest of the internal key uninitialised,
so two contexts made from the same key could disagree.
---
 src/fpe_app/init.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..bf40ce6 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,9 +5,8 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
         WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
-- 
2.43.0


From 6742947e1665f95befc15c1e729c7f75ef644809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:10 +0000
Subject: [PATCH 06/51] fix: FPE contexts extend a short tweak with zeros

FF3 reads 8 and FF3-GMAC 16 bytes of tweak; with a shorter (or NULL) tweak
they read past the copy, so results depended on heap contents.
---
 src/fpe/init.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..aec3b8c 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -9,6 +9,7 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
         goto cleanup;
     }
     if (radix < 2 || radix > 36) {
+        free(ctx);
         goto cleanup;
     }
 
@@ -16,8 +17,15 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
-    memcpy(ctx->tweak, tweak, twklen);
+    // FF3 uses 8 and FF3-GMAC uses 16 bytes of tweak, whatever its length: a shorter tweak is extended with zeros
+    ctx->tweak = (unsigned char *) calloc(1, twklen < 16 ? 16 : twklen);
+    if (!ctx->tweak) {
+        free(ctx);
+        goto cleanup;
+    }
+    if (twklen > 0) {
+        memcpy(ctx->tweak, tweak, twklen);
+    }
     return ctx;
 cleanup:
     return NULL;
-- 
2.43.0


From 737215c67a75e6cc6d923ab9e034007429f9793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:10 +0000
Subject: [PATCH 07/51] fix: FF1-CMAC chaining value is initialised for
 single-block inputs

When Q is a single block the value before the last block (E(P)) was never
stored and the tag was computed from stack garbage.
---
 src/fpe/ff1_cmac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..a72e707 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -120,6 +120,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -291,6 +292,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-- 
2.43.0


From d35c4d0334c765e32f34efbce18baa2ac4342544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 08/51] fix: FPE rejects strings it cannot encrypt

Characters outside the radix' alphabet were mapped to out-of-range digits
and encrypted to something that does not decrypt (still returning 1), and
too short strings aborted the process. Both now return 0.
---
 src/fpe/ff1.c      |  6 ++++++
 src/fpe/ff1_cmac.c |  6 ++++++
 src/fpe/ff3.c      |  6 ++++++
 src/fpe/ff3_gmac.c |  6 ++++++
 src/fpe/fpe_locl.c | 19 +++++++++++++++++++
 src/fpe/fpe_locl.h |  2 ++
 6 files changed, 45 insertions(+)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..dbd056f 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 2)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -155,6 +158,9 @@ cleanup:
 
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 2)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index a72e707..26dcee1 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -29,6 +29,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 2)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -202,6 +205,9 @@ cleanup:
 
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 2)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..b2f2185 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 1)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -84,6 +87,9 @@ cleanup:
 
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix, 1)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..9b1dacb 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -81,6 +81,9 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 1)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -178,6 +181,9 @@ cleanup:
 
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix, 1)) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/fpe_locl.c b/src/fpe/fpe_locl.c
index 74b8857..f6821c0 100644
--- a/src/fpe/fpe_locl.c
+++ b/src/fpe/fpe_locl.c
@@ -36,6 +36,25 @@ void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *
     */
 }
 
+// 1 if input is at least minlen characters, all of them digits of the radix (0-9a-z), otherwise 0
+int check_chars(const char *input, unsigned int radix, size_t minlen) {
+    size_t len = strlen(input);
+    if (len < minlen)
+        return 0;
+    for (size_t i = 0; i < len; ++i) {
+        unsigned int digit;
+        if (input[i] >= '0' && input[i] <= '9')
+            digit = input[i] - '0';
+        else if (input[i] >= 'a' && input[i] <= 'z')
+            digit = input[i] - 'a' + 10;
+        else
+            return 0;
+        if (digit >= radix)
+            return 0;
+    }
+    return 1;
+}
+
 void map_chars(const unsigned char str[], unsigned int result[]) {
     int len = strlen(str);
 
diff --git a/src/fpe/fpe_locl.h b/src/fpe/fpe_locl.h
index 050dd1b..cc03697 100644
--- a/src/fpe/fpe_locl.h
+++ b/src/fpe/fpe_locl.h
@@ -18,6 +18,8 @@
 
 void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
 
+int check_chars(const char *input, unsigned int radix, size_t minlen);
+
 void map_chars(const unsigned char str[], unsigned int result[]);
 
 void inverse_map_chars(unsigned result[], unsigned char str[], int len);
-- 
2.43.0


From 2868c554ab90d5d8d026b9b417c02662e1346b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 09/51] fix: FPE application functions leave room for the
 terminator and report failures

The FPE output is NUL-terminated, so the temporary was written one byte past
its end; and a refused input was reported as success with garbage output.
---
 src/fpe_app/cn_utf8.c | 4 ++--
 src/fpe_app/idcard.c  | 6 +++---
 src/fpe_app/phone.c   | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..6c30484 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -21,7 +21,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
@@ -62,7 +62,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     char *ori_add = cn;
     char *ans_p = ans;
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..9b01847 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -10,7 +10,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     int ret = 0;
     int len = strlen(idcard);
     int i, j, k, tweak_len = 0;
-    if (idcard[len - 1] == 'X') {
+    if (len > 0 && idcard[len - 1] == 'X') {
         len--;
     }
     if (strcmp(sample, "") != 0) {
@@ -22,7 +22,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
@@ -45,7 +45,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..a844942 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -18,7 +18,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
@@ -39,7 +39,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
-- 
2.43.0


From 28e13c1abc6e704b407a59f1050255f3492dbe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:04 +0000
Subject: [PATCH 10/51] fix: Chinese FPE refuses characters and samples it
 cannot represent

Characters outside U+4E00..U+9EFF left the digits uninitialised (output not
decryptable, still returning 1) and a sample with another number of
characters than the text ran out of the buffers.
---
 src/fpe_app/cn_utf8.c   |  3 +++
 src/fpe_app/utf8_util.c | 25 ++++++++++++++++++++++++-
 src/fpe_app/utf8_util.h |  3 +++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 6c30484..8c01abb 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -11,6 +11,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     int len = strlen(cn) / 3;
     int i, tweak_len = 0;
 
+    if (!utf8CheckCn(cn, sample)) {
+        return ret;
+    }
     for (i = 0; i < strlen(sample); i++) {
         if (sample[i] == '*') {
             ++tweak_len;
diff --git a/src/fpe_app/utf8_util.c b/src/fpe_app/utf8_util.c
index eb404ac..32f175b 100644
--- a/src/fpe_app/utf8_util.c
+++ b/src/fpe_app/utf8_util.c
@@ -92,4 +92,27 @@ int utf8CharDuodecimalToInt(const char duo[]) {
         result = (result) * 12 + value;
     }
     return result;
-}
\ No newline at end of file
+}
+
+int utf8CheckCn(const char *cn, const char *sample) {
+    const char *s = sample;
+    if (strlen(cn) % 3 != 0) {
+        return 0;
+    }
+    for (; *cn != '\0'; cn += 3) {
+        int uc_int = utf8Uint32ToInt(utf8CharToUint32((char *) cn));
+        if ((cn[0] & 0xf0) != 0xe0 || (cn[1] & 0xc0) != 0x80 || (cn[2] & 0xc0) != 0x80
+            || uc_int < 0 || uc_int > 20735) {
+            return 0;
+        }
+        if (*sample == '\0') {
+            continue;
+        }
+        // every character needs its '*' or its 3-byte character in the sample
+        if (*s == '\0' || (*s != '*' && (s[1] == '\0' || s[2] == '\0'))) {
+            return 0;
+        }
+        s += *s == '*' ? 1 : 3;
+    }
+    return *s == '\0' || *sample == '\0';
+}
diff --git a/src/fpe_app/utf8_util.h b/src/fpe_app/utf8_util.h
index 9cdd76a..2dd905b 100644
--- a/src/fpe_app/utf8_util.h
+++ b/src/fpe_app/utf8_util.h
@@ -22,4 +22,7 @@ void utf8IntToCharDuodecimal(int dec, char result[]);
 
 int utf8CharDuodecimalToInt(const char duo[]);
 
+// 1 if cn holds only 3-byte characters U+4E00..U+9EFF and sample (if not empty) has one cell for each, otherwise 0
+int utf8CheckCn(const char *cn, const char *sample);
+
 #endif //WBCRYPTO_FPE_UTF8_UTIL_H
-- 
2.43.0


From 605cbae2b5bd8ee613f9a4ec0c78fa068025f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:21 +0000
Subject: [PATCH 11/51] fix: UDF reports errors instead of returning plaintext
 or overflowing

error points to a single byte, but whole messages (with the plaintext) were
copied there; NULL arguments were dereferenced, unterminated arguments
over-read, results longer than 255 bytes overflowed the result buffer, and a
value the library refuses was returned unencrypted.
---
 udf/mysql5.cpp | 53 +++++++++++++++++++++++++++++-----------------
 udf/mysql8.cpp | 57 +++++++++++++++++++++++++++++++-------------------
 2 files changed, 69 insertions(+), 41 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index ce4bbf7..7ba0dec 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -55,13 +56,26 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
-    char *sample;
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+
+    // the arguments need not be nul-terminated
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = &plain_str[0];
+    const char *mode = mode_str.c_str();
+    char *sample = NULL;
     int plain_len = args->lengths[0];
+    int ok = 0;
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = &sample_str[0];
     }
 
     memcpy(initid->ptr, plain, plain_len);
@@ -72,40 +86,41 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1; // the length of phone should be 11
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1; // the length of id-card should be 18
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
-    *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
-
-    // char ret[1024];
-    // sprintf(ret, "%s", result);
+    if (!ok) {
+        *error = 1; // plain or sample can not be encrypted in this mode
+        return NULL;
+    }
 
-    return result;
+    // result only has room for 255 bytes
+    *length = plain_len;
+    return initid->ptr;
 }
\ No newline at end of file
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 70ed153..5bd4faf 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -55,17 +56,28 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
-    char *sample;
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+
+    // the arguments need not be nul-terminated
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = &plain_str[0];
+    const char *mode = mode_str.c_str();
+    char *sample = NULL;
     int plain_len = args->lengths[0];
+    int ok = 0;
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = &sample_str[0];
         if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
-            char msg[200];
-            sprintf(msg, "sample should be as long as plain, plain: %s, sample: %s", plain, sample);
-            strcpy(error, msg);
+            *error = 1; // sample should be as long as plain
             return NULL;
         }
     }
@@ -78,40 +90,41 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1; // the length of phone should be 11
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1; // the length of id-card should be 18
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
-    *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
-
-    // char ret[1024];
-    // sprintf(ret, "%s", result);
+    if (!ok) {
+        *error = 1; // plain or sample can not be encrypted in this mode
+        return NULL;
+    }
 
-    return result;
+    // result only has room for 255 bytes
+    *length = plain_len;
+    return initid->ptr;
 }
\ No newline at end of file
-- 
2.43.0


From ea6c631eda49738d01d81d7a36762eec511f7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:39 +0000
Subject: [PATCH 12/51] fix: setting a new IV forgets the previous message's
 AAD length

A GCM (or white-box GCM) context reused for a message without AAD put the
AAD length of the previous message into the tag.
---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..dc65f3c 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..ffa6a9d 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..a9510a8 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
-- 
2.43.0


From 25a33a2294e231cb66ac190a9d89f106660ce1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:39 +0000
Subject: [PATCH 13/51] fix: white-box GCM decodes the tag of an empty message

With neither data nor AAD the tag was the still encoded cipher output: it
differed from AES-GCM's and exposed the encoding.
---
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 2 +-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index ffa6a9d..0b805f0 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -264,7 +264,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index a9510a8..559e32c 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -287,7 +287,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    {
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-- 
2.43.0


From 1355ecd8b4d1f4ccc38a3d6c9f0f3ab75fd4818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:39 +0000
Subject: [PATCH 14/51] fix: masked white-box GCM computes the same tag on
 decryption

The decryption tag was computed through the unmasking boxes and never
matched the encryption tag, so nothing could be authenticated.
---
 src/wbaes/wbaes_wbgcm_mask_mode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 559e32c..a1c8edb 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -299,9 +299,13 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
         wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
         for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+            // the decryption boxes take masked input and give unmasked output: mask both to get the tag of encryption
+            buff_change[i] = key->GBOX_TypeI[i][key->encMode ? ctx->buf[i] : MatMulNumM8(key->L1[i], ctx->buf[i])];
 //            tag[i] ^= ctx->buf[i];
             tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+            if (!key->encMode) {
+                tag[i] = MatMulNumM8(key->L1[i], tag[i]);
+            }
         }
     }
     return 1;
-- 
2.43.0


From 6de77cfa2d838dc9a356cd469fae3a7d7c580518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 15/51] fix: encrypted file header no longer leaks 4 bytes of
 stack

The length is an int, but 8 bytes were copied from it into the header.
---
 src/modes/gcmfile.c               | 2 +-
 src/wbaes/wbaes_wbgcm_ee_file.c   | 2 +-
 src/wbaes/wbaes_wbgcm_mask_file.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..c3205b7 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -61,7 +61,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..f6fc401 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -30,7 +30,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..9359796 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -30,7 +30,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
-- 
2.43.0


From c6a867e37e4ca3531760cca11dbb1176809eafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 16/51] fix: file encryption survives files that cannot be
 opened

On a missing input or unwritable output the cleanup closed uninitialised
FILE pointers (and leaked the open ones).
---
 src/modes/gcmfile.c               | 18 ++++++++++--------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 18 ++++++++++--------
 src/wbaes/wbaes_wbgcm_mask_file.c | 18 ++++++++++--------
 3 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index c3205b7..13b9d7e 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -35,7 +35,7 @@ cleanup:
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
     int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -82,7 +82,6 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     // Finish encrypt
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
 
     // #2 Write cipher file
     // add tag
@@ -101,9 +100,12 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
@@ -112,7 +114,7 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     int ret = 0;
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -166,8 +168,8 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index f6fc401..aa188c6 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -4,7 +4,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -51,7 +51,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     // Finish encrypt
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
 
     // #2 Write cipher file
     // add tag
@@ -70,9 +69,12 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
@@ -82,7 +84,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -136,7 +138,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 9359796..3090bc2 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -4,7 +4,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -51,7 +51,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     // Finish encrypt
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
 
     // #2 Write cipher file
     // add tag
@@ -70,9 +69,12 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
@@ -82,7 +84,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -136,7 +138,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 68063062d34b62c2b1fd34987ec0b3376e0a2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 17/51] fix: file decryption verifies the tag

The tag was read from the file, overwritten and never compared, so modified
files decrypted to garbage with a success return; truncated headers were
accepted too. A file that fails verification leaves an empty output.
---
 src/modes/gcmfile.c               | 12 +++++++++---
 src/wbaes/wbaes_wbgcm_ee_file.c   | 12 +++++++++---
 src/wbaes/wbaes_wbgcm_mask_file.c | 12 +++++++++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 13b9d7e..957d452 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -114,6 +114,7 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     int ret = 0;
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
+    unsigned char file_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
@@ -124,13 +125,13 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(file_tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -146,7 +147,6 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -165,10 +165,16 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(ctx->tag, file_tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
     if (infp != NULL) fclose(infp);
+    // do not leave unauthenticated plaintext behind
+    if (ret == 0 && outfp != NULL) outfp = freopen(outfpath, "wb", outfp);
     if (outfp != NULL) fclose(outfp);
     return ret;
 }
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index aa188c6..203af8c 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -83,6 +83,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int ret = 0;
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
+    unsigned char file_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *outfp = NULL;
 
@@ -94,13 +95,13 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(file_tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -116,7 +117,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -135,10 +135,16 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(tag, file_tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
     if (infp != NULL) fclose(infp);
+    // do not leave unauthenticated plaintext behind
+    if (ret == 0 && outfp != NULL) outfp = freopen(outfpath, "wb", outfp);
     if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 3090bc2..0415efc 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -83,6 +83,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int ret = 0;
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
+    unsigned char file_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *outfp = NULL;
 
@@ -94,13 +95,13 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(file_tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -116,7 +117,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -135,10 +135,16 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(tag, file_tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
     if (infp != NULL) fclose(infp);
+    // do not leave unauthenticated plaintext behind
+    if (ret == 0 && outfp != NULL) outfp = freopen(outfpath, "wb", outfp);
     if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 790d52fed5862479a363892cb0b50289cfc3d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 18/51] fix: file encryption reports I/O and cipher errors

Read, write and block cipher failures were ignored: a full disk gave a
truncated file and a success return.
---
 src/modes/gcmfile.c               | 11 ++++++++---
 src/wbaes/wbaes_wbgcm_ee_file.c   |  7 ++++++-
 src/wbaes/wbaes_wbgcm_mask_file.c |  7 ++++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 957d452..1b3207d 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -69,7 +69,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size));
         fwrite(out, sizeof(unsigned char), block_size, tmpfp);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -97,6 +97,9 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         fwrite(buf, sizeof(unsigned char), block_size, outfp);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    if (ferror(infp) || ferror(tmpfp) || fflush(outfp) != 0 || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+    }
 
     ret = 1;
 cleanup:
@@ -152,7 +155,7 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size));
         read_size += block_size;
         fwrite(out, sizeof(unsigned char), block_size, outfp);
 
@@ -160,7 +163,9 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0 || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 203af8c..94ae272 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -66,6 +66,9 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         fwrite(buf, sizeof(unsigned char), block_size, outfp);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    if (ferror(infp) || ferror(tmpfp) || fflush(outfp) != 0 || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+    }
 
     ret = 1;
 cleanup:
@@ -130,7 +133,9 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0 || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 0415efc..2aa9a3e 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -66,6 +66,9 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         fwrite(buf, sizeof(unsigned char), block_size, outfp);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    if (ferror(infp) || ferror(tmpfp) || fflush(outfp) != 0 || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+    }
 
     ret = 1;
 cleanup:
@@ -130,7 +133,9 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0 || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
-- 
2.43.0


From 51d375f6ebbfb8437f6261db2f1ab19a61006ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:53 +0000
Subject: [PATCH 19/51] fix: parallel GCM threads no longer share their inner
 loop index

j was shared by the team, so threads skipped or repeated bytes of each
other's blocks.
---
 src/modes/gcm_parallel.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..2650eb3 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -10,7 +10,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     }else{
         len=inlen;
     }
-    size_t i, j; // local loop iterator
+    size_t i, j; // local loop iterator, j has to be private to each thread
     block128_f block = ctx->block;
     void *key = ctx->key;
 
@@ -33,7 +33,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
@@ -77,7 +77,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     }else{
         len=inlen;
     }
-    size_t i, j; // local loop iterator
+    size_t i, j; // local loop iterator, j has to be private to each thread
     block128_f block = ctx->block;
     void *key = ctx->key;
 
@@ -100,7 +100,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
-- 
2.43.0


From beda6d0db353f945d2b9d48b628f9f089742be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:53 +0000
Subject: [PATCH 20/51] fix: parallel GCM decryption authenticates the
 ciphertext

It hashed the plaintext it had just produced, so its tag never matched the
one of encryption.
---
 src/modes/gcm_parallel.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 2650eb3..9e9d886 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -95,6 +95,20 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         for (j = 0; j < 16; j++)
             y_arr[i][j] = ctx->y[j];
     }
+    //unable to parallel, and has to precede the decryption in case it is in place
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
+    }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
@@ -116,20 +130,6 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             }
         }
     }
-    //unable to parallel
-    for (i = 0; i < len_s; i++)
-    {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
-    }
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From badcc882297fa4a673aa0a8c6d7bd50ff5cd349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:53 +0000
Subject: [PATCH 21/51] fix: parallel GCM handles an empty message

(0 - 1) / 16 + 1 is one block: the counter was advanced and 16 bytes were
read and written out of bounds.
---
 src/modes/gcm_parallel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 9e9d886..23cf3f5 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -16,7 +16,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (inlen + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
@@ -83,7 +83,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (inlen + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
-- 
2.43.0


From 3d5f0bf26881345dfe1840f8275515d039437953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:53 +0000
Subject: [PATCH 22/51] fix: parallel GCM reports block cipher failures and
 frees its counters

---
 src/modes/gcm_parallel.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 23cf3f5..ccca97f 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -13,6 +13,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     size_t i, j; // local loop iterator, j has to be private to each thread
     block128_f block = ctx->block;
     void *key = ctx->key;
+    int ok = 1; // cleared by any thread whose block cipher fails
 
     ctx->len += len; // bump the GCM context's running length count
 
@@ -42,7 +43,11 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                ok = 0;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
@@ -63,7 +68,10 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         }
         gcm_mult(ctx, ctx->buf, ctx->buf);
     }
-    ret=1;
+    for (i = 0; i < len_s; i++)
+        free(y_arr[i]);
+    free(y_arr);
+    ret=ok;
 cleanup:
     return ret;
 }
@@ -80,6 +88,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     size_t i, j; // local loop iterator, j has to be private to each thread
     block128_f block = ctx->block;
     void *key = ctx->key;
+    int ok = 1; // cleared by any thread whose block cipher fails
 
     ctx->len += len; // bump the GCM context's running length count
 
@@ -123,14 +132,21 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                ok = 0;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
-    ret=1;
+    for (i = 0; i < len_s; i++)
+        free(y_arr[i]);
+    free(y_arr);
+    ret=ok;
 cleanup:
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From d5ba759819768b4c569e0a35572d49751212fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:22 +0000
Subject: [PATCH 23/51] fix: one-shot SM3 returns success

The function fell off its end, so its documented result was undefined.
---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From 7d84fdae7a424d09847568bf23f9556021428263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:22 +0000
Subject: [PATCH 24/51] fix: keystore reports missing, short and unwritable
 files

fclose(NULL) crashed when the file could not be opened, and a truncated
key file or a full disk was reported as success.
---
 src/utils/keystore.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..2c52feb 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -7,10 +7,14 @@ int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(fread(ctx , 1, ctx_len, rkey)!=ctx_len){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
@@ -21,9 +25,13 @@ int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(fwrite( ctx, 1, ctx_len, wkey)!=ctx_len){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0){
+        ret=0;
+    }
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 2c1b84eb15b4bdc242461d3ab50a57dba0b5bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:22 +0000
Subject: [PATCH 25/51] fix: white-box SM4 dummy rounds are identities

Two adjacent groups of dummy rounds shifted the round keys of every
later round, and the dummy rounds used uninitialised tables.
---
 src/wbsm4/wbsm4_gen.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..e2ca63d 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
     int point;
-    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
+    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -230,15 +226,21 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 }
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
+            point++;
         }else{
-            flag=1;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
+                }
+            }
+            for(j=0;j<4;j++){
+                for(x=0;x<256;x++){
+                    wbsm4_ctx->MM[i][0][j][x]=0;
+                    wbsm4_ctx->MM[i][1][j][x]=0;
+                    wbsm4_ctx->MM[i][2][j][x]=0;
                 }
             }
-//            identityAff32(&wbsm4_ctx->CC[i]);
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->CC[i][j][x] = x << (24 - j * 8);
-- 
2.43.0


From 97cbcefcb1e74bea99b012cbb7e6dd933d799b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:02 +0000
Subject: [PATCH 26/51] fix: white-box SM4 key files that cannot be opened or
 written are reported

fclose(NULL) crashed on a path that cannot be opened, and errors that
only appear when the buffer is flushed were reported as success.
---
 src/wbsm4/wbsm4_exkey.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..c97a1f5 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -43,7 +43,9 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL && fclose(wkey)!=0){
+        ret=0;
+    }
     return ret;
 }
 
@@ -95,7 +97,9 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
-- 
2.43.0


From 48943f315e2f1d29ab7ef0baed986801b7b7eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:02 +0000
Subject: [PATCH 27/51] fix: loading a white-box SM4 key file sizes the tables
 by the file

The number of rounds in the file was used with tables allocated for the
number of rounds of the context, overflowing them, and a rejected file
left the context with the wrong number of rounds.
---
 src/wbsm4/wbsm4_exkey.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index c97a1f5..644e78b 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -1,5 +1,12 @@
 #include "wbsm4_local.h"
 
+/* the most rounds a stored table set may claim, far above any useful number of dummy rounds */
+#define WBSM4_MAX_ROUNDS 4096
+
+static int wbsm4_rounds_valid(int rounds){
+    return rounds>=32 && rounds<=WBSM4_MAX_ROUNDS && (rounds-32)%4==0;
+}
+
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
     FILE *wkey;
@@ -53,6 +60,9 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
     FILE *rkey;
     int i,j,k,l;
+    int rounds, encmode;
+    // the tables are sized by the file, not by the context they are loaded into
+    WBCRYPTO_wbsm4_context *loaded = NULL;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_FILE_IO);
@@ -63,40 +73,46 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     if(strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
-       ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
+    if(!fread(&rounds, sizeof(int), 1, rkey)
+       ||!fread(&encmode, sizeof(int), 1, rkey)
+       ||!wbsm4_rounds_valid(rounds)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    for (i = 0;  i< ctx->rounds; i++) {
+    if((loaded = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4))==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    for (i = 0;  i< rounds; i++) {
         for (j = 0;  j<3 ; j++) {
             for (k = 0;  k<4 ; k++) {
                 for (l = 0;  l<256 ; l++) {
-                    if(!fread(&ctx->MM[i][j][k][l], sizeof(uint32_t), 1, rkey)){
+                    if(!fread(&loaded->MM[i][j][k][l], sizeof(uint32_t), 1, rkey)){
                         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
                     }
                 }
             }
         }
     }
-    for (i = 0;  i< ctx->rounds; i++) {
+    for (i = 0;  i< rounds; i++) {
         for (j = 0;  j<4 ; j++) {
             for (k = 0;  k<256 ; k++) {
                 if(i<4) {
-                    if(!fread(&ctx->SE[i][j][k], sizeof(uint32_t), 1, rkey)
-                       ||!fread(&ctx->FE[i][j][k], sizeof(uint32_t), 1, rkey)){
+                    if(!fread(&loaded->SE[i][j][k], sizeof(uint32_t), 1, rkey)
+                       ||!fread(&loaded->FE[i][j][k], sizeof(uint32_t), 1, rkey)){
                         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
                     }
                 }
-                if(!fread(&ctx->CC[i][j][k], sizeof(uint32_t), 1, rkey)
-                   ||!fread(&ctx->DD[i][j][k], sizeof(uint32_t), 1, rkey)
-                   ||!fread(&ctx->Table[i][j][k], sizeof(uint32_t), 1, rkey)){
+                if(!fread(&loaded->CC[i][j][k], sizeof(uint32_t), 1, rkey)
+                   ||!fread(&loaded->DD[i][j][k], sizeof(uint32_t), 1, rkey)
+                   ||!fread(&loaded->Table[i][j][k], sizeof(uint32_t), 1, rkey)){
                     WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
                 }
             }
         }
     }
+    *ctx = *loaded;
     ret=1;
 cleanup:
+    free(loaded);
     if(rkey!=NULL){
         fclose(rkey);
     }
-- 
2.43.0


From aa541497c273096908eed60280584d8eee9a809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:02 +0000
Subject: [PATCH 28/51] fix: white-box SM4 key bytes contain the tables

The exported bytes held the addresses of the tables, not their contents,
so they could not be used in another process or once the exporting
context was released.
---
 src/wbsm4/wbsm4_exkey.c | 71 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 12 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 644e78b..5359390 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -119,16 +119,52 @@ cleanup:
     return ret;
 }
 
+/* copies len bytes of a table between the context and the stream and advances the stream */
+static void wbsm4_move(uint8_t **stream, void *table, size_t len, int tostream){
+    if(tostream){
+        memcpy(*stream, table, len);
+    }else{
+        memcpy(table, *stream, len);
+    }
+    *stream += len;
+}
+
+static void wbsm4_move_tables(uint8_t **stream, WBCRYPTO_wbsm4_context *ctx, int tostream){
+    int i,j,k;
+    wbsm4_move(stream, ctx->SE, sizeof(ctx->SE), tostream);
+    wbsm4_move(stream, ctx->FE, sizeof(ctx->FE), tostream);
+    for (i = 0; i < ctx->rounds; i++) {
+        for (j = 0; j < 3; j++) {
+            for (k = 0; k < 4; k++) {
+                wbsm4_move(stream, ctx->MM[i][j][k], 256*sizeof(uint32_t), tostream);
+            }
+        }
+        for (j = 0; j < 4; j++) {
+            wbsm4_move(stream, ctx->CC[i][j], 256*sizeof(uint32_t), tostream);
+            wbsm4_move(stream, ctx->DD[i][j], 256*sizeof(uint32_t), tostream);
+            wbsm4_move(stream, ctx->Table[i][j], 256*sizeof(uint32_t), tostream);
+        }
+    }
+}
+
+/* length | rounds | encmode | tables */
+static size_t wbsm4_stream_length(int rounds){
+    return sizeof(uint32_t) + 2*sizeof(int)
+           + (2*4*4*256 + (size_t)rounds*6*4*256)*sizeof(uint32_t);
+}
+
 int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
-    int ks_len = 0;
+    uint32_t ks_len = wbsm4_stream_length(ctx->rounds);
 
-    ks_len = sizeof(struct wbsm4_context);
-    ks_len += sizeof(uint32_t);
-    *kstream = malloc(ks_len);
-    *((uint32_t *)*kstream) = ks_len;
-    uint8_t* ds  = *kstream + sizeof(uint32_t);
-    memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    if((*kstream = malloc(ks_len))==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    uint8_t *ptr = (uint8_t *)*kstream;
+    wbsm4_move(&ptr, &ks_len, sizeof(ks_len), 1);
+    wbsm4_move(&ptr, (void *)&ctx->rounds, sizeof(int), 1);
+    wbsm4_move(&ptr, (void *)&ctx->encmode, sizeof(int), 1);
+    wbsm4_move_tables(&ptr, (WBCRYPTO_wbsm4_context *)ctx, 1);
 
     ret=1;
 cleanup:
@@ -137,14 +173,25 @@ cleanup:
 
 int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
     int ret=0;
+    uint32_t ks_len;
+    int rounds, encmode;
+    WBCRYPTO_wbsm4_context *loaded = NULL;
 
-    const uint8_t  *ptr = kstream;
-    ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
+    uint8_t *ptr = (uint8_t *)kstream;
+    wbsm4_move(&ptr, &ks_len, sizeof(ks_len), 0);
+    wbsm4_move(&ptr, &rounds, sizeof(int), 0);
+    wbsm4_move(&ptr, &encmode, sizeof(int), 0);
+    if(!wbsm4_rounds_valid(rounds) || ks_len!=wbsm4_stream_length(rounds)){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+    if((loaded = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4))==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    wbsm4_move_tables(&ptr, loaded, 0);
+    *ctx = *loaded;
 
     ret=1;
 cleanup:
+    free(loaded);
     return ret;
 }
-
-
-- 
2.43.0


From 9c2a3450bf6ab9fdaa0e1a86aa90bb86c52ebbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:02 +0000
Subject: [PATCH 29/51] fix: CBC decryption refuses input that is not whole
 blocks

CBC ciphertext is always whole blocks; a shorter last block was read
beyond its end and decrypted to garbage reported as success.
---
 src/modes/cbc128.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index 2b07f2a..bcf5e96 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -55,6 +55,8 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
     int ret=0,len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
+    }else if(inlen%16!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_ERR_INBLOCK_SIZE_WARN);
     }else{
         len=inlen;
     }
-- 
2.43.0


From 35f93230830c4c0d612d5912cd517acbb32df507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:14 +0000
Subject: [PATCH 30/51] fix: GCM handles chunks of 2 GiB and more

The length of a chunk was kept in an int: a chunk of 2 GiB was reported
as encrypted but left untouched.
---
 src/modes/gcm128.c                | 4 ++--
 src/modes/gcm_parallel.c          | 4 ++--
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 4 ++--
 src/wbaes/wbaes_wbgcm_mask_mode.c | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dc65f3c..11fd533 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -163,7 +163,7 @@ cleanup:
 int WBCRYPTO_gcm_encrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len; int ret=0;    // our error return if the AES encrypt fails
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -212,7 +212,7 @@ cleanup:
 int WBCRYPTO_gcm_decrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len; int ret=0;    // our error return if the AES encrypt fails
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index ccca97f..4bcfa80 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -4,7 +4,7 @@
 int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len; int ret=0;    // our error return if the AES encrypt fails
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -79,7 +79,7 @@ cleanup:
 int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    size_t len; int ret=0;    // our error return if the AES encrypt fails
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 0b805f0..a1fd310 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -156,7 +156,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
 int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
@@ -206,7 +206,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index a1c8edb..438999b 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -169,7 +169,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
@@ -224,7 +224,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
-- 
2.43.0


From ac53d152e09bdb4f587b3797c651ebc91c02ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:14 +0000
Subject: [PATCH 31/51] fix: CBC and padding handle messages of 2 GiB and more

Lengths were kept in an int, so such messages were refused, or on
decryption reported as success without being decrypted.
---
 src/modes/cbc128.c  |  6 ++++--
 src/utils/padding.c | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index bcf5e96..22a1130 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,7 +4,8 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     unsigned char *padded = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen) + 1);
     unsigned char *afin = padded;
     if(padded==NULL){
@@ -52,7 +53,8 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else if(inlen%16!=0){
diff --git a/src/utils/padding.c b/src/utils/padding.c
index b5a2ba8..096da36 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -42,7 +42,8 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num, pad_len;
+    int pad_num;
+    size_t i, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
@@ -58,19 +59,20 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int afpad_len = WBCRYPTO_padding_pkcs7_separate_length(src, srclen);
+    size_t afpad_len = WBCRYPTO_padding_pkcs7_separate_length(src, srclen);
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
-    int pad_len;
+    size_t pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     return pad_len;
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = srclen > 0 ? src[srclen-1] : 0, afpad_len, i;
+    int pad_num = srclen > 0 ? src[srclen-1] : 0, i;
+    size_t afpad_len;
     if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
-- 
2.43.0


From 49a1496d4236a47dcf34d8ac245dd648f2c12205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:39 +0000
Subject: [PATCH 32/51] fix: MySQL 5 UDF refuses a sample shorter than the
 phone or id-card number

The library reads one sample character per digit, so a shorter sample was
over-read.
---
 udf/mysql5.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 7ba0dec..a996f7d 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -76,6 +76,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     if (args->arg_count == 3) {
         sample_str.assign(args->args[2], args->lengths[2]);
         sample = &sample_str[0];
+        if (plain_len != args->lengths[2] && (strcmp(mode, "phone") == 0 || strcmp(mode, "idcard") == 0)) {
+            *error = 1; // sample should be as long as plain
+            return NULL;
+        }
     }
 
     memcpy(initid->ptr, plain, plain_len);
-- 
2.43.0


From 32b5a9ffd206353fee21905206deb6313afb72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:39 +0000
Subject: [PATCH 33/51] fix: UDF refuses values with embedded nul bytes

Only the part before the nul was encrypted, the rest was returned as is.
---
 udf/mysql5.cpp | 4 ++++
 udf/mysql8.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index a996f7d..3a98aaa 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -73,6 +73,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     int plain_len = args->lengths[0];
     int ok = 0;
 
+    if (strlen(plain) != plain_len) {
+        *error = 1; // the library would leave what follows the nul unencrypted
+        return NULL;
+    }
     if (args->arg_count == 3) {
         sample_str.assign(args->args[2], args->lengths[2]);
         sample = &sample_str[0];
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 5bd4faf..0862205 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -73,6 +73,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     int plain_len = args->lengths[0];
     int ok = 0;
 
+    if (strlen(plain) != plain_len) {
+        *error = 1; // the library would leave what follows the nul unencrypted
+        return NULL;
+    }
     if (args->arg_count == 3) {
         sample_str.assign(args->args[2], args->lengths[2]);
         sample = &sample_str[0];
-- 
2.43.0


From f2b4174d82479dcb0f74d7272da52109b69965a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:11 +0000
Subject: [PATCH 34/51] fix: FPE reports a failing block cipher instead of
 returning garbage

---
 src/fpe/ff1.c      | 12 ++++++------
 src/fpe/ff1_cmac.c | 27 +++++++++++++++------------
 src/fpe/ff3.c      |  4 ++--
 src/fpe/ff3_gmac.c | 13 +++++++------
 4 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index dbd056f..6d0b6e0 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -87,14 +87,14 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -117,7 +117,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -241,14 +241,14 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -270,7 +270,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 26dcee1..9daba2b 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -12,9 +12,11 @@ void left_shift_buffer(uint8_t *input, uint8_t *output, uint8_t length) {
     }
 }
 
-void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+int generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
     char msg[16] = {0x00};
-    (*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx);
+    if ((*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx) == 0) {
+        return 0;
+    }
 
     left_shift_buffer(K2, K1, 16);
     if (K2[0] & 0x80) {
@@ -25,6 +27,7 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
     if (K1[0] & 0x80) {
         K2[15] = K2[15] ^ 0x87;
     }
+    return 1;
 }
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
@@ -96,13 +99,13 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     unsigned char *S = (unsigned char *) malloc(Slen);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -118,7 +121,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -127,7 +130,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -139,7 +142,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -163,7 +166,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -271,13 +274,13 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     unsigned char *S = (unsigned char *) malloc(Slen);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
@@ -293,7 +296,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -302,7 +305,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -314,7 +317,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -337,7 +340,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index b2f2185..8f137b0 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -51,7 +51,7 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
@@ -137,7 +137,7 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index 9b1dacb..ab461ea 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -109,7 +109,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16], M[16];
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
@@ -137,7 +137,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
@@ -204,15 +204,16 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
 
+    unsigned char S[16], P[16];
+    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16]={0}, M[16]={0};
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
 
-    unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -237,7 +238,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
-- 
2.43.0


From 1478d936b61ccbfcf7af77b69ab03d7fde02abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:26 +0000
Subject: [PATCH 35/51] fix: gcmfile_init reports a failed GCM initialisation

---
 src/modes/gcmfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 1b3207d..cce9785 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -7,6 +7,10 @@ WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     }
     memset(ctx->tag, 0, sizeof(WBCRYPTO_GCM_FILE_TAG_LEN));
     ctx->gcm = WBCRYPTO_gcm_init(key, block);
+    if (ctx->gcm == NULL) {
+        free(ctx);
+        goto cleanup;
+    }
     return ctx;
 cleanup:
     return NULL;
-- 
2.43.0


From 3c2f1a0d1cb876c7024ae7504c9ed4e2b9f4261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:39 +0000
Subject: [PATCH 36/51] fix: FF1 no longer aborts on an empty tweak when Q
 needs no zero padding

---
 src/fpe/ff1.c      | 4 ++--
 src/fpe/ff1_cmac.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 6d0b6e0..94405cc 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -66,7 +66,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad + 1 <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
@@ -220,7 +220,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad + 1 <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 9daba2b..a199cb3 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -95,7 +95,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad + 1 <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
@@ -270,7 +270,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad + 1 <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-- 
2.43.0


From f9ac439a62d5fe29f69edfcc7a5d7e85f1983035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:43 +0000
Subject: [PATCH 37/51] fix: a white-box SM4 key file that is refused leaves no
 tables behind

---
 src/wbsm4/wbsm4_exkey.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 5359390..a102c43 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -7,6 +7,36 @@ static int wbsm4_rounds_valid(int rounds){
     return rounds>=32 && rounds<=WBSM4_MAX_ROUNDS && (rounds-32)%4==0;
 }
 
+/* releases a context whose tables nobody else has taken over */
+static void wbsm4_discard(WBCRYPTO_wbsm4_context *ctx){
+    int i,j,k;
+    if(ctx==NULL){
+        return;
+    }
+    for(i=0;i<ctx->rounds;i++){
+        for(j=0;j<3;j++){
+            for(k=0;k<4;k++){
+                free(ctx->MM[i][j][k]);
+            }
+            free(ctx->MM[i][j]);
+        }
+        for(j=0;j<4;j++){
+            free(ctx->CC[i][j]);
+            free(ctx->DD[i][j]);
+            free(ctx->Table[i][j]);
+        }
+        free(ctx->MM[i]);
+        free(ctx->CC[i]);
+        free(ctx->DD[i]);
+        free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+    free(ctx);
+}
+
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
     FILE *wkey;
@@ -110,9 +140,11 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
         }
     }
     *ctx = *loaded;
+    free(loaded);
+    loaded=NULL;
     ret=1;
 cleanup:
-    free(loaded);
+    wbsm4_discard(loaded);
     if(rkey!=NULL){
         fclose(rkey);
     }
-- 
2.43.0


From a458fb1edcf62abb11374a62bb147784e1ee45b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:45 +0000
Subject: [PATCH 38/51] fix: a refused FPE-MAC context is released

---
 src/fpe/init.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index aec3b8c..f1e9bed 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -46,10 +46,11 @@ WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twk
     if (!ctx) {
         goto cleanup;
     }
-    if (radix < 2 || radix > 36) {
+    ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
+    if (!ctx->fpe_ctx) {
+        free(ctx);
         goto cleanup;
     }
-    ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
     return ctx;
 cleanup:
     return NULL;
-- 
2.43.0


From 694b70064e2dcf0403799ffb690a71964c2fe49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 39/51] fix: GCM derived the wrong counter from an IV of 512
 MiB or more (upper half of its bit length dropped)

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 11fd533..e688ae8 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -118,6 +118,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset( work_buf, 0x00, 16 );               // clear the working buffer
+        PUT_UINT32_BE( (uint64_t) len * 8 >> 32, work_buf, 8 );
         PUT_UINT32_BE( len * 8, work_buf, 12 );  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index a1fd310..c9cea2c 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -117,6 +117,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE((uint64_t) len * 8 >> 32, work_buf, 8);
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 438999b..fa033ec 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -126,6 +126,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE((uint64_t) len * 8 >> 32, work_buf, 8);
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
-- 
2.43.0


From 5f62eb8dbdf57e065cd01e1c17836d6c541f5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:21 +0000
Subject: [PATCH 40/51] fix: generating white-box SM4 tables kept the round
 keys allocated

---
 src/se_wbsm4/se_wbsm4.c | 2 ++
 src/wbsm4/wbsm4_gen.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 382a84c..f2e1984 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -87,6 +87,8 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Mat = P_inv[35 - i].Mat;
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
+    WBCRYPTO_sm4_context_free(sm4_key);
+    free(sm4_key);
     return 1;
 }
 
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index e2ca63d..01e1ac6 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -277,6 +277,8 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     ret=1;
 cleanup:
     free(dummy_array);
+    WBCRYPTO_sm4_context_free(sm4_key);
+    free(sm4_key);
     return ret;
 }
 
-- 
2.43.0


From 8f2a336e4d1abbe5207c63bc93b01b852340dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 41/51] fix: the MySQL functions kept a cipher context
 allocated for every row

---
 udf/mysql5.cpp | 2 ++
 udf/mysql8.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 3a98aaa..7e85f78 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <memory>
 #include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
@@ -91,6 +92,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     WBCRYPTO_fpe_app_context app_ctx;
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    std::unique_ptr<void, decltype(&free)> cipher_ctx(app_ctx.cipher_ctx, free); // released with each row
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 0862205..236ee0f 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <memory>
 #include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
@@ -91,6 +92,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     WBCRYPTO_fpe_app_context app_ctx;
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    std::unique_ptr<void, decltype(&free)> cipher_ctx(app_ctx.cipher_ctx, free); // released with each row
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-- 
2.43.0


From d6ee43d9aed30eba5eefa1d32df063d8883abfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:07 +0000
Subject: [PATCH 42/51] fix: loading white-box SM4 tables kept the former
 tables allocated

---
 src/wbsm4/wbsm4_exkey.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index a102c43..7a22496 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -37,6 +37,13 @@ static void wbsm4_discard(WBCRYPTO_wbsm4_context *ctx){
     free(ctx);
 }
 
+/* gives ctx the loaded tables, and loaded the ones it replaces */
+static void wbsm4_take(WBCRYPTO_wbsm4_context *ctx, WBCRYPTO_wbsm4_context *loaded){
+    WBCRYPTO_wbsm4_context former = *ctx;
+    *ctx = *loaded;
+    *loaded = former;
+}
+
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
     FILE *wkey;
@@ -139,9 +146,7 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
             }
         }
     }
-    *ctx = *loaded;
-    free(loaded);
-    loaded=NULL;
+    wbsm4_take(ctx, loaded);
     ret=1;
 cleanup:
     wbsm4_discard(loaded);
@@ -220,10 +225,10 @@ int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_ALLOC_FAILED);
     }
     wbsm4_move_tables(&ptr, loaded, 0);
-    *ctx = *loaded;
+    wbsm4_take(ctx, loaded);
 
     ret=1;
 cleanup:
-    free(loaded);
+    wbsm4_discard(loaded);
     return ret;
 }
-- 
2.43.0


From 26cb657a639a3d7cf34268247d4ea4f112b71a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:27 +0000
Subject: [PATCH 43/51] fix: releasing a cipher or GCM context kept its memory
 allocated (and the white-box SM4 tables unwiped)

---
 src/aes/aes.c           |  4 +++-
 src/modes/gcm128.c      |  4 +++-
 src/modes/gcmfile.c     |  4 +++-
 src/se_wbsm4/se_wbsm4.c |  5 +++--
 src/sm4/sm4.c           |  4 +++-
 src/wbaes/wbaes.c       |  4 +++-
 src/wbsm4/wbsm4.c       | 31 ++++++++++++++++++++++++++++++-
 src/wbsm4/wbsm4_exkey.c | 38 ++++++--------------------------------
 src/wbsm4/wbsm4_gen.c   |  1 -
 9 files changed, 54 insertions(+), 41 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 77a2ada..74f0f8b 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/aes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_aes_context *WBCRYPTO_aes_context_init(){
     struct aes_context *ctx=malloc(sizeof(struct aes_context));
@@ -13,7 +14,8 @@ cleanup:
 }
 
 void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
-    memset(ctx,0,sizeof(struct aes_context));
+    OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_aes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index e688ae8..dbf6691 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 void gcm_mult( WBCRYPTO_gcm_context *ctx,
                       const unsigned char x[16],
@@ -287,5 +288,6 @@ cleanup:
 }
 
 void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
-    memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+    OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_gcm_context));
+    free(ctx);
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index cce9785..c9ef58e 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     struct gcmfile_context *ctx = malloc(sizeof(struct gcmfile_context));
@@ -189,6 +190,7 @@ cleanup:
 }
 
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+    OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_gcmfile_context));
+    free(ctx);
 }
 
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index f2e1984..c37c7a6 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -1,4 +1,5 @@
 #include "se_wbsm4_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_se_wbsm4_context *WBCRYPTO_se_wbsm4_context_init(int encmode) {
     struct se_wbsm4_context *ctx = malloc(sizeof(struct se_wbsm4_context));
@@ -14,7 +15,8 @@ cleanup:
 }
 
 void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
-    memset(ctx, 0, sizeof(struct se_wbsm4_context));
+    OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_se_wbsm4_context));
+    free(ctx);
 }
 
 int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *key, size_t keylen) {
@@ -88,7 +90,6 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
     WBCRYPTO_sm4_context_free(sm4_key);
-    free(sm4_key);
     return 1;
 }
 
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 7cd29b7..003680d 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -10,6 +10,7 @@
  */
 
 #include <wbcrypto/sm4.h>
+#include <openssl/crypto.h>
 
 static const uint8_t SM4_S[256] = {
         0xD6, 0x90, 0xE9, 0xFE, 0xCC, 0xE1, 0x3D, 0xB7, 0x16, 0xB6, 0x14, 0xC2,
@@ -140,7 +141,8 @@ cleanup:
 }
 
 void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
-    memset(ctx,0,sizeof(struct sm4_context));
+    OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_sm4_context));
+    free(ctx);
 }
 
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index ff818e9..bbc61b7 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/wbaes.h>
+#include <openssl/crypto.h>
 #include "wbaes_local.h"
 
 WBCRYPTO_wbaes_context *WBCRYPTO_wbaes_context_init(){
@@ -14,7 +15,8 @@ cleanup:
 }
 
 void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
-    memset(ctx,0,sizeof(struct wbaes_context));
+    OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbaes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 56d390a..eb4a3ce 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -1,4 +1,5 @@
 #include "wbsm4_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds){
     int i,j,k;
@@ -44,8 +45,36 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
     return ctx;
 }
 
+static void wbsm4_table_free(uint32_t *table){
+    OPENSSL_cleanse(table, 256*sizeof(uint32_t));
+    free(table);
+}
+
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
-    memset(ctx,0,sizeof(struct wbsm4_context));
+    int i,j,k;
+    for(i=0;i<ctx->rounds;i++){
+        for(j=0;j<3;j++){
+            for(k=0;k<4;k++){
+                wbsm4_table_free(ctx->MM[i][j][k]);
+            }
+            free(ctx->MM[i][j]);
+        }
+        for(j=0;j<4;j++){
+            wbsm4_table_free(ctx->CC[i][j]);
+            wbsm4_table_free(ctx->DD[i][j]);
+            wbsm4_table_free(ctx->Table[i][j]);
+        }
+        free(ctx->MM[i]);
+        free(ctx->CC[i]);
+        free(ctx->DD[i]);
+        free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+    OPENSSL_cleanse(ctx, sizeof(struct wbsm4_context));
+    free(ctx);
 }
 
 int WBCRYPTO_wbsm4_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_wbsm4_context *ctx){
diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 7a22496..766a3bf 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -7,36 +7,6 @@ static int wbsm4_rounds_valid(int rounds){
     return rounds>=32 && rounds<=WBSM4_MAX_ROUNDS && (rounds-32)%4==0;
 }
 
-/* releases a context whose tables nobody else has taken over */
-static void wbsm4_discard(WBCRYPTO_wbsm4_context *ctx){
-    int i,j,k;
-    if(ctx==NULL){
-        return;
-    }
-    for(i=0;i<ctx->rounds;i++){
-        for(j=0;j<3;j++){
-            for(k=0;k<4;k++){
-                free(ctx->MM[i][j][k]);
-            }
-            free(ctx->MM[i][j]);
-        }
-        for(j=0;j<4;j++){
-            free(ctx->CC[i][j]);
-            free(ctx->DD[i][j]);
-            free(ctx->Table[i][j]);
-        }
-        free(ctx->MM[i]);
-        free(ctx->CC[i]);
-        free(ctx->DD[i]);
-        free(ctx->Table[i]);
-    }
-    free(ctx->MM);
-    free(ctx->CC);
-    free(ctx->DD);
-    free(ctx->Table);
-    free(ctx);
-}
-
 /* gives ctx the loaded tables, and loaded the ones it replaces */
 static void wbsm4_take(WBCRYPTO_wbsm4_context *ctx, WBCRYPTO_wbsm4_context *loaded){
     WBCRYPTO_wbsm4_context former = *ctx;
@@ -149,7 +119,9 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     wbsm4_take(ctx, loaded);
     ret=1;
 cleanup:
-    wbsm4_discard(loaded);
+    if(loaded!=NULL){
+        WBCRYPTO_wbsm4_context_free(loaded);
+    }
     if(rkey!=NULL){
         fclose(rkey);
     }
@@ -229,6 +201,8 @@ int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
 
     ret=1;
 cleanup:
-    wbsm4_discard(loaded);
+    if(loaded!=NULL){
+        WBCRYPTO_wbsm4_context_free(loaded);
+    }
     return ret;
 }
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index 01e1ac6..162ca82 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -278,7 +278,6 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
 cleanup:
     free(dummy_array);
     WBCRYPTO_sm4_context_free(sm4_key);
-    free(sm4_key);
     return ret;
 }
 
-- 
2.43.0


From 18f60feaa86050cd969f809d1d819c02b006f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:30 +0000
Subject: [PATCH 44/51] fix: the wipe of a released white-box GCM context was
 optimised away

---
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 3 ++-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index c9cea2c..ae948ba 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -1,3 +1,4 @@
+#include <openssl/crypto.h>
 #include "wbcrypto/wbaes_wbgcm_ee.h"
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned char x[16], unsigned char output[16]) {
@@ -286,8 +287,8 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 }
 
 void WBCRYPTO_wbaes_wbgcm_ee_free(WBCRYPTO_wbgcm_ee_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
     if (ctx != NULL) {
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_ee_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index fa033ec..5975bc4 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -1,3 +1,4 @@
+#include <openssl/crypto.h>
 #include <wbcrypto/wbaes_wbgcm_mask.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_mask_context *ctx, const unsigned char x[16], unsigned char output[16]) {
@@ -313,8 +314,8 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_free(WBCRYPTO_wbgcm_mask_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
     if (ctx != NULL) {
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_mask_context));
         free(ctx);
         ctx = NULL;
     }
-- 
2.43.0


From a59f5ea9c8d771b45459c4460e2f6f40e242e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 45/51] fix: a phone or ID card sample shorter than the number
 was read past its end

---
 src/fpe_app/idcard.c | 3 +++
 src/fpe_app/phone.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index 9b01847..c2c1576 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -14,6 +14,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
         len--;
     }
     if (strcmp(sample, "") != 0) {
+        if (strlen(sample) < (size_t) len) {
+            return ret;
+        }
         for (i = 0; i < len; i++) {
             if (sample[i] != '*') {
                 ++tweak_len;
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index a844942..a33c72b 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -8,6 +8,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     int i, j, k, tweak_len = 0;
 
     if (strcmp(sample, "") != 0) {
+        if (strlen(sample) < (size_t) len) {
+            return ret;
+        }
         for (i = 0; i < len; i++) {
             if (sample[i] != '*') {
                 ++tweak_len;
-- 
2.43.0


From ed5cc0babba646fc7a4913a0c08e407ec5c708bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:17 +0000
Subject: [PATCH 46/51] fix: releasing a GCM file context kept its inner GCM
 context (hash key and counter blocks) allocated

---
 src/modes/gcmfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index c9ef58e..8f8d546 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -190,6 +190,7 @@ cleanup:
 }
 
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
+    WBCRYPTO_gcm_free(ctx->gcm);
     OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_gcmfile_context));
     free(ctx);
 }
-- 
2.43.0


From 3aa2324ef78271814757983b667a148446f6e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 47/51] fix: a GCM context whose creation fails is released

---
 src/modes/gcm128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dbf6691..e3cd82f 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -92,6 +92,7 @@ WBCRYPTO_gcm_context *WBCRYPTO_gcm_init(void *key, block128_f block)
     }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From 265ea1593c910d5a3cc0ac78b2cd66af19af60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:13 +0000
Subject: [PATCH 48/51] fix: wRandomShuffleU8 read one random number past those
 drawn, so the first element always came last

---
 src/utils/wrandom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/wrandom.c b/src/utils/wrandom.c
index d543e94..f30af9a 100644
--- a/src/utils/wrandom.c
+++ b/src/utils/wrandom.c
@@ -61,7 +61,7 @@ int wRandomShuffleU8(uint8_t *list, int len) {
     memset(randNumbers, 0, (len + 10) * sizeof(unsigned int));
     wRandomList((int*) randNumbers, len);
     while (len > 0) {
-        int r = randNumbers[len] % len;
+        int r = randNumbers[len - 1] % len;
         len--;
         uint8_t tmp = *(list + len);
         *(list + len) = *(list + r);
-- 
2.43.0


From a9ce39a2516dcdfaff4a756f750d3b1c505038ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 49/51] fix: keying SM4 left the padded key in a freed heap
 block

---
 src/sm4/sm4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 003680d..7592596 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -198,6 +198,7 @@ int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keyle
     }
     ret=1;
 cleanup:
+    OPENSSL_cleanse(padkey, 16);
     free(padkey);
     return ret;
 }
-- 
2.43.0


From 6b1da5b4673c51de95c920c9dd0953e4f1e998fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:07 +0000
Subject: [PATCH 50/51] fix: encrypting a file no longer overwrites and deletes
 <output>.tmp

---
 src/modes/gcmfile.c               | 15 +++------------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 15 +++------------
 src/wbaes/wbaes_wbgcm_mask_file.c | 15 +++------------
 3 files changed, 9 insertions(+), 36 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 8f8d546..0b8469a 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -39,18 +39,13 @@ cleanup:
 
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int file_size, block_size;
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
-    len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
-    memcpy(tmp_file_path, outfpath, len_outfpath);
-    memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
-
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
+    if ((tmpfp = tmpfile()) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((outfp = fopen(outfpath, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
@@ -110,11 +105,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 cleanup:
     if (infp != NULL) fclose(infp);
     if (outfp != NULL) fclose(outfp);
-    if (tmpfp != NULL) {
-        fclose(tmpfp);
-        remove(tmp_file_path);
-    }
-    free(tmp_file_path);
+    if (tmpfp != NULL) fclose(tmpfp);
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 94ae272..4ac1ad7 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -2,19 +2,14 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
-    len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
-    memcpy(tmp_file_path, outfpath, len_outfpath);
-    memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
-
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
+    if ((tmpfp = tmpfile()) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((outfp = fopen(outfpath, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
@@ -74,11 +69,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 cleanup:
     if (infp != NULL) fclose(infp);
     if (outfp != NULL) fclose(outfp);
-    if (tmpfp != NULL) {
-        fclose(tmpfp);
-        remove(tmp_file_path);
-    }
-    free(tmp_file_path);
+    if (tmpfp != NULL) fclose(tmpfp);
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 2aa9a3e..b9818ae 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -2,19 +2,14 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
     FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
-    len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
-    memcpy(tmp_file_path, outfpath, len_outfpath);
-    memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
-
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
+    if ((tmpfp = tmpfile()) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((outfp = fopen(outfpath, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
@@ -74,11 +69,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 cleanup:
     if (infp != NULL) fclose(infp);
     if (outfp != NULL) fclose(outfp);
-    if (tmpfp != NULL) {
-        fclose(tmpfp);
-        remove(tmp_file_path);
-    }
-    free(tmp_file_path);
+    if (tmpfp != NULL) fclose(tmpfp);
     return ret;
 }
 
-- 
2.43.0


From 071aefc703720e4dd9a7b245b6f1c3245f0497aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 51/51] fix: encrypting or decrypting a file onto itself no
 longer destroys it

---
 src/modes/file_locl.h             | 15 +++++++++++++++
 src/modes/gcmfile.c               | 16 ++++++++++++----
 src/wbaes/wbaes_wbgcm_ee_file.c   | 16 ++++++++++++----
 src/wbaes/wbaes_wbgcm_mask_file.c | 16 ++++++++++++----
 4 files changed, 51 insertions(+), 12 deletions(-)
 create mode 100644 src/modes/file_locl.h

diff --git a/src/modes/file_locl.h b/src/modes/file_locl.h
new file mode 100644
index 0000000..ca26572
--- /dev/null
+++ b/src/modes/file_locl.h
@@ -0,0 +1,15 @@
+#ifndef WBCRYPTO_FILE_LOCL_H
+#define WBCRYPTO_FILE_LOCL_H
+
+#include <stdio.h>
+#include <sys/types.h>
+#include <sys/stat.h>
+
+// 1 if path names the file that is open as fp (whatever the spelling or link), otherwise 0
+static inline int file_is_open_as(FILE *fp, const char *path) {
+    struct stat open_file, named_file;
+    return fstat(fileno(fp), &open_file) == 0 && stat(path, &named_file) == 0
+           && open_file.st_dev == named_file.st_dev && open_file.st_ino == named_file.st_ino;
+}
+
+#endif //WBCRYPTO_FILE_LOCL_H
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 0b8469a..3cce1c7 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -1,5 +1,6 @@
 #include <wbcrypto/modes.h>
 #include <openssl/crypto.h>
+#include "file_locl.h"
 
 WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     struct gcmfile_context *ctx = malloc(sizeof(struct gcmfile_context));
@@ -47,8 +48,6 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = tmpfile()) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((outfp = fopen(outfpath, "wb+")) == NULL)
-        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
@@ -80,10 +79,14 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     // Finish encrypt
-    fflush(tmpfp);
+    if (ferror(infp) || fflush(tmpfp) != 0 || ferror(tmpfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     fseek(tmpfp, 0, SEEK_SET);
 
-    // #2 Write cipher file
+    // #2 Write cipher file (only now: the output may be the input)
+    if ((outfp = fopen(outfpath, "wb+")) == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add tag
     fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
     // add file len
@@ -120,6 +123,11 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
+    // writing the output would destroy the input before it is read
+    if (file_is_open_as(infp, outfpath)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+
     char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
     memset(flag, 0, sizeof(flag));
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 4ac1ad7..21cc372 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -1,4 +1,5 @@
 #include "wbcrypto/wbaes_wbgcm_ee.h"
+#include "../modes/file_locl.h"
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
@@ -11,8 +12,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = tmpfile()) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((outfp = fopen(outfpath, "wb+")) == NULL)
-        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
@@ -44,10 +43,14 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     // Finish encrypt
-    fflush(tmpfp);
+    if (ferror(infp) || fflush(tmpfp) != 0 || ferror(tmpfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     fseek(tmpfp, 0, SEEK_SET);
 
-    // #2 Write cipher file
+    // #2 Write cipher file (only now: the output may be the input)
+    if ((outfp = fopen(outfpath, "wb+")) == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add tag
     fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
     // add file len
@@ -85,6 +88,11 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
+    // writing the output would destroy the input before it is read
+    if (file_is_open_as(infp, outfpath)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+
     char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
     memset(flag, 0, sizeof(flag));
 
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index b9818ae..5999f6e 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -1,4 +1,5 @@
 #include "wbcrypto/wbaes_wbgcm_mask.h"
+#include "../modes/file_locl.h"
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
@@ -11,8 +12,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = tmpfile()) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((outfp = fopen(outfpath, "wb+")) == NULL)
-        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
@@ -44,10 +43,14 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     // Finish encrypt
-    fflush(tmpfp);
+    if (ferror(infp) || fflush(tmpfp) != 0 || ferror(tmpfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     fseek(tmpfp, 0, SEEK_SET);
 
-    // #2 Write cipher file
+    // #2 Write cipher file (only now: the output may be the input)
+    if ((outfp = fopen(outfpath, "wb+")) == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add tag
     fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
     // add file len
@@ -85,6 +88,11 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
+    // writing the output would destroy the input before it is read
+    if (file_is_open_as(infp, outfpath)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+
     char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
     memset(flag, 0, sizeof(flag));
 
-- 
2.43.0

