From a4923b7fb44e8c6ae69ba45815989e2bb443c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 01/22] fix: restart the CFB stream when a custom S-box is set
 on a used cipher context

The control reloaded the IV and recomputed the keystream block but kept the
partial-block counter, so the next bytes came from the middle of the block.
---
 engine/cipher.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..bae22ac 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -162,6 +162,7 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
             gost_init(gctx, &sbox);
             memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
             gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            EVP_CIPHER_CTX_set_num(ctx, 0);
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
-- 
2.43.0


From 787e84da7d3360b2e18af634e68b5e4d33dfa9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 02/22] fix: refuse absent cipher parameters instead of
 dereferencing NULL

---
 engine/cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index bae22ac..f556fb9 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -209,7 +209,7 @@ static int dstu_cipher_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_
 
 static int dstu_cipher_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_type)
 {
-    if (V_ASN1_SEQUENCE != asn1_type->type)
+    if ((!asn1_type) || (V_ASN1_SEQUENCE != asn1_type->type))
         return -1;
 
     if (DSTU_CIPHER_ASN1_PARAM_SIZE != asn1_type->value.sequence->length)
-- 
2.43.0


From 4386fb23c159416d044ed15e1284988d2a93d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:27 +0000
Subject: [PATCH 03/22] fix: keep the imported S-box and restart the stream on
 key-only initialisation

Decrypting CMS or PBES2 data imports IV and S-box from the parameters and then
sets the key alone: the S-box fell back to the default one and the keystream
block of the previous (zero) key was used.
---
 engine/cipher.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index f556fb9..6bd9573 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -23,23 +23,38 @@
 /* 2 bytes for sequence header, 2 bytes for each octet string header and 8 bytes for iv and 64 bytes for dke. Total 78 < 128 so we are ok with 1 byte length */
 #define DSTU_CIPHER_ASN1_PARAM_SIZE (2 + 2 + DSTU_CIPHER_BLOCK_SIZE + 2 + sizeof(default_sbox))
 
+/* gctx goes first: the other callbacks use the cipher data as a gost_ctx */
+struct dstu_cipher_data
+{
+    gost_ctx gctx;
+    int has_sbox;
+};
+
 static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    struct dstu_cipher_data *data = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    gost_ctx *gctx = &(data->gctx);
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
+    /* A partial initialisation must not lose the S-box imported with the parameters */
+    if ((!data->has_sbox) || (key && iv))
+    {
+        unpack_sbox(default_sbox, &sbox);
+        gost_init(gctx, &sbox);
+        data->has_sbox = 1;
+    }
 
     if (key)
         gost_key(gctx, key);
 
     if (iv)
-    {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
+
+    if (key || iv)
+    {
+        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
         gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
         EVP_CIPHER_CTX_set_num(ctx, 0);
     }
@@ -239,7 +254,7 @@ EVP_CIPHER *dstu_cipher_new()
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(gost_ctx)) ||
+        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(struct dstu_cipher_data)) ||
         !EVP_CIPHER_meth_set_set_asn1_params(res, dstu_cipher_set_asn1_parameters) ||
         !EVP_CIPHER_meth_set_get_asn1_params(res, dstu_cipher_get_asn1_parameters) ||
         !EVP_CIPHER_meth_set_ctrl(res, dstu_cipher_ctrl))
-- 
2.43.0


From c90e1b901a77ce9029d0e727631c8bc8cedd89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:39 +0000
Subject: [PATCH 04/22] fix: take the digest S-box only from DSTU keys

A digest started for a key of another type treated that key as a DSTU_KEY and
followed a pointer read from it.
---
 engine/md.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/md.c b/engine/md.c
index 9be9572..6817acf 100644
--- a/engine/md.c
+++ b/engine/md.c
@@ -28,7 +28,8 @@ static int dstu_md_init(EVP_MD_CTX *ctx)
     struct dstu_digest_ctx *c = EVP_MD_CTX_md_data(ctx);
     EVP_PKEY_CTX *pkey_ctx = EVP_MD_CTX_pkey_ctx(ctx);
     EVP_PKEY *pkey = pkey_ctx ? EVP_PKEY_CTX_get0_pkey(pkey_ctx) : NULL;
-    DSTU_KEY *dstu_key = pkey ? EVP_PKEY_get0(pkey) : NULL;
+    int type = pkey ? EVP_PKEY_id(pkey) : NID_undef;
+    DSTU_KEY *dstu_key = (type == NID_dstu4145le) || (type == NID_dstu4145be) ? EVP_PKEY_get0(pkey) : NULL;
     unsigned char *sbox_source = dstu_key && dstu_key->sbox ? dstu_key->sbox : default_sbox;
 
     unpack_sbox(sbox_source, &sbox);
-- 
2.43.0


From 770db41fc2361f6728ac388cef0b0c836c061d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:29 +0000
Subject: [PATCH 05/22] fix: keep the requested low bits of a partial last MAC
 byte

---
 dstulib/gost/gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dstulib/gost/gost89.c b/dstulib/gost/gost89.c
index 337204b..487f78b 100644
--- a/dstulib/gost/gost89.c
+++ b/dstulib/gost/gost89.c
@@ -575,7 +575,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From 995340292c2b6f6802f4f39dbd7d4187d35a9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:04 +0000
Subject: [PATCH 06/22] fix: replace a zero hash by one after reducing it to
 the field size

---
 engine/sign.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..f3d2425 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -42,10 +42,13 @@ static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
     }
 
     OPENSSL_free(h);
+    if (!bn_truncate_bits(fe, fieldsize))
+        return 0;
+
     if (BN_is_zero(fe))
-        BN_one(fe);
+        return BN_one(fe);
 
-    return bn_truncate_bits(fe, fieldsize);
+    return 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From bcf1e80ae6346c0cd13a312f90444b3a6ae1e740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:17 +0000
Subject: [PATCH 07/22] fix: refuse to sign when the signature size cannot be
 determined

---
 engine/pmeth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 0c0592f..b0fde74 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -266,6 +266,8 @@ static int dstu_pkey_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen,
 
     field_size = BN_num_bytes(n);
     encoded_sig_size = EVP_PKEY_size(pkey);
+    if (!encoded_sig_size)
+        goto err;
 
     if (sig && encoded_sig_size > *siglen)
     {
-- 
2.43.0


From c1a10f52e87465650f7dfac5921167990da2a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:30 +0000
Subject: [PATCH 08/22] fix: fail point expansion when the trace of the root
 cannot be computed

---
 dstulib/compress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..a28f58e 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -195,6 +195,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
-- 
2.43.0


From 859dc84e995c38b294a7267730d84a8253e95925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:57 +0000
Subject: [PATCH 09/22] fix: refuse an S-box string with characters after its
 digits

---
 engine/pmeth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index b0fde74..2135309 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -200,6 +200,10 @@ static int dstu_pkey_ctrl_str(EVP_PKEY_CTX *ctx, const char *type,
 
     if (!strcmp(SBOX_PARAM_STR, type))
     {
+        /* BN_hex2bn() ignores whatever follows the digits */
+        if ((sizeof(default_sbox) * 2) != strlen(value))
+            return 0;
+
         tmp = BN_new();
         if (!tmp)
             return 0;
-- 
2.43.0


From 1e0ea90e9256e81f11bd8576957ada3e227e62da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:06 +0000
Subject: [PATCH 10/22] fix: freeing an absent key store is harmless

---
 keylib/keystore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..108ac2b 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -72,6 +72,8 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
-- 
2.43.0


From 1b75a700e1908911cffc464c9c4bbb21575338e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:07 +0000
Subject: [PATCH 11/22] fix: keep the engine's digest and cipher until the
 engine is destroyed

---
 engine/dstu.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..e5f0114 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -9,6 +9,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/obj_mac.h>
+#include <openssl/objects.h>
 #include <openssl/ossl_typ.h>
 
 #include <string.h>
@@ -94,10 +95,31 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
+    ERR_unload_DSTU_strings();
+
+    return 1;
+}
+
+/* The engine can be initialised again after finishing, and libcrypto keeps the
+ * objects registered with it, so they live until the engine itself goes away.
+ * libcrypto frees the public key methods before it calls us. */
+static int dstu_engine_destroy(ENGINE *e)
+{
+    unsigned long long i = 0;
+    (void) e; // Unused
+    OBJ_NAME_remove(OBJ_nid2sn(NID_dstu28147_cfb), OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(OBJ_nid2ln(NID_dstu28147_cfb), OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(OBJ_nid2sn(NID_dstu34311), OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(OBJ_nid2ln(NID_dstu34311), OBJ_NAME_TYPE_MD_METH);
     dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
     dstu_digest_free(dstu_md);
-
-    ERR_unload_DSTU_strings();
+    dstu_md = NULL;
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        dstu_pkey_methods[i] = NULL;
+        dstu_asn1_methods[i] = NULL;
+    }
 
     return 1;
 }
@@ -191,6 +213,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
-- 
2.43.0


From 8bd6d57ee7357fb64c13e2f37586fa9e5b3f7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 12/22] fix: fail generator requests without the lock and keep
 the lock after cleanup

---
 engine/rbg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..639cbcc 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -112,7 +112,8 @@ static int dstu_rbg_status_nolock(void)
 
 static int dstu_rbg_status(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     int status = dstu_rbg_status_nolock();
 
@@ -127,7 +128,8 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
     byte j;
     int rv = 1;
 
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     if (!initialized)
     {
@@ -151,15 +153,16 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
 static void dstu_rbg_cleanup(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return;
 
     OPENSSL_cleanse(I, sizeof(I));
     OPENSSL_cleanse(s, sizeof(s));
     OPENSSL_cleanse(&cryptor, sizeof(gost_ctx));
     initialized = 0;
 
+    /* The lock is created only once, so it has to stay for later requests */
     dstu_unlock();
-    CRYPTO_THREAD_lock_free(dstu_rand_lock);
 }
 
 RAND_METHOD dstu_rand_meth =
-- 
2.43.0


From 701831b8d3bc024215c309df0a8b22e59fa2ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:47 +0000
Subject: [PATCH 13/22] fix: replace the target's S-box when copying key
 parameters

---
 engine/ameth.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..cb3d8bb 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -93,6 +93,7 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
     DSTU_KEY *to_key = EVP_PKEY_get0(to);
     DSTU_KEY *from_key = EVP_PKEY_get0(from);
     const EC_GROUP *from_group;
+    unsigned char *sbox = NULL;
 
     if (!from_key)
         return 0;
@@ -120,14 +121,17 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
 
     if (from_key->sbox)
     {
-        to_key->sbox = copy_sbox(from_key->sbox);
-        if (!to_key->sbox)
+        sbox = copy_sbox(from_key->sbox);
+        if (!sbox)
         {
             DSTUerr(DSTU_F_DSTU_ASN1_PARAM_COPY, ERR_R_MALLOC_FAILURE);
             return 0;
         }
     }
 
+    OPENSSL_free(to_key->sbox);
+    to_key->sbox = sbox;
+
     return 1;
 }
 
-- 
2.43.0


From a261c8c23c79262817893dcfba29157e5d377dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:47 +0000
Subject: [PATCH 14/22] fix: compare keys by their effective S-box, and without
 dereferencing absent parts

---
 engine/ameth.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index cb3d8bb..632d478 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -143,16 +143,14 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    /* An absent S-box stands for the default one */
+    if (memcmp(first->sbox ? first->sbox : default_sbox,
+               second->sbox ? second->sbox : default_sbox,
+               sizeof(default_sbox)))
+        return 0;
+
+    if (!EC_KEY_get0_group(first->ec) || !EC_KEY_get0_group(second->ec))
+        return -2;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
@@ -640,6 +638,11 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
+    if (!EC_KEY_get0_group(first->ec) ||
+        !EC_KEY_get0_public_key(first->ec) ||
+        !EC_KEY_get0_public_key(second->ec))
+        return -2;
+
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
     if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
-- 
2.43.0


From 00bcde2c24b068265926f32d4f1e5dd1b459cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 15/22] fix: keep Java key store parsing within the given bytes

---
 keylib/jks.c | 92 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 22 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..bb04305 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -47,6 +47,11 @@ static uint32_t read32(const void* base, size_t shift)
     return res;
 }
 
+static size_t sizeLeft(const void* from, const void* end)
+{
+    return (const unsigned char*)end - (const unsigned char*)from;
+}
+
 static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize)
 {
     size_t resSize = size * 2;
@@ -141,13 +146,27 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    size_t pos = sizeof(typeLength);
+    const size_t size = sizeLeft(data, end);
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
 
+    if (size < pos)
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (size - pos < typeLength + sizeof(dataLength))
+        return NULL;
+    pos += typeLength;
+    dataLength = ntohl(read32(data, pos));
+    pos += sizeof(dataLength);
+    if (size - pos < dataLength)
+        return NULL;
+    dataPtr = ptrAt(data, pos);
+
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
@@ -162,7 +181,7 @@ static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
     if (certPos != NULL)
         ++(*certPos);
 
-    return ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength) + dataLength);
+    return ptrAt(data, pos + dataLength);
 }
 
 static int fromKeyProtector(const void* data, size_t size, const char* pwd16, size_t pwd16Length, KeyStore* ks, size_t* keyPos, size_t* certPos)
@@ -180,6 +199,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (size < saltLength + digestLength)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
@@ -301,36 +323,57 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    size_t pos = sizeof(nameLength);
+    const size_t size = sizeLeft(data, end);
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (size < pos)
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (size - pos < nameLength + 8 + sizeof(dataLength)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    pos += nameLength + 8;
+    dataLength = ntohl(read32(data, pos));
+    pos += sizeof(dataLength);
+    if (size - pos < dataLength || size - pos - dataLength < sizeof(certNum))
+        return NULL;
+    dataPtr = ptrAt(data, pos);
+    pos += dataLength;
+    certNum = ntohl(read32(data, pos));
+    certPtr = ptrAt(data, pos + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
+
+    if (sizeLeft(data, end) < sizeof(tag))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
@@ -338,9 +381,10 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    const void* end = ptrAt(data, size);
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const unsigned char* entryPtr = NULL;
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -349,7 +393,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    if (size < sizeof(magic) + 4 + sizeof(entries)) // 4 bytes - 32-bit version
+        return 0;
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4));
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -366,12 +414,12 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
-    if (entryPtr == NULL)
+    if (entryPtr == NULL || sizeLeft(entryPtr, end) < digestLength)
     {
         KeyStoreFree(*ks);
         return 0;
-- 
2.43.0


From 0bd5938ef4942239cdc69eac181e3b10f4a54759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 16/22] fix: hand out no freed store and leak no password when
 a Java key store is refused

---
 keylib/jks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index bb04305..f378b95 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -422,12 +422,15 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (entryPtr == NULL || sizeLeft(entryPtr, end) < digestLength)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
+        OPENSSL_free(pwd16);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -437,6 +440,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         if (digest[j] != entryPtr[j])
         {
             KeyStoreFree(*ks);
+            *ks = NULL;
             return 0;
         }
 
-- 
2.43.0


From 85f41f839e0ebdfe1ffe2f250a6167fd271894b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 17/22] fix: release the conversion buffers properly when no
 converter is available

---
 keylib/jks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index f378b95..c91f5c1 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -66,7 +66,8 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(res);
+        OPENSSL_free(buf);
+        BIO_free(res);
         return 0;
     }
     while (ss > 0)
-- 
2.43.0


From 0291e718cd51b7957ec43b9c03bceef5ea0c04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:22 +0000
Subject: [PATCH 18/22] fix: hand out no freed store when a PKCS#12 container
 is refused

---
 keylib/pkcs12.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..e6414e1 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -203,6 +203,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
-- 
2.43.0


From 6ddc30987e488761567725c3320c813d61c9aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 19/22] fix: parse only the decrypted bytes of a Key-6
 container

---
 keylib/key6.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..2f084c9 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -60,7 +60,8 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     gost_dec(&ctx, source, res, sourceSize / 8);
     OPENSSL_clear_free(source, sourceSize);
 
-    r = keysFromPKCS8(res, resSize, ks);
+    // Only whole blocks have been decrypted, the rest of the buffer is not initialized
+    r = keysFromPKCS8(res, sourceSize / 8 * 8, ks);
     OPENSSL_clear_free(res, resSize);
     return r;
 }
-- 
2.43.0


From cacb299f2b068ae752a3324d066ca10505579a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:26 +0000
Subject: [PATCH 20/22] fix: refuse curves whose field polynomial cannot be
 built

---
 keylib/utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..2790bc4 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -116,6 +116,9 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
     EC_POINT* point = NULL;
     EC_GROUP* res = NULL;
 
+    if (poly == NULL)
+        return NULL;
+
     ASN1_INTEGER_to_BN(spec->a, a);
 
     res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
-- 
2.43.0


From 1a38c9f8e1af27e74e1ac74a5fe478228cd185f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:27 +0000
Subject: [PATCH 21/22] fix: release the group and the key object when the
 second key is refused

---
 keylib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index 2790bc4..d9f80d7 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -187,6 +187,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     group = makeECGROUP(ctx, curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -207,6 +208,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
-- 
2.43.0


From aaea7cbd61e9ec7f8adc5196059cf678042fc69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 22/22] fix: release the encoded parameters when a private key
 cannot be encoded

---
 engine/ameth.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 632d478..1b590d2 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -299,9 +299,11 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
 
+    ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
+
     key = EVP_PKEY_get0(pk);
     if (!key)
     {
@@ -332,8 +334,6 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
-    ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
-
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
     {
-- 
2.43.0

