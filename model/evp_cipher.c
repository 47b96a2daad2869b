/* EVP_CIPHER / EVP_CIPHER_CTX of libcrypto 3.0's legacy-method path, for CBMC. */
#include <string.h>
#include <stdlib.h>
#include <openssl/evp.h>
#include <openssl/asn1.h>
#include "typed_alloc.h"
struct evp_cipher_st {
    int nid, block_size, key_len, iv_len;
    unsigned long flags;
    int (*init)(EVP_CIPHER_CTX *, const unsigned char *, const unsigned char *, int);
    int (*do_cipher)(EVP_CIPHER_CTX *, unsigned char *, const unsigned char *, size_t);
    int (*cleanup)(EVP_CIPHER_CTX *);
    int ctx_size;
    int (*set_asn1)(EVP_CIPHER_CTX *, ASN1_TYPE *);
    int (*get_asn1)(EVP_CIPHER_CTX *, ASN1_TYPE *);
    int (*ctrl)(EVP_CIPHER_CTX *, int, int, void *);
};
struct evp_cipher_ctx_st {
    const EVP_CIPHER *cipher;
    int encrypt;
    unsigned char oiv[16], iv[16], buf[32];
    int num, key_len;
    unsigned long flags;
    void *cipher_data, *app_data;
};
static const EVP_CIPHER_CTX ctx_zero;
EVP_CIPHER *EVP_CIPHER_meth_new(int nid, int bs, int kl)
{
    static const EVP_CIPHER z;
    EVP_CIPHER *c = malloc(sizeof(*c));
    *c = z;
    c->nid = nid; c->block_size = bs; c->key_len = kl;
    return c;
}
void EVP_CIPHER_meth_free(EVP_CIPHER *c) { free(c); }
int EVP_CIPHER_meth_set_iv_length(EVP_CIPHER *c, int n) { c->iv_len = n; return 1; }
int EVP_CIPHER_meth_set_flags(EVP_CIPHER *c, unsigned long f) { c->flags = f; return 1; }
int EVP_CIPHER_meth_set_impl_ctx_size(EVP_CIPHER *c, int n) { c->ctx_size = n; return 1; }
int EVP_CIPHER_meth_set_init(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, const unsigned char *, const unsigned char *, int)) { c->init = f; return 1; }
int EVP_CIPHER_meth_set_do_cipher(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, unsigned char *, const unsigned char *, size_t)) { c->do_cipher = f; return 1; }
int EVP_CIPHER_meth_set_cleanup(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *)) { c->cleanup = f; return 1; }
int EVP_CIPHER_meth_set_set_asn1_params(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, ASN1_TYPE *)) { c->set_asn1 = f; return 1; }
int EVP_CIPHER_meth_set_get_asn1_params(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, ASN1_TYPE *)) { c->get_asn1 = f; return 1; }
int EVP_CIPHER_meth_set_ctrl(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, int, int, void *)) { c->ctrl = f; return 1; }
int EVP_CIPHER_get_nid(const EVP_CIPHER *c) { return c->nid; }
int EVP_CIPHER_get_iv_length(const EVP_CIPHER *c) { return c->iv_len; }
int EVP_CIPHER_get_key_length(const EVP_CIPHER *c) { return c->key_len; }
int EVP_CIPHER_get_block_size(const EVP_CIPHER *c) { return c->block_size; }
unsigned long EVP_CIPHER_get_flags(const EVP_CIPHER *c) { return c->flags; }

EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void)
{ EVP_CIPHER_CTX *x = malloc(sizeof(*x)); *x = ctx_zero; return x; }
int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *x)
{
    if (!x) return 1;
    if (x->cipher) {
        if (x->cipher->cleanup && !x->cipher->cleanup(x)) return 0;
        free(x->cipher_data);
    }
    *x = ctx_zero;
    return 1;
}
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *x) { if (x) { EVP_CIPHER_CTX_reset(x); free(x); } }
void *EVP_CIPHER_CTX_get_cipher_data(const EVP_CIPHER_CTX *x) { return x->cipher_data; }
void *EVP_CIPHER_CTX_get_app_data(const EVP_CIPHER_CTX *x) { return x->app_data; }
void EVP_CIPHER_CTX_set_app_data(EVP_CIPHER_CTX *x, void *d) { x->app_data = d; }
const unsigned char *EVP_CIPHER_CTX_original_iv(const EVP_CIPHER_CTX *x) { return x->oiv; }
const unsigned char *EVP_CIPHER_CTX_iv(const EVP_CIPHER_CTX *x) { return x->iv; }
unsigned char *EVP_CIPHER_CTX_iv_noconst(EVP_CIPHER_CTX *x) { return x->iv; }
unsigned char *EVP_CIPHER_CTX_buf_noconst(EVP_CIPHER_CTX *x) { return x->buf; }
int EVP_CIPHER_CTX_get_num(const EVP_CIPHER_CTX *x) { return x->num; }
int EVP_CIPHER_CTX_set_num(EVP_CIPHER_CTX *x, int n) { x->num = n; return 1; }
int EVP_CIPHER_CTX_is_encrypting(const EVP_CIPHER_CTX *x) { return x->encrypt; }
int EVP_CIPHER_CTX_get_iv_length(const EVP_CIPHER_CTX *x) { return x->cipher->iv_len; }
int EVP_CIPHER_CTX_get_key_length(const EVP_CIPHER_CTX *x) { return x->key_len; }
int EVP_CIPHER_CTX_get_block_size(const EVP_CIPHER_CTX *x) { return x->cipher->block_size; }
int EVP_CIPHER_CTX_get_nid(const EVP_CIPHER_CTX *x) { return x->cipher->nid; }
const EVP_CIPHER *EVP_CIPHER_CTX_cipher(const EVP_CIPHER_CTX *x) { return x->cipher; }
const EVP_CIPHER *EVP_CIPHER_CTX_get0_cipher(const EVP_CIPHER_CTX *x) { return x->cipher; }

int EVP_CipherInit_ex(EVP_CIPHER_CTX *x, const EVP_CIPHER *c, ENGINE *e,
                      const unsigned char *key, const unsigned char *iv, int enc)
{
    if (enc == -1) enc = x->encrypt;
    else { enc = enc ? 1 : 0; x->encrypt = enc; }
    if (c) {
        if (x->cipher) {
            unsigned long fl = x->flags;
            if (!EVP_CIPHER_CTX_reset(x)) return 0;
            x->encrypt = enc; x->flags = fl;
        }
        x->cipher = c;
        if (c->ctx_size) {
            x->cipher_data = typed_alloc(c->ctx_size);
        }
        x->key_len = c->key_len;
    }
    if (!x->cipher) return 0;
    if (!(x->cipher->flags & EVP_CIPH_CUSTOM_IV) && iv) {
        memcpy(x->oiv, iv, x->cipher->iv_len);
        memcpy(x->iv, x->oiv, x->cipher->iv_len);
        x->num = 0;
    }
    if (key || (x->cipher->flags & EVP_CIPH_ALWAYS_CALL_INIT))
        if (!x->cipher->init(x, key, iv, enc)) return 0;
    return 1;
}
int EVP_CipherUpdate(EVP_CIPHER_CTX *x, unsigned char *out, int *outl, const unsigned char *in, int inl)
{
    if (!outl) return 0;
    *outl = 0;
    if (!x->cipher) return 0;
    if (x->cipher->flags & EVP_CIPH_FLAG_CUSTOM_CIPHER) {
        int i = x->cipher->do_cipher(x, out, in, (size_t)inl);
        if (i < 0) return 0;
        *outl = i;
        return 1;
    }
    if (inl <= 0) return inl == 0;
    if (x->cipher->block_size == 1) {
        if (!x->cipher->do_cipher(x, out, in, (size_t)inl)) return 0;
        *outl = inl;
        return 1;
    }
    __CPROVER_assert(0, "model: block-buffered ciphers are not modelled");
    return 0;
}
int EVP_CipherFinal_ex(EVP_CIPHER_CTX *x, unsigned char *out, int *outl)
{
    *outl = 0;
    if (!x->cipher) return 0;
    if (x->cipher->flags & EVP_CIPH_FLAG_CUSTOM_CIPHER) {
        int i = x->cipher->do_cipher(x, out, NULL, 0);
        if (i < 0) return 0;
        *outl = i;
    }
    return 1;
}
int EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX *x, int type, int arg, void *ptr)
{
    if (!x || !x->cipher || !x->cipher->ctrl) return 0;
    int r = x->cipher->ctrl(x, type, arg, ptr);
    return r == -1 ? 0 : r;
}
int EVP_CIPHER_CTX_copy(EVP_CIPHER_CTX *o, const EVP_CIPHER_CTX *in)
{
    if (!in || !in->cipher) return 0;
    EVP_CIPHER_CTX_reset(o);
    *o = *in;
    if (in->cipher_data && in->cipher->ctx_size) {
        o->cipher_data = typed_dup(in->cipher_data, in->cipher->ctx_size);
    }
    if (in->cipher->flags & EVP_CIPH_CUSTOM_COPY)
        return in->cipher->ctrl((EVP_CIPHER_CTX *)in, EVP_CTRL_COPY, 0, o);
    return 1;
}
int EVP_CIPHER_param_to_asn1(EVP_CIPHER_CTX *x, ASN1_TYPE *t)
{ int r = x->cipher->set_asn1 ? x->cipher->set_asn1(x, t) : -1; return r < -1 ? -1 : r; }
int EVP_CIPHER_asn1_to_param(EVP_CIPHER_CTX *x, ASN1_TYPE *t)
{ int r = x->cipher->get_asn1 ? x->cipher->get_asn1(x, t) : -1; return r < -1 ? -1 : r; }

