#ifndef VP_PKEY_H_
#define VP_PKEY_H_
#include <openssl/evp.h>
#include <openssl/x509.h>
struct evp_pkey_asn1_method_st {
    int pkey_id;
    int (*param_decode)(EVP_PKEY *, const unsigned char **, int);
    int (*param_encode)(const EVP_PKEY *, unsigned char **);
    int (*param_missing)(const EVP_PKEY *);
    int (*param_copy)(EVP_PKEY *, const EVP_PKEY *);
    int (*param_cmp)(const EVP_PKEY *, const EVP_PKEY *);
    int (*param_print)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *);
    int (*priv_decode)(EVP_PKEY *, const PKCS8_PRIV_KEY_INFO *);
    int (*priv_encode)(PKCS8_PRIV_KEY_INFO *, const EVP_PKEY *);
    int (*priv_print)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *);
    int (*pub_decode)(EVP_PKEY *, const X509_PUBKEY *);
    int (*pub_encode)(X509_PUBKEY *, const EVP_PKEY *);
    int (*pub_cmp)(const EVP_PKEY *, const EVP_PKEY *);
    int (*pub_print)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *);
    int (*pkey_size)(const EVP_PKEY *);
    int (*pkey_bits)(const EVP_PKEY *);
    void (*pkey_free)(EVP_PKEY *);
    int (*pkey_ctrl)(EVP_PKEY *, int, long, void *);
};
struct evp_pkey_method_st {
    int pkey_id;
    int (*init)(EVP_PKEY_CTX *);
    void (*cleanup)(EVP_PKEY_CTX *);
    int (*copy)(EVP_PKEY_CTX *, const EVP_PKEY_CTX *);
    int (*keygen_init)(EVP_PKEY_CTX *);
    int (*keygen)(EVP_PKEY_CTX *, EVP_PKEY *);
    int (*sign_init)(EVP_PKEY_CTX *);
    int (*sign)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
    int (*verify_init)(EVP_PKEY_CTX *);
    int (*verify)(EVP_PKEY_CTX *, const unsigned char *, size_t, const unsigned char *, size_t);
    int (*ctrl)(EVP_PKEY_CTX *, int, int, void *);
    int (*ctrl_str)(EVP_PKEY_CTX *, const char *, const char *);
};
struct evp_pkey_st { int type, save_type, refs; const EVP_PKEY_ASN1_METHOD *ameth; void *ptr; };
struct evp_pkey_ctx_st { const EVP_PKEY_METHOD *pmeth; EVP_PKEY *pkey; int op; void *data, *app_data; };
#endif
