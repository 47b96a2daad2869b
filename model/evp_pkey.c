/* EVP_PKEY / EVP_PKEY_CTX over method tables (libcrypto 3.0's legacy path), for CBMC and, with
 * VP_NATIVE_MODEL, for native replay against the model. */
#include <string.h>
#include <stdlib.h>
#include <openssl/evp.h>
#include <openssl/ec.h>
#include <openssl/x509.h>
#include <openssl/obj_mac.h>
#include "vp_pkey.h"
#include "vp_count.h"
static EVP_PKEY_ASN1_METHOD *ameths[4]; static int n_ameth;
static EVP_PKEY_METHOD *pmeths[4]; static int n_pmeth;
EVP_PKEY_ASN1_METHOD *EVP_PKEY_asn1_new(int id, int flags, const char *sn, const char *ln)
{ static const EVP_PKEY_ASN1_METHOD z; EVP_PKEY_ASN1_METHOD *m = malloc(sizeof(*m)); *m = z; m->pkey_id = id; return m; }
void EVP_PKEY_asn1_free(EVP_PKEY_ASN1_METHOD *m) { free(m); }
int EVP_PKEY_asn1_add0(const EVP_PKEY_ASN1_METHOD *m) { ameths[n_ameth++] = (EVP_PKEY_ASN1_METHOD *)m; return 1; }
int EVP_PKEY_asn1_get0_info(int *id, int *base, int *flags, const char **i, const char **p, const EVP_PKEY_ASN1_METHOD *m)
{ if (!m) return 0; if (id) *id = m->pkey_id; return 1; }
void EVP_PKEY_asn1_set_param(EVP_PKEY_ASN1_METHOD *m,
    int (*dec)(EVP_PKEY *, const unsigned char **, int), int (*enc)(const EVP_PKEY *, unsigned char **),
    int (*missing)(const EVP_PKEY *), int (*copy)(EVP_PKEY *, const EVP_PKEY *),
    int (*cmp)(const EVP_PKEY *, const EVP_PKEY *), int (*print)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *))
{ m->param_decode = dec; m->param_encode = enc; m->param_missing = missing; m->param_copy = copy; m->param_cmp = cmp; m->param_print = print; }
void EVP_PKEY_asn1_set_private(EVP_PKEY_ASN1_METHOD *m, int (*dec)(EVP_PKEY *, const PKCS8_PRIV_KEY_INFO *),
    int (*enc)(PKCS8_PRIV_KEY_INFO *, const EVP_PKEY *), int (*print)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *))
{ m->priv_decode = dec; m->priv_encode = enc; m->priv_print = print; }
void EVP_PKEY_asn1_set_public(EVP_PKEY_ASN1_METHOD *m, int (*dec)(EVP_PKEY *, const X509_PUBKEY *),
    int (*enc)(X509_PUBKEY *, const EVP_PKEY *), int (*cmp)(const EVP_PKEY *, const EVP_PKEY *),
    int (*print)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *), int (*size)(const EVP_PKEY *), int (*bits)(const EVP_PKEY *))
{ m->pub_decode = dec; m->pub_encode = enc; m->pub_cmp = cmp; m->pub_print = print; m->pkey_size = size; m->pkey_bits = bits; }
void EVP_PKEY_asn1_set_free(EVP_PKEY_ASN1_METHOD *m, void (*f)(EVP_PKEY *)) { m->pkey_free = f; }
void EVP_PKEY_asn1_set_ctrl(EVP_PKEY_ASN1_METHOD *m, int (*f)(EVP_PKEY *, int, long, void *)) { m->pkey_ctrl = f; }

EVP_PKEY_METHOD *EVP_PKEY_meth_new(int id, int flags)
{ static const EVP_PKEY_METHOD z; EVP_PKEY_METHOD *m = malloc(sizeof(*m)); *m = z; m->pkey_id = id; return m; }
void EVP_PKEY_meth_free(EVP_PKEY_METHOD *m) { free(m); }
int EVP_PKEY_meth_add0(const EVP_PKEY_METHOD *m) { pmeths[n_pmeth++] = (EVP_PKEY_METHOD *)m; return 1; }
void EVP_PKEY_meth_get0_info(int *id, int *flags, const EVP_PKEY_METHOD *m) { if (id) *id = m->pkey_id; if (flags) *flags = 0; }
void EVP_PKEY_meth_set_init(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *)) { m->init = f; }
void EVP_PKEY_meth_set_cleanup(EVP_PKEY_METHOD *m, void (*f)(EVP_PKEY_CTX *)) { m->cleanup = f; }
void EVP_PKEY_meth_set_copy(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *, const EVP_PKEY_CTX *)) { m->copy = f; }
void EVP_PKEY_meth_set_keygen(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, EVP_PKEY *)) { m->keygen_init = i; m->keygen = f; }
void EVP_PKEY_meth_set_paramgen(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, EVP_PKEY *)) {}
void EVP_PKEY_meth_set_sign(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t))
{ m->sign_init = i; m->sign = f; }
void EVP_PKEY_meth_set_verify(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, const unsigned char *, size_t, const unsigned char *, size_t))
{ m->verify_init = i; m->verify = f; }
void EVP_PKEY_meth_set_ctrl(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *, int, int, void *), int (*s)(EVP_PKEY_CTX *, const char *, const char *))
{ m->ctrl = f; m->ctrl_str = s; }

EVP_PKEY *EVP_PKEY_new(void) { static const EVP_PKEY z; EVP_PKEY *k = malloc(sizeof(*k)); *k = z; k->refs = 1; return k; }
static const EVP_PKEY_ASN1_METHOD *find_a(int type)
{ for (int i = 0; i < 4; i++) if (i < n_ameth && ameths[i]->pkey_id == type) return ameths[i]; return NULL; }
static void free_it(EVP_PKEY *k)
{
    if (k->ameth) { if (k->ameth->pkey_free) k->ameth->pkey_free(k); k->ptr = NULL; }
    k->type = EVP_PKEY_NONE;
}
int EVP_PKEY_up_ref(EVP_PKEY *k) { k->refs++; return 1; }
void EVP_PKEY_free(EVP_PKEY *k)
{
    if (!k) return;
    if (--k->refs > 0) return;
#ifdef VP_CBMC
    __CPROVER_assert(k->refs == 0, "VP:EVP_PKEY released exactly once");
#endif
    free_it(k);
    free(k);
}
int EVP_PKEY_set_type(EVP_PKEY *k, int type)
{
    const EVP_PKEY_ASN1_METHOD *m;
    if (k) {
        if (k->ptr) free_it(k);
        if (k->type != EVP_PKEY_NONE && type == k->save_type && k->ameth) return 1;
    }
    m = find_a(type);
    if (!m && type != EVP_PKEY_DH && type != EVP_PKEY_EC) return 0;
    if (k) { k->ameth = m; k->type = type; k->save_type = type; }
    return 1;
}
int EVP_PKEY_assign(EVP_PKEY *k, int type, void *key)
{
    if (!k || !EVP_PKEY_set_type(k, type)) return 0;
    k->ptr = key;
    return key != NULL;
}
void *EVP_PKEY_get0(const EVP_PKEY *k) { return k ? k->ptr : NULL; }
int EVP_PKEY_get_id(const EVP_PKEY *k) { return k->type; }
int EVP_PKEY_get_base_id(const EVP_PKEY *k) { return k->type; }
int EVP_PKEY_type(int t) { return find_a(t) ? t : NID_undef; }
int EVP_PKEY_get_size(const EVP_PKEY *k) { return k && k->ameth && k->ameth->pkey_size ? k->ameth->pkey_size(k) : 0; }
int EVP_PKEY_get_bits(const EVP_PKEY *k) { return k && k->ameth && k->ameth->pkey_bits ? k->ameth->pkey_bits(k) : 0; }
int EVP_PKEY_parameters_eq(const EVP_PKEY *a, const EVP_PKEY *b)
{ if (a->type != b->type) return -1; return a->ameth && a->ameth->param_cmp ? a->ameth->param_cmp(a, b) : -2; }
int EVP_PKEY_eq(const EVP_PKEY *a, const EVP_PKEY *b)
{
    int r;
    if (a == b) return 1;
    if (!a || !b) return 0;
    if (a->type != b->type) return -1;
    if (a->ameth) {
        if (a->ameth->param_cmp) { r = a->ameth->param_cmp(a, b); if (r <= 0) return r; }
        if (a->ameth->pub_cmp) return a->ameth->pub_cmp(a, b);
    }
    return -2;
}
int EVP_PKEY_set1_EC_KEY(EVP_PKEY *k, EC_KEY *e) { return 1; }
int EVP_PKEY_print_params(BIO *o, const EVP_PKEY *k, int i, ASN1_PCTX *p) { return 1; }
int EVP_PKEY_print_private(BIO *o, const EVP_PKEY *k, int i, ASN1_PCTX *p) { return 1; }
int EVP_PKEY_print_public(BIO *o, const EVP_PKEY *k, int i, ASN1_PCTX *p) { return 1; }

static EVP_PKEY_CTX *ctx_new(EVP_PKEY *k, int type)
{
    static const EVP_PKEY_CTX z;
    EVP_PKEY_CTX *c; EVP_PKEY_METHOD *m = NULL;
    for (int i = 0; i < 4; i++) if (i < n_pmeth && pmeths[i]->pkey_id == type) m = pmeths[i];
    c = malloc(sizeof(*c)); *c = z;
    c->pmeth = m; c->pkey = k;
    if (k) k->refs++;
    if (m && m->init && m->init(c) <= 0) { c->pmeth = NULL; EVP_PKEY_CTX_free(c); return NULL; }
    return c;
}
EVP_PKEY_CTX *EVP_PKEY_CTX_new(EVP_PKEY *k, ENGINE *e) { return ctx_new(k, k->type); }
EVP_PKEY_CTX *EVP_PKEY_CTX_new_id(int id, ENGINE *e) { return ctx_new(NULL, id); }
void EVP_PKEY_CTX_free(EVP_PKEY_CTX *c)
{
    if (!c) return;
    if (c->pmeth && c->pmeth->cleanup) c->pmeth->cleanup(c);
    EVP_PKEY_free(c->pkey);
    free(c);
}
EVP_PKEY_CTX *EVP_PKEY_CTX_dup(const EVP_PKEY_CTX *s)
{
    static const EVP_PKEY_CTX z;
    EVP_PKEY_CTX *c = malloc(sizeof(*c));
    *c = z;
    c->pmeth = s->pmeth; c->pkey = s->pkey; c->op = s->op;
    if (c->pkey) c->pkey->refs++;
    if (!c->pmeth || !c->pmeth->copy) return c;
    if (c->pmeth->copy(c, s) > 0) return c;
    c->pmeth = NULL;
    EVP_PKEY_CTX_free(c);
    return NULL;
}
EVP_PKEY *EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c) { return c->pkey; }
void *EVP_PKEY_CTX_get_data(const EVP_PKEY_CTX *c) { return c->data; }
void EVP_PKEY_CTX_set_data(EVP_PKEY_CTX *c, void *d) { c->data = d; }
void *EVP_PKEY_CTX_get_app_data(EVP_PKEY_CTX *c) { return c->app_data; }
void EVP_PKEY_CTX_set_app_data(EVP_PKEY_CTX *c, void *d) { c->app_data = d; }
int EVP_PKEY_CTX_get_operation(EVP_PKEY_CTX *c) { return c->op; }
int EVP_PKEY_CTX_ctrl(EVP_PKEY_CTX *c, int keytype, int op, int cmd, int p1, void *p2)
{
    if (!c || !c->pmeth || !c->pmeth->ctrl) return -2;
    if (keytype != -1 && c->pmeth->pkey_id != keytype) return -1;
    if (c->op == EVP_PKEY_OP_UNDEFINED) return -1;
    if (op != -1 && !(c->op & op)) return -1;
    return c->pmeth->ctrl(c, cmd, p1, p2);
}
int EVP_PKEY_CTX_ctrl_str(EVP_PKEY_CTX *c, const char *n, const char *v)
{
    if (!c || !c->pmeth || !c->pmeth->ctrl_str) return -2;
    return c->pmeth->ctrl_str(c, n, v);
}
int EVP_PKEY_keygen_init(EVP_PKEY_CTX *c)
{ if (!c->pmeth || !c->pmeth->keygen) return -2; c->op = EVP_PKEY_OP_KEYGEN; return c->pmeth->keygen_init ? c->pmeth->keygen_init(c) : 1; }
int EVP_PKEY_keygen(EVP_PKEY_CTX *c, EVP_PKEY **k)
{
    int r;
    if (!c->pmeth || !c->pmeth->keygen) return -2;
    if (c->op != EVP_PKEY_OP_KEYGEN) return -1;
    if (!*k) *k = EVP_PKEY_new();
    r = c->pmeth->keygen(c, *k);
    if (r <= 0) { EVP_PKEY_free(*k); *k = NULL; }
    return r;
}
int EVP_PKEY_sign_init(EVP_PKEY_CTX *c)
{ if (!c->pmeth || !c->pmeth->sign) return -2; c->op = EVP_PKEY_OP_SIGN; return c->pmeth->sign_init ? c->pmeth->sign_init(c) : 1; }
int EVP_PKEY_sign(EVP_PKEY_CTX *c, unsigned char *s, size_t *sl, const unsigned char *t, size_t tl)
{ if (c->op != EVP_PKEY_OP_SIGN) return -1; return c->pmeth->sign(c, s, sl, t, tl); }
int EVP_PKEY_verify_init(EVP_PKEY_CTX *c)
{ if (!c->pmeth || !c->pmeth->verify) return -2; c->op = EVP_PKEY_OP_VERIFY; return c->pmeth->verify_init ? c->pmeth->verify_init(c) : 1; }
int EVP_PKEY_verify(EVP_PKEY_CTX *c, const unsigned char *s, size_t sl, const unsigned char *t, size_t tl)
{ if (c->op != EVP_PKEY_OP_VERIFY) return -1; return c->pmeth->verify(c, s, sl, t, tl); }
