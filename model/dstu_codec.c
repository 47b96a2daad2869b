/* For CBMC: what the key codecs need from libcrypto's ASN.1 layer. The DER text of algorithm parameters is opaque: eight fixed bytes
 * stand for the structure written last (engine/dstulib/asn1.c's grammar has its own harness). */
#include <stdlib.h>
#include <string.h>
#include <openssl/asn1.h>
#include <openssl/bn.h>
#include <openssl/objects.h>
#include <openssl/obj_mac.h>
#include <openssl/x509.h>
#include "asn1.h"
#include "vp_asn1.h"
#include "vp_pkey.h"
#include "vp_count.h"
struct asn1_object_st { int nid; };
static struct asn1_object_st objs[24];      /* one per name in use */
ASN1_OBJECT *OBJ_nid2obj(int n)
{
    for (int i = 0; i < 24; i++) { if (objs[i].nid == n) return (ASN1_OBJECT *)&objs[i]; if (!objs[i].nid) { objs[i].nid = n; return (ASN1_OBJECT *)&objs[i]; } }
    __CPROVER_assert(0, "VP:model limit: names"); return NULL;
}
int OBJ_obj2nid(const ASN1_OBJECT *o) { return o ? ((struct asn1_object_st *)o)->nid : NID_undef; }
void ASN1_OBJECT_free(ASN1_OBJECT *o) {}
ASN1_OBJECT *OBJ_dup(const ASN1_OBJECT *o) { return (ASN1_OBJECT *)o; }
int OBJ_cmp(const ASN1_OBJECT *a, const ASN1_OBJECT *b) { return OBJ_obj2nid(a) - OBJ_obj2nid(b); }

ASN1_INTEGER *ASN1_INTEGER_new(void) { return ASN1_STRING_type_new(V_ASN1_INTEGER); }
void ASN1_INTEGER_free(ASN1_INTEGER *s) { ASN1_STRING_free(s); }
static void put(ASN1_INTEGER *s, const unsigned char *d, int n, int neg) { ASN1_STRING_set(s, d, n); s->type = neg ? V_ASN1_NEG_INTEGER : V_ASN1_INTEGER; }
int ASN1_INTEGER_set(ASN1_INTEGER *s, long v)
{
    unsigned char b[8]; unsigned long u = v < 0 ? -(unsigned long)v : v;
    for (int i = 0; i < 8; i++) b[i] = u >> 8 * (7 - i);
    put(s, b, 8, v < 0); return 1;
}
long ASN1_INTEGER_get(const ASN1_INTEGER *s)
{
    unsigned long v = 0;
    if (!s) return 0;
    for (int i = 0; i < s->length; i++) { if (v >> 55) return -1; v = v << 8 | s->data[i]; }
    return s->type == V_ASN1_NEG_INTEGER ? -(long)v : (long)v;
}
ASN1_INTEGER *BN_to_ASN1_INTEGER(const BIGNUM *b, ASN1_INTEGER *s)
{
    unsigned char t[64]; int n = BN_num_bits(b); n = n ? (n + 7) / 8 : 1;
    if (BN_bn2binpad(b, t, n) != n) return NULL;
    if (!s) s = ASN1_INTEGER_new();
    put(s, t, n, BN_is_negative(b)); return s;
}
BIGNUM *ASN1_INTEGER_to_BN(const ASN1_INTEGER *s, BIGNUM *b)
{
    b = BN_bin2bn(s->data, s->length, b);
    if (b && s->type == V_ASN1_NEG_INTEGER) BN_set_negative(b, 1);
    return b;
}

DSTU_Pentanomial *DSTU_Pentanomial_new(void) { DSTU_Pentanomial *p = malloc(sizeof(*p)); p->k = ASN1_INTEGER_new(); p->j = ASN1_INTEGER_new(); p->l = ASN1_INTEGER_new(); return p; }
void DSTU_Pentanomial_free(DSTU_Pentanomial *p) { if (!p) return; ASN1_INTEGER_free(p->k); ASN1_INTEGER_free(p->j); ASN1_INTEGER_free(p->l); free(p); }
DSTU_CustomCurveSpec *DSTU_CustomCurveSpec_new(void)
{
    static const DSTU_CustomCurveSpec z; static const DSTU_Polynomial zp;
    DSTU_CustomCurveSpec *s = malloc(sizeof(*s)); *s = z;
    s->field = malloc(sizeof(*s->field)); s->field->m = ASN1_INTEGER_new();
    s->field->poly = malloc(sizeof(*s->field->poly)); *s->field->poly = zp; s->field->poly->type = -1;
    s->a = ASN1_INTEGER_new(); s->n = ASN1_INTEGER_new(); s->b = ASN1_OCTET_STRING_new(); s->bp = ASN1_OCTET_STRING_new();
    return s;
}
void DSTU_CustomCurveSpec_free(DSTU_CustomCurveSpec *s)
{
    if (!s) return;
    if (s->field) {
        ASN1_INTEGER_free(s->field->m);
        if (s->field->poly) { if (s->field->poly->type == 0) ASN1_INTEGER_free(s->field->poly->poly.k); else if (s->field->poly->type == 1) DSTU_Pentanomial_free(s->field->poly->poly.pentanomial); free(s->field->poly); }
        free(s->field);
    }
    ASN1_INTEGER_free(s->a); ASN1_INTEGER_free(s->n); ASN1_OCTET_STRING_free(s->b); ASN1_OCTET_STRING_free(s->bp); free(s);
}
DSTU_AlgorithmParameters *DSTU_AlgorithmParameters_new(void)
{
    static const DSTU_CurveSpec z;
    DSTU_AlgorithmParameters *p = malloc(sizeof(*p)); p->sbox = NULL; p->curve = malloc(sizeof(*p->curve)); *p->curve = z; p->curve->type = -1;
    return p;
}
void DSTU_AlgorithmParameters_free(DSTU_AlgorithmParameters *p)
{
    if (!p) return;
    if (p->curve) { if (p->curve->type == 1) DSTU_CustomCurveSpec_free(p->curve->curve.custom_curve); free(p->curve); }
    ASN1_OCTET_STRING_free(p->sbox); free(p);
}
static DSTU_AlgorithmParameters *dup(const DSTU_AlgorithmParameters *p)
{
    DSTU_AlgorithmParameters *r = DSTU_AlgorithmParameters_new();
    r->sbox = ASN1_STRING_dup(p->sbox); r->curve->type = p->curve->type;
    if (p->curve->type == 0) r->curve->curve.named_curve = p->curve->curve.named_curve;
    else {
        DSTU_CustomCurveSpec *f = p->curve->curve.custom_curve, *t = malloc(sizeof(*t)); static const DSTU_CustomCurveSpec z; static const DSTU_Polynomial zp; *t = z;
        t->field = malloc(sizeof(*t->field)); t->field->m = ASN1_STRING_dup(f->field->m); t->field->poly = malloc(sizeof(*t->field->poly)); *t->field->poly = zp;
        t->field->poly->type = f->field->poly->type;
        if (f->field->poly->type == 0) t->field->poly->poly.k = ASN1_STRING_dup(f->field->poly->poly.k);
        else {
            DSTU_Pentanomial *x = malloc(sizeof(*x)), *y = f->field->poly->poly.pentanomial;
            x->k = ASN1_STRING_dup(y->k); x->j = ASN1_STRING_dup(y->j); x->l = ASN1_STRING_dup(y->l); t->field->poly->poly.pentanomial = x;
        }
        t->a = ASN1_STRING_dup(f->a); t->b = ASN1_STRING_dup(f->b); t->n = ASN1_STRING_dup(f->n); t->bp = ASN1_STRING_dup(f->bp);
        r->curve->curve.custom_curve = t;
    }
    return r;
}
static DSTU_AlgorithmParameters *written;
void codec_reset(void) { DSTU_AlgorithmParameters_free(written); written = NULL; }
int codec_fail;      /* 1: writing the parameters fails with -1; 2: with 0 */
int i2d_DSTU_AlgorithmParameters(const DSTU_AlgorithmParameters *p, unsigned char **o)
{
    if (codec_fail) return codec_fail - 2;
    codec_reset(); written = dup(p);
    if (!o) return 8;
    unsigned char *d = *o ? *o : (unsigned char *)malloc(8);
    for (int i = 0; i < 8; i++) d[i] = 0x30 + i;
    if (*o) *o += 8; else *o = d;
    return 8;
}
DSTU_AlgorithmParameters *d2i_DSTU_AlgorithmParameters(DSTU_AlgorithmParameters **a, const unsigned char **p, long n)
{
    if (n < 8 || !written) return NULL;
    for (int i = 0; i < 8; i++) if ((*p)[i] != 0x30 + i) return NULL;
    *p += 8; return dup(written);
}

/* algorithm identifiers, SubjectPublicKeyInfo, PKCS#8 */
struct X509_algor_st_ { ASN1_OBJECT *o; int t; ASN1_STRING *v; };
struct X509_pubkey_st { struct X509_algor_st_ alg; unsigned char *key; int n; EVP_PKEY *pkey; };
struct pkcs8_priv_key_info_st { struct X509_algor_st_ alg; unsigned char *key; int n; };
void X509_ALGOR_get0(const ASN1_OBJECT **o, int *t, const void **v, const X509_ALGOR *x)
{
    const struct X509_algor_st_ *a = (const void *)x;
    if (o) *o = a->o;
    if (t) { *t = a->t; if (a->t == V_ASN1_UNDEF) return; if (v) *v = a->v; }
}
static void alg_set(struct X509_algor_st_ *a, ASN1_OBJECT *o, int t, void *v) { if (a->v != v) ASN1_STRING_free(a->v); a->o = o; a->t = t; a->v = v; }
X509_PUBKEY *X509_PUBKEY_new(void) { static const struct X509_pubkey_st z; struct X509_pubkey_st *p = malloc(sizeof(*p)); *p = z; p->alg.t = V_ASN1_UNDEF; return (X509_PUBKEY *)p; }
void X509_PUBKEY_free(X509_PUBKEY *x) { struct X509_pubkey_st *p = (void *)x; if (!p) return; ASN1_STRING_free(p->alg.v); free(p->key); free(p); }
int X509_PUBKEY_set0_param(X509_PUBKEY *x, ASN1_OBJECT *o, int t, void *v, unsigned char *k, int n)
{ struct X509_pubkey_st *p = (void *)x; alg_set(&p->alg, o, t, v); if (k) { free(p->key); p->key = k; p->n = n; } return 1; }
int X509_PUBKEY_get0_param(ASN1_OBJECT **o, const unsigned char **k, int *n, X509_ALGOR **a, const X509_PUBKEY *x)
{ struct X509_pubkey_st *p = (void *)x; if (o) *o = p->alg.o; if (k) { *k = p->key; *n = p->n; } if (a) *a = (X509_ALGOR *)&p->alg; return 1; }
int X509_PUBKEY_set(X509_PUBKEY **x, EVP_PKEY *k)
{
    X509_PUBKEY *p = X509_PUBKEY_new();
    if (!k->ameth || !k->ameth->pub_encode || !k->ameth->pub_encode(p, k)) { X509_PUBKEY_free(p); return 0; }
    X509_PUBKEY_free(*x); *x = p; return 1;
}
/* decoding as d2i_X509_PUBKEY and X509_PUBKEY_get do */
EVP_PKEY *codec_pub(const X509_PUBKEY *x)
{
    struct X509_pubkey_st *p = (void *)x; EVP_PKEY *k = EVP_PKEY_new();
    if (!EVP_PKEY_set_type(k, OBJ_obj2nid(p->alg.o)) || !k->ameth || !k->ameth->pub_decode(k, x)) { EVP_PKEY_free(k); return NULL; }
    return k;
}
PKCS8_PRIV_KEY_INFO *PKCS8_PRIV_KEY_INFO_new(void) { static const struct pkcs8_priv_key_info_st z; struct pkcs8_priv_key_info_st *p = malloc(sizeof(*p)); *p = z; p->alg.t = V_ASN1_UNDEF; return (void *)p; }
void PKCS8_PRIV_KEY_INFO_free(PKCS8_PRIV_KEY_INFO *x) { struct pkcs8_priv_key_info_st *p = (void *)x; if (!p) return; ASN1_STRING_free(p->alg.v); free(p->key); free(p); }
int PKCS8_pkey_set0(PKCS8_PRIV_KEY_INFO *x, ASN1_OBJECT *o, int version, int t, void *v, unsigned char *k, int n)
{ struct pkcs8_priv_key_info_st *p = (void *)x; alg_set(&p->alg, o, t, v); if (k) { free(p->key); p->key = k; p->n = n; } return 1; }
int PKCS8_pkey_get0(const ASN1_OBJECT **o, const unsigned char **k, int *n, const X509_ALGOR **a, const PKCS8_PRIV_KEY_INFO *x)
{ const struct pkcs8_priv_key_info_st *p = (const void *)x; if (o) *o = p->alg.o; if (k) { *k = p->key; *n = p->n; } if (a) *a = (const X509_ALGOR *)&p->alg; return 1; }
PKCS8_PRIV_KEY_INFO *EVP_PKEY2PKCS8(const EVP_PKEY *k)
{
    PKCS8_PRIV_KEY_INFO *p = PKCS8_PRIV_KEY_INFO_new();
    if (!k->ameth || !k->ameth->priv_encode || !k->ameth->priv_encode(p, k)) { PKCS8_PRIV_KEY_INFO_free(p); return NULL; }
    return p;
}
EVP_PKEY *EVP_PKCS82PKEY(const PKCS8_PRIV_KEY_INFO *x)
{
    const struct pkcs8_priv_key_info_st *p = (const void *)x; EVP_PKEY *k = EVP_PKEY_new();
    if (!EVP_PKEY_set_type(k, OBJ_obj2nid(p->alg.o)) || !k->ameth || !k->ameth->priv_decode(k, x)) { EVP_PKEY_free(k); return NULL; }
    return k;
}
