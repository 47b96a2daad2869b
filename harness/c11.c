/* C11, C12, C13: key codecs. Curve CURVE of the standard's table, by name or (CUSTOM) with the base point negated, which makes it a
 * curve of one's own; byte order BE; S-box absent, default or arbitrary.
 * PART 1 private keys of DBITS bits there and back; 2 private key structures put together by hand; 3 public keys there and back;
 * 4 public key structures by hand; 5 parameters there and back; 6 bad parameters; 7 the DER grammar of the parameters. */
#include "vp.h"
#include <string.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <openssl/obj_mac.h>
#include "asn1.h"
#include "wide.h"
#include "ameth.h"
#include "key.h"
#include "params.h"
#include "compress.h"
#include "curves.h"
#include "cfb_spec.h"
#include "native_fault.h"
#ifndef DBITS
#define DBITS 8
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef BAD
#define BAD 0
#endif
#define FS ((sp_curve[CURVE].arr[0] + 7) / 8)
#ifndef KIND      /* S-box: 0 absent, 1 the default one written out, 2 any */
#define KIND 0
#endif
#define M 3         /* the public point, as a multiple of the base point */
struct in_t { uint8_t box[64], d[64], code[2][56], raw[70]; long v; };
VP_INPUT;
int wide_hex_bits;
#ifdef VP_CBMC
extern int wide_bin_bits;
#endif
static int armed, fault_n;
#ifdef FAULT
static int fault_at = FAULT;
#endif
int vp_fault(void)      /* FAULT: the operation of that number fails */
{
#ifdef FAULT
    return armed && ++fault_n == fault_at;
#endif
    return 0;
}
#ifdef FAULT
# define ARM (armed = 1)
# define DISARM (armed = 0)
# define MUST(c, m) do { } while (0)
#else
# define ARM ((void)0)
# define DISARM ((void)0)
# define MUST(c, m) VP_ASSERT(c, m)
#endif
int RAND_priv_bytes(unsigned char *b, int n) { return 0; }
int wide_on_curve(const EC_GROUP *g, const BIGNUM *x, const BIGNUM *y) { return 1; }
int BN_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
#ifdef VP_CBMC
# include "vp_pkey.h"
extern long vp_live;
void codec_reset(void); EVP_PKEY *codec_pub(const X509_PUBKEY *); extern int codec_fail;
# define read_pub codec_pub
/* the codec of points is C10's subject: here two points have arbitrary different encodings, and nothing else is one */
static EC_POINT *pt[2];
int dstu_point_compress(const EC_GROUP *g, const EC_POINT *p, unsigned char *o, int n)
{
    int r = 0;
    VP_ASSERT(g != NULL && p != NULL && __CPROVER_w_ok(o, n), "encodes a point into its buffer");
    if (n != FS) return 0;
    for (int i = 0; i < 2; i++) if (pt[i]) {
        int same = EC_POINT_cmp(g, pt[i], p, NULL) == 0;
        for (int j = 0; j < FS; j++) o[j] = same ? IN.code[i][j] : o[j];
        r |= same;
    }
    return r;
}
int dstu_point_expand(const unsigned char *c, int n, const EC_GROUP *g, EC_POINT *p)
{
    int r = 0;
    VP_ASSERT(g != NULL && p != NULL && (n == 0 || __CPROVER_r_ok(c, n)), "decodes a point from its bytes");
    if (n != FS) return 0;
    for (int i = 0; i < 2; i++) if (pt[i]) {
        int same = 1;
        for (int j = 0; j < FS; j++) same &= IN.code[i][j] == c[j];
        if (same) { int a = armed; armed = 0; EC_POINT_copy(p, pt[i]); armed = a; r = 1; }
    }
    return r;
}
#else
static EVP_PKEY *read_pub(X509_PUBKEY *x)
{
    unsigned char *b = NULL; int n = i2d_X509_PUBKEY(x, &b); const unsigned char *p = b; EVP_PKEY *k = NULL;
    VP_ASSERT(n > 0, "written");
    X509_PUBKEY *y = d2i_X509_PUBKEY(NULL, &p, n); OPENSSL_free(b);
    if (y) k = X509_PUBKEY_get(y);
    X509_PUBKEY_free(y);
    return k;
}
#endif
static void vp_randomise(void)
{
    vp_rand(&IN, sizeof(IN)); IN.v = -(IN.v & 0xff);
#if BAD == 4
    IN.v = 2 - IN.v;
#endif
    IN.d[DBITS ? (DBITS - 1) / 8 : 0] &= (2 << (DBITS - 1) % 8) - 1; IN.d[(DBITS - 1) / 8] |= 1 << (DBITS - 1) % 8;
}
static const uint8_t *eff(void) { return KIND > 1 ? IN.box : sp_default_sbox; }
static EC_GROUP *group(void)
{
    EC_GROUP *g = group_from_nid(sp_curve[CURVE].nid);
#ifdef CUSTOM
    EC_POINT *p = EC_POINT_dup(EC_GROUP_get0_generator(g), g); BIGNUM *n = BN_dup(EC_GROUP_get0_order(g));
    VP_ASSERT(EC_POINT_invert(g, p, NULL) == 1 && EC_GROUP_set_generator(g, p, n, BN_value_one()) == 1, "a base point of its own");
    EC_POINT_free(p); BN_free(n);
#endif
    return g;
}
static EC_GROUP *G;
static DSTU_KEY *mk(void)
{
    DSTU_KEY *k = DSTU_KEY_new();
    VP_ASSERT(k && EC_KEY_set_group(k->ec, G), "key with a group");
    if (KIND) { k->sbox = OPENSSL_malloc(64); for (int i = 0; i < 64; i++) k->sbox[i] = eff()[i]; }
    return k;
}
static void same_params(const DSTU_KEY *k)
{
    VP_ASSERT(k != NULL && k->ec != NULL, "a key");
    const EC_GROUP *g = EC_KEY_get0_group(k->ec);
    VP_ASSERT(g != NULL && EC_GROUP_cmp(g, G, NULL) == 0, "same curve");
    for (int i = 0; i < 64; i++) VP_ASSERT((k->sbox ? k->sbox[i] : sp_default_sbox[i]) == eff()[i], "same S-box");
}
#ifdef V
# define SETV(f, ok) ASN1_INTEGER_set(f, V)
#else
# define SETV(f, ok) do { VP_ASSUME(ok); ASN1_INTEGER_set(f, IN.v); } while (0)
#endif
static void body(void)
{
#if PART < 5
    static int reg;
    if (!reg) { reg = 1; EVP_PKEY_asn1_add0(dstu_asn1_meth_new(NID_dstu4145le)); EVP_PKEY_asn1_add0(dstu_asn1_meth_new(NID_dstu4145be)); }
#endif
    int nid = BE ? NID_dstu4145be : NID_dstu4145le;
#ifdef VP_CBMC
    long live0 = vp_live;
    int diff = 0; for (int i = 0; i < FS; i++) diff |= IN.code[0][i] != IN.code[1][i];
    VP_ASSUME(diff); codec_fail = 0; armed = fault_n = 0; 
#endif
    G = group();
    EC_POINT *Q = EC_POINT_new(G); BIGNUM *qm = BN_new(); BN_set_word(qm, M);
    EC_POINT_mul(G, Q, qm, NULL, NULL, NULL);
#ifdef VP_CBMC
    pt[0] = EC_POINT_dup(EC_GROUP_get0_generator(G), G); pt[1] = EC_POINT_dup(Q, G);
#endif
    DSTU_KEY *key = mk();
#if PART == 1 || PART == 2
    BIGNUM *d;
# ifdef VP_CBMC
    wide_bin_bits = PART == 1 ? DBITS : 0;
# endif
# if PART == 2     /* any scalar bytes */
    d = BN_lebin2bn(IN.raw, LEN, NULL);
# else
    VP_ASSUME(IN.d[(DBITS - 1) / 8] >> (DBITS - 1) % 8 == 1);
    d = BN_lebin2bn(IN.d, (DBITS + 7) / 8, NULL);
# endif
# ifdef VP_CBMC
    wide_bin_bits = 0;
# endif
    VP_ASSERT(d != NULL, "scalar");
    EC_POINT *W = EC_POINT_new(G); EC_POINT_mul(G, W, d, NULL, NULL, NULL); EC_POINT_invert(G, W, NULL);
#endif
    EVP_PKEY *pk = NULL, *r = NULL; const DSTU_KEY *k2;
#if PART < 5
    pk = EVP_PKEY_new();
    VP_ASSERT(EVP_PKEY_assign(pk, nid, key), "assign");
#endif
#if PART == 1
# ifdef NOKEY      /* no private part */
    VP_ASSERT(EVP_PKEY2PKCS8(pk) == NULL, "a key without a private part is refused");
# else
    VP_ASSERT(EC_KEY_set_private_key(key->ec, d) == 1, "private key");
#  ifdef FAILENC
    codec_fail = FAILENC;
    VP_ASSERT(EVP_PKEY2PKCS8(pk) == NULL, "parameters that cannot be written are refused");
    codec_fail = 0;
#  else
    ARM; PKCS8_PRIV_KEY_INFO *p8 = EVP_PKEY2PKCS8(pk); DISARM;
    MUST(p8 != NULL, "written");
    if (p8) {
    const ASN1_OBJECT *o; const unsigned char *kb; int n, t; const X509_ALGOR *alg; const void *v;
    PKCS8_pkey_get0(&o, &kb, &n, &alg, p8); X509_ALGOR_get0(NULL, &t, &v, alg);
    VP_ASSERT(OBJ_obj2nid(o) == nid && t == V_ASN1_SEQUENCE, "names its algorithm and parameters");
    VP_ASSERT(n >= (DBITS + 7) / 8, "whole scalar");
    for (int i = 0; i < n; i++) VP_ASSERT(kb[i] == (i < (DBITS + 7) / 8 ? IN.d[i] : 0), "scalar in little-endian order");
    EVP_PKEY_free(pk); pk = NULL;
    ARM; r = EVP_PKCS82PKEY(p8); DISARM;
    MUST(r != NULL, "read back");
    if (r) {
    VP_ASSERT(EVP_PKEY_get_id(r) == nid, "same algorithm");
    k2 = EVP_PKEY_get0(r); same_params(k2);
    VP_ASSERT(EC_KEY_get0_private_key(k2->ec) && BN_cmp(EC_KEY_get0_private_key(k2->ec), d) == 0, "same scalar");
    VP_ASSERT(EC_KEY_get0_public_key(k2->ec) && EC_POINT_cmp(G, EC_KEY_get0_public_key(k2->ec), W, NULL) == 0, "public key is the negated multiple of the base point");
    }
    PKCS8_PRIV_KEY_INFO_free(p8);
    }
#  endif
# endif
#elif PART == 2 || PART == 4
    /* parameters as the library writes them */
    EC_KEY_set_public_key(key->ec, Q);
    X509_PUBKEY *pub = NULL; VP_ASSERT(X509_PUBKEY_set(&pub, pk) == 1, "written");
    X509_ALGOR *alg; ASN1_OBJECT *o; const void *v; int t, n; const unsigned char *kb;
    X509_PUBKEY_get0_param(&o, &kb, &n, &alg, pub); X509_ALGOR_get0(NULL, &t, &v, alg);
    ASN1_STRING *par = ASN1_STRING_dup(v); int ptype = V_ASN1_SEQUENCE, anid = nid;
    X509_PUBKEY_free(pub);
# if BAD == 1
    ASN1_STRING_free(par); par = NULL; ptype = V_ASN1_NULL;
# elif BAD == 2
    ASN1_STRING_free(par); par = NULL; ptype = V_ASN1_UNDEF;
# elif BAD == 3
    par->type = ptype = V_ASN1_OCTET_STRING;      /* the right bytes with another tag */
# elif BAD == 4
    { ASN1_STRING *q = ASN1_STRING_type_new(V_ASN1_SEQUENCE); ASN1_STRING_set(q, ASN1_STRING_get0_data(par), ASN1_STRING_length(par) - 1); ASN1_STRING_free(par); par = q; }
# elif BAD == 5
    anid = NID_dstu34311;
# endif
    unsigned char *raw = OPENSSL_malloc(LEN + 1); for (int i = 0; i < LEN; i++) raw[i] = IN.raw[i];
# if PART == 2
    PKCS8_PRIV_KEY_INFO *p8 = PKCS8_PRIV_KEY_INFO_new();
    PKCS8_pkey_set0(p8, OBJ_nid2obj(anid), 0, ptype, par, raw, LEN);
    ARM; r = EVP_PKCS82PKEY(p8); DISARM;
    PKCS8_PRIV_KEY_INFO_free(p8);
#  if BAD
    VP_ASSERT(r == NULL, "malformed private key refused");
#  else
    if (LEN && !BN_is_zero(d)) MUST(r != NULL, "read");
    if (r) {
        VP_ASSERT(EVP_PKEY_get_id(r) == nid, "same algorithm");
        k2 = EVP_PKEY_get0(r); same_params(k2);
        VP_ASSERT(EC_KEY_get0_private_key(k2->ec) && BN_cmp(EC_KEY_get0_private_key(k2->ec), d) == 0, "the scalar in the structure");
        VP_ASSERT(EC_KEY_get0_public_key(k2->ec) && EC_POINT_cmp(G, EC_KEY_get0_public_key(k2->ec), W, NULL) == 0, "public key is the negated multiple of the base point");
    }
#  endif
# else
    int good = 0;
#  ifdef OCT      /* an octet string of OCT arbitrary bytes, followed by LEN - OCT - 2 others */
    raw[0] = V_ASN1_OCTET_STRING; raw[1] = OCT;
    unsigned char c[OCT + 1];
    for (int i = 0; i < OCT; i++) { int j = 2 + (BE ? i : OCT - 1 - i); c[i] = j < LEN ? raw[j] : 0; }
    EC_POINT *w = EC_POINT_new(G); good = dstu_point_expand(c, OCT, G, w) == 1 && !BAD && OCT + 2 <= LEN;      /* else cut off */
#  else
#   ifdef TAG      /* something else */
    raw[0] = TAG;
#   endif
#  endif
    pub = X509_PUBKEY_new();
    X509_PUBKEY_set0_param(pub, OBJ_nid2obj(anid), ptype, par, raw, LEN);
    ARM; r = read_pub(pub); DISARM;
    X509_PUBKEY_free(pub);
    MUST((r != NULL) == good, "accepted exactly when it holds a point");
    VP_ASSERT(good || r == NULL, "accepted only when it holds a point");
#  ifdef OCT
    if (r) {
        VP_ASSERT(EVP_PKEY_get_id(r) == nid, "same algorithm");
        k2 = EVP_PKEY_get0(r); same_params(k2);
        VP_ASSERT(EC_KEY_get0_public_key(k2->ec) && EC_POINT_cmp(G, EC_KEY_get0_public_key(k2->ec), w, NULL) == 0, "the point in the structure");
    }
    EC_POINT_free(w);
#  endif
# endif
#elif PART == 3
    X509_PUBKEY *pub = NULL;
# ifdef NOKEY
    VP_ASSERT(X509_PUBKEY_set(&pub, pk) != 1, "a key without a public part is refused");
# else
    EC_KEY_set_public_key(key->ec, Q);
    ARM; int ok = X509_PUBKEY_set(&pub, pk); DISARM;
    MUST(ok == 1, "written");
    if (ok == 1) {
    ASN1_OBJECT *o; const unsigned char *kb; int n, t; X509_ALGOR *alg; const void *v; unsigned char want[56];
    X509_PUBKEY_get0_param(&o, &kb, &n, &alg, pub); X509_ALGOR_get0(NULL, &t, &v, alg);
    VP_ASSERT(OBJ_obj2nid(o) == nid && t == V_ASN1_SEQUENCE, "names its algorithm and parameters");
    VP_ASSERT(dstu_point_compress(G, Q, want, FS) == 1, "compressed");
    VP_ASSERT(n == FS + 2 && kb[0] == V_ASN1_OCTET_STRING && kb[1] == FS, "an octet string");
    for (int i = 0; i < FS; i++) VP_ASSERT(kb[2 + i] == want[BE ? i : FS - 1 - i], "point in the byte order of its algorithm");
    ARM; r = read_pub(pub); DISARM;
    MUST(r != NULL, "read back");
    if (r) {
    VP_ASSERT(EVP_PKEY_get_id(r) == nid, "same algorithm");
    k2 = EVP_PKEY_get0(r); same_params(k2);
    VP_ASSERT(EC_KEY_get0_private_key(k2->ec) == NULL, "no private part");
    VP_ASSERT(EC_KEY_get0_public_key(k2->ec) && EC_POINT_cmp(G, EC_KEY_get0_public_key(k2->ec), Q, NULL) == 0, "same point");
    }
    }
# endif
    X509_PUBKEY_free(pub);
#elif PART == 5 || PART == 6
    ARM; DSTU_AlgorithmParameters *p = asn1_from_key(key, !BE); DISARM;
    MUST(p != NULL, "described");
    if (!p) { DSTU_KEY_free(key); goto out; }
    int isdef = 1; for (int i = 0; i < 64; i++) isdef &= eff()[i] == sp_default_sbox[i];
    VP_ASSERT((p->sbox == NULL) == isdef, "the default S-box is omitted");
    if (p->sbox) { VP_ASSERT(ASN1_STRING_length(p->sbox) == 64, "S-box size"); for (int i = 0; i < 64; i++) VP_ASSERT(ASN1_STRING_get0_data(p->sbox)[i] == IN.box[i], "S-box bytes"); }
# ifdef CUSTOM
    DSTU_CustomCurveSpec *s = p->curve->curve.custom_curve; const int *arr = sp_curve[CURVE].arr; unsigned char b[64], w[64];
    VP_ASSERT(p->curve->type == DSTU_CUSTOM_CURVE, "a curve of one's own is written out");
    VP_ASSERT(ASN1_INTEGER_get(s->field->m) == arr[0], "field degree");
    if (arr[2] == 0) VP_ASSERT(s->field->poly->type == DSTU_TRINOMIAL && ASN1_INTEGER_get(s->field->poly->poly.k) == arr[1], "trinomial");
    else VP_ASSERT(s->field->poly->type == DSTU_PENTANOMIAL && ASN1_INTEGER_get(s->field->poly->poly.pentanomial->l) == arr[1] && ASN1_INTEGER_get(s->field->poly->poly.pentanomial->j) == arr[2] && ASN1_INTEGER_get(s->field->poly->poly.pentanomial->k) == arr[3], "pentanomial");
    VP_ASSERT(ASN1_INTEGER_get(s->a) == sp_curve[CURVE].a, "coefficient a");
    BIGNUM *bb = NULL, *nn = NULL, *n2; BN_hex2bn(&bb, sp_curve[CURVE].b); BN_hex2bn(&nn, sp_curve[CURVE].n); BN_bn2binpad(bb, b, FS);
    VP_ASSERT(ASN1_STRING_length(s->b) == FS && ASN1_STRING_length(s->bp) == FS, "sizes");
    VP_ASSERT(dstu_point_compress(G, EC_GROUP_get0_generator(G), w, FS) == 1, "base point");
    for (int i = 0; i < FS; i++) { VP_ASSERT(ASN1_STRING_get0_data(s->b)[i] == b[BE ? i : FS - 1 - i], "coefficient b in the key's byte order"); VP_ASSERT(ASN1_STRING_get0_data(s->bp)[i] == w[BE ? i : FS - 1 - i], "base point in the key's byte order"); }
    n2 = ASN1_INTEGER_to_BN(s->n, NULL); VP_ASSERT(BN_cmp(n2, nn) == 0, "order"); BN_free(n2); BN_free(bb); BN_free(nn);
# else
    MUST(p->curve->type == DSTU_STANDARD_CURVE && OBJ_obj2nid(p->curve->curve.named_curve) == sp_curve[CURVE].nid, "a standard curve is written by name");
# endif
    DSTU_KEY *back;
    int refuse = 1;
# if PART == 5
    refuse = 0;
# elif BAD == 1
    p->curve->curve.named_curve = OBJ_nid2obj(NID_rsaEncryption);
# elif BAD == 2    /* S-box of another size */
    ASN1_OCTET_STRING_free(p->sbox); p->sbox = ASN1_OCTET_STRING_new(); ASN1_OCTET_STRING_set(p->sbox, IN.raw, LEN);
# elif BAD == 3
    SETV(s->field->m, IN.v <= 0 && IN.v > -300);
# elif BAD == 4
    SETV(s->a, IN.v != 0 && IN.v != 1 && IN.v > -70000 && IN.v < 70000);
# elif BAD == 5    /* trinomial */
    SETV(s->field->poly->poly.k, IN.v <= 0 && IN.v > -300);
# elif BAD == 6
    SETV(s->field->poly->poly.pentanomial->k, IN.v <= 0 && IN.v > -300);
# elif BAD == 7
    SETV(s->field->poly->poly.pentanomial->j, IN.v <= 0 && IN.v > -300);
# elif BAD == 8
    SETV(s->field->poly->poly.pentanomial->l, IN.v <= 0 && IN.v > -300);
# elif BAD == 9    /* base point of LEN arbitrary bytes */
    unsigned char c[LEN + 1]; for (int i = 0; i < LEN; i++) c[i] = IN.raw[BE ? i : LEN - 1 - i];
    ASN1_OCTET_STRING_set(s->bp, IN.raw, LEN);
    EC_POINT *w9 = EC_POINT_new(G); refuse = dstu_point_expand(c, LEN, G, w9) != 1; 
# elif BAD == 10
    ASN1_INTEGER_set(s->n, 0);
# endif
    ARM; back = key_from_asn1(p, !BE); DISARM;
    if (refuse) VP_ASSERT(back == NULL, "bad parameters refused");
# if PART == 5
    MUST(back != NULL, "read back");
    if (back) same_params(back);
# endif
# if PART == 6 && BAD == 9
    if (!refuse) VP_ASSERT(back && EC_POINT_cmp(G, EC_GROUP_get0_generator(EC_KEY_get0_group(back->ec)), w9, NULL) == 0, "the base point in the structure");
    EC_POINT_free(w9);
# endif
    DSTU_KEY_free(back); DSTU_KEY_free(key);
    DSTU_AlgorithmParameters_free(p);
#endif
    goto out;
out:
    EVP_PKEY_free(pk); EVP_PKEY_free(r);
#if PART == 1 || PART == 2
    BN_free(d); EC_POINT_free(W);
#endif
    EC_POINT_free(Q); BN_free(qm); EC_GROUP_free(G);
#ifdef VP_CBMC
    EC_POINT_free(pt[0]); EC_POINT_free(pt[1]); codec_reset();
    VP_ASSERT(vp_live == live0, "nothing leaked");
#endif
}
static void vp_harness(void)
{
#ifdef VP_CBMC
    body();
#else       /* once to warm up; then it leaks nothing. Every failing step, for the numbering of steps is the model's */
    count_live();
# ifdef FAULT
    for (fault_at = 1; fault_at < 120; fault_at++) {
        fault_n = 0; body(); ERR_clear_error(); if (fault_n < fault_at) break;
# else
    for (int i = 0; i < 1; i++) {
        body(); ERR_clear_error();
# endif
        long n = nlive; fault_n = 0; body(); ERR_clear_error(); VP_ASSERT(n == nlive, "nothing leaked");
    }
#endif
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
