/* C25: comparing keys and copying parameters. Curves CA, CB (numbers of the standard's table); S-boxes absent, default or arbitrary; public
 * points arbitrary multiples of the base point, or absent. PART 1: comparison; PART 2: copying parameters (TO: the target has a key already). */
#define _GNU_SOURCE
#include "vp.h"
#include "wide.h"
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <string.h>
#include "ameth.h"
#include "key.h"
#include "params.h"
#include "curves.h"
#include "cfb_spec.h"
struct one { uint8_t kind, box[64], pub, d, be; };
struct in_t { struct one a, b; uint8_t same, pos; };
VP_INPUT;
int wide_hex_bits;
int vp_fault(void) { return 0; }
int RAND_priv_bytes(unsigned char *b, int n) { return 0; }
int wide_on_curve(const EC_GROUP *g, const BIGNUM *x, const BIGNUM *y) { return 1; }
int BN_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
static const int nid[10] = {NID_uacurve0, NID_uacurve1, NID_uacurve2, NID_uacurve3, NID_uacurve4, NID_uacurve5, NID_uacurve6, NID_uacurve7, NID_uacurve8, NID_uacurve9};
#ifdef VP_CBMC
# include "vp_pkey.h"
# define COPY(m) ((m)->param_copy)
extern long vp_live;
#else
# include <dlfcn.h>
static int (*the_copy)(EVP_PKEY *, const EVP_PKEY *);
void EVP_PKEY_asn1_set_param(EVP_PKEY_ASN1_METHOD *m, int (*dec)(EVP_PKEY *, const unsigned char **, int), int (*enc)(const EVP_PKEY *, unsigned char **), int (*missing)(const EVP_PKEY *),
    int (*copy)(EVP_PKEY *, const EVP_PKEY *), int (*cmp)(const EVP_PKEY *, const EVP_PKEY *), int (*print)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *))
{
    void (*f)() = dlsym(RTLD_NEXT, "EVP_PKEY_asn1_set_param");
    the_copy = copy; f(m, dec, enc, missing, copy, cmp, print);
}
# define COPY(m) the_copy
#endif
static void vp_randomise(void)
{
    vp_rand(&IN, sizeof(IN));
    IN.a.kind %= 3; IN.b.kind %= 3; IN.a.d &= 1; IN.b.d &= 1; IN.a.d++; IN.b.d++; if (IN.same & 1) memcpy(IN.a.box, IN.b.box, 64);
    if (IN.same & 2) memcpy(IN.a.box, sp_default_sbox, 64);
    if (IN.same & 4) { IN.a.be = IN.b.be; IN.a.pub |= 1; IN.b.pub |= 1; }
    if (IN.same & 8) IN.a.box[IN.pos & 63] ^= 1;
}
/* kind 0: none, 1: a copy of the default one, else arbitrary */
static const uint8_t *eff(const struct one *o) { return o->kind > 1 ? o->box : sp_default_sbox; }
static DSTU_KEY *mk(const struct one *o, int curve)
{
    DSTU_KEY *k = DSTU_KEY_new(); EC_GROUP *g = group_from_nid(nid[curve]);
    VP_ASSERT(k && g && EC_KEY_set_group(k->ec, g), "key with a group");
    if (o->kind) { k->sbox = OPENSSL_malloc(64); for (int i = 0; i < 64; i++) k->sbox[i] = eff(o)[i]; }
    if (o->pub & 1) {
        EC_POINT *p = EC_POINT_new(g); BIGNUM *d = BN_new(); BN_set_word(d, o->d);
        VP_ASSERT(EC_POINT_mul(g, p, d, NULL, NULL, NULL) == 1 && EC_KEY_set_public_key(k->ec, p) == 1, "point");
        EC_POINT_free(p); BN_free(d);
    }
    EC_GROUP_free(g);
    return k;
}
static EVP_PKEY *wrap(DSTU_KEY *k, int be)
{
    EVP_PKEY *p = EVP_PKEY_new();
    VP_ASSERT(be ? EVP_PKEY_assign(p, NID_dstu4145be, k) : EVP_PKEY_assign(p, NID_dstu4145le, k), "assign");
    return p;
}
static void vp_harness(void)
{
    static EVP_PKEY_ASN1_METHOD *m;
    if (!m) { EVP_PKEY_asn1_add0(dstu_asn1_meth_new(NID_dstu4145le)); EVP_PKEY_asn1_add0(m = dstu_asn1_meth_new(NID_dstu4145be)); }
    VP_ASSUME(IN.a.d && IN.b.d);
#ifdef VP_CBMC
    long live0 = vp_live;
#endif
    DSTU_KEY *ka = mk(&IN.a, CA);
    EVP_PKEY *a = wrap(ka, IN.a.be & 1);
#if PART == 1
    DSTU_KEY *kb = mk(&IN.b, CB);
    EVP_PKEY *b = wrap(kb, IN.b.be & 1);
    int box = 1;
    for (int i = 0; i < 64; i++) box &= eff(&IN.a)[i] == eff(&IN.b)[i];
    int type = (IN.a.be & 1) == (IN.b.be & 1), par = type && CA == CB && box, pub = (IN.a.pub & IN.b.pub & 1) && IN.a.d == IN.b.d;
    VP_ASSERT((EVP_PKEY_parameters_eq(a, b) == 1) == par, "parameters equal exactly when curve and S-box are");
    VP_ASSERT((EVP_PKEY_eq(a, b) == 1) == (par && pub), "keys equal exactly when curve, S-box and point are");
    VP_ASSERT((EVP_PKEY_eq(b, a) == 1) == (par && pub), "either way round");
    EVP_PKEY_free(b);
#else
    const EC_GROUP *g; EC_GROUP *w = group_from_nid(nid[CA]);
# ifdef TO
    DSTU_KEY *kb = mk(&IN.b, CB);
    EVP_PKEY *b = wrap(kb, IN.a.be & 1);
# else
    DSTU_KEY *kb;
    EVP_PKEY *b = EVP_PKEY_new(); VP_ASSERT(IN.a.be & 1 ? EVP_PKEY_set_type(b, NID_dstu4145be) : EVP_PKEY_set_type(b, NID_dstu4145le), "type");
# endif
    VP_ASSERT(COPY(m)(b, a) == 1, "copies");
    kb = EVP_PKEY_get0(b);
    VP_ASSERT(kb && (g = EC_KEY_get0_group(kb->ec)) && EC_GROUP_cmp(g, w, NULL) == 0, "same curve");
    VP_ASSERT(EC_GROUP_cmp(EC_KEY_get0_group(ka->ec), w, NULL) == 0, "source keeps its curve");
    for (int i = 0; i < 64; i++) VP_ASSERT((kb->sbox ? kb->sbox[i] : sp_default_sbox[i]) == eff(&IN.a)[i], "same S-box");
    for (int i = 0; i < 64; i++) VP_ASSERT((ka->sbox ? ka->sbox[i] : sp_default_sbox[i]) == eff(&IN.a)[i], "source keeps its S-box");
    VP_ASSERT(!kb->sbox || kb->sbox != ka->sbox, "a copy of its own");
    VP_ASSERT(EVP_PKEY_parameters_eq(a, b) == 1, "parameters equal now");
    EVP_PKEY_free(a);
    for (int i = 0; i < 64; i++) VP_ASSERT((kb->sbox ? kb->sbox[i] : sp_default_sbox[i]) == eff(&IN.a)[i], "outlives its source");
    EVP_PKEY_free(b); a = NULL;
    EC_GROUP_free(w);
#endif
    EVP_PKEY_free(a);
#ifdef VP_CBMC
    VP_ASSERT(vp_live == live0, "nothing leaked");
#endif
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
