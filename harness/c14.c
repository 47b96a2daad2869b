/* C14 (and part of C27): key generation over a toy curve. K draws, then the generator fails.
 * SETBOX: an S-box is set; TWICE: settings are replaced before generating; VIA_COPY: generated from a copy of the context;
 * ADDPUB: dstu_add_public_key alone. */
#include "vp.h"
#include "toy_key.h"
#include "control.h"
#ifndef K
#define K 2
#endif
struct in_t { uint16_t rnd[K]; uint8_t box[64], box2[64], failat; };
VP_INPUT;
static int draws, armed, faults;
int vp_fault(void)
{
#ifdef FAULT
    if (armed) return IN.failat == faults++;
#endif
    return 0;
}
int BN_rand_range(BIGNUM *r, const BIGNUM *n)
{
    VP_ASSERT(BN_is_word(n, TOY_N), "drawn below the order");
    if (vp_fault() || draws >= K) return 0;
    return BN_set_word(r, IN.rnd[draws++]);
}
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return BN_rand_range(r, n); }
static void vp_randomise(void) { vp_rand(&IN, sizeof(IN)); for (int i = 0; i < K; i++) IN.rnd[i] %= i ? TOY_N : 3; }
static int key_ok(EC_KEY *e, const EC_GROUP *g, uint32_t d)
{
    const BIGNUM *p = EC_KEY_get0_private_key(e); const EC_POINT *q = EC_KEY_get0_public_key(e);
    BIGNUM *x = BN_new(), *y = BN_new();
    uint32_t want = toy_neg(d * TOY_H); int r;
    r = p && q && BN_is_word(p, d) && EC_POINT_get_affine_coordinates(g, q, x, y, NULL) == 1 && BN_is_word(x, toy_x[want]) && BN_is_word(y, toy_y[want]);
    BN_free(x); BN_free(y);
    return r;
}
static void vp_harness(void)
{
    EC_GROUP *g;
    uint32_t d = 0;
    draws = armed = faults = 0;
    for (int i = 0; i < K; i++) VP_ASSUME(IN.rnd[i] < TOY_N);
    for (int i = K - 1; i >= 0; i--) if (IN.rnd[i]) d = IN.rnd[i];
    toy_register();
    g = toy_group();
#ifdef ADDPUB
    EC_KEY *e = EC_KEY_new(); BIGNUM *b = BN_new();
    VP_ASSERT(dstu_add_public_key(e) == 0 && dstu_generate_key(e) == 0, "no curve, no key");
    EC_KEY_set_group(e, g);
    VP_ASSERT(dstu_add_public_key(e) == 0 && !EC_KEY_get0_public_key(e), "no scalar, no public key");
    VP_ASSUME(d);
    BN_set_word(b, d); EC_KEY_set_private_key(e, b);
    armed = 1;
    int r = dstu_add_public_key(e);
    armed = 0;
# ifdef FAULT
    VP_ASSERT(r == 0 || IN.failat >= faults, "a failed step fails");
# else
    VP_ASSERT(r == 1 && key_ok(e, g, d), "public point is the negated multiple");
# endif
    EC_KEY_free(e); BN_free(b);
#else
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(TOY_NID, NULL), *o = NULL;
    EVP_PKEY *pk = NULL;
    uint8_t *box = NULL;
# ifdef VIA_COPY     /* libcrypto does not copy a context that is set up to generate */
    VP_ASSERT(c && EVP_PKEY_sign_init(c) == 1, "init");
# else
    VP_ASSERT(c && EVP_PKEY_keygen_init(c) == 1, "init");
# endif
# ifdef TWICE
    EC_GROUP *g2 = toy_group(); EC_POINT *p2 = EC_POINT_new(g2); BIGNUM *n2 = BN_new(); BN_set_word(n2, TOY_N);
    toy_point(g2, p2, 2 * TOY_G); EC_GROUP_set_generator(g2, p2, n2, NULL);
    VP_ASSERT(EVP_PKEY_CTX_ctrl(c, -1, -1, DSTU_SET_CURVE, 0, g2) == 1, "set curve");
    VP_ASSERT(EVP_PKEY_CTX_ctrl(c, -1, -1, DSTU_SET_CUSTOM_SBOX, 64, IN.box2) == 1, "set S-box");
    box = IN.box2;
    EC_GROUP_free(g2); EC_POINT_free(p2); BN_free(n2);
# endif
    VP_ASSERT(EVP_PKEY_CTX_ctrl(c, -1, -1, DSTU_SET_CURVE, 0, g) == 1, "set curve");
# ifdef SETBOX
    VP_ASSERT(EVP_PKEY_CTX_ctrl(c, -1, -1, DSTU_SET_CUSTOM_SBOX, 64, IN.box) == 1, "set S-box");
    box = IN.box;
# endif
# ifdef VIA_COPY
    o = c; c = EVP_PKEY_CTX_dup(o);
    VP_ASSERT(c != NULL, "copied");
    EVP_PKEY_keygen_init(c);
    VP_ASSERT(EVP_PKEY_CTX_ctrl(o, -1, -1, DSTU_SET_CUSTOM_SBOX, 64, IN.box2) == 1, "set S-box of the original");
#  ifndef KEEP
    EVP_PKEY_CTX_free(o); o = NULL;
#  endif
# endif
    armed = 1;
    int r = EVP_PKEY_keygen(c, &pk);
    armed = 0;
# ifdef FAULT
    VP_ASSERT(r <= 0 || IN.failat >= faults, "a failed step fails key generation");
# else
    VP_ASSERT((r == 1) == (d != 0), "succeeds exactly with a non-zero scalar");
# endif
    if (r > 0) {
        VP_ASSERT(pk && EVP_PKEY_id(pk) == TOY_NID, "algorithm");
        DSTU_KEY *k = EVP_PKEY_get0(pk);
        VP_ASSERT(k && k->ec && EC_GROUP_cmp(EC_KEY_get0_group(k->ec), g, NULL) == 0, "requested curve");
        VP_ASSERT(key_ok(k->ec, g, d), "scalar and public point");
        if (box) { VP_ASSERT(k->sbox != NULL, "has the S-box"); for (int i = 0; i < 64; i++) VP_ASSERT(k->sbox[i] == box[i], "requested S-box"); }
        else VP_ASSERT(k->sbox == NULL || is_default_sbox(k->sbox), "default S-box");
    } else VP_ASSERT(pk == NULL || EVP_PKEY_get0(pk) == NULL, "no key attached");
    EVP_PKEY_free(pk);
    EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(o);
#endif
    EC_GROUP_free(g);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
