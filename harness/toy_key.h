/* a DSTU key over the toy curve, in both modes */
#ifndef TOY_KEY_H_
#define TOY_KEY_H_
#include "toy.h"
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <string.h>
#include "ameth.h"
#include "pmeth.h"
#include "key.h"
#include "params.h"
#ifdef BE
# define TOY_NID NID_dstu4145be
#else
# define TOY_NID NID_dstu4145le
#endif
static void toy_register(void) {
    static int done; if (done++) return;
    EVP_PKEY_asn1_add0(dstu_asn1_meth_new(TOY_NID));
    EVP_PKEY_meth_add0(dstu_pkey_meth_new(TOY_NID));
}
/* q: index of the public point (0: none), d: private key (0: none) */
static EVP_PKEY *toy_pkey(uint32_t d, int havepub, uint32_t q)
{
    EVP_PKEY *p = EVP_PKEY_new();
    DSTU_KEY *k = DSTU_KEY_new();
    EC_GROUP *g = toy_group();
    EC_KEY_set_group(k->ec, g);
    if (d) { BIGNUM *b = BN_new(); BN_set_word(b, d); EC_KEY_set_private_key(k->ec, b); BN_free(b); }
    if (havepub) { EC_POINT *t = EC_POINT_new(g); toy_point(g, t, q); EC_KEY_set_public_key(k->ec, t); EC_POINT_free(t); }
    EC_GROUP_free(g);
    EVP_PKEY_assign(p, TOY_NID, k);
    return p;
}
#endif
