/* C27 (and the default curve of C14): settings of a key context, over wide numbers.
 * PART 1: curve NAME (concrete string) through the string interface; PART 2: S-box string of LEN arbitrary characters;
 * PART 3: arbitrary binary controls; PART 4: digest choice. Afterwards a key is generated and inspected. */
#include "vp.h"
#include "wide.h"
#include "curves.h"
#include <openssl/evp.h>
#include <string.h>
#include "ameth.h"
#include "pmeth.h"
#include "key.h"
#include "params.h"
#include "control.h"
#ifdef BE
# define NID NID_dstu4145be
#else
# define NID NID_dstu4145le
#endif
#ifndef LEN
#define LEN 0
#endif
#ifndef NAME
#define NAME "uacurve0"
#endif
struct in_t { uint8_t d, box[64], box2[64], had, nul, which; char str[LEN + 1]; int32_t type, len, md; };
VP_INPUT;
int wide_hex_bits;
int vp_fault(void) { return 0; }
int RAND_priv_bytes(unsigned char *b, int n) { return 0; }
int wide_on_curve(const EC_GROUP *g, const BIGNUM *x, const BIGNUM *y) { return 1; }
int BN_rand_range(BIGNUM *r, const BIGNUM *n) { return BN_set_word(r, IN.d); }
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return BN_rand_range(r, n); }
#ifdef VP_CBMC
int OBJ_sn2nid(const char *s)
{
    if (!strcmp(s, "uacurve0")) return NID_uacurve0;
    if (!strcmp(s, "uacurve1")) return NID_uacurve1;
    if (!strcmp(s, "uacurve2")) return NID_uacurve2;
    if (!strcmp(s, "uacurve3")) return NID_uacurve3;
    if (!strcmp(s, "uacurve4")) return NID_uacurve4;
    if (!strcmp(s, "uacurve5")) return NID_uacurve5;
    if (!strcmp(s, "uacurve6")) return NID_uacurve6;
    if (!strcmp(s, "uacurve7")) return NID_uacurve7;
    if (!strcmp(s, "uacurve8")) return NID_uacurve8;
    if (!strcmp(s, "uacurve9")) return NID_uacurve9;
    if (!strcmp(s, "rsaEncryption")) return NID_rsaEncryption;
    if (!strcmp(s, "secp112r1")) return NID_secp112r1;
    return NID_undef;
}
#endif
static const char hx[] = "0123456789abcdefABCDEF";
static void vp_randomise(void)
{
    vp_rand(&IN, sizeof(IN)); IN.d |= 1; IN.had &= 1; IN.nul = !(IN.nul & 7); IN.which %= 8;
    for (int i = 0; i < LEN; i++) IN.str[i] = hx[(uint8_t)IN.str[i] % 22];
    if (LEN && IN.which == 0) IN.str[IN.md & 127 % LEN] = "gz- x"[IN.len & 3];
    if (IN.nul == 0 && IN.which < 3) IN.len = 64;
    IN.str[LEN] = 0;
}
static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* the generated key: curve number, S-box (NULL: default) */
static void gen(EVP_PKEY_CTX *c, int curve, const uint8_t *box)
{
    EVP_PKEY *pk = NULL; BIGNUM *o = BN_new(), *n = NULL;
    VP_ASSERT(EVP_PKEY_keygen_init(c) == 1 && EVP_PKEY_keygen(c, &pk) == 1 && EVP_PKEY_id(pk) == NID, "generates a key of the algorithm");
    DSTU_KEY *k = EVP_PKEY_get0(pk);
    const EC_GROUP *g = EC_KEY_get0_group(k->ec);
    BN_hex2bn(&n, sp_curve[curve].n);
    VP_ASSERT(EC_GROUP_get_degree(g) == sp_curve[curve].arr[0] && EC_GROUP_get_order(g, o, NULL) == 1 && BN_cmp(o, n) == 0, "selected curve");
    VP_ASSERT(EC_KEY_get0_private_key(k->ec) && BN_is_word(EC_KEY_get0_private_key(k->ec), IN.d) && EC_KEY_get0_public_key(k->ec), "scalar, point");
#ifdef VP_CBMC
    BIGNUM *x = BN_new(), *y = BN_new();
    VP_ASSERT(EC_POINT_get_affine_coordinates(g, EC_KEY_get0_public_key(k->ec), x, y, NULL) == 1 && BN_is_word(x, IN.d) && BN_is_word(y, WIDE_TAG ^ IN.d), "negated multiple of the base point");
    BN_free(x); BN_free(y);
#endif
    if (box) { VP_ASSERT(k->sbox != NULL, "has an S-box"); for (int i = 0; i < 64; i++) VP_ASSERT(k->sbox[i] == box[i], "selected S-box"); }
    else VP_ASSERT(k->sbox == NULL || is_default_sbox(k->sbox), "default S-box");
    EVP_PKEY_free(pk); BN_free(o); BN_free(n);
}
static void vp_harness(void)
{
    static int done;
    int curve = 6;
    const uint8_t *box = NULL;
    uint8_t dec[64];
    VP_ASSUME(IN.d);
    if (!done++) { EVP_PKEY_asn1_add0(dstu_asn1_meth_new(NID)); EVP_PKEY_meth_add0(dstu_pkey_meth_new(NID)); }
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(NID, NULL);
    VP_ASSERT(c && EVP_PKEY_sign_init(c) == 1, "init");
#ifdef BEFORE     /* something was chosen before */
    VP_ASSERT(EVP_PKEY_CTX_ctrl_str(c, "curve", "uacurve3") == 1, "known curve"); curve = 3;
    VP_ASSERT(EVP_PKEY_CTX_ctrl(c, -1, -1, DSTU_SET_CUSTOM_SBOX, 64, IN.box) == 1, "S-box"); box = IN.box;
#endif
#if PART == 1
    int r = EVP_PKEY_CTX_ctrl_str(c, "curve", NAME);
    for (int i = 0; i < 10; i++) { char w[] = "uacurve0"; w[7] = '0' + i; if (!strcmp(NAME, w)) { curve = i; VP_ASSERT(r == 1, "known curve accepted"); goto known; } }
    VP_ASSERT(r <= 0, "unknown curve refused");
known:
# ifdef OTHERSET
    VP_ASSERT(EVP_PKEY_CTX_ctrl_str(c, OTHERSET, NAME) <= 0, "unknown setting refused");
# endif
#elif PART == 2
    int ok = LEN == 128, any = 0;
    char s[LEN + 1];
    memcpy(s, IN.str, LEN); s[LEN] = 0;
    for (int i = 0; i < LEN; i++) {
        VP_ASSUME(s[i] != 0);
# ifdef DIGITS
        VP_ASSUME(hexval(s[i]) >= 0);
# endif
# ifdef HEADDIGITS
        if (i < 128) VP_ASSUME(hexval(s[i]) >= 0);
# endif
        if (hexval(s[i]) < 0) ok = 0;
    }
    if (LEN == 128) for (int i = 0; i < 64; i++) { dec[i] = hexval(s[2 * i]) << 4 | (hexval(s[2 * i + 1]) & 15); any |= dec[i]; }
# ifdef BITS      /* the digits spell a number of exactly BITS bits */
    { int top = -1; for (int i = 0; i < LEN; i++) { int h = hexval(s[i]); if (h < 0) break; for (int j = 3; j >= 0; j--) { if (top < 0 && (h >> j & 1)) top = 4 * i + 3 - j; } }
      int nd = LEN > 128 ? 128 : LEN; VP_ASSUME(top == 4 * nd - BITS); }
    wide_hex_bits = BITS;
# endif
    int r = EVP_PKEY_CTX_ctrl_str(c, "sbox", s);
    wide_hex_bits = 0;
    if (ok) { VP_ASSERT(r == 1 || !any, "128 digits accepted"); if (r == 1) box = dec; }   /* the all-zero table is no S-box */
    else VP_ASSERT(r <= 0, "anything else refused");
#elif PART == 3
    uint8_t b[64]; memcpy(b, IN.box2, 64);
# ifdef TYPE
    int type = TYPE;
# else
    int type = IN.type;
    VP_ASSUME(type != DSTU_SET_CUSTOM_SBOX && type != DSTU_SET_CURVE && type != EVP_PKEY_CTRL_MD && type != EVP_PKEY_CTRL_PKCS7_ENCRYPT && type != EVP_PKEY_CTRL_PKCS7_DECRYPT &&
              type != EVP_PKEY_CTRL_PKCS7_SIGN && type != EVP_PKEY_CTRL_DIGESTINIT && type != EVP_PKEY_CTRL_CMS_SIGN && type != EVP_PKEY_CTRL_GET_MD);
# endif
    int r = EVP_PKEY_CTX_ctrl(c, -1, -1, type, IN.len, IN.nul ? NULL : b);
    memset(b, 0x77, 64);
    if (type == DSTU_SET_CUSTOM_SBOX) {
        VP_ASSERT((r == 1) == (IN.len == 64 && !IN.nul), "S-box accepted exactly with 64 bytes");
        if (r == 1) box = IN.box2;
    } else VP_ASSERT(r <= 0, "unknown control refused");
    if (type == DSTU_SET_CURVE) VP_ASSUME(0);
#elif PART == 4
    VP_ASSUME(IN.md > 0 && IN.md < 1200);
    EVP_MD *m = EVP_MD_meth_new(IN.md, NID);
    VP_ASSERT((EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_MD, 0, m) == 1) == (IN.md == NID_dstu34311), "only the DSTU digest");
    VP_ASSERT(EVP_PKEY_CTX_ctrl(c, -1, -1, DSTU_SET_CURVE, 0, NULL) <= 0, "no curve refused");
    EVP_MD_meth_free(m);
#endif
    gen(c, curve, box);
    EVP_PKEY_CTX_free(c);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
