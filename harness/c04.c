/* C04: cipher parameters (IV and S-box) in algorithm identifiers. */
#include "vp.h"
#include "cfb_spec.h"
#include "vp_cipher.h"
#include "vp_asn1.h"
struct in_t {
    uint8_t key[32], key2[32], iv[8], iv2[8], sbox[64], data[16], data2[16], der[96];
    uint32_t mask[8];
    int32_t type, len; uint8_t custom, null;
};
VP_INPUT;
int RAND_priv_bytes(unsigned char *buf, int num) { memcpy(buf, IN.mask, num); return 1; }
static void vp_randomise(void) { vp_rand(IN.key, 32); vp_rand(IN.iv, 8); vp_rand(IN.sbox, 64); vp_rand(IN.data, 16); vp_rand(IN.data2, 16);
#if PART == 2
    vp_rand(IN.der, 96);
#endif
}
static void stream(EVP_CIPHER_CTX *x, sp_cfb *c, const uint8_t *d, int n)
{
    uint8_t out[16]; int ol = -1;
    VP_ASSERT(EVP_CipherUpdate(x, out, &ol, d, n) == 1 && ol == n, "update");
    for (int i = 0; i < n; i++) VP_ASSERT(out[i] == sp_cfb_byte(c, d[i], 1), "stream");
}
static void vp_harness(void)
{
    EVP_CIPHER *ciph = dstu_cipher_new();
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y = EVP_CIPHER_CTX_new();
    uint8_t box[64]; sp_sbox s; sp_cfb c;
    ASN1_TYPE *t = ASN1_TYPE_new();
    VP_ASSERT(EVP_CipherInit_ex(x, ciph, NULL, IN.key, IN.iv, 1) == 1, "init");
    memcpy(box, sp_default_sbox, 64);
    sp_unpack(sp_default_sbox, &s);
#if PART == 1      /* export after any use; the DER bytes; import elsewhere gives the same stream */
# ifdef CUSTOM
    memcpy(box, IN.sbox, 64);
    VP_ASSERT(EVP_CIPHER_CTX_ctrl(x, DSTU_SET_CUSTOM_SBOX, 64, box) == 1, "ctrl");
    memcpy(box, IN.sbox, 64);
    sp_unpack(IN.sbox, &s);
# endif
    sp_cfb_init(&c, IN.key, &s, IN.iv);
    stream(x, &c, IN.data, 11);
    VP_ASSERT(EVP_CIPHER_param_to_asn1(x, t) > 0, "export succeeds");
    VP_ASSERT(ASN1_TYPE_get(t) == V_ASN1_SEQUENCE && t->value.sequence->length == 78, "one sequence");
    const uint8_t *d = t->value.sequence->data;
    VP_ASSERT(d[0] == 0x30 && d[1] == 76 && d[2] == 4 && d[3] == 8 && d[12] == 4 && d[13] == 64, "DER headers");
    for (int i = 0; i < 8; i++) VP_ASSERT(d[4 + i] == IN.iv[i], "original IV exported");
    for (int i = 0; i < 64; i++) VP_ASSERT(d[14 + i] == box[i], "S-box exported");
    stream(x, &c, IN.data2, 7);      /* exporting does not disturb the stream */
    VP_ASSERT(EVP_CipherInit_ex(y, ciph, NULL, NULL, NULL, 1) == 1, "bind");
    VP_ASSERT(EVP_CIPHER_asn1_to_param(y, t) > 0, "own export accepted");
    VP_ASSERT(EVP_CipherInit_ex(y, NULL, NULL, IN.key, NULL, 1) == 1, "key");
    sp_cfb_init(&c, IN.key, &s, IN.iv);
    stream(y, &c, IN.data, 11);
#elif PART == 2    /* import into a keyed, used context takes effect at once */
    uint8_t der[78];
    memcpy(der, IN.der, 78);
    der[0] = 0x30; der[1] = 76; der[2] = 4; der[3] = 8; der[12] = 4; der[13] = 64;
    VP_ASSERT(ASN1_TYPE_set1(t, V_ASN1_SEQUENCE, &(ASN1_STRING){ .length = 78, .type = V_ASN1_SEQUENCE, .data = der }) == 1, "");
    sp_cfb_init(&c, IN.key, &s, IN.iv);
    stream(x, &c, IN.data, 3);
    VP_ASSERT(EVP_CIPHER_asn1_to_param(x, t) > 0, "well-formed parameters accepted");
    VP_ASSERT(EVP_CIPHER_CTX_num(x) == 0, "stream restarted");
    EVP_CIPHER_CTX_set_num(x, 0);
    sp_unpack(der + 14, &s);
    sp_cfb_init(&c, IN.key, &s, der + 4);
    stream(x, &c, IN.data2, 11);
    ASN1_TYPE *u = ASN1_TYPE_new();
    VP_ASSERT(EVP_CIPHER_param_to_asn1(x, u) > 0 && ASN1_TYPE_get(u) == V_ASN1_SEQUENCE && u->value.sequence->length == 78, "re-export");
    for (int i = 0; i < 78; i++) VP_ASSERT(u->value.sequence->data[i] == der[i], "re-export equals import");
#elif PART == 3    /* malformed parameters: refused, the context is unaffected, no byte outside is read */
    int n = LEN;
    uint8_t *der = malloc(n);
    memcpy(der, IN.der, n);
    ASN1_STRING q; ASN1_TYPE ty, *tp = &ty;
    q.length = n; q.type = V_ASN1_SEQUENCE; q.flags = 0; q.data = der;
    ty.type = IN.type; vp_set_value(&ty, &q);
    if (IN.type == V_ASN1_NULL) vp_set_value(&ty, NULL);
    if (n >= 2 && IN.type == V_ASN1_SEQUENCE) VP_ASSUME(der[0] == 0x30 && der[1] == n - 2);   /* the decoder guarantees the outer header */
    int wellformed = IN.type == V_ASN1_SEQUENCE && n == 78 && der[2] == 4 && der[3] == 8 && der[12] == 4 && der[13] == 64;
    VP_ASSUME(!wellformed);
    if (IN.null) tp = NULL;
    sp_cfb_init(&c, IN.key, &s, IN.iv);
    stream(x, &c, IN.data, 3);
    int num = EVP_CIPHER_CTX_num(x);
    VP_ASSERT(EVP_CIPHER_asn1_to_param(x, tp) <= 0, "malformed parameters refused");
    VP_ASSERT(EVP_CIPHER_CTX_num(x) == num, "position unchanged");
    EVP_CIPHER_CTX_set_num(x, num);       /* the same value again, now a constant to the symbolic execution */
    stream(x, &c, IN.data2, 11);
    VP_ASSERT(EVP_CIPHER_param_to_asn1(x, t) > 0, "export");
    for (int i = 0; i < 8; i++) VP_ASSERT(t->value.sequence->data[4 + i] == IN.iv[i], "IV unchanged");
    free(der);
#elif PART == 4    /* PBE PRF query */
    int nid = -1;
    VP_ASSERT(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_PBE_PRF_NID, 0, &nid) == 1 && nid == NID_hmacWithDstu34311, "PRF");
    VP_ASSUME(IN.type != EVP_CTRL_PBE_PRF_NID && IN.type != DSTU_SET_CUSTOM_SBOX);
    VP_ASSERT(EVP_CIPHER_CTX_ctrl(x, IN.type, IN.len, IN.null ? NULL : box) <= 0, "unknown control refused");
    sp_cfb_init(&c, IN.key, &s, IN.iv);
    stream(x, &c, IN.data, 3);
#endif
    EVP_CIPHER_CTX_free(x); EVP_CIPHER_CTX_free(y);
    dstu_cipher_free(ciph);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
