/* C03: key, IV and S-box take effect in any legal order. OPS is a string of operations:
 *  C bind cipher with key and IV    c bind cipher only     F key+IV   K key only   V IV only
 *  N neither (direction only)       S custom S-box         B malformed S-box request
 *  I import of IV and S-box from algorithm parameters
 *  U 3 bytes through the cipher     W 8 bytes              X 11 bytes */
#include "vp.h"
#include "cfb_spec.h"
#include "vp_cipher.h"
#include "vp_asn1.h"
#define NOPS ((int)sizeof(OPS) - 1)
struct in_t {
    uint8_t key[NOPS][32], iv[NOPS][8], sbox[NOPS][64], data[NOPS][16];
    uint32_t mask[NOPS][8];
    int32_t badlen; uint8_t badnull;
};
VP_INPUT;
static int step;
int RAND_priv_bytes(unsigned char *buf, int num) { memcpy(buf, IN.mask[step], num); return 1; }
static void vp_randomise(void) { for (int i = 0; i < NOPS; i++) { vp_rand(IN.key[i], 32); vp_rand(IN.iv[i], 8); vp_rand(IN.sbox[i], 64); vp_rand(IN.data[i], 16); } }
static const uint8_t zero[8];
static void vp_harness(void)
{
    static const char ops[] = OPS;
    EVP_CIPHER *ciph = dstu_cipher_new();
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    sp_sbox s; sp_cfb c; uint8_t out[16];
    const uint8_t *key = NULL, *iv = zero;
    int have_iv = 0, ol;
    for (step = 0; step < NOPS; step++) {
        int o = ops[step], n = 0, restart = 0;
        const uint8_t *k = (o == 'C' || o == 'F' || o == 'K') ? IN.key[step] : NULL;
        const uint8_t *v = (o == 'C' || o == 'F' || o == 'V') ? IN.iv[step] : NULL;
        if (o == 'C' || o == 'c' || o == 'F' || o == 'K' || o == 'V' || o == 'N') {
            VP_ASSERT(EVP_CipherInit_ex(x, (o == 'C' || o == 'c') ? ciph : NULL, NULL, k, v, ENC) == 1, "init succeeds");
            if (k) key = k;
            if (v) { iv = v; have_iv = 1; }
            if (o == 'C' || o == 'c' || o == 'F') sp_unpack(sp_default_sbox, &s);
            restart = k || v;
        } else if (o == 'S') {
            uint8_t box[64];
            memcpy(box, IN.sbox[step], 64);
            VP_ASSERT(EVP_CIPHER_CTX_ctrl(x, DSTU_SET_CUSTOM_SBOX, 64, box) == 1, "S-box control succeeds");
            sp_unpack(IN.sbox[step], &s);
            restart = 1;
        } else if (o == 'I') {
            /* SEQUENCE { OCTET STRING iv, OCTET STRING sbox } */
            ASN1_TYPE t; ASN1_STRING q; uint8_t der[78];
            der[0] = 0x30; der[1] = 76; der[2] = 4; der[3] = 8; memcpy(der + 4, IN.iv[step], 8);
            der[12] = 4; der[13] = 64; memcpy(der + 14, IN.sbox[step], 64);
            q.type = V_ASN1_SEQUENCE; q.flags = 0; q.length = 78; q.data = der;
            t.type = V_ASN1_SEQUENCE; vp_set_value(&t, &q);
            VP_ASSERT(EVP_CIPHER_asn1_to_param(x, &t) > 0, "parameters accepted");
            sp_unpack(IN.sbox[step], &s);
            iv = IN.iv[step]; have_iv = 1;
            restart = 1;
        } else if (o == 'B') {
            uint8_t box[64];
            memcpy(box, IN.sbox[step], 64);
            VP_ASSUME(IN.badnull || IN.badlen != 64);
            int num = EVP_CIPHER_CTX_num(x);
            VP_ASSERT(EVP_CIPHER_CTX_ctrl(x, DSTU_SET_CUSTOM_SBOX, IN.badlen, IN.badnull ? NULL : box) == 0, "malformed S-box refused");
            VP_ASSERT(EVP_CIPHER_CTX_num(x) == num, "position unchanged");
            EVP_CIPHER_CTX_set_num(x, num);       /* the same value again, now a constant to the symbolic execution */
        } else n = o == 'U' ? 3 : o == 'W' ? 8 : 11;
        if (restart && key && have_iv) sp_cfb_init(&c, key, &s, iv);
        if (n) {
            ol = -1;
            VP_ASSERT(EVP_CipherUpdate(x, out, &ol, IN.data[step], n) == 1 && ol == n, "update");
            for (int i = 0; i < n; i++) VP_ASSERT(out[i] == sp_cfb_byte(&c, IN.data[step][i], ENC), "stream of the last key, IV and S-box");
        }
    }
    EVP_CIPHER_CTX_free(x);
    dstu_cipher_free(ciph);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
