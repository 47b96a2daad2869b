/* C02: the engine's CFB cipher, any chunking, either direction, in place or not. */
#include "vp.h"
#include "cfb_spec.h"
#include "vp_cipher.h"
#ifndef MAXLEN
#define MAXLEN (L0 + L1 + L2 + L3)
#endif
struct in_t {
    uint8_t key[32], iv[8], data[MAXLEN];
    uint32_t mask[8];
    uint8_t inplace;
};
VP_INPUT;
int RAND_priv_bytes(unsigned char *buf, int num) { memcpy(buf, IN.mask, num); return 1; }
static void vp_randomise(void) { vp_rand(IN.key, 32); vp_rand(IN.iv, 8); vp_rand(IN.data, MAXLEN); }
static void vp_harness(void)
{
    /* lengths are concrete per instance: L0..L3 */
    const int len[4] = { L0, L1, L2, L3 };
    int enc = ENC, pos = 0, ol;
    uint8_t out[MAXLEN + 8];
    sp_sbox s; sp_cfb c;
    EVP_CIPHER *ciph = dstu_cipher_new();
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    VP_ASSERT(EVP_CipherInit_ex(x, ciph, NULL, IN.key, IN.iv, enc) == 1, "init");
    memset(out, 0x5a, sizeof(out));
    if (IN.inplace) memcpy(out, IN.data, MAXLEN);
    for (int k = 0; k < 4; k++) {
        if (!len[k]) continue;
#ifdef WITH_COPY
        if (k == 1) {
            EVP_CIPHER_CTX *y = EVP_CIPHER_CTX_new();
            VP_ASSERT(EVP_CIPHER_CTX_copy(y, x) == 1, "copy");
            EVP_CIPHER_CTX_free(x);
            x = y;
        }
#endif
        ol = -1;
        VP_ASSERT(EVP_CipherUpdate(x, out + pos, &ol, (IN.inplace ? out : IN.data) + pos, len[k]) == 1, "update succeeds");
        VP_ASSERT(ol == len[k], "as many bytes out as in");
        pos += len[k];
    }
    ol = -1;
    VP_ASSERT(EVP_CipherFinal_ex(x, out + pos, &ol) == 1 && ol == 0, "final adds nothing");
    sp_unpack(sp_default_sbox, &s);
    sp_cfb_init(&c, IN.key, &s, IN.iv);
    for (int i = 0; i < MAXLEN; i++) {
        if (i < pos) { uint8_t e = sp_cfb_byte(&c, IN.data[i], enc); VP_ASSERT(out[i] == e, "CFB byte"); }
        else VP_ASSERT(out[i] == (IN.inplace ? IN.data[i] : 0x5a), "nothing written past the data");
    }
    for (int i = 0; i < 8; i++) VP_ASSERT(out[MAXLEN + i] == 0x5a, "nothing written past the data");
    EVP_CIPHER_CTX_free(x);
    dstu_cipher_free(ciph);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
