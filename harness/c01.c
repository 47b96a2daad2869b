/* C01: GOST 28147 block cipher. PART selects the obligation. */
#include "vp.h"
#include "gost/gost89.h"
#include "gost_spec.h"
#include <string.h>
#define NB 4
struct in_t {
    gost_ctx c;
    uint8_t row[8][16];
    uint8_t key[32];
    uint32_t mask[8];
    uint8_t blk[8 * NB];
    uint32_t x;
    int32_t nblocks;
    uint8_t randok, inplace, which;
};
VP_INPUT;
int RAND_priv_bytes(unsigned char *buf, int num)
{
    VP_ASSERT(num == (int)sizeof(IN.mask), "mask length");
    if (!IN.randok) return 0;
    memcpy(buf, IN.mask, sizeof(IN.mask));
    return 1;
}
#ifdef VP_CBMC
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
#endif
/* substitution read from the expanded tables of an arbitrary context */
static uint32_t f_tab(const gost_ctx *c, uint32_t x)
{
    uint32_t y = c->k87[x >> 24] | c->k65[(x >> 16) & 255] | c->k43[(x >> 8) & 255] | c->k21[x & 255];
    return (y << 11) | (y >> 21);
}
static void spec32(const gost_ctx *c, const uint32_t *k, const uint8_t *in, uint8_t *out, int dec)
{
    uint32_t n1 = sp_ld(in), n2 = sp_ld(in + 4), t;
    for (int i = 0; i < 32; i++) {
        int r = dec ? (i < 8 ? i : 7 - (i & 7)) : (i < 24 ? (i & 7) : 7 - (i & 7));
        t = n1;
        n1 = n2 ^ f_tab(c, n1 + k[r]);
        n2 = t;
    }
    sp_st(out, n2);       /* the last round does not swap */
    sp_st(out + 4, n1);
}
static void load_sbox(gost_subst_block *b)
{
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 16; j++) VP_ASSUME(IN.row[i][j] < 16);
    memcpy(b->k1, IN.row[0], 16); memcpy(b->k2, IN.row[1], 16);
    memcpy(b->k3, IN.row[2], 16); memcpy(b->k4, IN.row[3], 16);
    memcpy(b->k5, IN.row[4], 16); memcpy(b->k6, IN.row[5], 16);
    memcpy(b->k7, IN.row[6], 16); memcpy(b->k8, IN.row[7], 16);
}
static void vp_harness(void)
{
    gost_ctx c = IN.c;
    uint8_t o[8 * NB], e[8 * NB], k2[32];
    uint32_t k[8];
#if PART == 1      /* every S-box: expanded tables implement the standard's substitution, key untouched */
    gost_subst_block b; sp_sbox s;
    load_sbox(&b);
    memcpy(s.row, IN.row, sizeof(s.row));
    gost_init(&c, &b);
    VP_ASSERT(f_tab(&c, IN.x) == sp_f(&s, IN.x), "substitution and rotation");
    for (int i = 0; i < 8; i++)
        VP_ASSERT(c.key[i] == IN.c.key[i] && c.mask[i] == IN.c.mask[i], "S-box setup keeps the key");
#elif PART == 2    /* encryption is the standard's 32 rounds for every table content */
    for (int i = 0; i < 8; i++) k[i] = c.key[i] + c.mask[i];
    gostcrypt(&c, IN.blk, o);
    spec32(&IN.c, k, IN.blk, e, 0);
    VP_ASSERT(memcmp(o, e, 8) == 0, "encrypt");
#elif PART == 3
    for (int i = 0; i < 8; i++) k[i] = c.key[i] + c.mask[i];
    gostdecrypt(&c, IN.blk, o);
    spec32(&IN.c, k, IN.blk, e, 1);
    VP_ASSERT(memcmp(o, e, 8) == 0, "decrypt");
#elif PART == 4    /* decryption inverts encryption, also in place */
    memcpy(o, IN.blk, 8);
    gostcrypt(&c, o, o);
    gostdecrypt(&c, o, o);
    VP_ASSERT(memcmp(o, IN.blk, 8) == 0, "decrypt(encrypt(x)) == x");
#elif PART == 5    /* key loading: effective key words for every mask, read back, tables untouched */
    uint32_t want[8];
    int magma = IN.which & 1, nomask = IN.which & 2;
    for (int i = 0; i < 8; i++) {
        const uint8_t *q = IN.key + 4 * i;
        want[i] = magma ? ((uint32_t)q[3] | (uint32_t)q[2] << 8 | (uint32_t)q[1] << 16 | (uint32_t)q[0] << 24) : sp_ld(q);
    }
    if (magma) magma_key(&c, IN.key); else if (nomask) gost_key_nomask(&c, IN.key); else gost_key(&c, IN.key);
    for (int i = 0; i < 8; i++) VP_ASSERT((uint32_t)(c.key[i] + c.mask[i]) == want[i], "effective key");
    if (magma) magma_get_key(&c, k2); else gost_get_key(&c, k2);
    VP_ASSERT(memcmp(k2, IN.key, 32) == 0, "key read back");
    VP_ASSERT(c.k87[IN.x & 255] == IN.c.k87[IN.x & 255] && c.k65[IN.x & 255] == IN.c.k65[IN.x & 255] &&
              c.k43[IN.x & 255] == IN.c.k43[IN.x & 255] && c.k21[IN.x & 255] == IN.c.k21[IN.x & 255], "tables kept");
    gost_destroy(&c);
    for (int i = 0; i < 8; i++) VP_ASSERT(c.key[i] == 0 && c.mask[i] == 0, "key wiped");
#elif PART == 6    /* ECB over n blocks == block by block, separate or in place */
    VP_ASSUME(IN.nblocks >= 0 && IN.nblocks <= NB);
    int n = IN.nblocks;
    const uint8_t *src = IN.blk; uint8_t *dst = o;
    memset(o, 0xa5, sizeof(o));
    if (IN.inplace) { memcpy(o, IN.blk, sizeof(o)); src = o; }
    if (IN.which & 1) gost_dec(&c, src, dst, n); else gost_enc(&c, src, dst, n);
    for (int i = 0; i < NB; i++) {
        uint8_t t[8];
        if (i < n) { if (IN.which & 1) gostdecrypt(&c, IN.blk + 8 * i, t); else gostcrypt(&c, IN.blk + 8 * i, t);
                     VP_ASSERT(memcmp(t, o + 8 * i, 8) == 0, "ECB block"); }
        else for (int j = 0; j < 8; j++) VP_ASSERT(o[8 * i + j] == (IN.inplace ? IN.blk[8 * i + j] : 0xa5), "nothing written past the blocks");
    }
    /* one-shot keyed encryption */
    uint8_t t[8], u[8]; gost_ctx d = IN.c;
    memcpy(k2, IN.key, 32); memcpy(t, IN.blk, 8);
    gost_enc_with_key(&d, k2, t, u);
    gost_key_nomask(&c, IN.key);
    gostcrypt(&c, IN.blk, t);
    VP_ASSERT(memcmp(t, u, 8) == 0, "encrypt with key");
#endif
}
#include "vp_main.h"
