/* C24: GOST 28147 message authentication code.
 * PART 1: mac_block is 16 rounds of the standard over buffer XOR block, for arbitrary tables.
 * PART 2: composition over LEN bytes with mac_block uninterpreted (the same function on both sides). */
#include "vp.h"
#include "gost/gost89.h"
#include "gost_spec.h"
#include <string.h>
#ifndef LEN
#define LEN 0
#endif
struct in_t { gost_ctx c; uint8_t buf[8], blk[8], iv[8], data[LEN + 1]; int32_t nbits; uint8_t useiv, fill[9]; };
VP_INPUT;
int RAND_priv_bytes(unsigned char *buf, int num) { memset(buf, 0, num); return 1; }
#ifdef VP_CBMC
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
#endif
void mac_block(gost_ctx * c, byte * buffer, const byte * block);
static uint32_t f_tab(const gost_ctx *c, uint32_t x)
{
    uint32_t y = c->k87[x >> 24] | c->k65[(x >> 16) & 255] | c->k43[(x >> 8) & 255] | c->k21[x & 255];
    return (y << 11) | (y >> 21);
}
static void spec_block(const gost_ctx *c, uint8_t *buf, const uint8_t *blk)
{
    uint32_t n1, n2, t;
    for (int i = 0; i < 8; i++) buf[i] ^= blk[i];
    n1 = sp_ld(buf); n2 = sp_ld(buf + 4);
    for (int i = 0; i < 16; i++) {
        t = n1;
        n1 = n2 ^ f_tab(c, n1 + (c->key[i & 7] + c->mask[i & 7]));
        n2 = t;
    }
    sp_st(buf, n1); sp_st(buf + 4, n2);
}
#if PART == 2 && defined(VP_CBMC)
typedef unsigned long long u64;
u64 __CPROVER_uninterpreted_mac(u64 x);
static u64 ld(const uint8_t *p) { u64 v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
void mac_block(gost_ctx *c, byte *b, const byte *k)
{
    u64 r = __CPROVER_uninterpreted_mac(ld(b) ^ ld(k));
    for (int i = 0; i < 8; i++) b[i] = (byte)(r >> 8 * i);
}
#endif
static void vp_harness(void)
{
    gost_ctx c = IN.c;
    uint8_t b[8], e[8];
#if PART == 1
    memcpy(b, IN.buf, 8); memcpy(e, IN.buf, 8);
    mac_block(&c, b, IN.blk);
    spec_block(&IN.c, e, IN.blk);
    for (int i = 0; i < 8; i++) VP_ASSERT(b[i] == e[i], "16 rounds");
    VP_ASSERT(c.key[3] == IN.c.key[3] && c.mask[5] == IN.c.mask[5], "context kept");
#else
    uint8_t out[9], z[8] = {0};
    memcpy(out, IN.fill, 9);
    VP_ASSUME(IN.nbits >= 1 && IN.nbits <= 64);
    if (IN.useiv) VP_ASSERT(gost_mac_iv(&c, IN.nbits, IN.iv, IN.data, LEN, out) == 1, "result");
    else VP_ASSERT(gost_mac(&c, IN.nbits, IN.data, LEN, out) == 1, "result");
    for (int i = 0; i < 8; i++) e[i] = IN.useiv ? IN.iv[i] : 0;
    int blocks = 0;
    for (int o = 0; o < LEN; o += 8) {
        uint8_t t[8] = {0};
        for (int j = 0; j < 8; j++) if (o + j < LEN) t[j] = IN.data[o + j];
        mac_block(&c, e, t); blocks++;
    }
    if (blocks == 1) mac_block(&c, e, z);
    int full = IN.nbits / 8, rem = IN.nbits % 8;
    for (int i = 0; i < 9; i++) {
        if (i < full) VP_ASSERT(out[i] == e[i], "whole bytes");
        else if (i == full && rem) VP_ASSERT(out[i] == (e[i] & ((1 << rem) - 1)), "low bits of the last byte");
        else VP_ASSERT(out[i] == IN.fill[i], "nothing written beyond");
    }
#endif
}
static void vp_randomise(void) { vp_rand(&IN, sizeof(IN)); IN.nbits = 1 + (IN.nbits & 63); IN.useiv &= 1; }
#define VP_HAS_RANDOMISE
#include "vp_main.h"
