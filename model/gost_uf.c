/* CBMC only: the 64-bit block cipher as an uninterpreted function of (key, S-box, block).
 * Linked in place of the bodies of gostcrypt/gostdecrypt when a property is about a mode
 * of operation rather than about the cipher itself (that is C01's job). */
#include "gost/gost89.h"
typedef unsigned __CPROVER_bitvector[256] u256;
typedef unsigned __CPROVER_bitvector[512] u512;
typedef unsigned long long u64;
u64 __CPROVER_uninterpreted_gost_enc(u256 key, u512 sbox, u64 block);
u64 __CPROVER_uninterpreted_gost_dec(u256 key, u512 sbox, u64 block);
static u256 keyof(gost_ctx *c)
{
    u256 k = 0;
    for (int i = 0; i < 8; i++)
        k = (k << 32) | (u256)(unsigned)(c->key[i] + c->mask[i]);
    return k;
}
/* the tables are determined by these 64 entries when they come from an S-box */
static u512 sboxof(gost_ctx *c)
{
    u512 s = 0;
#ifndef UF_NOSBOX
# ifdef UF_ABS
    for (int i = 0; i < 16; i++) s = (s << 32) | (u512)c->k21[i];
# else
    for (int i = 0; i < 16; i++) {
        s = (s << 8) | (u512)((c->k87[17 * i] >> 24) & 255);
        s = (s << 8) | (u512)((c->k65[17 * i] >> 16) & 255);
        s = (s << 8) | (u512)((c->k43[17 * i] >> 8) & 255);
        s = (s << 8) | (u512)(c->k21[17 * i] & 255);
    }
# endif
#endif
    return s;
}
#ifdef UF_ABS
/* abstract S-box expansion and its inverse (that the real ones are inverse and that the real
 * tables implement the S-box is decided by C07 and C01): the 16 x 8 nibbles in k21[0..15] */
void kboxinit(gost_ctx *c, const gost_subst_block *b)
{
    for (int i = 0; i < 16; i++)
        c->k21[i] = (u4)b->k8[i] << 28 | (u4)b->k7[i] << 24 | (u4)b->k6[i] << 20 | (u4)b->k5[i] << 16 |
                    (u4)b->k4[i] << 12 | (u4)b->k3[i] << 8 | (u4)b->k2[i] << 4 | (u4)b->k1[i];
}
void dstu_get_sbox(gost_ctx *c, gost_subst_block *b)
{
    for (int i = 0; i < 16; i++) {
        u4 w = c->k21[i];
        b->k8[i] = w >> 28 & 15; b->k7[i] = w >> 24 & 15; b->k6[i] = w >> 20 & 15; b->k5[i] = w >> 16 & 15;
        b->k4[i] = w >> 12 & 15; b->k3[i] = w >> 8 & 15; b->k2[i] = w >> 4 & 15; b->k1[i] = w & 15;
    }
}
#endif
static u64 ld(const byte *p)
{
    u64 v = 0;
    for (int i = 7; i >= 0; i--) v = (v << 8) | p[i];
    return v;
}
static void st(byte *p, u64 v)
{
    for (int i = 0; i < 8; i++) p[i] = (byte)(v >> (8 * i));
}
void gostcrypt(gost_ctx *c, const byte *in, byte *out)
{ st(out, __CPROVER_uninterpreted_gost_enc(keyof(c), sboxof(c), ld(in))); }
void gostdecrypt(gost_ctx *c, const byte *in, byte *out)
{ st(out, __CPROVER_uninterpreted_gost_dec(keyof(c), sboxof(c), ld(in))); }
