/* Block encryption under (key bytes, S-box rows): uninterpreted for the solver (matching
 * model/gost_uf.c), the standard's 32 rounds for the native replay. */
#ifndef CFB_SPEC_H_
#define CFB_SPEC_H_
#include "gost_spec.h"
#include <string.h>
#ifdef VP_CBMC
typedef unsigned __CPROVER_bitvector[256] u256;
typedef unsigned __CPROVER_bitvector[512] u512;
unsigned long long __CPROVER_uninterpreted_gost_enc(u256 key, u512 sbox, unsigned long long block);
static void sp_enc(const uint8_t key[32], const sp_sbox *s, const uint8_t *in, uint8_t *out)
{
    u256 k = 0; u512 b = 0; unsigned long long v = 0;
    for (int i = 0; i < 8; i++) k = (k << 32) | (u256)sp_ld(key + 4 * i);
#ifndef UF_NOSBOX
    for (int i = 0; i < 16; i++)
        for (int r = 3; r >= 0; r--)
            b = (b << 8) | (u512)(uint8_t)(s->row[2 * r + 1][i] << 4 | s->row[2 * r][i]);
#endif
    for (int i = 7; i >= 0; i--) v = (v << 8) | in[i];
    v = __CPROVER_uninterpreted_gost_enc(k, b, v);
    for (int i = 0; i < 8; i++) out[i] = (uint8_t)(v >> (8 * i));
}
#else
static void sp_enc(const uint8_t key[32], const sp_sbox *s, const uint8_t *in, uint8_t *out)
{
    uint32_t n1 = sp_ld(in), n2 = sp_ld(in + 4), t;
    for (int i = 0; i < 32; i++) {
        t = n1;
        n1 = n2 ^ sp_f(s, n1 + sp_ld(key + 4 * (i < 24 ? (i & 7) : 7 - (i & 7))));
        n2 = t;
    }
    sp_st(out, n2); sp_st(out + 4, n1);
}
#endif
/* packed 64-byte S-box (DSTU DKE): byte 8*r+j holds entries 2j (high nibble) and 2j+1 of row r */
static void sp_unpack(const uint8_t p[64], sp_sbox *s)
{
    for (int r = 0; r < 8; r++)
        for (int j = 0; j < 8; j++) { s->row[r][2 * j] = p[8 * r + j] >> 4; s->row[r][2 * j + 1] = p[8 * r + j] & 15; }
}
/* S-box no. 1 of DSTU GOST 28147 (supplement), the default */
static const uint8_t sp_default_sbox[64] = {
    0xa9, 0xd6, 0xeb, 0x45, 0xf1, 0x3c, 0x70, 0x82, 0x80, 0xc4, 0x96, 0x7b, 0x23, 0x1f, 0x5e, 0xad,
    0xf6, 0x58, 0xeb, 0xa4, 0xc0, 0x37, 0x29, 0x1d, 0x38, 0xd9, 0x6b, 0xf0, 0x25, 0xca, 0x4e, 0x17,
    0xf8, 0xe9, 0x72, 0x0d, 0xc6, 0x15, 0xb4, 0x3a, 0x28, 0x97, 0x5f, 0x0b, 0xc1, 0xde, 0xa3, 0x64,
    0x38, 0xb5, 0x64, 0xea, 0x2c, 0x17, 0x9f, 0xd0, 0x12, 0x3e, 0x6d, 0xb8, 0xfa, 0xc5, 0x79, 0x04 };
/* textbook CFB-64, one byte at a time */
typedef struct { const uint8_t *key; const sp_sbox *s; uint8_t reg[8], gamma[8]; int pos; } sp_cfb;
static void sp_cfb_init(sp_cfb *c, const uint8_t *key, const sp_sbox *s, const uint8_t *iv)
{ c->key = key; c->s = s; memcpy(c->reg, iv, 8); c->pos = 0; }
static uint8_t sp_cfb_byte(sp_cfb *c, uint8_t b, int enc)
{
    if (c->pos == 0) sp_enc(c->key, c->s, c->reg, c->gamma);
    uint8_t o = b ^ c->gamma[c->pos];
    c->reg[c->pos] = enc ? o : b;
    c->pos = (c->pos + 1) & 7;
    return o;
}
#endif
