/* CBMC only, in place of dstulib/gost/gosthash.c: the digest as an uninterpreted function of
 * (S-box, message); the context just collects the message (at most 16 bytes). */
#include <stdlib.h>
#include <string.h>
#include "gost/gosthash.h"
typedef unsigned __CPROVER_bitvector[512] u512;
typedef unsigned __CPROVER_bitvector[128] u128;
unsigned long long __CPROVER_uninterpreted_ghash(u512 sbox, u128 msg, int len);
int start_hash(gost_hash_ctx *c) { if (!c->cipher_ctx) return 0; c->len = 0; c->left = 0; return 1; }
int init_gost_hash_ctx(gost_hash_ctx *c, const gost_subst_block *b)
{
    static const gost_hash_ctx z; static const gost_ctx gz;
    *c = z;
    c->cipher_ctx = malloc(sizeof(gost_ctx));
    *c->cipher_ctx = gz;
    gost_init(c->cipher_ctx, b);
    return 1;
}
void done_gost_hash_ctx(gost_hash_ctx *c) { free(c->cipher_ctx); }
int hash_block(gost_hash_ctx *c, const byte *p, size_t n)
{
    __CPROVER_assert(c->len + n <= 16, "model: messages of at most 16 bytes");
    for (size_t i = 0; i < n; i++) c->remainder[c->len + i] = p[i];
    c->len += n;
    return 1;
}
int finish_hash(gost_hash_ctx *c, byte *out)
{
    u512 s = 0; u128 m = 0; unsigned long long v;
    for (int i = 0; i < 16; i++) s = (s << 32) | (u512)c->cipher_ctx->k21[i];
    for (int i = 0; i < c->len; i++) m = (m << 8) | c->remainder[i];
    v = __CPROVER_uninterpreted_ghash(s, m, (int)c->len);
    for (int i = 0; i < 32; i++) out[i] = (byte)(v >> (8 * (i & 7))) ^ i;
    return 1;
}
