/* Digest of a short message under an S-box: uninterpreted for the solver (matching
 * model/hash_uf.c), GOST 34.311 for the native replay. */
#ifndef DIGEST_SPEC_H_
#define DIGEST_SPEC_H_
#include "hash_spec.h"
#ifdef VP_CBMC
typedef unsigned __CPROVER_bitvector[128] u128;
unsigned long long __CPROVER_uninterpreted_ghash(u512 sbox, u128 msg, int len);
static void sp_digest(const uint8_t box[64], const uint8_t *msg, int len, uint8_t *out)
{
    u512 b = 0; u128 m = 0; unsigned long long v; sp_sbox s;
    sp_unpack(box, &s);
    for (int i = 0; i < 16; i++)
        for (int r = 3; r >= 0; r--)
            b = (b << 8) | (u512)(uint8_t)(s.row[2 * r + 1][i] << 4 | s.row[2 * r][i]);
    for (int i = 0; i < len; i++) m = (m << 8) | msg[i];
    v = __CPROVER_uninterpreted_ghash(b, m, len);
    for (int i = 0; i < 32; i++) out[i] = (uint8_t)(v >> (8 * (i & 7))) ^ i;
}
#else
static void sp_digest(const uint8_t box[64], const uint8_t *msg, int len, uint8_t *out)
{
    uint8_t H[32] = {0}, S[32] = {0}, m[32]; sp_sbox s; int k = 0;
    sp_unpack(box, &s);
    do {
        int n = len - k < 32 ? len - k : 32;
        memset(m, 0, 32); memcpy(m, msg + k, n);
        hs_step(&s, H, m); hs_sum(S, m);
        k += 32;
    } while (k < len);
    memset(m, 0, 32);
    for (int i = 0; i < 4; i++) m[i] = (uint8_t)((unsigned)(len * 8) >> (8 * i));
    hs_step(&s, H, m);
    hs_step(&s, H, S);
    memcpy(out, H, 32);
}
#endif
#endif
