/* GOST 34.311-95, written from the standard. Vectors are 32 bytes, byte 0 the least significant. */
#ifndef HASH_SPEC_H_
#define HASH_SPEC_H_
#include "cfb_spec.h"
/* A(y4||y3||y2||y1) = (y1^y2)||y4||y3||y2 */
static void hs_A(uint8_t y[32])
{
    uint8_t t[8];
    for (int i = 0; i < 8; i++) t[i] = y[i] ^ y[8 + i];
    for (int i = 0; i < 24; i++) y[i] = y[i + 8];
    for (int i = 0; i < 8; i++) y[24 + i] = t[i];
}
/* P: byte i+1+4(k-1) of the result is byte 8i+k of the argument, i = 0..3, k = 1..8 */
static void hs_P(const uint8_t w[32], uint8_t k[32])
{
    for (int i = 0; i < 4; i++)
        for (int j = 1; j <= 8; j++) k[i + 1 + 4 * (j - 1) - 1] = w[8 * i + j - 1];
}
/* psi(g16||...||g1) = (g1^g2^g3^g4^g13^g16)||g16||...||g2 over 16-bit words; n times */
static void hs_psi(uint8_t s[32], int n)
{
    uint16_t g[16 + 61];
    for (int i = 0; i < 16; i++) g[i] = s[2 * i] | s[2 * i + 1] << 8;
    for (int i = 0; i < n; i++) g[16 + i] = g[i] ^ g[i + 1] ^ g[i + 2] ^ g[i + 3] ^ g[i + 12] ^ g[i + 15];
    for (int i = 0; i < 16; i++) { s[2 * i] = g[n + i] & 255; s[2 * i + 1] = g[n + i] >> 8; }
}
/* C3 of the standard, least significant byte first */
static const uint8_t hs_C3[32] = {
    0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00,
    0x00, 0xff, 0xff, 0x00, 0xff, 0x00, 0x00, 0xff, 0xff, 0x00, 0x00, 0x00, 0xff, 0xff, 0x00, 0xff };
static void hs_step(const sp_sbox *b, uint8_t H[32], const uint8_t M[32])
{
    uint8_t U[32], V[32], W[32], K[32], S[32];
    memcpy(U, H, 32); memcpy(V, M, 32);
    for (int j = 1; j <= 4; j++) {
        if (j > 1) {
            hs_A(U);
            if (j == 3) for (int i = 0; i < 32; i++) U[i] ^= hs_C3[i];
            hs_A(V); hs_A(V);
        }
        for (int i = 0; i < 32; i++) W[i] = U[i] ^ V[i];
        hs_P(W, K);
        sp_enc(K, b, H + 8 * (j - 1), S + 8 * (j - 1));
    }
    hs_psi(S, 12);
    for (int i = 0; i < 32; i++) S[i] ^= M[i];
    hs_psi(S, 1);
    for (int i = 0; i < 32; i++) S[i] ^= H[i];
    hs_psi(S, 61);
    memcpy(H, S, 32);
}
static void hs_sum(uint8_t s[32], const uint8_t m[32])
{
    unsigned c = 0;
    for (int i = 0; i < 32; i++) { c += s[i] + m[i]; s[i] = c & 255; c >>= 8; }
}
#endif
