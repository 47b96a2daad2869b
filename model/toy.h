/* toy curves: shared by the model and the harnesses; TOY selects the curve */
#ifndef VP_TOY_H_
#define VP_TOY_H_
#include <stdint.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include "toy_curves.h"
static inline uint32_t toy_red(uint32_t a)
{
    for (int i = 31; i >= TOY_M; i--) a ^= -(a >> i & 1) & ((uint32_t)TOY_POLY << (i - TOY_M));
    return a;
}
static inline uint32_t toy_mul(uint32_t a, uint32_t b)
{
    uint32_t r = 0;
    a = toy_red(a); b = toy_red(b);
    for (int i = 0; i < TOY_M; i++) r ^= -(b >> i & 1) & (a << i);
    return toy_red(r);
}
/* the DSTU hash-to-field step: little-endian digest, low m bits, zero becomes one */
static inline uint32_t toy_hash(const uint8_t *t, int n)
{
    uint32_t h = 0;
    for (int i = 0; i < n; i++) h |= (uint32_t)t[i] << (8 * i);
    h &= (1u << TOY_M) - 1;
    return h ? h : 1;
}
/* field element to number below the order: its low (bits of the order - 1) bits */
static inline uint32_t toy_trunc(uint32_t v) { return v & ((1u << (TOY_NBITS - 1)) - 1); }
/* remainders by shift and subtract: v below 2^(bits of the modulus + extra) */
static inline uint32_t toy_rem(uint32_t v, uint32_t m, int extra)
{
    for (int i = extra; i >= 0; i--) { uint32_t t = m << i; v = v >= t ? v - t : v; }
    return v;
}
#define toy_modn(v) toy_rem(v, TOY_N, 32 - TOY_NBITS)
#define TOY_ALLBITS (TOY_NBITS + (TOY_H == 4 ? 2 : 1))
#define toy_modall(v) toy_rem(v, TOY_ALL, 32 - TOY_ALLBITS)
/* products of two remainders */
static inline uint32_t toy_mulmodn(uint32_t a, uint32_t b) { return toy_rem(a * b, TOY_N, TOY_NBITS); }
static inline uint32_t toy_mulmodall(uint32_t a, uint32_t b) { return toy_rem(a * b, TOY_ALL, TOY_ALLBITS); }
static inline uint32_t toy_addmodn(uint32_t a, uint32_t b) { return a + b >= TOY_N ? a + b - TOY_N : a + b; }
#define TOY_G TOY_H                 /* index of the base point */
static inline uint32_t toy_neg(uint32_t k) { return k ? TOY_ALL - k : 0; }
/* harness side (both modes): the group with its base point, points by index */
int toy_point(const EC_GROUP *g, EC_POINT *p, uint32_t idx);
EC_GROUP *toy_group(void);
#endif
