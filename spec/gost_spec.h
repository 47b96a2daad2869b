/* DSTU GOST 28147:2009 written from the standard, independently of /repo.
 * S[0] is the substitution row applied to the lowest nibble, S[7] to the highest. */
#ifndef GOST_SPEC_H_
#define GOST_SPEC_H_
#include <stdint.h>
typedef struct { uint8_t row[8][16]; } sp_sbox;
static inline uint32_t sp_ld(const uint8_t *p)
{ return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static inline void sp_st(uint8_t *p, uint32_t v)
{ p[0] = v & 255; p[1] = (v >> 8) & 255; p[2] = (v >> 16) & 255; p[3] = (v >> 24) & 255; }
/* one substitution + rotation, straight from the standard */
static inline uint32_t sp_f(const sp_sbox *s, uint32_t x)
{
    uint32_t y = 0;
    for (int i = 0; i < 8; i++)
        y |= (uint32_t)(s->row[i][(x >> (4 * i)) & 15] & 15) << (4 * i);
    return (y << 11) | (y >> 21);
}
#endif
