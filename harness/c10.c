/* C10: point compression and expansion.
 * PART 1: compress any point of the prime-order subgroup, expand, compare.
 * PART 2: expand any LEN-byte string. */
#include "vp.h"
#include "toy.h"
#include "compress.h"
#include <stdlib.h>
#include <string.h>
#ifndef LEN
#define LEN TOY_FB
#endif
#ifndef EXTRA
#define EXTRA 0
#endif
struct in_t { uint16_t k; uint8_t fill[TOY_FB + EXTRA + 1], s[LEN + 1]; uint8_t failat; };
VP_INPUT;
static int armed, faults;
int vp_fault(void)
{
#ifdef FAULT
    if (armed) return IN.failat == faults++;
#endif
    return 0;
}
static void vp_randomise(void) { vp_rand(&IN, sizeof(IN)); IN.k %= TOY_ALL; }
/* trace over GF(2^m), straight from its definition */
static uint32_t tr(uint32_t v) { uint32_t r = v, s = v; for (int i = 1; i < TOY_M; i++) { s = toy_mul(s, s); r ^= s; } return r; }
static void vp_harness(void)
{
    EC_GROUP *g; EC_POINT *p, *q;
    BIGNUM *x, *y;
    armed = faults = 0;
    g = toy_group(); p = EC_POINT_new(g); q = EC_POINT_new(g); x = BN_new(); y = BN_new();
#if PART == 1
    int n = TOY_FB + EXTRA, r;
    uint8_t *c = malloc(n);
# ifdef ANYPOINT     /* every finite point of the curve */
    uint32_t i = IN.k;
    VP_ASSUME(i >= 1 && i < TOY_ALL);
# else
    uint32_t i = IN.k * TOY_H;
    VP_ASSUME(IN.k >= 1 && IN.k < TOY_N);
# endif
    memcpy(c, IN.fill, n);
    toy_point(g, p, i);
    armed = 1;
    r = dstu_point_compress(g, p, c, n);
    for (int j = TOY_FB; j < n; j++) VP_ASSERT(c[j] == IN.fill[j], "only the field size is written");
# ifdef FAULT
    VP_ASSERT(r == 0 || IN.failat >= faults, "a failed operation fails the compression");
# else
    uint32_t px = toy_x[i], py = toy_y[i], v = 0;
    if (r == 1) {
        uint32_t t = px ? tr(toy_mul(py, toy_inv[px])) : 0;
        for (int j = 0; j < TOY_FB; j++) v = v << 8 | c[j];
        VP_ASSERT(v == ((px & ~1u) | t), "x with the trace of y/x in its lowest bit");
    } else
        VP_ASSERT(px == 1 && tr(py) == 0, "only the point that would look like zero cannot be compressed");
#  ifndef ANYPOINT
    if (r == 1) {
        VP_ASSERT(dstu_point_expand(c, TOY_FB, g, q) == 1, "expands");
        VP_ASSERT(EC_POINT_get_affine_coordinates(g, q, x, y, NULL) == 1 && BN_is_word(x, px) && BN_is_word(y, py), "to the same point");
    }
#  endif
# endif
#elif PART == 2
    uint8_t *c = malloc(LEN);
    uint32_t v = 0, want = 0;
    int r;
    for (int j = 0; j < LEN; j++) { c[j] = IN.s[j]; v = v << 8 | c[j]; }
# ifdef CANON
    VP_ASSUME(v >> TOY_M == 0);
# endif
    armed = 1;
    r = dstu_point_expand(c, LEN, g, q);
    for (int j = 0; j < LEN; j++) VP_ASSERT(c[j] == IN.s[j], "input kept");
# ifdef FAULT
    VP_ASSERT(r == 0 || IN.failat >= faults, "a failed operation fails the expansion");
# else
    if (LEN < TOY_FB) VP_ASSERT(r == 0, "short string refused");
    else if (r == 1) {
        VP_ASSERT(!EC_POINT_is_at_infinity(g, q) && EC_POINT_get_affine_coordinates(g, q, x, y, NULL) == 1, "a finite point");
        uint32_t px = BN_get_word(x), py = BN_get_word(y);
        uint32_t rx = toy_red(px), ry = toy_red(py);
        VP_ASSERT((toy_mul(ry, ry) ^ toy_mul(rx, ry) ^ toy_mul(toy_mul(rx, rx), rx) ^ (TOY_A ? toy_mul(rx, rx) : 0) ^ TOY_B) == 0, "on the curve");
        VP_ASSERT((px & ~1u) == (v & ~1u), "with that x up to the lowest bit");
#  ifdef CANON
        if (v) VP_ASSERT(tr(rx) == TOY_A, "x has the trace of a");
        if (v) VP_ASSERT(tr(toy_mul(py, toy_inv[px])) == (v & 1), "y/x has the trace of the lowest bit");
#  endif
    }
#  ifdef CANON
    else {      /* only strings that compress no point are refused: 0 is sqrt(b); otherwise the quadratic has no root */
        uint32_t f = v & ~1u;
        if (tr(f) != TOY_A) f |= 1;
        VP_ASSERT(v != 0 && (f == 0 || tr(f ^ TOY_A ^ toy_mul(TOY_B, toy_inv[toy_mul(f, f)])) != 0), "string of a point accepted");
    }
#  endif
# endif
#endif
    free(c);
    BN_free(x); BN_free(y);
    EC_POINT_free(p); EC_POINT_free(q); EC_GROUP_free(g);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
