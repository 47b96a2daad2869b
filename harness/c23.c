/* C23: the standard curves. CURVE: which one. PART 1: the identifier yields the curve; PART 2: recognised back, or not;
 * PART 3: any other identifier yields nothing; PART 4: a curve of another degree is not recognised. */
#include "vp.h"
#include "wide.h"
#include "curves.h"
#include "params.h"
#include <openssl/obj_mac.h>
#ifndef CURVE
#define CURVE 0
#endif
struct in_t { int32_t nid; uint8_t order[56], failat, which; };
VP_INPUT;
int wide_hex_bits;
static int armed, faults;
int vp_fault(void)
{
#ifdef FAULT
    if (armed) return IN.failat == faults++;
#endif
    return 0;
}
int RAND_priv_bytes(unsigned char *b, int n) { return 0; }
int BN_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
int wide_on_curve(const EC_GROUP *g, const BIGNUM *x, const BIGNUM *y) { return 1; }
static void vp_randomise(void) { vp_rand(&IN, sizeof(IN)); IN.which &= 7; IN.order[0] = 0; }
static BIGNUM *hex(const char *s) { BIGNUM *b = NULL; BN_hex2bn(&b, s); return b; }
#define OB ((sp_curve[CURVE].arr[0] + 7) / 8)
static EC_GROUP *mk(const int *arr, int a, const char *bs, const char *xs, const char *ys, const BIGNUM *n)
{
    BIGNUM *p = BN_new(), *ab = BN_new(), *b = hex(bs), *x = hex(xs), *y = hex(ys);
    int poly[7] = {0}, i;
    for (i = 0; arr[i]; i++) poly[i] = arr[i];
    poly[i] = 0; poly[i + 1] = -1;
    BN_GF2m_arr2poly(poly, p); BN_set_word(ab, a);
    EC_GROUP *g = EC_GROUP_new_curve_GF2m(p, ab, b, NULL);
    EC_POINT *t = EC_POINT_new(g);
    VP_ASSERT(EC_POINT_set_affine_coordinates(g, t, x, y, NULL) == 1, "point");
    VP_ASSERT(EC_GROUP_set_generator(g, t, n, BN_value_one()) == 1, "generator");
    EC_POINT_free(t); BN_free(p); BN_free(ab); BN_free(b); BN_free(x); BN_free(y);
    return g;
}
static void vp_harness(void)
{
    armed = faults = 0;
    BIGNUM *n = hex(sp_curve[CURVE].n);
    EC_GROUP *g;
#if PART == 1
    BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *x = BN_new(), *y = BN_new(), *o = BN_new(), *t;
    armed = 1;
    g = group_from_nid(sp_curve[CURVE].nid);
    armed = 0;
# ifdef FAULT
    VP_ASSERT(!g || IN.failat >= faults, "a failed step yields nothing");
# else
    VP_ASSERT(g != NULL, "yields a curve");
    VP_ASSERT(EC_GROUP_get_curve(g, p, a, b, NULL) == 1, "");
    int e = 0; for (int i = 0; i < 6; i++) { int k = sp_curve[CURVE].arr[i]; VP_ASSERT(BN_is_bit_set(p, k), "field polynomial"); if (!k) { e = 1; break; } }
    int w = 0; for (int i = 0; i < 448; i++) w += BN_is_bit_set(p, i);
    int terms = 1; for (int i = 0; i < 6 && sp_curve[CURVE].arr[i]; i++) terms++;
    VP_ASSERT(w == terms, "no other term");
    VP_ASSERT(BN_is_word(a, sp_curve[CURVE].a), "a");
    t = hex(sp_curve[CURVE].b); VP_ASSERT(BN_cmp(b, t) == 0, "b"); BN_free(t);
    VP_ASSERT(EC_GROUP_get_order(g, o, NULL) == 1 && BN_cmp(o, n) == 0, "order");
    VP_ASSERT(EC_POINT_get_affine_coordinates(g, EC_GROUP_get0_generator(g), x, y, NULL) == 1, "base point");
    t = hex(sp_curve[CURVE].x); VP_ASSERT(BN_cmp(x, t) == 0, "base point x"); BN_free(t);
    t = hex(sp_curve[CURVE].y); VP_ASSERT(BN_cmp(y, t) == 0, "base point y"); BN_free(t);
    VP_ASSERT(curve_nid_from_group(g) == sp_curve[CURVE].nid, "recognised back");
# endif
    EC_GROUP_free(g);
    BN_free(p); BN_free(a); BN_free(b); BN_free(x); BN_free(y); BN_free(o);
#elif PART == 2     /* which: 0 the curve; 1 another order; 2 the other base point; 3 the other a; 4 another field polynomial of the degree */
    BIGNUM *m = BN_bin2bn(IN.order, OB, NULL);
    VP_ASSUME(BN_num_bits(m) > 1 && BN_num_bits(m) <= sp_curve[CURVE].arr[0]);
    VP_ASSUME(IN.which < 3);
    int same = 1;
    if (IN.which == 1) { g = mk(sp_curve[CURVE].arr, sp_curve[CURVE].a, sp_curve[CURVE].b, sp_curve[CURVE].x, sp_curve[CURVE].y, m); same = BN_cmp(m, n) == 0; }
    else g = mk(sp_curve[CURVE].arr, sp_curve[CURVE].a, sp_curve[CURVE].b, sp_curve[CURVE].x, sp_curve[CURVE].y, n);
    if (IN.which == 2) {    /* minus the base point */
        EC_POINT *q = EC_POINT_dup(EC_GROUP_get0_generator(g), g);
        EC_POINT_invert(g, q, NULL); EC_GROUP_set_generator(g, q, n, BN_value_one()); EC_POINT_free(q); same = 0;
    }
    armed = 1;
    int r = curve_nid_from_group(g);
    armed = 0;
# ifdef FAULT
    VP_ASSERT(r == NID_undef || (same && r == sp_curve[CURVE].nid), "never a wrong identifier");
# else
    VP_ASSERT(r == (same ? sp_curve[CURVE].nid : NID_undef), "recognised exactly when equal");
# endif
    EC_GROUP_free(g); BN_free(m);
#elif PART == 3
    for (int i = 0; i < 10; i++) VP_ASSUME(IN.nid != sp_curve[i].nid);
    VP_ASSERT(group_from_nid(IN.nid) == NULL, "yields nothing");
#elif PART == 4     /* same numbers in another field */
    static const int arr[][6] = {{163, 7, 6, 3}, {167, 6}, {173, 8, 5, 2}, {113, 9}, {233, 74}, {239, 36}, {431, 120}, {5, 2}, {509, 8, 7, 3}};
    int poly[7] = {0}, i; BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new();
    for (i = 0; arr[CURVE][i]; i++) poly[i] = arr[CURVE][i];
    poly[i + 1] = -1;
    BN_GF2m_arr2poly(poly, p); BN_set_word(a, 1); BN_set_word(b, 1 + (IN.which & 7));
    g = EC_GROUP_new_curve_GF2m(p, a, b, NULL);
    VP_ASSERT(curve_nid_from_group(g) == NID_undef, "not recognised");
    EC_GROUP_free(g); BN_free(p); BN_free(a); BN_free(b);
#endif
    BN_free(n);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
