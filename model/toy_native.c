/* toy group and points through the public interface (native replay against libcrypto, and for the model) */
#include "toy.h"
EC_GROUP *toy_group(void)
{
    int arr[] = TOY_ARR;
    BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *n = BN_new(), *h = BN_new();
    EC_GROUP *g; EC_POINT *G;
    BN_GF2m_arr2poly(arr, p); BN_set_word(a, TOY_A); BN_set_word(b, TOY_B); BN_set_word(n, TOY_N); BN_set_word(h, TOY_H);
    g = EC_GROUP_new_curve_GF2m(p, a, b, NULL);
    G = EC_POINT_new(g);
    toy_point(g, G, TOY_G);
    EC_GROUP_set_generator(g, G, n, h);
    EC_POINT_free(G);
    BN_free(p); BN_free(a); BN_free(b); BN_free(n); BN_free(h);
    return g;
}
#if !defined(VP_CBMC) && !defined(VP_NATIVE_MODEL)
int toy_point(const EC_GROUP *g, EC_POINT *p, uint32_t idx)
{
    BIGNUM *x = BN_new(), *y = BN_new(); int r;
    if (!idx) r = EC_POINT_set_to_infinity(g, p);
    else {
        BN_set_word(x, toy_x[idx]); BN_set_word(y, toy_y[idx]);
        r = EC_POINT_set_affine_coordinates(g, p, x, y, NULL);
    }
    BN_free(x); BN_free(y);
    return r;
}
#endif
