/* Native replay of failing steps: the linker sends the code's calls of these libcrypto functions here (NATIVE_WRAPS in checks.py),
 * and they fail when vp_fault says so. Also counts libcrypto's live allocations, for leaks. */
#ifndef VP_CBMC
#include <stdlib.h>
#include <openssl/crypto.h>
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/err.h>
int vp_fault(void);
#ifdef WRAPS
# define W(T, f, P, A) T __real_##f P; T __wrap_##f P { return vp_fault() ? (T)0 : __real_##f A; }
W(BIGNUM *, BN_bin2bn, (const unsigned char *s, int n, BIGNUM *r), (s, n, r))
W(BIGNUM *, BN_copy, (BIGNUM *a, const BIGNUM *b), (a, b))
W(int, BN_GF2m_arr2poly, (const int *p, BIGNUM *a), (p, a))
#ifndef NOCTXFAULT      /* running out of memory is out of scope */
W(BN_CTX *, BN_CTX_new, (void), ())
#endif
W(EC_GROUP *, EC_GROUP_new_curve_GF2m, (const BIGNUM *p, const BIGNUM *a, const BIGNUM *b, BN_CTX *c), (p, a, b, c))
W(int, EC_GROUP_get_curve, (const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b, BN_CTX *c), (g, p, a, b, c))
W(int, EC_GROUP_get_curve_GF2m, (const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b, BN_CTX *c), (g, p, a, b, c))
W(int, EC_GROUP_get_order, (const EC_GROUP *g, BIGNUM *o, BN_CTX *c), (g, o, c))
W(int, EC_GROUP_set_generator, (EC_GROUP *g, const EC_POINT *p, const BIGNUM *o, const BIGNUM *h), (g, p, o, h))
W(EC_POINT *, EC_POINT_new, (const EC_GROUP *g), (g))
W(int, EC_POINT_mul, (const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c), (g, r, n, q, m, c))
W(int, EC_POINT_invert, (const EC_GROUP *g, EC_POINT *p, BN_CTX *c), (g, p, c))
W(int, EC_POINT_set_affine_coordinates, (const EC_GROUP *g, EC_POINT *p, const BIGNUM *x, const BIGNUM *y, BN_CTX *c), (g, p, x, y, c))
W(int, EC_POINT_set_affine_coordinates_GF2m, (const EC_GROUP *g, EC_POINT *p, const BIGNUM *x, const BIGNUM *y, BN_CTX *c), (g, p, x, y, c))
W(EC_KEY *, EC_KEY_new, (void), ())
W(int, EC_KEY_set_group, (EC_KEY *k, const EC_GROUP *g), (k, g))
W(int, EC_KEY_set_private_key, (EC_KEY *k, const BIGNUM *d), (k, d))
W(int, EC_KEY_set_public_key, (EC_KEY *k, const EC_POINT *p), (k, p))
# ifdef FAILENC
static int codec_fail;
int __real_i2d_DSTU_AlgorithmParameters(const void *p, unsigned char **o);
int __wrap_i2d_DSTU_AlgorithmParameters(const void *p, unsigned char **o) { return codec_fail ? codec_fail - 2 : __real_i2d_DSTU_AlgorithmParameters(p, o); }
# endif
#endif
static long nlive;
static void *cm(size_t n, const char *f, int l) { if (!n) return NULL; nlive++; return malloc(n); }
static void *cr(void *p, size_t n, const char *f, int l) { if (!p) return cm(n, f, l); if (!n) { nlive--; free(p); return NULL; } return realloc(p, n); }
static void cf(void *p, const char *f, int l) { if (p) nlive--; free(p); }
static void count_live(void) { static int on; if (!on) { on = 1; CRYPTO_set_mem_functions(cm, cr, cf); } }
#endif
