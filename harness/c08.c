/* C08: a signature that is produced satisfies the DSTU 4145 verification equation, has the announced
 * form and size, and producing it does not loop once a usable nonce has been drawn.
 * K: nonces available (later draws fail). TLEN: digest bytes. FAULT: one internal operation fails. */
#include "vp.h"
#include "toy_key.h"
#ifndef K
#define K 3
#endif
#ifndef SLACK
#define SLACK 0
#endif
#define SIGLEN (2 + 2 * TOY_NB)
struct in_t { uint8_t tbs[TLEN]; uint16_t d, rnd[K]; uint8_t fill[SIGLEN + 3], failat; };
VP_INPUT;
static int draws, armed, faults, exhausted;
int vp_fault(void)
{
#ifdef FAULT
    if (armed) return IN.failat == faults++;
#endif
    return 0;
}
int BN_rand_range(BIGNUM *r, const BIGNUM *n)
{
    VP_ASSERT(BN_is_word(n, TOY_N), "nonce drawn below the order");
    if (vp_fault()) return 0;
    if (draws >= K) { exhausted = 1; return 0; }
    return BN_set_word(r, IN.rnd[draws++]);
}
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return BN_rand_range(r, n); }
static void vp_randomise(void)
{ vp_rand(&IN, sizeof(IN)); IN.d = 1 + IN.d % (TOY_N - 1); for (int i = 0; i < K; i++) IN.rnd[i] %= TOY_N; }
static void vp_harness(void)
{
    EVP_PKEY *pk; EVP_PKEY_CTX *c;
    uint8_t sig[SIGLEN + 3]; size_t n;
    uint32_t h = toy_hash(IN.tbs, TLEN), r = 0, s = 0, good = K, zero = 0;
    int rc;
    VP_ASSUME(IN.d >= 1 && IN.d < TOY_N);
    for (int i = 0; i < K; i++) VP_ASSUME(IN.rnd[i] < TOY_N);
    for (int i = K - 1; i >= 0; i--) {
        uint32_t e = IN.rnd[i], x = toy_x[e * TOY_H], t = toy_trunc(toy_mul(h, x)), u = toy_addmodn(toy_mulmodn(IN.d, t), e);
        if (e && t && u) { good = i; r = t; s = u; }
    }
    for (int i = 0; i < K; i++) if (i < good && IN.rnd[i] == 0) zero = 1;   /* the zero nonce: no affine point, may fail */
#ifdef GOOD     /* a usable nonce is among them */
    VP_ASSUME(good < K);
#endif
    draws = armed = faults = exhausted = 0;
    toy_register();
    pk = toy_pkey(IN.d, 0, 0);
    c = EVP_PKEY_CTX_new(pk, NULL);
    VP_ASSERT(EVP_PKEY_sign_init(c) == 1, "sign_init");
    n = 0;
    VP_ASSERT(EVP_PKEY_sign(c, NULL, &n, IN.tbs, TLEN) == 1 && n == SIGLEN && EVP_PKEY_size(pk) == SIGLEN, "announced size");
    memcpy(sig, IN.fill, sizeof(sig));
    armed = 1;
#ifdef SMALL
    n = SIGLEN - SMALL;
    VP_ASSERT(EVP_PKEY_sign(c, sig, &n, IN.tbs, TLEN) <= 0, "small buffer refused");
    for (int i = 0; i < (int)sizeof(sig); i++) VP_ASSERT(sig[i] == IN.fill[i], "buffer untouched");
#else
    n = SIGLEN + SLACK;
    rc = EVP_PKEY_sign(c, sig, &n, IN.tbs, TLEN);
    if (rc > 0) {
        VP_ASSERT(n == SIGLEN, "announced size");
        VP_ASSERT(sig[0] == 4 && sig[1] == 2 * TOY_NB, "DER octet string");
        uint32_t s1 = 0, r1 = 0;
        for (int i = 0; i < TOY_NB; i++) {
# ifdef BE
            s1 = s1 << 8 | sig[2 + i]; r1 = r1 << 8 | sig[2 + TOY_NB + i];
# else
            r1 |= (uint32_t)sig[2 + i] << 8 * i; s1 |= (uint32_t)sig[2 + TOY_NB + i] << 8 * i;
# endif
        }
        VP_ASSERT(good < K && r1 == r && s1 == s, "signature of the first usable nonce");
        /* which satisfies the verification equation with the public key -dG */
        VP_ASSERT(r1 > 0 && r1 < TOY_N && s1 > 0 && s1 < TOY_N, "components in range");
# ifdef EQ
        uint32_t R = toy_addmodn(s1, toy_mulmodn(TOY_N - IN.d, r1)) * TOY_H;
        VP_ASSERT(R && toy_trunc(toy_mul(h, toy_x[R])) == r1, "verification equation");
# endif
    } else {
# ifndef FAULT
        VP_ASSERT(good == K || zero, "a usable nonce gives a signature");
# endif
    }
    VP_ASSERT(!exhausted || good == K || zero, "terminates with the first usable nonce");
    for (int i = SIGLEN; i < (int)sizeof(sig); i++) VP_ASSERT(sig[i] == IN.fill[i], "nothing written beyond the announced size");
# ifdef FAULT
    VP_ASSERT(rc <= 0 || IN.failat >= faults, "a failed operation fails the signature");
# endif
#endif
    EVP_PKEY_CTX_free(c);
    EVP_PKEY_free(pk);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
