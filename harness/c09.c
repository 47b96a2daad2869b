/* C09: EVP_PKEY_verify accepts exactly the signatures that satisfy the DSTU 4145 equation with both components in
 * range. DER: the signature is an octet string of SLEN bytes (then TRAIL bytes follow); otherwise SLEN raw bytes that
 * are not one. FAULT: one internal operation fails. */
#include "vp.h"
#include "toy_key.h"
#include <stdlib.h>
#ifndef TRAIL
#define TRAIL 0
#endif
#ifdef DER
#define TOTAL (2 + SLEN + TRAIL)
#else
#define TOTAL SLEN
#endif
struct in_t { uint8_t tbs[TLEN], sig[TOTAL + 1]; uint16_t q, d; uint8_t failat, mk, nopub; };
VP_INPUT;
static int armed, faults;
extern int vp_d2i_oct_fails;
int vp_fault(void)
{
#ifdef FAULT
    if (armed) return IN.failat == faults++;
#endif
    return 0;
}
int BN_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return 0; }
static void vp_randomise(void) { vp_rand(&IN, sizeof(IN)); IN.q %= TOY_ALL; IN.nopub = 0; if (IN.failat & 1) for (int i = 0; i < TOTAL; i++) IN.sig[i] %= TOY_N < 200 ? TOY_N : 2; }
static void vp_harness(void)
{
    EVP_PKEY *pk; EVP_PKEY_CTX *c;
    uint8_t *sig = malloc(TOTAL), *body = sig;
    uint32_t h = toy_hash(IN.tbs, TLEN), r = 0, s = 0, ok = 0;
    int rc;
    VP_ASSUME(IN.q < TOY_ALL);
    memcpy(sig, IN.sig, TOTAL);
#ifdef DER
    sig[0] = 4; sig[1] = SLEN; body += 2;
#else
# if TOTAL > 1
    VP_ASSUME(!(sig[0] == 4 && (sig[1] <= TOTAL - 2 || (sig[1] & 0x80))) && sig[0] != 0x24);
# elif TOTAL == 1
    VP_ASSUME(sig[0] != 0x24);
# endif
# ifdef VP_CBMC
    vp_d2i_oct_fails = 1;
# endif
#endif
    for (int i = 0; i < SLEN / 2; i++) {
#ifdef BE
        s = s << 8 | body[i]; r = r << 8 | body[SLEN / 2 + i];
#else
        r |= (uint32_t)body[i] << 8 * i; s |= (uint32_t)body[SLEN / 2 + i] << 8 * i;
#endif
    }
    if (SLEN % 2 == 0 && SLEN >= 2 * TOY_NB && r > 0 && r < TOY_N && s > 0 && s < TOY_N) {
        uint32_t R = toy_mulmodall(s, TOY_G) + toy_mulmodall(r, IN.q);
        if (R >= TOY_ALL) R -= TOY_ALL;
        ok = R && toy_trunc(toy_mul(h, toy_x[R])) == r;
    }
    armed = faults = 0;
    toy_register();
#ifdef NOPUB
    pk = toy_pkey(0, 0, 0); ok = 0;
#else
    pk = toy_pkey(0, 1, IN.q);
#endif
    c = EVP_PKEY_CTX_new(pk, NULL);
    VP_ASSERT(EVP_PKEY_verify_init(c) == 1, "verify_init");
    armed = 1;
    rc = EVP_PKEY_verify(c, sig, TOTAL, IN.tbs, TLEN);
#ifdef FAULT
    VP_ASSERT(rc <= 0 || (ok && IN.failat >= faults), "a failed operation rejects the signature");
#else
    VP_ASSERT((rc == 1) == (ok != 0) && rc <= 1, "accepted exactly when the equation holds");
#endif
    EVP_PKEY_CTX_free(c);
    EVP_PKEY_free(pk);
    free(sig);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
