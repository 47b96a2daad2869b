/* C21: key stores of K1/C1, K2/C2, K3/C3 entries; each entry is set or left empty by the solver. */
#include "vp.h"
#include <string.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include "keystore_internal.h"
#define N 16
struct in_t { uint8_t set[2 * N]; uint64_t pos; uint8_t part; };
VP_INPUT;
static char obj[2 * N]; static int freed[2 * N]; static int stray;
static void gone(void *p)
{
    if (!p) return;
    for (int i = 0; i < 2 * N; i++) if (p == &obj[i]) { freed[i]++; return; }
    stray++;
}
void EVP_PKEY_free(EVP_PKEY *k) { gone(k); }
void X509_free(X509 *x) { gone(x); }
static void vp_randomise(void) { vp_rand(&IN, sizeof(IN)); IN.part &= 1; if (IN.part) IN.pos %= 12; }
static const EVP_PKEY *key(int i) { return IN.set[i] & 1 ? (EVP_PKEY *)&obj[i] : NULL; }
static const X509 *cert(int i) { return IN.set[N + i] & 1 ? (X509 *)&obj[N + i] : NULL; }
static KeyStore *make(int k, int c, int kb, int cb)
{
    KeyStore *s = KeyStoreNew(k, c);
    VP_ASSERT(s && KeyStoreKeyNum(s) == k && KeyStoreCertNum(s) == c, "announces its sizes");
    for (int i = 0; i < k; i++) { VP_ASSERT(KeyStoreGetKey(s, i) == NULL, "starts empty"); if (IN.set[kb + i] & 1) KeyStoreSetKey(s, i, (EVP_PKEY *)&obj[kb + i]); }
    for (int i = 0; i < c; i++) { VP_ASSERT(KeyStoreGetCert(s, i) == NULL, "starts empty"); if (IN.set[N + cb + i] & 1) KeyStoreSetCert(s, i, (X509 *)&obj[N + cb + i]); }
    return s;
}
/* s holds exactly k keys from number kb on and c certificates from cb on */
static void holds(const KeyStore *s, int k, int c, int kb, int cb)
{
    VP_ASSERT(KeyStoreKeyNum(s) == k && KeyStoreCertNum(s) == c, "number of entries");
    for (int i = 0; i < k; i++) VP_ASSERT(KeyStoreGetKey(s, i) == key(kb + i), "key in its place");
    for (int i = 0; i < c; i++) VP_ASSERT(KeyStoreGetCert(s, i) == cert(cb + i), "certificate in its place");
    if (IN.pos >= k) VP_ASSERT(KeyStoreGetKey(s, IN.pos) == NULL, "no key there");
    if (IN.pos >= c) VP_ASSERT(KeyStoreGetCert(s, IN.pos) == NULL, "no certificate there");
}
static void emptied(const KeyStore *s)
{
    for (size_t i = 0; i < 4; i++) VP_ASSERT(KeyStoreGetKey(s, i) == NULL && KeyStoreGetCert(s, i) == NULL, "nothing stays behind");
    VP_ASSERT(KeyStoreGetKey(s, IN.pos) == NULL && KeyStoreGetCert(s, IN.pos) == NULL, "nothing stays behind");
}
static void vp_harness(void)
{
    memset(freed, 0, sizeof(freed)); stray = 0;
    KeyStore *a = make(K1, C1, 0, 0), *b = make(K2, C2, K1, C1), *c = make(K3, C3, K1 + K2, C1 + C2);
    holds(a, K1, C1, 0, 0); holds(b, K2, C2, K1, C1);
#ifdef INNER   /* b + c first */
    KeyStoreAppend(b, c); holds(b, K2 + K3, C2 + C3, K1, C1); emptied(c);
    KeyStoreAppend(a, b);
#else
    KeyStoreAppend(a, b); holds(a, K1 + K2, C1 + C2, 0, 0); emptied(b);
    KeyStoreFree(b); b = NULL;
    for (int i = 0; i < 2 * N; i++) VP_ASSERT(freed[i] == 0, "moved entries outlive their old store");
    KeyStoreAppend(a, c);
#endif
    holds(a, K1 + K2 + K3, C1 + C2 + C3, 0, 0); emptied(c);
    for (int i = 0; i < 2 * N; i++) VP_ASSERT(freed[i] == 0, "nothing freed yet");
    if (b) { emptied(b); KeyStoreFree(b); }
    KeyStoreFree(a); KeyStoreFree(c); KeyStoreFree(NULL);
    for (int i = 0; i < N; i++) VP_ASSERT(freed[i] == (i < K1 + K2 + K3 ? IN.set[i] & 1 : 0), "each key freed once");
    for (int i = 0; i < N; i++) VP_ASSERT(freed[N + i] == (i < C1 + C2 + C3 ? IN.set[N + i] & 1 : 0), "each certificate freed once");
    VP_ASSERT(stray == 0, "nothing else freed");
#if defined(VP_CBMC) || defined(VP_NATIVE_MODEL)
    extern long vp_live;
    VP_ASSERT(vp_live == 0, "nothing leaked");
#endif
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
