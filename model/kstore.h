/* the key store itself is C21's subject: here a store is a number, and each object knows which store holds it */
#ifndef KS_N
#define KS_N 12
#endif
static struct KeyStore_st { int made, freed; } store[KS_N]; static unsigned nstore; 
static struct { int owner, pos; } kown[KL_N], cown[KL_N];
static int sid(const KeyStore *s)
{
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(store), "a live store");
#endif
    return s - store;
}
static struct { size_t k, c; } kscap[KS_N];
KeyStore *KeyStoreNew(size_t k, size_t c) { kscap[nstore].k = k; kscap[nstore].c = c; VP_ASSERT(nstore < KS_N, "harness: stores"); store[nstore].made = 1; store[nstore].freed = 0; return &store[nstore++]; }
static int owned(int keys, int a) { int n = 0; for (int i = 0; i < KL_N; i++) n += (keys ? kown[i].owner : cown[i].owner) == a; return n; }
void KeyStoreAppend(KeyStore *t, KeyStore *f)
{
    int a = sid(t), b = sid(f), nk = owned(1, a), nc = owned(0, a);
    VP_ASSERT(!store[a].freed && !store[b].freed, "a live store");
    kscap[a].k += kscap[b].k; kscap[a].c += kscap[b].c; kscap[b].k = kscap[b].c = 0;
    for (int i = 0; i < KL_N; i++) { 
        kown[i].pos = kown[i].owner == b ? kown[i].pos + nk : kown[i].pos; kown[i].owner = kown[i].owner == b ? a : kown[i].owner;
        cown[i].pos = cown[i].owner == b ? cown[i].pos + nc : cown[i].pos; cown[i].owner = cown[i].owner == b ? a : cown[i].owner;
    }
}
void KeyStoreFree(KeyStore *s)
{
    if (!s) return;
    int a = sid(s);
    VP_ASSERT(!store[a].freed, "a store is freed once"); store[a].freed = 1;
    for (int i = 0; i < KL_N; i++) { kl_key[i].freed += kown[i].owner == a; kl_cert[i].freed += cown[i].owner == a; }
}
size_t KeyStoreKeyNum(const KeyStore *s) { return owned(1, sid(s)); }
size_t KeyStoreCertNum(const KeyStore *s) { return owned(0, sid(s)); }
const EVP_PKEY *KeyStoreGetKey(const KeyStore *s, size_t p) { const EVP_PKEY *r = NULL; for (int i = 0; i < KL_N; i++) if (kown[i].owner == sid(s) && kown[i].pos == p) r = (EVP_PKEY *)&kl_key[i]; return r; }
const X509 *KeyStoreGetCert(const KeyStore *s, size_t p) { const X509 *r = NULL; for (int i = 0; i < KL_N; i++) if (cown[i].owner == sid(s) && cown[i].pos == p) r = (X509 *)&kl_cert[i]; return r; }
void KeyStoreSetKey(KeyStore *s, size_t p, EVP_PKEY *k) { VP_ASSERT(p < kscap[sid(s)].k, "position within the store"); for (int i = 0; i < KL_N; i++) if (k == (EVP_PKEY *)&kl_key[i]) { kown[i].owner = sid(s); kown[i].pos = p; } }
void KeyStoreSetCert(KeyStore *s, size_t p, X509 *c) { VP_ASSERT(p < kscap[sid(s)].c, "position within the store"); for (int i = 0; i < KL_N; i++) if (c == (X509 *)&kl_cert[i]) { cown[i].owner = sid(s); cown[i].pos = p; } }
static void ks_reset(void) { nstore = 0; for (int i = 0; i < KL_N; i++) kown[i].owner = cown[i].owner = -1; }
