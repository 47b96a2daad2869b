/* ENGINE of libcrypto: a record of what was set; reference counting is the harness's. For CBMC and VP_NATIVE_MODEL. */
#include <stdlib.h>
#include <string.h>
#include <openssl/engine.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
int vp_fault(void);
struct engine_st {
    const char *id, *name; int flags, refs, funct;
    ENGINE_GEN_INT_FUNC_PTR init, finish, destroy;
    ENGINE_DIGESTS_PTR digests; ENGINE_CIPHERS_PTR ciphers; ENGINE_PKEY_METHS_PTR pkey; ENGINE_PKEY_ASN1_METHS_PTR asn1;
    const RAND_METHOD *rand;
};
const EVP_MD *vp_reg_md; const EVP_CIPHER *vp_reg_cipher;     /* the method tables of libcrypto (OBJ_NAME) */
ENGINE *ENGINE_new(void) { static const ENGINE z; ENGINE *e = malloc(sizeof(*e)); *e = z; e->refs = 1; return e; }
#define SET(f, t, m) int f(ENGINE *e, t v) { if (vp_fault()) return 0; e->m = v; return 1; }
SET(ENGINE_set_id, const char *, id) SET(ENGINE_set_name, const char *, name) SET(ENGINE_set_flags, int, flags)
SET(ENGINE_set_init_function, ENGINE_GEN_INT_FUNC_PTR, init) SET(ENGINE_set_finish_function, ENGINE_GEN_INT_FUNC_PTR, finish) SET(ENGINE_set_destroy_function, ENGINE_GEN_INT_FUNC_PTR, destroy)
SET(ENGINE_set_digests, ENGINE_DIGESTS_PTR, digests) SET(ENGINE_set_ciphers, ENGINE_CIPHERS_PTR, ciphers)
SET(ENGINE_set_pkey_meths, ENGINE_PKEY_METHS_PTR, pkey) SET(ENGINE_set_pkey_asn1_meths, ENGINE_PKEY_ASN1_METHS_PTR, asn1)
SET(ENGINE_set_RAND, const RAND_METHOD *, rand)
const char *ENGINE_get_id(const ENGINE *e) { return e->id; }
const RAND_METHOD *ENGINE_get_RAND(const ENGINE *e) { return e->rand; }
ENGINE_DIGESTS_PTR ENGINE_get_digests(const ENGINE *e) { return e->digests; }
ENGINE_CIPHERS_PTR ENGINE_get_ciphers(const ENGINE *e) { return e->ciphers; }
ENGINE_PKEY_METHS_PTR ENGINE_get_pkey_meths(const ENGINE *e) { return e->pkey; }
ENGINE_PKEY_ASN1_METHS_PTR ENGINE_get_pkey_asn1_meths(const ENGINE *e) { return e->asn1; }
ENGINE_GEN_INT_FUNC_PTR ENGINE_get_init_function(const ENGINE *e) { return e->init; }
ENGINE_GEN_INT_FUNC_PTR ENGINE_get_finish_function(const ENGINE *e) { return e->finish; }
#define REG(f, m) int f(ENGINE *e) { const int *n; if (vp_fault()) return 0; if (e->m) return e->m(e, NULL, &n, 0) > 0; return 1; }
REG(ENGINE_register_digests, digests) REG(ENGINE_register_ciphers, ciphers) REG(ENGINE_register_pkey_meths, pkey) REG(ENGINE_register_pkey_asn1_meths, asn1)
int ENGINE_init(ENGINE *e)
{
    int ok = 1;
    if (e->funct == 0 && e->init) ok = e->init(e);
    if (ok) { e->funct++; e->refs++; }
    return ok;
}
int ENGINE_free(ENGINE *e)
{
    if (--e->refs > 0) return 1;
    if (e->pkey) { const int *n; EVP_PKEY_METHOD *m; int k = e->pkey(e, NULL, &n, 0); for (int i = 0; i < k; i++) if (e->pkey(e, &m, NULL, n[i])) EVP_PKEY_meth_free(m); }
    if (e->asn1) { const int *n; EVP_PKEY_ASN1_METHOD *m; int k = e->asn1(e, NULL, &n, 0); for (int i = 0; i < k; i++) if (e->asn1(e, &m, NULL, n[i])) EVP_PKEY_asn1_free(m); }
    if (e->destroy) e->destroy(e);
    free(e);
    return 1;
}
int ENGINE_finish(ENGINE *e)
{
    int ok = 1;
    if (--e->funct == 0 && e->finish) ok = e->finish(e);
    if (!ok) return 0;
    return ENGINE_free(e);
}
static int the_state;
void *ENGINE_get_static_state(void) { return &the_state; }
int CRYPTO_set_mem_functions(CRYPTO_malloc_fn m, CRYPTO_realloc_fn r, CRYPTO_free_fn f) { return 1; }
int OPENSSL_init_crypto(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { return 1; }
int EVP_add_digest(const EVP_MD *m) { if (!m || vp_fault()) return 0; vp_reg_md = m; return 1; }
int EVP_add_cipher(const EVP_CIPHER *c) { if (!c || vp_fault()) return 0; vp_reg_cipher = c; return 1; }
int EVP_PBE_alg_add_type(int t, int pbe, int c, int md, EVP_PBE_KEYGEN *k) { return !vp_fault(); }
const char *OBJ_nid2sn(int n) { return "sn"; }
const char *OBJ_nid2ln(int n) { return "ln"; }
int OBJ_NAME_remove(const char *s, int type)
{ if (type == OBJ_NAME_TYPE_MD_METH) vp_reg_md = NULL; if (type == OBJ_NAME_TYPE_CIPHER_METH) vp_reg_cipher = NULL; return 1; }
