/* C22: the engine's bind function and callbacks.
 * PART 1: any engine name of up to 6 characters; PART 2: any sequence of STEPS operations (two engine objects in turn); PART 3: bind with one failing step. */
#include "vp.h"
#include <string.h>
#include <openssl/engine.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/obj_mac.h>
#include "rbg.h"
#ifndef STEPS
#define STEPS 4
#endif
struct in_t { char id[8]; uint8_t noid, op[STEPS], fail; int32_t nid[STEPS]; };
VP_INPUT;
int bind_engine(ENGINE *e, const char *id, const dynamic_fns *fns);
static int faults;
int vp_fault(void)
{
#if PART == 3 && (defined(VP_CBMC) || defined(VP_NATIVE_MODEL))
    return faults++ == IN.fail;
#else
    return 0;
#endif
}
#if defined(VP_CBMC) || defined(VP_NATIVE_MODEL)
extern const EVP_MD *vp_reg_md; extern const EVP_CIPHER *vp_reg_cipher;
# define REG_MD vp_reg_md
# define REG_CIPHER vp_reg_cipher
#else
# define REG_MD ((const EVP_MD *)OBJ_NAME_get("dstu34311", OBJ_NAME_TYPE_MD_METH))
# define REG_CIPHER ((const EVP_CIPHER *)OBJ_NAME_get("dstu28147-cfb", OBJ_NAME_TYPE_CIPHER_METH))
#endif
static const int nids[] = {NID_dstu4145le, NID_dstu4145be, NID_dstu34311, NID_dstu28147_cfb, NID_sha1, NID_hmacWithDstu34311, NID_uacurve0, 0};
static void vp_randomise(void)
{
    vp_rand(&IN, sizeof(IN)); IN.noid &= 1;
    for (int i = 0; i < STEPS; i++) IN.nid[i] = nids[IN.nid[i] & 7];
    for (int i = 0; i < STEPS; i++) IN.op[i] %= 7;
    if (IN.fail & 1) strcpy(IN.id, "dstu"); else if (IN.fail & 2) strcpy(IN.id, "dstux");
    IN.fail >>= 3;
}
static int bind(ENGINE *e, const char *id)
{
    dynamic_fns f; memset(&f, 0, sizeof(f));
    f.static_state = ENGINE_get_static_state();
    return bind_engine(e, id, &f);
}
static const EVP_MD *md; static const EVP_CIPHER *ci; static EVP_PKEY_METHOD *pm[2]; static EVP_PKEY_ASN1_METHOD *am[2];
static void dig(ENGINE *e, int nid)
{
    const EVP_MD *m = NULL;
    int r = ENGINE_get_digests(e)(e, &m, NULL, nid);
    if (nid == NID_dstu34311) { VP_ASSERT(r == 1 && m && EVP_MD_type(m) == nid, "the digest"); md = m; }
    else VP_ASSERT(r <= 0 && !m, "no other digest");
}
static void cip(ENGINE *e, int nid)
{
    const EVP_CIPHER *m = NULL;
    int r = ENGINE_get_ciphers(e)(e, &m, NULL, nid);
    if (nid == NID_dstu28147_cfb) { VP_ASSERT(r == 1 && m && EVP_CIPHER_nid(m) == nid, "the cipher"); ci = m; }
    else VP_ASSERT(r <= 0 && !m, "no other cipher");
}
static int pid(EVP_PKEY_METHOD *m) { int id = 0, fl; EVP_PKEY_meth_get0_info(&id, &fl, m); return id; }
static int aid(EVP_PKEY_ASN1_METHOD *m) { int id = 0, b, fl; const char *i, *p; EVP_PKEY_asn1_get0_info(&id, &b, &fl, &i, &p, m); return id; }
static void pke(ENGINE *e, int nid)
{
    EVP_PKEY_METHOD *m = NULL;
    int r = ENGINE_get_pkey_meths(e)(e, &m, NULL, nid), be = nid == NID_dstu4145be;
    if (nid == NID_dstu4145le || be) { VP_ASSERT(r == 1 && m && pid(m) == nid, "the key method"); if (be) pm[1] = m; else pm[0] = m; }
    else VP_ASSERT(r <= 0 && !m, "no other key method");
}
static void asn(ENGINE *e, int nid)
{
    EVP_PKEY_ASN1_METHOD *m = NULL;
    int r = ENGINE_get_pkey_asn1_meths(e)(e, &m, NULL, nid), be = nid == NID_dstu4145be;
    if (nid == NID_dstu4145le || be) { VP_ASSERT(r == 1 && m && aid(m) == nid, "the key coding"); if (be) am[1] = m; else am[0] = m; }
    else VP_ASSERT(r <= 0 && !m, "no other key coding");
}
static void valid(void)
{
    VP_ASSERT(!md || EVP_MD_type(md) == NID_dstu34311, "digest still valid");
    VP_ASSERT(!ci || EVP_CIPHER_nid(ci) == NID_dstu28147_cfb, "cipher still valid");
    VP_ASSERT(!pm[0] || pid(pm[0]) == NID_dstu4145le, "key method still valid");
    VP_ASSERT(!pm[1] || pid(pm[1]) == NID_dstu4145be, "key method still valid");
    VP_ASSERT(!am[0] || aid(am[0]) == NID_dstu4145le, "key coding still valid");
    VP_ASSERT(!am[1] || aid(am[1]) == NID_dstu4145be, "key coding still valid");
}
static void registered(void)
{
    VP_ASSERT(REG_MD && EVP_MD_type(REG_MD) == NID_dstu34311, "registered digest valid");
    VP_ASSERT(REG_CIPHER && EVP_CIPHER_nid(REG_CIPHER) == NID_dstu28147_cfb, "registered cipher valid");
}
static void lists(ENGINE *e)
{
    const int *n = NULL;
    VP_ASSERT(ENGINE_get_digests(e)(e, NULL, &n, 0) == 1 && n && n[0] == NID_dstu34311, "digest list"); n = NULL;
    VP_ASSERT(ENGINE_get_ciphers(e)(e, NULL, &n, 0) == 1 && n && n[0] == NID_dstu28147_cfb, "cipher list"); n = NULL;
    VP_ASSERT(ENGINE_get_pkey_meths(e)(e, NULL, &n, 0) == 2 && n && ((n[0] == NID_dstu4145le && n[1] == NID_dstu4145be) || (n[1] == NID_dstu4145le && n[0] == NID_dstu4145be)), "key method list"); n = NULL;
    VP_ASSERT(ENGINE_get_pkey_asn1_meths(e)(e, NULL, &n, 0) == 2 && n && ((n[0] == NID_dstu4145le && n[1] == NID_dstu4145be) || (n[1] == NID_dstu4145le && n[0] == NID_dstu4145be)), "key coding list");
    VP_ASSERT(ENGINE_get_RAND(e) == &dstu_rand_meth, "generator");
    VP_ASSERT(!strcmp(ENGINE_get_id(e), "dstu"), "own name");
}
static void unregister(ENGINE *e)
{
#if !defined(VP_CBMC) && !defined(VP_NATIVE_MODEL)
    ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_pkey_asn1_meths(e);
#endif
}
static void vp_harness(void)
{
    md = NULL; ci = NULL; pm[0] = pm[1] = NULL; am[0] = am[1] = NULL; faults = 0;
    ENGINE *e = ENGINE_new();
#if PART == 1
    char id[8]; memcpy(id, IN.id, 7); id[7] = 0;
    int own = id[0] == 'd' && id[1] == 's' && id[2] == 't' && id[3] == 'u' && id[4] == 0;
    VP_ASSERT(bind(e, IN.noid ? NULL : id) == (IN.noid || own), "binds under its own name only");
    if (IN.noid || own) { lists(e); registered(); }
#elif PART == 3
    int r = bind(e, "dstu");
    VP_ASSERT(r == !(IN.fail < faults), "bind succeeds exactly when every step does");
    if (r) { lists(e); registered(); }
#else
    VP_ASSERT(bind(e, "dstu") == 1, "binds");
    int init = 0;
    for (int i = 0; i < STEPS; i++) {
        switch (IN.op[i]) {
        case 0: if (init < 2) { VP_ASSERT(ENGINE_init(e) == 1, "initialises"); init++; } break;
        case 1: if (init > 0) { VP_ASSERT(ENGINE_finish(e) == 1, "finishes"); init--; } break;
        case 2: dig(e, IN.nid[i]); break;
        case 3: cip(e, IN.nid[i]); break;
        case 4: pke(e, IN.nid[i]); break;
        case 5: asn(e, IN.nid[i]); break;
        default: lists(e);
        }
        valid(); registered();
    }
    for (int i = 0; i < 2; i++) if (init > 0) { VP_ASSERT(ENGINE_finish(e) == 1, "finishes"); init--; }
# ifdef AGAIN      /* the engine goes away and is bound anew */
    unregister(e);
    ENGINE_free(e);
    md = NULL; ci = NULL; pm[0] = pm[1] = NULL; am[0] = am[1] = NULL;
    VP_ASSERT(!REG_MD || EVP_MD_type(REG_MD) == NID_dstu34311, "nothing freed stays registered");
    VP_ASSERT(!REG_CIPHER || EVP_CIPHER_nid(REG_CIPHER) == NID_dstu28147_cfb, "nothing freed stays registered");
    e = ENGINE_new();
    VP_ASSERT(bind(e, NULL) == 1, "binds again");
    lists(e); registered();
    dig(e, NID_dstu34311); cip(e, NID_dstu28147_cfb); pke(e, NID_dstu4145le); pke(e, NID_dstu4145be); asn(e, NID_dstu4145le); asn(e, NID_dstu4145be);
    valid();
# endif
#endif
    unregister(e);
    ENGINE_free(e);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
