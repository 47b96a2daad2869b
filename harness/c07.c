/* C06/C07: digest contexts. OPS is a string of operations on contexts A and B:
 *  I initialise A with the digest      N re-initialise A without naming it
 *  U 3 bytes into A    E no bytes into A     F finish A (compare the digest)
 *  S custom S-box on A      X malformed S-box request on A
 *  C copy A to B    u 4 bytes into B    f finish B   s custom S-box on B    i initialise B
 *  K give A a key (KEY: 1 DSTU little-endian with S-box, 2 big-endian without, 3 big-endian with
 *    S-box, 4 a key of another type)         Z reset A */
#include "vp.h"
#include "digest_spec.h"
#include <openssl/evp.h>
#include <openssl/ec.h>
#include <openssl/dh.h>
#include <openssl/obj_mac.h>
#include "md.h"
#include "ameth.h"
#include "pmeth.h"
#include "key.h"
#include "control.h"
#define NOPS ((int)sizeof(OPS) - 1)
struct in_t { uint8_t sbox[NOPS][64], data[NOPS][4]; uint8_t ksbox[64]; int32_t badlen, badcmd; uint8_t badnull; };
VP_INPUT;
int RAND_priv_bytes(unsigned char *buf, int num) { memset(buf, 0, num); return 1; }
static void vp_randomise(void) { vp_rand(IN.sbox, sizeof(IN.sbox)); vp_rand(IN.data, sizeof(IN.data)); vp_rand(IN.ksbox, 64); }
#ifndef KEY
#define KEY 0
#endif
#ifndef VP_CBMC
static int other_ctrl(EVP_PKEY_CTX *c, int t, int p1, void *p2) { return 1; }
#endif
#ifndef VP_CBMC
static int other_sign(EVP_PKEY_CTX *c, unsigned char *s, size_t *l, const unsigned char *t, size_t n) { return 0; }
#endif
static EVP_PKEY *mkkey(void)
{
    EVP_PKEY *p = EVP_PKEY_new();
    if (KEY == 4) {
        /* some other legacy key type; the second word of its structure points to 64 bytes */
        static struct { void *a; uint8_t *b; } other; static uint8_t bytes[64];
        memcpy(bytes, IN.ksbox, 64);
        other.b = bytes;
#ifndef VP_CBMC
        EVP_PKEY_asn1_add0(EVP_PKEY_asn1_new(NID_id_GostR3410_94, 0, "GOST94", "other key"));
        EVP_PKEY_METHOD *pm = EVP_PKEY_meth_new(NID_id_GostR3410_94, 0);
        EVP_PKEY_meth_set_ctrl(pm, other_ctrl, NULL);
        EVP_PKEY_meth_set_sign(pm, NULL, other_sign);
        EVP_PKEY_meth_add0(pm);
        VP_ASSERT(EVP_PKEY_assign(p, NID_id_GostR3410_94, &other) == 1, "harness: other key");
#else
        EVP_PKEY_assign(p, EVP_PKEY_DH, &other);
#endif
    } else {
        DSTU_KEY *k;
#ifndef VP_CBMC
        EVP_PKEY_asn1_add0(dstu_asn1_meth_new(KEY == 1 ? NID_dstu4145le : NID_dstu4145be));
        EVP_PKEY_meth_add0(dstu_pkey_meth_new(KEY == 1 ? NID_dstu4145le : NID_dstu4145be));
        k = OPENSSL_malloc(sizeof(*k));
        k->ec = EC_KEY_new();
#else
        static EVP_PKEY_ASN1_METHOD *m;
        m = EVP_PKEY_asn1_new(KEY == 1 ? NID_dstu4145le : NID_dstu4145be, 0, NULL, NULL);
        EVP_PKEY_asn1_add0(m);
        k = malloc(sizeof(*k));
        k->ec = NULL;
#endif
        k->sbox = NULL;
        if (KEY != 2) { k->sbox = malloc(64); memcpy(k->sbox, IN.ksbox, 64); }
        EVP_PKEY_assign(p, KEY == 1 ? NID_dstu4145le : NID_dstu4145be, k);
    }
    return p;
}
static void vp_harness(void)
{
    static const char ops[] = OPS;
    EVP_MD *md = dstu_digest_new();
    EVP_MD_CTX *a = EVP_MD_CTX_new(), *b = EVP_MD_CTX_new();
    EVP_PKEY *pk = NULL; EVP_PKEY_CTX *pc = NULL;
    const uint8_t *base = sp_default_sbox, *sa = base, *sb = base;
    uint8_t ma[16], mb[16], out[33], want[32], box[64]; int na = 0, nb = 0;
    unsigned n;
    for (int i = 0; i < NOPS; i++) {
        int o = ops[i];
        if (o == 'I' || o == 'N') {
            VP_ASSERT(EVP_DigestInit_ex(a, o == 'I' ? md : NULL, NULL) == 1, "init");
            na = 0; sa = base;
        } else if (o == 'i') {
            VP_ASSERT(EVP_DigestInit_ex(b, md, NULL) == 1, "init");
            nb = 0; sb = sp_default_sbox;
        } else if (o == 'U') {
            memcpy(ma + na, IN.data[i], 3); na += 3;
            VP_ASSERT(EVP_DigestUpdate(a, IN.data[i], 3) == 1, "update");
        } else if (o == 'E') {
            VP_ASSERT(EVP_DigestUpdate(a, IN.data[i], 0) == 1, "empty update");
        } else if (o == 'u') {
            memcpy(mb + nb, IN.data[i], 4); nb += 4;
            VP_ASSERT(EVP_DigestUpdate(b, IN.data[i], 4) == 1, "update");
        } else if (o == 'S' || o == 's') {
            memcpy(box, IN.sbox[i], 64);
            VP_ASSERT(EVP_MD_CTX_ctrl(o == 'S' ? a : b, DSTU_SET_CUSTOM_SBOX, 64, box) == 1, "S-box control");
            if (o == 'S') sa = IN.sbox[i]; else sb = IN.sbox[i];
        } else if (o == 'X') {
            memcpy(box, IN.sbox[i], 64);
            VP_ASSUME(IN.badnull || IN.badlen != 64);
            VP_ASSERT(EVP_MD_CTX_ctrl(a, DSTU_SET_CUSTOM_SBOX, IN.badlen, IN.badnull ? NULL : box) <= 0, "malformed S-box refused");
            VP_ASSUME(IN.badcmd != DSTU_SET_CUSTOM_SBOX);
            VP_ASSERT(EVP_MD_CTX_ctrl(a, IN.badcmd, 64, box) <= 0, "unknown control refused");
        } else if (o == 'C') {
            VP_ASSERT(EVP_MD_CTX_copy_ex(b, a) == 1, "copy");
            memcpy(mb, ma, na); nb = na; sb = sa;
        } else if (o == 'Z') {
            EVP_MD_CTX_reset(a);
        } else if (o == 'K') {
            pk = mkkey();
#ifndef VP_CBMC
            pc = EVP_PKEY_CTX_new(pk, NULL);
            VP_ASSERT(pc != NULL, "harness: key context");
            VP_ASSERT(EVP_PKEY_sign_init(pc) == 1, "harness: sign_init");
#else
            pc = EVP_PKEY_CTX_new(pk, NULL);
#endif
            EVP_MD_CTX_set_pkey_ctx(a, pc);
            base = KEY == 1 || KEY == 3 ? IN.ksbox : sp_default_sbox;
        } else {
            memset(out, 0x77, sizeof(out)); n = 0;
            VP_ASSERT(EVP_DigestFinal_ex(o == 'F' ? a : b, out, &n) == 1 && n == 32, "final");
            if (o == 'F') sp_digest(sa, ma, na, want); else sp_digest(sb, mb, nb, want);
            for (int j = 0; j < 32; j++) VP_ASSERT(out[j] == want[j], "digest of this context's own data and S-box");
            VP_ASSERT(out[32] == 0x77, "32 bytes written");
        }
    }
    EVP_MD_CTX_free(a);
    EVP_MD_CTX_free(b);
    EVP_PKEY_CTX_free(pc);
    EVP_PKEY_free(pk);
    dstu_digest_free(md);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
