/* C20: PKCS#12 containers: NS safes of NBG bags each, NCH bags inside every nested one, NGR inside those.
 * The solver chooses every safe's and bag's kind and which steps fail. */
#ifdef VP_CBMC     /* the model's own memory accesses need no checks */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
#include "vp.h"
#include <openssl/pkcs7.h>
#include <openssl/pkcs12.h>
#ifndef NCH
#define NCH 0
#endif
#ifndef NGR
#define NGR 0
#endif
#define T1 (NS * NBG)
#define T2 (T1 * NCH)
#define T3 (T2 * NGR)
#define NBAGS (T1 + T2 + T3)
#define KL_N NBAGS
#define KS_N 3
#include "keylib.h"
#include "pkcs12.h"
#include "keystore_internal.h"
#define KS_CAP
#include "kstore.h"
/* the failing step is part of the shape: FAIL is one of these and FWHERE says which safe or bag */
enum { F_NONE, F_DECODE, F_AUTH, F_UNPACK, F_UNPACK2, F_DECRYPT, F_OBJECT, F_MISSING };
#ifndef FAIL
#define FAIL F_NONE
#define FWHERE -1
#endif
enum { B_KEY, B_SHROUDED, B_CERT, B_CRL, B_SECRET, B_NEST, B_KINDS };
enum { S_DATA, S_ENC, S_OTHER, S_KINDS };
struct in_t { uint8_t safe[NS], kind[NBAGS], mac; char pwd[4]; };
VP_INPUT;
#define MAXE (NBG > NCH ? (NBG > NGR ? NBG : NGR) : (NCH > NGR ? NCH : NGR)) 
struct vstack { int n, made, freed, safe, kind; void *e[(MAXE > NS ? MAXE : NS) + 1]; };
struct vbag { int id, safe; struct vstack kids; };
static struct vbag bag[NBAGS]; static struct vstack top[NS], safes; static PKCS7 p7[NS];
static struct p8 { int made, freed, id; } clear[NBAGS], plain[NBAGS];
static struct { int made, freed; } p12;
static int order[NBAGS], norder, calls[NS], failure, mac_good;
static unsigned char file[5]; static char *pwd;
static int up(int i) { return i < T1 ? -1 : i < T1 + T2 ? (i - T1) / (NCH + !NCH) : T1 + (i - T1 - T2) / (NGR + !NGR); }
static int kind(int i) { return i >= T1 + T2 * (NGR > 0) && IN.kind[i] == B_NEST ? B_CRL : (i < T1 && NCH == 0 && IN.kind[i] == B_NEST) ? B_CRL : IN.kind[i]; }
/* does bag i count: it lies in a readable safe, within nested bags only */
static int live(int i) { int u = up(i); return u < 0 ? !(FAIL == F_MISSING && FWHERE == i / NBG) && (IN.safe[i / NBG] == S_DATA || IN.safe[i / NBG] == S_ENC) : kind(u) == B_NEST && live(u); }
static void visit(int i) { order[norder++] = i; for (int c = 0; c < bag[i].kids.n; c++) visit(((struct vbag *)bag[i].kids.e[c])->id); }

static int pw(const char *p, int n) { if (n != 3) return 0; return (p[0] == IN.pwd[0]) & (p[1] == IN.pwd[1]) & (p[2] == IN.pwd[2]); }
PKCS12 *d2i_PKCS12(PKCS12 **a, const unsigned char **p, long n)
{
    VP_ASSERT(*p == file && n == 5, "decodes the given bytes");
    if (FAIL == F_DECODE) { failure = 1; return NULL; }
    p12.made++; *p += n; return (PKCS12 *)&p12;
}
void PKCS12_free(PKCS12 *p) { if (p) p12.freed++; }
static int p12ok(const PKCS12 *p) { return p == (PKCS12 *)&p12 && p12.made > p12.freed; }
int PKCS12_mac_present(const PKCS12 *p) { return 1; }
int PKCS12_verify_mac(PKCS12 *p, const char *w, int n)
{
    VP_ASSERT(p12ok(p), "checks the container"); VP_ASSERT(pw(w, n), "checked with the given password");
    if (!(IN.mac & 1)) { failure = 1; return 0; }
    mac_good = 1; return 1;
}
STACK_OF(PKCS7) *PKCS12_unpack_authsafes(const PKCS12 *p)
{
    VP_ASSERT(p12ok(p), "reads the container");
    if (FAIL == F_AUTH) { failure = 1; return NULL; }
    safes.made++; return (STACK_OF(PKCS7) *)&safes;
}
static int sno(const PKCS7 *p) { for (int i = 0; i < NS; i++) if (p == &p7[i]) return i; VP_ASSERT(0, "one of the safes"); return 0; }
int OBJ_obj2nid(const ASN1_OBJECT *o)
{
    int s = -1;
    for (int i = 0; i < NS; i++) if ((void *)o == (void *)&p7[i]) s = i;
    VP_ASSERT(s >= 0, "type of a safe");
    return IN.safe[s] == S_DATA ? NID_pkcs7_data : IN.safe[s] == S_ENC ? NID_pkcs7_encrypted : NID_pkcs7_enveloped;
}
static STACK_OF(PKCS12_SAFEBAG) *unpack(int s)
{
    int k = calls[s]++;
    VP_ASSERT(safes.made > safes.freed, "the safes are alive");
    if (FWHERE == s && (FAIL == F_UNPACK || (FAIL == F_UNPACK2 && k == 1))) { failure = 1; return NULL; }
    top[s].made++; return (STACK_OF(PKCS12_SAFEBAG) *)&top[s];
}
STACK_OF(PKCS12_SAFEBAG) *PKCS12_unpack_p7data(PKCS7 *p) { int s = sno(p); VP_ASSERT(IN.safe[s] == S_DATA, "plain safe"); return unpack(s); }
STACK_OF(PKCS12_SAFEBAG) *PKCS12_unpack_p7encdata(PKCS7 *p, const char *w, int n) { int s = sno(p); VP_ASSERT(IN.safe[s] == S_ENC, "encrypted safe"); VP_ASSERT(pw(w, n), "decrypted with the given password"); return unpack(s); }
static void alive(const struct vstack *t) { if (t->kind == 1) VP_ASSERT(t->made > t->freed, "the list is alive"); else if (t->kind == 2) VP_ASSERT(top[t->safe].made > top[t->safe].freed, "the list is alive"); else VP_ASSERT(safes.made > safes.freed, "the list is alive"); }
int OPENSSL_sk_num(const OPENSSL_STACK *x) { const struct vstack *t = (void *)x; if (!t) return -1; alive(t); return t->n; }
void *OPENSSL_sk_value(const OPENSSL_STACK *x, int i)
{
    const struct vstack *t = (void *)x; if (!t || i < 0 || i >= t->n) return NULL; alive(t);
    if (t->kind == 0 && FAIL == F_MISSING && FWHERE == i) return NULL;
    return t->e[i];
}
void OPENSSL_sk_pop_free(OPENSSL_STACK *x, void (*f)(void *))
{
    struct vstack *t = (void *)x; if (!t) return;
    VP_ASSERT(t->kind != 2, "inner lists belong to their bag");
    VP_ASSERT(f == (t->kind == 0 ? (void (*)(void *))PKCS7_free : (void (*)(void *))PKCS12_SAFEBAG_free), "freed together with its elements");
    t->freed++; VP_ASSERT(t->freed <= t->made, "freed once");
}
void PKCS7_free(PKCS7 *p) { kl_stray++; }
void PKCS12_SAFEBAG_free(PKCS12_SAFEBAG *p) { kl_stray++; }
static const struct vbag *bg(const PKCS12_SAFEBAG *x) { const struct vbag *b = (void *)x; VP_ASSERT(top[b->safe].made > top[b->safe].freed, "the bag is alive"); return b; }
int PKCS12_SAFEBAG_get_nid(const PKCS12_SAFEBAG *x)
{
    switch (kind(bg(x)->id)) {
    case B_KEY: return NID_keyBag; case B_SHROUDED: return NID_pkcs8ShroudedKeyBag; case B_CERT: return NID_certBag;
    case B_CRL: return NID_crlBag; case B_NEST: return NID_safeContentsBag; }
    return NID_secretBag;
}
const STACK_OF(PKCS12_SAFEBAG) *PKCS12_SAFEBAG_get0_safes(const PKCS12_SAFEBAG *x) { const struct vbag *b = bg(x); VP_ASSERT(kind(b->id) == B_NEST, "a nested bag"); return (void *)&b->kids; }
const PKCS8_PRIV_KEY_INFO *PKCS12_SAFEBAG_get0_p8inf(const PKCS12_SAFEBAG *x) { int i = bg(x)->id; VP_ASSERT(kind(i) == B_KEY, "a plain key"); return (void *)&clear[i]; }
PKCS8_PRIV_KEY_INFO *PKCS12_decrypt_skey(const PKCS12_SAFEBAG *x, const char *w, int n)
{
    int i = bg(x)->id;
    VP_ASSERT(kind(i) == B_SHROUDED, "an encrypted key"); VP_ASSERT(pw(w, n), "decrypted with the given password");
    if (FAIL == F_DECRYPT && FWHERE == i) { failure = 1; return NULL; }
    plain[i].made++; return (void *)&plain[i];
}
void PKCS8_PRIV_KEY_INFO_free(PKCS8_PRIV_KEY_INFO *x)
{
    if (!x) return;
    int f = 0; for (int i = 0; i < NBAGS; i++) if ((void *)x == &plain[i]) { plain[i].freed++; f = 1; }
    VP_ASSERT(f, "frees what it owns");
}
EVP_PKEY *EVP_PKCS82PKEY(const PKCS8_PRIV_KEY_INFO *x)
{
    const struct p8 *p = (void *)x; int i;
    VP_ASSERT(p != NULL && p->made > p->freed, "a live private key structure");
    i = p->id; VP_ASSERT(top[bag[i].safe].made > top[bag[i].safe].freed || p == &plain[i], "the bag is alive");
    if (FAIL == F_OBJECT && FWHERE == i) { failure = 1; return NULL; }
    kl_key[i].made++; return (EVP_PKEY *)&kl_key[i];
}
X509 *PKCS12_SAFEBAG_get1_cert(const PKCS12_SAFEBAG *x)
{
    int i = bg(x)->id; VP_ASSERT(kind(i) == B_CERT, "a certificate");
    if (FAIL == F_OBJECT && FWHERE == i) { failure = 1; return NULL; }
    kl_cert[i].made++; return (X509 *)&kl_cert[i];
}
void X509_free(X509 *x) { KL_GONE(kl_cert, x); }
void EVP_PKEY_free(EVP_PKEY *k) { KL_GONE(kl_key, k); }

static void vp_randomise(void)
{
    vp_rand(&IN, sizeof(IN));
    for (int i = 0; i < NS; i++) IN.safe[i] %= S_KINDS;
    for (int i = 0; i < NBAGS; i++) IN.kind[i] %= B_KINDS;
}
static void setkids(struct vstack *t, int first, int n, int knd, int s) { t->n = n; t->made = t->freed = 0; t->kind = knd; t->safe = s; for (int i = 0; i < n; i++) t->e[i] = &bag[first + i]; }
static void vp_harness(void)
{
    extern long vp_live; int nk = 0, nc = 0;
    vp_live = 0; kl_reset(); ks_reset(); failure = mac_good = norder = 0; p12.made = p12.freed = 0;
    for (int s = 0; s < NS; s++) { VP_ASSUME(IN.safe[s] < S_KINDS); p7[s].type = (ASN1_OBJECT *)(void *)&p7[s]; calls[s] = 0; setkids(&top[s], s * NBG, NBG, 1, s); safes.e[s] = &p7[s]; }
    safes.n = NS; safes.made = safes.freed = 0; safes.kind = 0;
    for (int i = 0; i < NBAGS; i++) {
        VP_ASSUME(IN.kind[i] < B_KINDS);
        bag[i].id = i; bag[i].safe = i < T1 ? i / NBG : bag[up(i)].safe;
        if (i < T1) setkids(&bag[i].kids, T1 + i * NCH, NCH, 2, bag[i].safe); else if (i < T1 + T2) setkids(&bag[i].kids, T1 + T2 + (i - T1) * NGR, NGR, 2, bag[i].safe); else setkids(&bag[i].kids, 0, 0, 2, bag[i].safe);
        clear[i].id = plain[i].id = i; clear[i].made = 1; clear[i].freed = plain[i].made = plain[i].freed = 0;
    }
    for (int i = 0; i < T1; i++) visit(i);
    pwd = malloc(3); for (int i = 0; i < 3; i++) pwd[i] = IN.pwd[i];
    KeyStore *ks0 = (KeyStore *)&kl_stray, *ks = ks0;
    int r = parsePKCS12(file, 5, pwd, 3, &ks);
    VP_ASSERT(r == 0 || r == 1, "success or failure");
    VP_ASSERT(!(r && failure), "a failing step fails the whole");
    VP_ASSERT(!(r && !mac_good), "nothing without the integrity check");
    for (int o = 0; o < NBAGS; o++) {
        int i = order[o], k = live(i) && (kind(i) == B_KEY || kind(i) == B_SHROUDED), c = live(i) && kind(i) == B_CERT;
        if (r) {
            VP_ASSERT(kl_key[i].made - kl_key[i].freed == k, "every key of the container, and no other");
            VP_ASSERT(kl_cert[i].made - kl_cert[i].freed == c, "every certificate of the container, and no other");
            if (k) VP_ASSERT(kown[i].owner == sid(ks) && kown[i].pos == nk, "keys in file order");
            if (c) VP_ASSERT(cown[i].owner == sid(ks) && cown[i].pos == nc, "certificates in file order");
        } else {
            VP_ASSERT(kl_key[i].made == kl_key[i].freed, "no key leaked");
            VP_ASSERT(kl_cert[i].made == kl_cert[i].freed, "no certificate leaked");
        }
        nk += k; nc += c;
        VP_ASSERT(plain[i].made == plain[i].freed, "decrypted key structures released");
    }
    if (r) { VP_ASSERT(ks != NULL && ks != ks0, "a store handed out"); VP_ASSERT(kscap[sid(ks)].k == nk && kscap[sid(ks)].c == nc, "a store of the right size"); KeyStoreFree(ks); }
    else VP_ASSERT(ks == NULL || ks == ks0, "nothing handed out");
    VP_ASSERT(r || failure || nk + nc == 0, "refused only for a reason");
    for (int i = 0; i < KS_N; i++) VP_ASSERT(i >= nstore || store[i].freed, "no store leaked");
    for (int s = 0; s < NS; s++) VP_ASSERT(top[s].made == top[s].freed, "lists of bags released");
    VP_ASSERT(safes.made == safes.freed && p12.made == p12.freed && kl_stray == 0, "container released");
    free(pwd);
    VP_ASSERT(vp_live == 0, "no memory leaked");
}
#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
#include "vp_main.h"
