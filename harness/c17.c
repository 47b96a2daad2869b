/* C17/C18: Java key stores.
 * PART 1: NB arbitrary bytes, arbitrary decoder and digest results (memory safety, nothing leaked).
 * PART 2: containers of a given shape with arbitrary contents (accepted exactly when everything matches, right contents).
 * PART 3: reading a whole file or stream. */
#ifdef VP_CBMC     /* the model's own memory accesses need no checks */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
#include "vp.h"
#include "keylib.h"
#include "jks.h"
#include "keystore_internal.h"
#include "kstore.h"
#ifndef NB
#define NB 64
#endif
#ifndef PWD
#define PWD "a"
#endif
#ifndef MAXD
#define MAXD 8
#endif
#define MLEN 90
struct in_t {
    uint8_t data[NB + 1], dig[MAXD][20], content[4][100], pwd[2][8];
    uint8_t cert_ok[KL_N], sig_ok[4], k8[MAXD + 1], alg[4], fail; uint32_t magic, version, badtag[4], wrong; uint8_t bad[4];
};
VP_INPUT;
#ifndef CONTENT
#define CONTENT 41
#endif
#ifndef FAULT
#define FAULTS 0
#else
#define FAULTS 1
#endif
#ifndef FAILSIG
#define FAILSIG -1
#endif
#ifndef FAILCERT
#define FAILCERT -1
#endif
#ifndef FAILK8
#define FAILK8 -1
#endif
#ifndef BADMAGIC
#define BADMAGIC 0
#endif
#ifndef BADVER
#define BADVER 0
#endif
#ifndef BADTAG
#define BADTAG -1
#endif
#ifndef MAGIC
#define MAGIC 0xfeedfeedu
#endif
#ifndef CUT
#define CUT 0
#endif
static unsigned step;
static int fails(void) { return FAULTS && ++step == IN.fail; }

/* ---- libc and libcrypto ---- */
struct bio_st { unsigned char *p; size_t n; const unsigned char *src; size_t left; int file; };
static const int bio_mem_type;
const BIO_METHOD *BIO_s_mem(void) { return (const BIO_METHOD *)&bio_mem_type; }
#ifndef BIOCAP
#define BIOCAP 32
#endif
BIO *BIO_new(const BIO_METHOD *t) { static const struct bio_st z; struct bio_st *b = malloc(sizeof(*b)); *b = z; b->p = malloc(BIOCAP); return (BIO *)b; }
int BIO_free(BIO *x) { struct bio_st *b = (void *)x; if (!b) return 0; free(b->p); free(b); return 1; }
static void bio_put(struct bio_st *b, const void *d, size_t n)
{
    VP_ASSERT(b->n + n <= BIOCAP, "harness: buffer large enough");
    for (size_t i = 0; i < n; i++) b->p[b->n + i] = ((const unsigned char *)d)[i];
    b->n += n;
}
int BIO_write(BIO *b, const void *d, int n) { VP_TOUCH(d, n, "writes initialised memory"); bio_put((void *)b, d, n); return n; }
int BIO_write_ex(BIO *b, const void *d, size_t n, size_t *w) { if (fails()) return 0; VP_TOUCH(d, n, "writes initialised memory"); bio_put((void *)b, d, n); *w = n; return 1; }
long BIO_ctrl(BIO *x, int c, long l, void *p)
{
    struct bio_st *b = (void *)x;
    if (c == BIO_CTRL_INFO) { if (p) *(unsigned char **)p = b->n ? b->p : NULL; return b->n; }
    return 0;
}
static int iconv_open_count;
iconv_t iconv_open(const char *to, const char *from)
{
    VP_ASSERT(!strcmp(to, "utf-16be") && !strcmp(from, "utf-8"), "converts UTF-8 to big-endian UTF-16");
    if (fails()) return (iconv_t)-1;
    iconv_open_count++; return (iconv_t)8;
}
int iconv_close(iconv_t c) { iconv_open_count--; return 0; }
/* one character of the password: PWD gives its kind: a (1 byte), 2, 3, 4 (so many bytes), x (illegal), i (incomplete) */
static int kind_at(size_t left, size_t total) { size_t o = 0, t = total - left; for (const char *s = PWD; *s; s++) { if (o == t) return *s; o += *s >= '2' && *s <= '4' ? *s - '0' : 1; } return 'x'; }
static size_t pwd_len(void) { size_t o = 0; for (const char *s = PWD; *s; s++) o += *s >= '2' && *s <= '4' ? *s - '0' : 1; return o; }
static int convert(int kind, const unsigned char *s, unsigned char *o)   /* -> bytes made */
{
    unsigned v;
    if (kind == 'a') { o[0] = 0; o[1] = s[0]; return 2; }
    if (kind == '2') { v = (s[0] & 31) << 6 | (s[1] & 63); o[0] = v >> 8; o[1] = v; return 2; }
    if (kind == '3') { v = (s[0] & 15) << 12 | (s[1] & 63) << 6 | (s[2] & 63); o[0] = v >> 8; o[1] = v; return 2; }
    v = ((s[0] & 7) << 18 | (s[1] & 63) << 12 | (s[2] & 63) << 6 | (s[3] & 63)) - 0x10000;
    o[0] = 0xd8 | v >> 18; o[1] = v >> 10; o[2] = 0xdc | (v >> 8 & 3); o[3] = v; return 4;
}
static unsigned char *pwd[2]; static size_t plen[2];
size_t iconv(iconv_t cd, char **in, size_t *il, char **out, size_t *ol)
{
    VP_ASSERT(cd == (iconv_t)8 && iconv_open_count > 0, "converter open");
    if (!in || !*in) return 0;
    VP_TOUCH(*in, *il, "converts the password only");
    while (*il > 0) {
        unsigned char t[4]; int k = kind_at(*il, plen[0]), u = k >= '2' && k <= '4' ? k - '0' : 1, n;
        if (k == 'x') { errno = EILSEQ; return -1; }
        if (k == 'i') { errno = EINVAL; return -1; }
        n = convert(k, (unsigned char *)*in, t);
        if (*ol < n) { errno = E2BIG; return -1; }
        for (int i = 0; i < n; i++) (*out)[i] = t[i];
        *out += n; *ol -= n; *in += u; *il -= u;
    }
    return 0;
}
/* SHA-1: records each message, answers with an arbitrary value (the same for the same message) */
/* a piece of the container at the end of a message is kept by place, not by contents */
static struct { size_t n, off, len; uint8_t m[MLEN]; } msg[MAXD]; static unsigned char *D; static int nmsg, mdctx, preset[MAXD];
/* the digest values of messages that must match before the last entry are constants, all others arbitrary */
static uint8_t DIG(int k, int i) { return preset[k] ? 0x5a ^ i : IN.dig[k][i]; }
struct mdctx_st { size_t n, off, len; uint8_t m[MLEN]; int init, has; };
const EVP_MD *EVP_sha1(void) { return (const EVP_MD *)&mdctx; }
EVP_MD_CTX *EVP_MD_CTX_new(void) { struct mdctx_st *c = malloc(sizeof(*c)); c->n = 0; c->init = 0; return (EVP_MD_CTX *)c; }
void EVP_MD_CTX_free(EVP_MD_CTX *c) { free(c); }
int EVP_DigestInit_ex(EVP_MD_CTX *x, const EVP_MD *m, ENGINE *e) { struct mdctx_st *c = (void *)x; VP_ASSERT(m == EVP_sha1(), "SHA-1"); if (fails()) return 0; c->n = c->off = c->len = 0; c->init = 1; c->has = 0; return 1; }
int EVP_DigestUpdate(EVP_MD_CTX *x, const void *d, size_t n)
{
    struct mdctx_st *c = (void *)x;
    VP_ASSERT(c->init, "digest started");
    VP_TOUCH(d, n, "digests its own memory only");
    if (fails()) return 0;
#if PART == 2
#ifdef VP_CBMC
    if (__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(D)) {
#else
    if ((unsigned char *)d >= D && (unsigned char *)d < D + NB - CUT) {
#endif
        size_t o = (unsigned char *)d - D;
        c->has = 1; c->off = c->len == 0 || c->off + c->len == o ? (c->len == 0 ? o : c->off) : 777777; c->len += n;
        return 1;
    }
    VP_ASSERT(!c->has, "harness: pieces of the container come last");
    for (size_t i = 0; i < n; i++) { VP_ASSERT(c->n < MLEN, "harness: message fits"); c->m[c->n++] = ((const uint8_t *)d)[i]; }
#endif
    return 1;
}
static int same_msg(int i, int j)
{
    if (msg[i].n != msg[j].n) return 0;
    int r = (msg[i].off == msg[j].off) & (msg[i].len == msg[j].len);
    for (size_t k = 0; k < msg[i].n; k++) r &= msg[i].m[k] == msg[j].m[k];
    return r;
}
int EVP_DigestFinal_ex(EVP_MD_CTX *x, unsigned char *md, unsigned *s)
{
    struct mdctx_st *c = (void *)x;
    VP_ASSERT(c->init, "digest started");
    if (fails()) return 0;
    VP_ASSERT(nmsg < MAXD - 1, "no more digests than the container needs"); VP_ASSUME(nmsg < MAXD - 1);
#if PART == 1
    int k = nmsg++;
#else
    int k = c->has ? MAXD - 1 : nmsg++;     /* the digest over the container has its own place */
    VP_ASSERT(msg[k].n == 0, "harness: one digest over the container");
    msg[k].n = c->n; msg[k].off = c->off; msg[k].len = c->len;
    for (size_t i = 0; i < c->n; i++) msg[k].m[i] = c->m[i];
    for (int j = 0; j < k; j++) if (!c->has && msg[j].n == msg[k].n) { int sm = same_msg(j, k); for (int i = 0; i < 20; i++) VP_ASSUME(!sm | (DIG(j, i) == DIG(k, i))); }
#endif
    for (int i = 0; i < 20; i++) md[i] = PART == 1 ? IN.dig[k & 1][i] : DIG(k, i);
    if (s) *s = 20;
    c->init = 0;
    return 1;
}

/* ---- decoders ---- */
struct asn1_object_st { int kind; };
struct X509_sig_st { struct asn1_object_st oid; unsigned char *data; struct asn1_string_st str; };
static int is(const char *a, const char *b) { for (int i = 0; i < 23; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return a[23] == 0; }
ASN1_OBJECT *OBJ_txt2obj(const char *s, int n)
{
    struct asn1_object_st *o = malloc(sizeof(*o));
    o->kind = is(s, "1.3.6.1.4.1.42.2.17.1.1") ? 1 : is(s, "1.3.6.1.4.1.42.2.19.1") ? 2 : 9;
    return (ASN1_OBJECT *)o;
}
void ASN1_OBJECT_free(ASN1_OBJECT *o) { free(o); }
int OBJ_cmp(const ASN1_OBJECT *a, const ASN1_OBJECT *b) { return ((struct asn1_object_st *)a)->kind - ((struct asn1_object_st *)b)->kind; }
const unsigned char *ASN1_STRING_get0_data(const ASN1_STRING *s) { return s->data; }
int ASN1_STRING_length(const ASN1_STRING *s) { return s->length; }
void X509_SIG_get0(const X509_SIG *s, const X509_ALGOR **a, const ASN1_OCTET_STRING **o) { if (a) *a = (const X509_ALGOR *)s; if (o) *o = (void *)&((struct X509_sig_st *)s)->str; }
void X509_ALGOR_get0(const ASN1_OBJECT **o, int *t, const void **v, const X509_ALGOR *a) { if (o) *o = (const void *)&((struct X509_sig_st *)a)->oid; }
void X509_SIG_free(X509_SIG *x) { struct X509_sig_st *s = (void *)x; if (!s) return; free(s->data); free(s); }
void X509_free(X509 *x) { KL_GONE(kl_cert, x); }
void EVP_PKEY_free(EVP_PKEY *k) { KL_GONE(kl_key, k); }
static X509_SIG *make_sig(int alg, const uint8_t *c, size_t n)
{
    struct X509_sig_st *s = malloc(sizeof(*s));
    s->oid.kind = alg; s->data = malloc(n + (n == 0)); s->str.length = n; s->str.data = s->data; s->str.type = V_ASN1_OCTET_STRING; s->str.flags = 0;
    for (size_t i = 0; i < n; i++) s->data[i] = c[i];
    return (X509_SIG *)s;
}

#if PART == 1
/* any result of the decoders; the contents of the protected key are CONTENT arbitrary bytes */
static unsigned ncert, nsig, nk8;
X509 *d2i_X509(X509 **a, const unsigned char **p, long n)
{
    VP_TOUCH(*p, n, "decodes certificate bytes inside the container");
    if (n < 1 || ncert >= KL_N || !(IN.cert_ok[ncert] & 1)) return NULL;   /* no bytes are no certificate */
    kl_cert[ncert].made++; *p += n; return (X509 *)&kl_cert[ncert++];
}
X509_SIG *d2i_X509_SIG(X509_SIG **a, const unsigned char **p, long n)
{
    VP_TOUCH(*p, n, "decodes key bytes inside the container");
    if (n < 1 || nsig >= 4 || !(IN.sig_ok[nsig] & 1)) return NULL;
    *p += n; nsig++;
    return make_sig(IN.alg[nsig - 1], IN.content[0], CONTENT);
}
int keysFromPKCS8(const void *d, size_t n, KeyStore **ks)
{
    VP_TOUCH(d, n, "decodes the decrypted key only");
    if (n < 1 || nk8 >= 4 || !(IN.k8[nk8] & 1)) return 0;
    *ks = KeyStoreNew(1, 0); kl_key[nk8].made++; KeyStoreSetKey(*ks, 0, (EVP_PKEY *)&kl_key[nk8++]); return 1;
}
#else
/* PART 2: entries E0, E1, ...: {kind, name length, bytes, certificates, algorithm, keys} */
static const struct ent { char kind; int name, len, certs, alg, keys; } ent[] = { ENTRIES };
#define NE ((int)(sizeof(ent) / sizeof(ent[0])) - 1)         /* the last one is a sentinel */
static size_t total;
static struct { size_t off, len; } cert[KL_N], sig[4]; static int ncert, nsig, sigent[4], key0[4], lastsig, undecoded;
/* everything but the last entry succeeds or fails as the shape says; the last one is up to the solver */
static int cert_good(int i) { return FAILCERT == i ? 0 : i < ncert - 1 ? 1 : IN.cert_ok[i] & 1; }
static int k8_good(int sig, int slot) { return FAILK8 == sig ? 0 : sig < nsig - 1 ? 1 : IN.k8[slot] & 1; }
static uint8_t content[4][100];
X509 *d2i_X509(X509 **a, const unsigned char **p, long n)
{
    for (int i = 0; i < ncert; i++) if (*p == D + cert[i].off) {
        VP_ASSERT(n == cert[i].len, "the certificate's own bytes");
        if (!cert_good(i)) return NULL;
        kl_cert[i].made++; *p += n; return (X509 *)&kl_cert[i];
    }
    VP_ASSERT(0, "certificates are taken from the entries"); return NULL;
}
X509_SIG *d2i_X509_SIG(X509_SIG **a, const unsigned char **p, long n)
{
    for (int i = 0; i < nsig; i++) if (*p == D + sig[i].off) {
        VP_ASSERT(n == sig[i].len, "the protected key's own bytes");
        if (FAILSIG == i) return NULL;
        lastsig = i; *p += n; return make_sig(ent[sigent[i]].alg, content[i], ent[sigent[i]].len);
    }
    VP_ASSERT(0, "protected keys are taken from the entries"); return NULL;
}
static uint8_t plain[MAXD + 1][100]; static size_t plain_n[MAXD + 1]; static int nplain[MAXD + 1];   /* indexed by the number of digests made before */
int keysFromPKCS8(const void *d, size_t n, KeyStore **ks)
{
    VP_ASSERT(n <= 100, "not longer than the protected key");
    VP_TOUCH(d, n, "decodes the decrypted key only");
    int i = nmsg; VP_ASSERT(!nplain[i], "each key decoded once"); nplain[i] = 1; plain_n[i] = n;
    for (size_t j = 0; j < n; j++) plain[i][j] = ((const uint8_t *)d)[j];
    /* which protected key: the one whose octets were last handed out */
    int e = lastsig, k;
    VP_ASSERT(e >= 0, "a protected key was read");
    if (!k8_good(e, i)) { undecoded = 1; return 0; }
    *ks = KeyStoreNew(ent[sigent[e]].keys, 0);
    for (k = 0; k < ent[sigent[e]].keys; k++) { kl_key[key0[e] + k].made++; KeyStoreSetKey(*ks, k, (EVP_PKEY *)&kl_key[key0[e] + k]); }
    return 1;
}
#endif

static void put(unsigned char *d, size_t *p, uint32_t v, int n) { while (n--) d[(*p)++] = v >> (8 * n); }
#if PART == 2
/* got = the digest of password w (UTF-16), and a, when it was computed */
static uint8_t p16[2][16], got[20]; static size_t p16n[2];
static int digest_of(int w, const void *a, size_t an, size_t prefix)   /* ... and the first prefix bytes of the container */
{
    static uint8_t m[MLEN]; size_t n = 0; int r = 0;
    for (size_t i = 0; i < p16n[w]; i++) m[n++] = p16[w][i];
    for (size_t i = 0; i < an; i++) m[n++] = ((const uint8_t *)a)[i];
    for (int k = 0; k < MAXD; k++) {
        int same = (k < nmsg || k == MAXD - 1) & (msg[k].n == n) & (msg[k].off == 0) & (msg[k].len == prefix);
        for (size_t i = 0; i < n; i++) same &= msg[k].m[i] == m[i];
        for (int j = 0; j < 20; j++) got[j] = same ? DIG(k, j) : got[j];
        r |= same;
    }
    return r;
}
#endif
static void vp_randomise(void) { uint8_t f = IN.fail; vp_rand(&IN, sizeof(IN)); IN.fail = f; }
static void vp_harness(void)
{
    extern long vp_live;
    vp_live = 0; kl_reset(); ks_reset(); step = 0; nmsg = 0; for (int i = 0; i < MAXD; i++) msg[i].n = 0; iconv_open_count = 0;
#if PART == 1
    ncert = nsig = nk8 = 0;
#endif
    KeyStore *ks0 = (KeyStore *)&kl_stray, *ks = ks0;
    plen[0] = plen[1] = pwd_len();
    for (int w = 0; w < 2; w++) { pwd[w] = malloc(8); for (int i = 0; i < 8; i++) pwd[w][i] = IN.pwd[w][i]; }
    int r;
#if PART == 1
    unsigned char *d = malloc(NB + (NB == 0));
    for (size_t i = 0; i < NB; i++) d[i] = IN.data[i];
    r = parseJKS(d, NB, (char *)pwd[0], plen[0], (char *)pwd[1], plen[1], &ks);
    VP_ASSERT(r == 0 || r == 1, "success or failure");
    if (r == 0) VP_ASSERT(ks == NULL || ks == ks0, "nothing handed out");
    else {
        VP_ASSERT(ks != NULL && ks != ks0, "a store handed out");
        for (int i = 0; i < KL_N; i++) VP_ASSERT(kl_key[i].freed == 0 && kl_cert[i].freed == 0, "what is handed out is alive");
        KeyStoreFree(ks);
    }
    free(d);
#elif PART == 2
    for (int i = 0; i <= MAXD; i++) nplain[i] = 0;
    ncert = nsig = 0; lastsig = -1; undecoded = 0;
    static unsigned char buf[NB + 1]; size_t p = 0; int nk = 0, good = 1;
    for (size_t i = 0; i < NB; i++) buf[i] = IN.data[i];
    for (int i = 0; i < 12; i++) buf[i] = 0;
    put(buf, &p, BADMAGIC ? IN.magic : MAGIC, 4); put(buf, &p, BADVER ? IN.version : 2, 4); put(buf, &p, NE, 4);
    for (int e = 0; e < NE; e++) {
        int bad = BADTAG == e;
        VP_ASSUME(!bad || (IN.badtag[e] != 1 && IN.badtag[e] != 2));
        put(buf, &p, bad ? IN.badtag[e] : ent[e].kind == 'K' ? 1 : 2, 4);
        if (bad) good = 0;
        int c = 1;
        if (ent[e].kind == 'K') {
            put(buf, &p, ent[e].name, 2); p += ent[e].name + 8;
            put(buf, &p, ent[e].len + 3, 4);                    /* DER form of the protected key: an outer header plus its contents */
            sig[nsig].off = p; sig[nsig].len = ent[e].len + 3; sigent[nsig] = e; key0[nsig] = nk; if (ent[e].alg == 1) nk += ent[e].keys; p += ent[e].len + 3;
            put(buf, &p, ent[e].certs, 4); c = ent[e].certs;
            if (FAILSIG == nsig) good = 0;
            if (ent[e].alg == 2) good = 0;                      /* password based encryption is not supported */
            nsig++;
        }
        for (int i = 0; i < c; i++) {
            put(buf, &p, ent[e].name + i, 2); p += ent[e].name + i; put(buf, &p, ent[e].kind == 'K' ? 5 : ent[e].len, 4);
            cert[ncert].off = p; cert[ncert].len = ent[e].kind == 'K' ? 5 : ent[e].len; p += cert[ncert].len;
            
            ncert++;
        }
    }
    for (int i = 0; i < ncert; i++) if (!cert_good(i)) good = 0;
    int slot0 = 0;
    for (int i = 0; i < MAXD; i++) preset[i] = 0;
    for (int i = 0; i < nsig; i++) {
        const struct ent *e = &ent[sigent[i]];
        for (int j = 0; j < e->len; j++) content[i][j] = IN.content[i][j];
        if (e->alg != 1 || e->len < 40) continue;
        slot0 += (e->len - 40 + 19) / 20;
        if (i < nsig - 1) for (int j = 0; j < 20; j++) { content[i][e->len - 20 + j] = 0x5a ^ j; preset[slot0] = 1; }  /* the right check value */
        slot0++;
    }
    size_t end = p; total = p + 20;
    VP_ASSERT(total == NB, "harness: container size");
    if (CUT > 0) good = 0;
#ifdef VP_CBMC      /* pointer differences inside a static object simplify to constants */
    static unsigned char exact[NB - CUT]; D = exact;
#else
    D = malloc(NB - CUT);
#endif
    for (size_t i = 0; i < NB - CUT; i++) D[i] = buf[i];
    uint32_t mg = BADMAGIC ? IN.magic : MAGIC, ve = BADVER ? IN.version : 2;
    if (mg != 0xfeedfeed && mg != 0xcececece) good = 0;
    if (ve != 2) good = 0;
    /* UTF-16 passwords */
    for (int w = 0; w < 2; w++) {
        size_t o = 0; p16n[w] = 0;
        for (const char *s = PWD; *s; s++) {
            if (*s == 'x' || *s == 'i') { good = 0; break; }
            if (*s == 'a') VP_ASSUME(IN.pwd[w][o] < 0x80);
            p16n[w] += convert(*s, IN.pwd[w] + o, p16[w] + p16n[w]); o += *s >= '2' && *s <= '4' ? *s - '0' : 1;
        }
        if (p16n[w] == 0) good = 0;
    }
    r = parseJKS(D, NB - CUT, (char *)pwd[0], plen[0], (char *)pwd[1], plen[1], &ks);
    VP_ASSERT(r == 0 || r == 1, "success or failure");
    int faulted = FAULTS && IN.fail > 0 && step >= IN.fail, known = 1;
#if !BADMAGIC && !BADVER
    for (int s = 0; s < nsig; s++) {                       /* each protected key; good must not be decided by what was not computed */
        const struct ent *e = &ent[sigent[s]];
        const uint8_t *c = content[s]; static uint8_t pl[100], iv[20];
        if (e->alg != 1) continue;
        if (e->len < 40) { good = 0; break; }
        size_t n = e->len - 40; int slot, have = 0;
        for (int i = 0; i < 20; i++) iv[i] = c[i];
        for (size_t i = 0; i < n; i += 20) {
            known &= digest_of(1, iv, 20, 0);
            for (int j = 0; j < 20; j++) iv[j] = got[j];
            for (int j = 0; j < 20 && i + j < n; j++) pl[i + j] = c[20 + i + j] ^ iv[j];
        }
        known &= digest_of(1, pl, n, 0);
        for (int j = 0; j < 20; j++) good = good & (!known | (got[j] == c[20 + n + j]));
        if (r == 1) {                /* the check value matched: the plaintext went to the key decoder */
            for (slot = 0; slot <= MAXD; slot++) if (nplain[slot] == 1 && !have) {
                have = 1; nplain[slot] = 2;
                VP_ASSERT(plain_n[slot] == n, "decoded key is the decrypted bytes");
                for (size_t j = 0; j < n; j++) VP_ASSERT(plain[slot][j] == pl[j], "decoded key is the decrypted bytes");
            }
            VP_ASSERT(have, "the decrypted key was decoded");
        }
    }
    if (r == 1) VP_ASSERT(!undecoded, "every key was decoded");
    {
        static const char *w = "Mighty Aphrodite";
        known &= digest_of(0, w, 16, end);
        for (int j = 0; j < 20; j++) good = good & (!known | (got[j] == buf[end + j]));
    }
#else
    VP_ASSUME(!good);
#endif
    if (r == 1) {
        VP_ASSERT(good, "accepted only when everything matches");
        VP_ASSERT(known, "accepted only after every check");
        VP_ASSERT(ks != NULL && ks != ks0, "a store handed out");
        VP_ASSERT(KeyStoreKeyNum(ks) == nk, "number of keys");
        VP_ASSERT(KeyStoreCertNum(ks) == ncert, "number of certificates");
        for (int i = 0; i < nk; i++) VP_ASSERT(KeyStoreGetKey(ks, i) == (EVP_PKEY *)&kl_key[i], "keys in file order");
        for (int i = 0; i < ncert; i++) VP_ASSERT(KeyStoreGetCert(ks, i) == (X509 *)&kl_cert[i], "certificates in file order");
        for (int i = 0; i < KL_N; i++) VP_ASSERT(kl_key[i].freed == 0 && kl_cert[i].freed == 0, "what is handed out is alive");
        KeyStoreFree(ks);
    } else {
        VP_ASSERT(!good || undecoded || faulted, "refused only when something does not match");
        VP_ASSERT(ks == NULL || ks == ks0, "nothing handed out");
    }
#ifndef VP_CBMC
    free(D);
#endif
#endif
    for (int i = 0; i < KS_N; i++) VP_ASSERT(i >= nstore || store[i].freed, "no store leaked");
    for (int i = 0; i < KL_N; i++) VP_ASSERT(kl_key[i].freed == kl_key[i].made && kl_cert[i].freed == kl_cert[i].made, "everything decoded is freed once");
    VP_ASSERT(kl_stray == 0, "nothing else is freed");
    VP_ASSERT(iconv_open_count == 0, "converter closed");
    free(pwd[0]); free(pwd[1]);
    VP_ASSERT(vp_live == 0, "nothing leaked");
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
