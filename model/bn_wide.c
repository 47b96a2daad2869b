/* BIGNUM, BN_CTX, EC_GROUP/EC_POINT/EC_KEY of libcrypto with numbers of up to 512 bits, for CBMC only. Field arithmetic and
 * scalar multiplication are not computed: n times the base point is the free term (n, WIDE_TAG), which keeps different scalars
 * apart; inversion is the real one (y + x). Fallible operations ask the harness (vp_fault). */
#include <stdlib.h>
#include <string.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include "wide.h"
#include "vp_count.h"
#define LIMIT(c) __CPROVER_assert(c, "VP:model limit: " #c)
int vp_fault(void);
typedef unsigned __CPROVER_bitvector[512] bnv;
/* hint: the case the harness decides, numbers of exactly that many bits */
struct bignum_st { bnv v; int neg, hint; };
#define BV(x) ((x)->v)
static const BIGNUM bn_zero, bn_one = {1, 0, 0};
static void set(BIGNUM *r, bnv v) { r->v = v; r->neg = 0; r->hint = 0; }

BIGNUM *BN_new(void) { BIGNUM *b = malloc(sizeof(*b)); *b = bn_zero; return b; }
BIGNUM *BN_secure_new(void) { return BN_new(); }
void BN_free(BIGNUM *b) { free(b); }
void BN_clear_free(BIGNUM *b) { free(b); }
void BN_clear(BIGNUM *b) { set(b, 0); }
void BN_zero_ex(BIGNUM *b) { set(b, 0); }
int BN_set_word(BIGNUM *b, BN_ULONG w) { set(b, (bnv)w); return 1; }
BN_ULONG BN_get_word(const BIGNUM *b) { return (BN_ULONG)b->v; }
const BIGNUM *BN_value_one(void) { return &bn_one; }
BIGNUM *BN_copy(BIGNUM *a, const BIGNUM *b) { if (vp_fault()) return NULL; *a = *b; return a; }
BIGNUM *BN_dup(const BIGNUM *a) { if (!a) return NULL; BIGNUM *r = BN_new(); *r = *a; return r; }
void BN_swap(BIGNUM *a, BIGNUM *b) { BIGNUM t = *a; *a = *b; *b = t; }
void BN_set_flags(BIGNUM *b, int n) {}
int BN_get_flags(const BIGNUM *b, int n) { return 0; }
int BN_is_negative(const BIGNUM *b) { return b->neg; }
void BN_set_negative(BIGNUM *b, int n) { b->neg = n && b->v; }
int BN_num_bits(const BIGNUM *b) { int n = 0; if (b->hint) { __CPROVER_assume(b->v >> (b->hint - 1) == 1); return b->hint; } for (int i = 0; i < 512; i++) if (b->v >> i & 1) n = i + 1; return n; }
int BN_num_bits_word(BN_ULONG l) { BIGNUM t = {(bnv)l, 0, 0}; return BN_num_bits(&t); }
int BN_abs_is_word(const BIGNUM *b, BN_ULONG w) { return b->v == w; }
int BN_is_zero(const BIGNUM *b) { return b->v == 0; }
int BN_is_one(const BIGNUM *b) { return b->v == 1 && !b->neg; }
int BN_is_word(const BIGNUM *b, BN_ULONG w) { return b->v == w && (!w || !b->neg); }
int BN_is_odd(const BIGNUM *b) { return b->v & 1; }
int BN_is_bit_set(const BIGNUM *b, int n) { return n >= 0 && n < 512 ? b->v >> n & 1 : 0; }
int BN_set_bit(BIGNUM *b, int n) { if (n < 0 || vp_fault()) return 0; LIMIT(n < 512); b->v |= (bnv)1 << n; return 1; }
/* libcrypto: fails when the number has no word that holds the bit */
int BN_clear_bit(BIGNUM *b, int n) { if (n < 0 || n > 511 || !b->v || vp_fault()) return 0; if (n < 512) b->v &= ~((bnv)1 << n); if (!b->v) b->neg = 0; return 1; }
int BN_mask_bits(BIGNUM *b, int n) { if (n < 0 || !b->v || n > 511 || vp_fault()) return 0; if (n < 512) b->v &= ((bnv)1 << n) - 1; return 1; }
int BN_ucmp(const BIGNUM *a, const BIGNUM *b) { return a->v < b->v ? -1 : a->v > b->v; }
int BN_cmp(const BIGNUM *a, const BIGNUM *b)
{
    if (!a || !b) return a ? -1 : b ? 1 : 0;
    if (a->neg != b->neg) return a->neg ? -1 : 1;
    return a->neg ? BN_ucmp(b, a) : BN_ucmp(a, b);
}
BIGNUM *BN_bin2bn(const unsigned char *s, int n, BIGNUM *r)
{
    bnv v = 0;
    if (n < 0) return NULL;
    if (vp_fault()) return NULL;
    for (int i = 0; i < n; i++) { LIMIT(v >> 504 == 0); v = v << 8 | s[i]; }
    if (!r) r = BN_new();
    set(r, v);
    return r;
}
int wide_bin_bits;      /* as wide_hex_bits, for BN_lebin2bn */
BIGNUM *BN_lebin2bn(const unsigned char *s, int n, BIGNUM *r)
{
    bnv v = 0;
    if (n < 0) return NULL;
    if (vp_fault()) return NULL;
    for (int i = n - 1; i >= 0; i--) { LIMIT(v >> 504 == 0); v = v << 8 | s[i]; }
    if (!r) r = BN_new();
    set(r, v); r->hint = wide_bin_bits;
    return r;
}
static int nbytes(const BIGNUM *a) { int n = 0; if (a->hint) return (BN_num_bits(a) + 7) / 8; for (int i = 0; i < 64; i++) if ((a->v >> 8 * i & 255) != 0) n = i + 1; return n; }
int BN_bn2bin(const BIGNUM *a, unsigned char *to)
{
    int n = nbytes(a);
    for (int i = 0; i < 64; i++) if (i < n) to[n - 1 - i] = (unsigned char)(a->v >> 8 * i);
    return n;
}
int BN_bn2binpad(const BIGNUM *a, unsigned char *to, int len)
{
    if (len < nbytes(a)) return -1;
    for (int i = 0; i < len; i++) to[len - 1 - i] = i < 64 ? (unsigned char)(a->v >> 8 * i) : 0;
    return len;
}
int BN_bn2lebinpad(const BIGNUM *a, unsigned char *to, int len)
{
    if (len < nbytes(a)) return -1;
    for (int i = 0; i < len; i++) to[i] = i < 64 ? (unsigned char)(a->v >> 8 * i) : 0;
    return len;
}
int BN_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b)
{ if (vp_fault()) return 0; LIMIT(!a->neg && !b->neg && a->v + b->v >= a->v); set(r, a->v + b->v); return 1; }
int BN_uadd(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { return BN_add(r, a, b); }
int BN_sub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b)
{
    if (vp_fault()) return 0;
    LIMIT(!a->neg && !b->neg);
    if (a->v >= b->v) set(r, a->v - b->v); else { set(r, b->v - a->v); r->neg = 1; }
    return 1;
}
int BN_usub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { if (a->v < b->v) return 0; return BN_sub(r, a, b); }
int BN_add_word(BIGNUM *a, BN_ULONG w) { if (vp_fault()) return 0; a->v += (bnv)w; return 1; }
int BN_sub_word(BIGNUM *a, BN_ULONG w) { if (vp_fault()) return 0; LIMIT(a->v >= w); a->v -= (bnv)w; return 1; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* libcrypto: optional minus sign, then the longest run of hex digits; returns the characters used */
int BN_hex2bn(BIGNUM **a, const char *s)
{
    int neg = 0, n = 0; bnv v = 0;
    if (wide_hex_bits && a && *a) (*a)->hint = wide_hex_bits;   /* on every path, so that it stays a constant */
    if (!s || !*s) return 0;
    neg = *s == '-';
    for (;;) {
        char c = neg ? s[n + 1] : s[n];
        if (hexv(c) < 0) break;
        LIMIT(n < 136); v = v << 4 | (bnv)(unsigned)hexv(c); n++;
    }
    if (n == 0) return 0;
    LIMIT(n <= 128);
    if (!a) return n + neg;
    if (!*a) *a = BN_new();
    (*a)->v = v; (*a)->neg = neg && v != 0; (*a)->hint = wide_hex_bits;
    return n + neg;
}

struct bignum_ctx { BIGNUM p[16]; int used, err, sp, st[8]; };
static BN_CTX *ctx_new(void) { static const BN_CTX z; BN_CTX *c = malloc(sizeof(*c)); *c = z; return c; }
#ifdef NOCTXFAULT
BN_CTX *BN_CTX_new(void) { return ctx_new(); }
#else
BN_CTX *BN_CTX_new(void) { return vp_fault() ? NULL : ctx_new(); }
#endif
BN_CTX *BN_CTX_secure_new(void) { return BN_CTX_new(); }
void BN_CTX_free(BN_CTX *c) { free(c); }
void BN_CTX_start(BN_CTX *c) { LIMIT(c->sp < 8); c->st[c->sp++] = c->used; }
void BN_CTX_end(BN_CTX *c) { if (!c) return; c->used = c->st[--c->sp]; c->err = 0; }
BIGNUM *BN_CTX_get(BN_CTX *c)
{
    if (c->err) return NULL;
    LIMIT(c->used < 16);
    BIGNUM *b = &c->p[c->used++];
    set(b, 0);
    return b;
}

int BN_GF2m_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { if (vp_fault()) return 0; set(r, a->v ^ b->v); return 1; }
int BN_GF2m_arr2poly(const int p[], BIGNUM *a)
{
    bnv v = 0;
    for (int i = 0; p[i] != -1; i++) { if (p[i] < 0) return 0; LIMIT(p[i] < 512); v |= (bnv)1 << p[i]; }
    if (vp_fault()) return 0;
    set(a, v);
    return 1;
}
int BN_GF2m_poly2arr(const BIGNUM *a, int p[], int max)
{
    int k = 0;
    if (!a->v) return 0;
    for (int i = 511; i >= 0; i--) if (a->v >> i & 1) { if (k < max) p[k] = i; k++; }
    if (k < max) p[k] = -1, k++;
    return k;
}

/* EC */
struct ec_point_st { int idx; bnv x, y; };     /* idx 0: infinity */
struct ec_group_st { int known; BIGNUM p, a, b, order, cofactor; int hasgen; EC_POINT gen; };
struct ec_key_st { EC_GROUP *group; EC_POINT *pub; BIGNUM *priv; int refs; };
EC_GROUP *EC_GROUP_new_curve_GF2m(const BIGNUM *p, const BIGNUM *a, const BIGNUM *b, BN_CTX *c)
{
    static const EC_GROUP z;
    EC_GROUP *g;
    int n = 0;
    for (int i = 0; i < 512; i++) n += (int)(p->v >> i & 1);
    if ((n != 3 && n != 5) || vp_fault()) return NULL;
    g = malloc(sizeof(*g)); *g = z;
    g->p = *p; g->a = *a; g->b = *b;
    g->known = 1;
    return g;
}
EC_GROUP *EC_GROUP_dup(const EC_GROUP *s) { if (!s || vp_fault()) return NULL; EC_GROUP *g = malloc(sizeof(*g)); *g = *s; return g; }
int EC_GROUP_copy(EC_GROUP *d, const EC_GROUP *s) { if (vp_fault()) return 0; *d = *s; return 1; }
void EC_GROUP_free(EC_GROUP *g) { free(g); }
void EC_GROUP_clear_free(EC_GROUP *g) { free(g); }
const EC_METHOD *EC_GROUP_method_of(const EC_GROUP *g) { return (const EC_METHOD *)g; }
const EC_METHOD *EC_GROUP_get0_method(const EC_GROUP *g) { return (const EC_METHOD *)g; }
int EC_METHOD_get_field_type(const EC_METHOD *m) { return NID_X9_62_characteristic_two_field; }
int EC_GROUP_get_field_type(const EC_GROUP *g) { return NID_X9_62_characteristic_two_field; }
int EC_GROUP_get_curve_name(const EC_GROUP *g) { return 0; }
int EC_GROUP_get_degree(const EC_GROUP *g) { return BN_num_bits(&g->p) - 1; }
int EC_GROUP_get_curve(const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b, BN_CTX *c)
{ if (vp_fault()) return 0; if (p) *p = g->p; if (a) *a = g->a; if (b) *b = g->b; return 1; }
int EC_GROUP_get_curve_GF2m(const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b, BN_CTX *c) { return EC_GROUP_get_curve(g, p, a, b, c); }
int EC_GROUP_get_order(const EC_GROUP *g, BIGNUM *o, BN_CTX *c) { if (vp_fault()) return 0; *o = g->order; return o->v != 0; }
const BIGNUM *EC_GROUP_get0_order(const EC_GROUP *g) { return &g->order; }
int EC_GROUP_order_bits(const EC_GROUP *g) { return BN_num_bits(&g->order); }
int EC_GROUP_get_cofactor(const EC_GROUP *g, BIGNUM *o, BN_CTX *c) { if (vp_fault()) return 0; *o = g->cofactor; return o->v != 0; }
const EC_POINT *EC_GROUP_get0_generator(const EC_GROUP *g) { return g->hasgen ? &g->gen : NULL; }
int EC_GROUP_set_generator(EC_GROUP *g, const EC_POINT *p, const BIGNUM *o, const BIGNUM *h)
{
    if (!p || !o || o->neg || o->v <= 1 || BN_num_bits(o) > BN_num_bits(&g->p) + 1 || (h && h->neg) || vp_fault()) return 0;
    g->gen = *p; g->hasgen = 1; g->order = *o;
    if (h && h->v) g->cofactor = *h; else set(&g->cofactor, 2);
    return 1;
}
int EC_GROUP_cmp(const EC_GROUP *a, const EC_GROUP *b, BN_CTX *c)
{
    if (a->p.v != b->p.v || a->a.v != b->a.v || a->b.v != b->b.v) return 1;
    if (a->hasgen != b->hasgen) return 1;
    if (a->hasgen && EC_POINT_cmp(a, &a->gen, &b->gen, c)) return 1;
    if (a->order.v != b->order.v) return 1;
    return a->cofactor.v && b->cofactor.v && a->cofactor.v != b->cofactor.v;
}
int EC_GROUP_check(const EC_GROUP *g, BN_CTX *c) { return g->known && g->hasgen; }
int EC_GROUP_check_discriminant(const EC_GROUP *g, BN_CTX *c) { return g->b.v != 0; }

EC_POINT *EC_POINT_new(const EC_GROUP *g) { static const EC_POINT z; if (!g || vp_fault()) return NULL; EC_POINT *p = malloc(sizeof(*p)); *p = z; return p; }
void EC_POINT_free(EC_POINT *p) { free(p); }
void EC_POINT_clear_free(EC_POINT *p) { free(p); }
int EC_POINT_copy(EC_POINT *d, const EC_POINT *s) { if (vp_fault()) return 0; *d = *s; return 1; }
EC_POINT *EC_POINT_dup(const EC_POINT *s, const EC_GROUP *g) { if (!s || vp_fault()) return NULL; EC_POINT *p = malloc(sizeof(*p)); *p = *s; return p; }
int EC_POINT_set_to_infinity(const EC_GROUP *g, EC_POINT *p) { p->idx = 0; return 1; }
int EC_POINT_is_at_infinity(const EC_GROUP *g, const EC_POINT *p) { return p->idx == 0; }
int EC_POINT_is_on_curve(const EC_GROUP *g, const EC_POINT *p, BN_CTX *c) { return 1; }
int EC_POINT_cmp(const EC_GROUP *g, const EC_POINT *a, const EC_POINT *b, BN_CTX *c)
{
#ifdef VP_CBMC
    __CPROVER_assert(a && b, "VP:EC_POINT_cmp on missing points");
#endif
    if (!a->idx || !b->idx) return a->idx != b->idx;
    return a->x != b->x || a->y != b->y;
}
int EC_POINT_set_affine_coordinates(const EC_GROUP *g, EC_POINT *p, const BIGNUM *x, const BIGNUM *y, BN_CTX *c)
{
    if (!x || !y || vp_fault() || !wide_on_curve(g, x, y)) return 0;
    p->idx = 1; p->x = x->v; p->y = y->v;
    return 1;
}
int EC_POINT_set_affine_coordinates_GF2m(const EC_GROUP *g, EC_POINT *p, const BIGNUM *x, const BIGNUM *y, BN_CTX *c)
{ return EC_POINT_set_affine_coordinates(g, p, x, y, c); }
int EC_POINT_get_affine_coordinates(const EC_GROUP *g, const EC_POINT *p, BIGNUM *x, BIGNUM *y, BN_CTX *c)
{
    if (!p->idx || vp_fault()) return 0;
    if (x) set(x, p->x);
    if (y) set(y, p->y);
    return 1;
}
int EC_POINT_get_affine_coordinates_GF2m(const EC_GROUP *g, const EC_POINT *p, BIGNUM *x, BIGNUM *y, BN_CTX *c)
{ return EC_POINT_get_affine_coordinates(g, p, x, y, c); }
int EC_POINT_invert(const EC_GROUP *g, EC_POINT *p, BN_CTX *c) { if (vp_fault()) return 0; if (p->idx) p->y ^= p->x; return 1; }
/* the scalar is taken as it is: callers pass one below the order */
int EC_POINT_mul(const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c)
{
    if ((n && !g->hasgen) || vp_fault()) return 0;
    LIMIT(n && !q && !m && !n->neg);
    if (!n->v) { r->idx = 0; return 1; }
    r->idx = 1; r->x = n->v; r->y = WIDE_TAG;
    return 1;
}
EC_KEY *EC_KEY_new(void) { static const EC_KEY z; if (vp_fault()) return NULL; EC_KEY *k = malloc(sizeof(*k)); *k = z; k->refs = 1; return k; }
int EC_KEY_up_ref(EC_KEY *k) { k->refs++; return 1; }
void EC_KEY_free(EC_KEY *k) { if (!k || --k->refs > 0) return; free(k->group); free(k->pub); free(k->priv); free(k); }
const EC_GROUP *EC_KEY_get0_group(const EC_KEY *k) { return k->group; }
const BIGNUM *EC_KEY_get0_private_key(const EC_KEY *k) { return k->priv; }
const EC_POINT *EC_KEY_get0_public_key(const EC_KEY *k) { return k->pub; }
int EC_KEY_set_group(EC_KEY *k, const EC_GROUP *g) { free(k->group); k->group = EC_GROUP_dup(g); return k->group != NULL; }
int EC_KEY_set_private_key(EC_KEY *k, const BIGNUM *d)
{
    if (!k->group || !k->group->order.v) return 0;
    if (!d) { free(k->priv); k->priv = NULL; return 0; }
    if (vp_fault()) return 0;
    free(k->priv); k->priv = BN_dup(d);
    return 1;
}
int EC_KEY_set_public_key(EC_KEY *k, const EC_POINT *p) { free(k->pub); k->pub = EC_POINT_dup(p, k->group); return k->pub != NULL; }
int EC_KEY_generate_key(EC_KEY *k) { LIMIT(0); return 0; }
int EC_KEY_check_key(const EC_KEY *k) { return k->group && k->pub && k->pub->idx != 0; }
EC_KEY *EC_KEY_dup(const EC_KEY *s)
{
    EC_KEY *k;
    if (!s || vp_fault()) return NULL;
    k = EC_KEY_new(); if (!k) return NULL;
    if (s->group) { k->group = malloc(sizeof(EC_GROUP)); *k->group = *s->group; }
    if (s->pub) { k->pub = malloc(sizeof(EC_POINT)); *k->pub = *s->pub; }
    k->priv = BN_dup(s->priv);
    return k;
}
