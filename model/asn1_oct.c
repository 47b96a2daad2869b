/* DER codec of OCTET STRING, for CBMC and native fault replay */
#include <stdlib.h>
#include <string.h>
#include <openssl/asn1.h>
#include "vp_count.h"
int vp_fault(void);
ASN1_OCTET_STRING *ASN1_OCTET_STRING_new(void) { return ASN1_STRING_type_new(V_ASN1_OCTET_STRING); }
void ASN1_OCTET_STRING_free(ASN1_OCTET_STRING *s) { ASN1_STRING_free(s); }
int ASN1_OCTET_STRING_set(ASN1_OCTET_STRING *s, const unsigned char *d, int n) { return ASN1_STRING_set(s, d, n); }
ASN1_OCTET_STRING *ASN1_OCTET_STRING_dup(const ASN1_OCTET_STRING *s) { return ASN1_STRING_dup(s); }
int ASN1_OCTET_STRING_cmp(const ASN1_OCTET_STRING *a, const ASN1_OCTET_STRING *b)
{ int d = a->length - b->length; return d ? d : a->length ? memcmp(a->data, b->data, a->length) : 0; }
int ASN1_object_size(int constructed, int length, int tag)
{ return length < 0 ? -1 : length < 128 ? length + 2 : length < 256 ? length + 3 : length + 4; }
int i2d_ASN1_OCTET_STRING(const ASN1_OCTET_STRING *s, unsigned char **pp)
{
    int n, t;
    unsigned char *p;
    if (!s) return 0;
    n = s->length; t = ASN1_object_size(0, n, V_ASN1_OCTET_STRING);
    if (!pp) return t;
    if (!*pp && vp_fault()) return -1;
    p = *pp ? *pp : (unsigned char *)malloc(t);
    p[0] = V_ASN1_OCTET_STRING;
    if (n >= 256) { p[1] = 0x82; p[2] = n >> 8; p[3] = n; }
    else if (n >= 128) { p[1] = 0x81; p[2] = n; }
    else p[1] = n;
    for (int i = 0; i < n; i++) p[t - n + i] = s->data[i];
    if (*pp) *pp += t; else *pp = p;
    return t;
}
/* a harness that fixes the outcome says so (1: parsing fails, -1: any), which keeps lengths concrete */
int vp_d2i_oct_fails = -1;
static int oct_header(const unsigned char *p, long len, long *hdr, long *n)
{
    long l = 0;
    if (len < 2 || p[0] != V_ASN1_OCTET_STRING) return 0;
    if (!(p[1] & 0x80)) { *hdr = 2; l = p[1]; }
    else {
        int k = p[1] & 0x7f;
        if (k == 0 || k > len - 2) return 0;
        for (int i = 0; i < len - 2; i++) if (i < k) { if (l >> 24) return 0; l = l << 8 | p[2 + i]; }
        *hdr = 2 + k;
    }
    if (l > len - *hdr) return 0;
    *n = l;
    return 1;
}
ASN1_OCTET_STRING *d2i_ASN1_OCTET_STRING(ASN1_OCTET_STRING **a, const unsigned char **pp, long len)
{
    const unsigned char *p = *pp;
    ASN1_STRING *s;
    long h = 0, n = 0;
    if (vp_d2i_oct_fails == 1) {
#ifdef VP_CBMC
        __CPROVER_assert(!oct_header(p, len, &h, &n), "VP:harness limit: not a DER octet string");
#endif
        return NULL;
    }
    if (!oct_header(p, len, &h, &n)) return NULL;
    s = a && *a ? *a : ASN1_OCTET_STRING_new();
    unsigned char *d = malloc(len);
    for (long i = 0; i < n; i++) d[i] = p[h + i];
    d[n] = 0;
    ASN1_STRING_set0(s, d, n);
    s->type = V_ASN1_OCTET_STRING;
    if (a) *a = s;
    *pp = p + h + n;
    return s;
}
