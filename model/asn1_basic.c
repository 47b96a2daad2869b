/* ASN1_STRING and ASN1_TYPE, for CBMC */
#include <stdlib.h>
#include <string.h>
#include <openssl/asn1.h>
#include "vp_asn1.h"
#include "vp_count.h"
/* ASN1_TYPE of a SEQUENCE */
ASN1_TYPE *ASN1_TYPE_new(void) { ASN1_TYPE *t = malloc(sizeof(*t)); { static const ASN1_TYPE z; *t = z; } t->type = -1; return t; }
ASN1_STRING *ASN1_STRING_type_new(int type) { ASN1_STRING *s = malloc(sizeof(*s)); { static const ASN1_STRING z; *s = z; } s->type = type; return s; }
ASN1_STRING *ASN1_STRING_new(void) { return ASN1_STRING_type_new(V_ASN1_OCTET_STRING); }
void ASN1_STRING_free(ASN1_STRING *s) { if (s) { free(s->data); free(s); } }
int ASN1_STRING_set(ASN1_STRING *s, const void *d, int n)
{
    if (n < 0) n = strlen(d);
    unsigned char *p = malloc(n + 1);
    if (d) memcpy(p, d, n);
    p[n] = 0;
    free(s->data); s->data = p; s->length = n;
    return 1;
}
ASN1_STRING *ASN1_STRING_dup(const ASN1_STRING *s)
{
    if (!s) return NULL;
    ASN1_STRING *r = ASN1_STRING_type_new(s->type);
    ASN1_STRING_set(r, s->data, s->length);
    r->flags = s->flags;
    return r;
}
int ASN1_STRING_length(const ASN1_STRING *s) { return s->length; }
const unsigned char *ASN1_STRING_get0_data(const ASN1_STRING *s) { return s->data; }
unsigned char *ASN1_STRING_data(ASN1_STRING *s) { return s->data; }
int ASN1_STRING_type(const ASN1_STRING *s) { return s->type; }
void ASN1_TYPE_free(ASN1_TYPE *t) { if (t) { if (t->type >= 0 && t->type != V_ASN1_NULL) ASN1_STRING_free(t->value.asn1_string); free(t); } }
int ASN1_TYPE_get(const ASN1_TYPE *t) { return t->type; }
void ASN1_TYPE_set(ASN1_TYPE *t, int type, void *v)
{ if (t->type >= 0 && t->value.ptr) ASN1_STRING_free(t->value.asn1_string); t->type = type; vp_set_value(t, v); }
int ASN1_TYPE_set1(ASN1_TYPE *t, int type, const void *v)
{ ASN1_TYPE_set(t, type, ASN1_STRING_dup(v)); return 1; }
void ASN1_STRING_set0(ASN1_STRING *s, void *d, int n) { free(s->data); s->data = d; s->length = n; }
