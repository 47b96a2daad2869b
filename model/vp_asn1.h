/* the value of an ASN1_TYPE: under CBMC its union is split into a struct (vplib.split_unions) */
#include <openssl/asn1.h>
static inline void vp_set_value(ASN1_TYPE *t, void *v)
{
    t->value.ptr = v;
#ifdef VP_CBMC
    t->value.asn1_string = t->value.integer = t->value.enumerated = t->value.bit_string = t->value.octet_string = v;
    t->value.printablestring = t->value.t61string = t->value.ia5string = t->value.utf8string = t->value.sequence = t->value.set = v;
    t->value.object = v;
#endif
}
