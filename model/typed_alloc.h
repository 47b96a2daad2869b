/* CBMC is far faster on heap objects with a type than on raw bytes: objects of the expected
 * size (the cipher or digest state, plus up to a few extra words) get one, any other size is raw. */
#include "gost/gost89.h"
#include "gost/gosthash.h"
struct ta_c0 { gost_ctx g; };
struct ta_c1 { gost_ctx g; int r[1]; };
struct ta_c2 { gost_ctx g; int r[2]; };
struct ta_c4 { gost_ctx g; int r[4]; };
struct ta_d0 { gost_hash_ctx h; gost_ctx g; };
struct ta_d2 { gost_hash_ctx h; gost_ctx g; int r[2]; };
static void *typed_alloc(size_t n)
{
#define TA(T) if (n == sizeof(struct T)) { static const struct T z; struct T *p = malloc(sizeof(struct T)); *p = z; return p; }
    TA(ta_c0) TA(ta_c1) TA(ta_c2) TA(ta_c4) TA(ta_d0) TA(ta_d2)
    void *p = malloc(n); memset(p, 0, n); return p;
}
static void *typed_dup(const void *q, size_t n)
{
#undef TA
#define TA(T) if (n == sizeof(struct T)) { struct T *p = malloc(sizeof(struct T)); *p = *(const struct T *)q; return p; }
    TA(ta_c0) TA(ta_c1) TA(ta_c2) TA(ta_c4) TA(ta_d0) TA(ta_d2)
    void *p = malloc(n); memcpy(p, q, n); return p;
}
static void typed_copy(void *d, const void *q, size_t n)
{
#undef TA
#define TA(T) if (n == sizeof(struct T)) { *(struct T *)d = *(const struct T *)q; return; }
    TA(ta_c0) TA(ta_c1) TA(ta_c2) TA(ta_c4) TA(ta_d0) TA(ta_d2)
    memcpy(d, q, n);
}
static void typed_zero(void *d, size_t n)
{
#undef TA
#define TA(T) if (n == sizeof(struct T)) { static const struct T z; *(struct T *)d = z; return; }
    TA(ta_c0) TA(ta_c1) TA(ta_c2) TA(ta_c4) TA(ta_d0) TA(ta_d2)
    memset(d, 0, n);
}
