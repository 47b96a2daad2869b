/* Memory, error and misc primitives of libcrypto, for CBMC. */
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdarg.h>
long vp_live;
#include "vp_count.h"
#if defined(VP_CBMC) && defined(VP_POOLSIZE)
/* differences of pointers into static objects simplify to constants, those into heap objects do not */
#define PA(i) static unsigned char vp_pool##i[VP_POOLSIZE];
PA(0) PA(1) PA(2) PA(3) PA(4) PA(5) PA(6) PA(7) PA(8) PA(9) PA(10) PA(11) PA(12) PA(13) PA(14) PA(15) PA(16) PA(17) PA(18) PA(19)
static unsigned char *vp_slot(unsigned i)
{
#define PS(n) if (i == n) return vp_pool##n;
    PS(0) PS(1) PS(2) PS(3) PS(4) PS(5) PS(6) PS(7) PS(8) PS(9) PS(10) PS(11) PS(12) PS(13) PS(14) PS(15) PS(16) PS(17) PS(18) PS(19)
    __CPROVER_assert(0, "VP:harness: pool large enough"); return vp_pool0;
}
static unsigned char vp_pool_used[20]; static unsigned vp_pool_n;
static void *pool_get(size_t n)
{
    __CPROVER_assert(n <= VP_POOLSIZE, "VP:harness: pool slots large enough");
    vp_live++; vp_pool_used[vp_pool_n] = 1; return vp_slot(vp_pool_n++);
}
static void pool_put(void *p)
{
    if (!p) return;
    for (unsigned i = 0; i < 20; i++) if (p == (void *)vp_slot(i)) {
        __CPROVER_assert(vp_pool_used[i] == 1, "VP:memory freed once");
        vp_pool_used[i] = 0; vp_live--; return;
    }
    free(p);
}
#undef malloc
#undef free
#define malloc(n) pool_get(n)
#define free(p) pool_put(p)
#define realloc(p, n) pool_realloc(p, n)
static void *pool_realloc(void *p, size_t n) { unsigned char *q = pool_get(n), *o = p; for (int i = 0; i < 16; i++) q[i] = o[i]; pool_put(p); return q; }
#endif
void *CRYPTO_malloc(size_t n, const char *f, int l) { if (n == 0) return NULL; return malloc(n); }
void *CRYPTO_zalloc(size_t n, const char *f, int l)
{ if (n == 0) return NULL; void *p = malloc(n); if (p) memset(p, 0, n); return p; }
void CRYPTO_free(void *p, const char *f, int l) { free(p); }
void OPENSSL_cleanse(void *p, size_t n) { if (n) memset(p, 0, n); }
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l)
{
    if (!p) return;
    if (n) OPENSSL_cleanse(p, n);
    free(p);
}
void *CRYPTO_realloc(void *p, size_t n, const char *f, int l)
{
    if (!p) return CRYPTO_malloc(n, f, l);
    if (n == 0) { free(p); return NULL; }
    return realloc(p, n);
}
void *CRYPTO_clear_realloc(void *p, size_t old, size_t n, const char *f, int l)
{
    void *r;
    if (!p) return CRYPTO_malloc(n, f, l);
    if (n == 0) { CRYPTO_clear_free(p, old, f, l); return NULL; }
    if (n < old) { OPENSSL_cleanse((char *)p + n, old - n); return p; }
    r = CRYPTO_malloc(n, f, l);
    if (r) { memcpy(r, p, old); CRYPTO_clear_free(p, old, f, l); }
    return r;
}
void *CRYPTO_memdup(const void *d, size_t n, const char *f, int l)
{
    if (!d || n >= 0x7fffffff) return NULL;
    void *r = CRYPTO_malloc(n, f, l);
    if (r) memcpy(r, d, n);
    return r;
}
char *CRYPTO_strdup(const char *s, const char *f, int l)
{
    if (!s) return NULL;
    size_t n = strlen(s) + 1;
    char *r = CRYPTO_malloc(n, f, l);
    if (r) memcpy(r, s, n);
    return r;
}
int CRYPTO_memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b; unsigned char r = 0;
    for (size_t i = 0; i < n; i++) r |= x[i] ^ y[i];
    return r;
}
void ERR_new(void) {}
void ERR_set_debug(const char *f, int l, const char *fn) {}
void ERR_set_error(int lib, int reason, const char *fmt, ...) {}
void ERR_put_error(int lib, int func, int reason, const char *file, int line) {}
void ERR_clear_error(void) {}
unsigned long ERR_peek_error(void) { return 0; }
unsigned long ERR_get_error(void) { return 0; }
int ERR_get_next_error_library(void) { return 128; }
int ERR_load_strings(int lib, void *s) { return 1; }
int ERR_unload_strings(int lib, void *s) { return 1; }
/* DSTUerr() of /repo/engine/err.c when that file is not linked */
#ifndef VP_REAL_ERR
void ERR_DSTU_error(int function, int reason, char *file, int line) {}
void ERR_load_DSTU_strings(void) {}
void ERR_unload_DSTU_strings(void) {}
#endif
