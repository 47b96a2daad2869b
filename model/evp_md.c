/* EVP_MD / EVP_MD_CTX of libcrypto 3.0's legacy-method path, and just enough EVP_PKEY/EVP_PKEY_CTX
 * for a digest started for a key; for CBMC. */
#include <string.h>
#include <stdlib.h>
#include <openssl/evp.h>
#include "typed_alloc.h"
#ifndef EVP_MD_CTX_FLAG_KEEP_PKEY_CTX
# define EVP_MD_CTX_FLAG_KEEP_PKEY_CTX 0x0400
#endif
struct evp_md_st {
    int type, pkey_type, md_size, block_size, ctx_size;
    unsigned long flags;
    int (*init)(EVP_MD_CTX *);
    int (*update)(EVP_MD_CTX *, const void *, size_t);
    int (*final)(EVP_MD_CTX *, unsigned char *);
    int (*copy)(EVP_MD_CTX *, const EVP_MD_CTX *);
    int (*cleanup)(EVP_MD_CTX *);
    int (*ctrl)(EVP_MD_CTX *, int, int, void *);
};
struct evp_md_ctx_st {
    const EVP_MD *digest;
    unsigned long flags;
    void *md_data;
    EVP_PKEY_CTX *pctx;
    int (*update)(EVP_MD_CTX *, const void *, size_t);
};
static const EVP_MD_CTX ctx_zero;
EVP_MD *EVP_MD_meth_new(int type, int pkt)
{ static const EVP_MD z; EVP_MD *m = malloc(sizeof(*m)); *m = z; m->type = type; m->pkey_type = pkt; return m; }
void EVP_MD_meth_free(EVP_MD *m) { free(m); }
int EVP_MD_meth_set_result_size(EVP_MD *m, int n) { if (m->md_size) return 0; m->md_size = n; return 1; }
int EVP_MD_meth_set_input_blocksize(EVP_MD *m, int n) { if (m->block_size) return 0; m->block_size = n; return 1; }
int EVP_MD_meth_set_app_datasize(EVP_MD *m, int n) { if (m->ctx_size) return 0; m->ctx_size = n; return 1; }
int EVP_MD_meth_set_flags(EVP_MD *m, unsigned long f) { if (m->flags) return 0; m->flags = f; return 1; }
int EVP_MD_meth_set_init(EVP_MD *m, int (*f)(EVP_MD_CTX *)) { m->init = f; return 1; }
int EVP_MD_meth_set_update(EVP_MD *m, int (*f)(EVP_MD_CTX *, const void *, size_t)) { m->update = f; return 1; }
int EVP_MD_meth_set_final(EVP_MD *m, int (*f)(EVP_MD_CTX *, unsigned char *)) { m->final = f; return 1; }
int EVP_MD_meth_set_copy(EVP_MD *m, int (*f)(EVP_MD_CTX *, const EVP_MD_CTX *)) { m->copy = f; return 1; }
int EVP_MD_meth_set_cleanup(EVP_MD *m, int (*f)(EVP_MD_CTX *)) { m->cleanup = f; return 1; }
int EVP_MD_meth_set_ctrl(EVP_MD *m, int (*f)(EVP_MD_CTX *, int, int, void *)) { m->ctrl = f; return 1; }
int EVP_MD_get_size(const EVP_MD *m) { return m->md_size; }
int EVP_MD_get_type(const EVP_MD *m) { return m->type; }
int EVP_MD_get_block_size(const EVP_MD *m) { return m->block_size; }

EVP_MD_CTX *EVP_MD_CTX_new(void) { EVP_MD_CTX *x = malloc(sizeof(*x)); *x = ctx_zero; return x; }
static void cleanup_old(EVP_MD_CTX *x, int force)
{
    if (!x->digest) return;
    if (x->digest->cleanup && !(x->flags & EVP_MD_CTX_FLAG_CLEANED)) x->digest->cleanup(x);
    if (x->md_data && x->digest->ctx_size > 0 && (!(x->flags & EVP_MD_CTX_FLAG_REUSE) || force)) {
        free(x->md_data); x->md_data = NULL;
    }
}
void EVP_PKEY_CTX_free(EVP_PKEY_CTX *);
EVP_PKEY_CTX *EVP_PKEY_CTX_dup(const EVP_PKEY_CTX *);
int EVP_MD_CTX_reset(EVP_MD_CTX *x)
{
    if (!x) return 1;
    if (!(x->flags & EVP_MD_CTX_FLAG_KEEP_PKEY_CTX)) EVP_PKEY_CTX_free(x->pctx);
    cleanup_old(x, 0);
    *x = ctx_zero;
    return 1;
}
void EVP_MD_CTX_free(EVP_MD_CTX *x) { if (x) { EVP_MD_CTX_reset(x); free(x); } }
void *EVP_MD_CTX_get0_md_data(const EVP_MD_CTX *x) { return x->md_data; }
EVP_PKEY_CTX *EVP_MD_CTX_get_pkey_ctx(const EVP_MD_CTX *x) { return x->pctx; }
void EVP_MD_CTX_set_pkey_ctx(EVP_MD_CTX *x, EVP_PKEY_CTX *p)
{
    if (!(x->flags & EVP_MD_CTX_FLAG_KEEP_PKEY_CTX)) EVP_PKEY_CTX_free(x->pctx);
    x->pctx = p;
    if (p) x->flags |= EVP_MD_CTX_FLAG_KEEP_PKEY_CTX; else x->flags &= ~EVP_MD_CTX_FLAG_KEEP_PKEY_CTX;
}
const EVP_MD *EVP_MD_CTX_get0_md(const EVP_MD_CTX *x) { return x ? x->digest : NULL; }
void EVP_MD_CTX_set_flags(EVP_MD_CTX *x, int f) { x->flags |= f; }
void EVP_MD_CTX_clear_flags(EVP_MD_CTX *x, int f) { x->flags &= ~(unsigned long)f; }
int EVP_MD_CTX_test_flags(const EVP_MD_CTX *x, int f) { return x->flags & f; }
int EVP_DigestInit_ex(EVP_MD_CTX *x, const EVP_MD *type, ENGINE *e)
{
    x->flags &= ~(unsigned long)(EVP_MD_CTX_FLAG_CLEANED);
    if (!type) type = x->digest;
    if (!type) return 0;
    if (x->digest != type) {
        cleanup_old(x, 1);
        x->digest = type;
        if (type->ctx_size) { x->update = type->update; x->md_data = typed_alloc(type->ctx_size); }
    }
    return x->digest->init(x);
}
int EVP_DigestInit(EVP_MD_CTX *x, const EVP_MD *type) { EVP_MD_CTX_reset(x); return EVP_DigestInit_ex(x, type, NULL); }
int EVP_DigestUpdate(EVP_MD_CTX *x, const void *d, size_t n)
{
    if (n == 0) return 1;
    return x->update ? x->update(x, d, n) : 0;
}
int EVP_DigestFinal_ex(EVP_MD_CTX *x, unsigned char *md, unsigned int *n)
{
    int r;
    if (!x->digest) return 0;
    r = x->digest->final(x, md);
    if (n) *n = x->digest->md_size;
    if (x->digest->cleanup) { x->digest->cleanup(x); x->flags |= EVP_MD_CTX_FLAG_CLEANED; }
    typed_zero(x->md_data, x->digest->ctx_size);
    return r;
}
int EVP_DigestFinal(EVP_MD_CTX *x, unsigned char *md, unsigned int *n)
{ int r = EVP_DigestFinal_ex(x, md, n); EVP_MD_CTX_reset(x); return r; }
int EVP_MD_CTX_copy_ex(EVP_MD_CTX *o, const EVP_MD_CTX *in)
{
    void *tmp = NULL;
    if (!in || !in->digest) return 0;
    if (o->digest == in->digest) { tmp = o->md_data; o->flags |= EVP_MD_CTX_FLAG_REUSE; }
    EVP_MD_CTX_reset(o);
    *o = *in;
    o->flags &= ~(unsigned long)EVP_MD_CTX_FLAG_KEEP_PKEY_CTX;
    o->md_data = NULL; o->pctx = NULL;
    if (in->md_data && o->digest->ctx_size) {
        if (tmp) { o->md_data = tmp; typed_copy(tmp, in->md_data, o->digest->ctx_size); }
        else o->md_data = typed_dup(in->md_data, o->digest->ctx_size);
    }
    if (in->pctx) o->pctx = EVP_PKEY_CTX_dup(in->pctx);
    if (o->digest->copy) return o->digest->copy(o, in);
    return 1;
}
int EVP_MD_CTX_copy(EVP_MD_CTX *o, const EVP_MD_CTX *in) { EVP_MD_CTX_reset(o); return EVP_MD_CTX_copy_ex(o, in); }
int EVP_MD_CTX_ctrl(EVP_MD_CTX *x, int cmd, int p1, void *p2)
{
    int r;
    if (!x || !x->digest || !x->digest->ctrl) return 0;
    r = x->digest->ctrl(x, cmd, p1, p2);
    return r <= 0 ? 0 : r;
}
