/* C06: chunking. From any state with P buffered bytes, updates of N1 and N2 bytes leave the same
 * state (natively: the same digest) as one update of N1+N2 bytes. */
#include "vp.h"
#include "gost/gosthash.h"
#include <string.h>
#define NN ((N1) + (N2))
struct in_t { uint8_t H[32], S[32], M[NN + 1], rem[32]; int64_t len; };
VP_INPUT;
static void vp_randomise(void) { vp_rand(IN.H, 32); vp_rand(IN.S, 32); vp_rand(IN.M, NN); vp_rand(IN.rem, 32); }
int RAND_priv_bytes(unsigned char *buf, int num) { memset(buf, 0, num); return 1; }
extern unsigned char default_sbox[64];
void unpack_sbox(unsigned char *packed_sbox, gost_subst_block *unpacked_sbox);
static void mk(gost_hash_ctx *c, gost_ctx *g)
{
    memcpy(c->H, IN.H, 32); memcpy(c->S, IN.S, 32); memcpy(c->remainder, IN.rem, 32);
    c->len = IN.len; c->left = P; c->cipher_ctx = g;
}
static void vp_harness(void)
{
    static gost_ctx g; static gost_hash_ctx a, b;
    uint8_t *m1 = malloc((N1) + 1), *m2 = malloc((N2) + 1), *m = malloc(NN + 1);
#ifndef VP_CBMC
    gost_subst_block s; unpack_sbox(default_sbox, &s); gost_init(&g, &s);
    free(m1); free(m2); free(m);
    m1 = malloc((N1) + ((N1) == 0)); m2 = malloc((N2) + ((N2) == 0)); m = malloc(NN + (NN == 0));
#endif
    VP_ASSUME(IN.len >= 0 && IN.len % 32 == 0 && IN.len < (1LL << 60));
    mk(&a, &g); mk(&b, &g);
    memcpy(m1, IN.M, N1); memcpy(m2, IN.M + (N1), N2); memcpy(m, IN.M, NN);
    VP_ASSERT(hash_block(&a, m1, N1) == 1, "update");
    VP_ASSERT(hash_block(&a, m2, N2) == 1, "update");
    VP_ASSERT(hash_block(&b, m, NN) == 1, "update");
#ifdef VP_CBMC
    /* hash_block may keep a complete block buffered or not, but it must do the same in both cases
     * up to processing: compare what the following update or final sees */
    VP_ASSERT(a.len == b.len && a.left == b.left, "length");
    VP_ASSERT(a.left < 32 && a.left == (P + NN) % 32 && a.len == IN.len + (P + NN) / 32 * 32, "length counts every byte once");
    for (int i = 0; i < 32; i++) VP_ASSERT(a.H[i] == b.H[i] && a.S[i] == b.S[i], "same state");
    for (int i = 0; i < (P + NN) % 32; i++) VP_ASSERT(a.remainder[i] == b.remainder[i], "same buffered bytes");
    for (int i = 0; i < (P + NN) % 32; i++)
        VP_ASSERT(a.remainder[i] == ((P + NN) / 32 * 32 + i < P ? IN.rem[i] : IN.M[(P + NN) / 32 * 32 + i - P]), "buffered bytes are the last of the data");
#else
    {
        uint8_t x[32], y[32], all[32 + NN + 1];
        gost_hash_ctx c;
        finish_hash(&a, x); finish_hash(&b, y);
        VP_ASSERT(!memcmp(x, y, 32), "same digest");
        /* and the same as whole blocks followed by the rest */
        memcpy(all, IN.rem, P); memcpy(all + P, IN.M, NN);
        mk(&c, &g); c.left = 0;
        int k = 0;
        for (; k + 32 <= P + NN; k += 32) hash_block(&c, all + k, 32);
        hash_block(&c, all + k, P + NN - k);
        finish_hash(&c, y);
        VP_ASSERT(!memcmp(x, y, 32), "digest of the data");
    }
#endif
    free(m1); free(m2); free(m);
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
