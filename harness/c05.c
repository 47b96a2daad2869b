/* C05: GOST 34.311 from an arbitrary intermediate state. */
#include "vp.h"
#include "hash_spec.h"
#include "gost/gosthash.h"
#include <string.h>
struct in_t {
    uint8_t H[32], S[32], M[64], rem[32], sbox[64];
    int64_t len; uint8_t left;
};
VP_INPUT;
static void vp_randomise(void) { vp_rand(IN.H, 32); vp_rand(IN.S, 32); vp_rand(IN.M, 64); vp_rand(IN.rem, 32); vp_rand(IN.sbox, 64); }
int RAND_priv_bytes(unsigned char *buf, int num) { memset(buf, 0, num); return 1; }
void unpack_sbox(unsigned char *packed_sbox, gost_subst_block *unpacked_sbox);
static void vp_harness(void)
{
    static gost_ctx g; static gost_hash_ctx c;
    uint8_t H[32], S[32], box[64], out[40];
    gost_subst_block b; sp_sbox s;
#if !defined(UF_NOSBOX) || !defined(VP_CBMC)
    memcpy(box, IN.sbox, 64);
    unpack_sbox(box, &b);
    gost_init(&g, &b);
#endif
    sp_unpack(IN.sbox, &s);
    memcpy(c.H, IN.H, 32); memcpy(c.S, IN.S, 32); memcpy(c.remainder, IN.rem, 32);
    memcpy(H, IN.H, 32); memcpy(S, IN.S, 32);
    c.len = IN.len; c.cipher_ctx = &g;
    VP_ASSUME(IN.len >= 0 && IN.len % 32 == 0 && IN.len < (1LL << 60) - 64);
#if PART == 1      /* one block: step, checksum, length */
    c.left = 0;
    VP_ASSERT(hash_block(&c, IN.M, 32) == 1, "update");
    hs_step(&s, H, IN.M);
    hs_sum(S, IN.M);
    for (int i = 0; i < 32; i++) VP_ASSERT(c.H[i] == H[i], "step function");
    for (int i = 0; i < 32; i++) VP_ASSERT(c.S[i] == S[i], "checksum");
    VP_ASSERT(c.len == IN.len + 32 && c.left == 0, "length");
#elif PART == 2    /* block completed by LEFT buffered bytes */
    c.left = LEFT;
    uint8_t m[32];
    memcpy(m, IN.rem, LEFT); memcpy(m + LEFT, IN.M, 32 - LEFT);
    VP_ASSERT(hash_block(&c, IN.M, 32 - LEFT) == 1, "update");
    hs_step(&s, H, m);
    hs_sum(S, m);
    for (int i = 0; i < 32; i++) VP_ASSERT(c.H[i] == H[i] && c.S[i] == S[i], "buffered block");
    VP_ASSERT(c.len == IN.len + 32 && c.left == 0, "length");
#elif PART == 3    /* finalisation with LEFT buffered bytes after len bytes */
    uint8_t m[32];
    int64_t bits;
    c.left = LEFT;
    memset(out, 0x77, sizeof(out));
    VP_ASSERT(finish_hash(&c, out) == 1, "final");
    memset(m, 0, 32);
    memcpy(m, IN.rem, LEFT);
    if (LEFT || IN.len == 0) { hs_step(&s, H, m); hs_sum(S, m); }   /* the empty message is hashed as one zero block */
    bits = (IN.len + LEFT) * 8;
    memset(m, 0, 32);
    for (int i = 0; i < 8; i++) m[i] = (uint8_t)(bits >> (8 * i));
    hs_step(&s, H, m);
    hs_step(&s, H, S);
    for (int i = 0; i < 32; i++) VP_ASSERT(out[i] == H[i], "digest");
    for (int i = 32; i < 40; i++) VP_ASSERT(out[i] == 0x77, "32 bytes written");
#elif PART == 4    /* starting a new message forgets everything */
    c.left = IN.left;
    VP_ASSERT(start_hash(&c) == 1, "start");
    for (int i = 0; i < 32; i++) VP_ASSERT(c.H[i] == 0 && c.S[i] == 0, "zero start vector and checksum");
    VP_ASSERT(c.len == 0 && c.left == 0 && c.cipher_ctx == &g, "empty, same cipher");
    {
        gost_hash_ctx d;
        memset(&d, 0xaa, sizeof(d));
        VP_ASSERT(init_gost_hash_ctx(&d, &b) == 1 && d.cipher_ctx, "init");
        for (int i = 0; i < 32; i++) VP_ASSERT(d.H[i] == 0 && d.S[i] == 0, "zero start vector and checksum");
        VP_ASSERT(d.len == 0 && d.left == 0, "empty");
        done_gost_hash_ctx(&d);
    }
#endif
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
