/* C07: S-box packing. */
#include "vp.h"
#include "gost_spec.h"
#include "gost/gost89.h"
#include <string.h>
struct in_t { uint8_t box[64]; gost_subst_block b; uint8_t r, j; };
VP_INPUT;
void unpack_sbox(unsigned char *packed_sbox, gost_subst_block *unpacked_sbox);
void pack_sbox(gost_subst_block *unpacked_sbox, unsigned char *packed_sbox);
void dstu_get_sbox(gost_ctx *ctx, gost_subst_block *sbox);
extern unsigned char default_sbox[64];
int is_default_sbox(const unsigned char *sbox);
unsigned char *copy_sbox(const unsigned char *sbox);
int RAND_priv_bytes(unsigned char *buf, int num) { memset(buf, 0, num); return 1; }
static const uint8_t *row(const gost_subst_block *b, int r)
{ return r == 0 ? b->k1 : r == 1 ? b->k2 : r == 2 ? b->k3 : r == 3 ? b->k4 : r == 4 ? b->k5 : r == 5 ? b->k6 : r == 6 ? b->k7 : b->k8; }
static void vp_harness(void)
{
    uint8_t box[64], out[72]; gost_subst_block b, c;
    memcpy(box, IN.box, 64);
    VP_ASSUME(IN.r < 8 && IN.j < 16);
#if PART == 1          /* packed form: 16 nibbles per row, rows 1 to 8, first entry in the high half */
    unpack_sbox(box, &b);
    for (int r = 0; r < 8; r++) for (int j = 0; j < 16; j++)
        VP_ASSERT(row(&b, r)[j] == (j & 1 ? IN.box[8 * r + j / 2] & 15 : IN.box[8 * r + j / 2] >> 4), "unpacked entry");
    memset(out, 0x77, sizeof(out));
    pack_sbox(&b, out);
    for (int i = 0; i < 64; i++) VP_ASSERT(out[i] == IN.box[i], "pack inverts unpack");
    for (int i = 64; i < 72; i++) VP_ASSERT(out[i] == 0x77, "64 bytes written");
#elif PART == 2
    for (int r = 0; r < 8; r++) for (int j = 0; j < 16; j++) VP_ASSUME(row(&IN.b, r)[j] < 16);
    b = IN.b;
    pack_sbox(&b, out);
    unpack_sbox(out, &c);
    for (int r = 0; r < 8; r++) for (int j = 0; j < 16; j++) VP_ASSERT(row(&c, r)[j] == row(&IN.b, r)[j], "unpack inverts pack");
#elif PART == 3        /* reading the S-box back from an initialised cipher */
    static gost_ctx g;
    for (int r = 0; r < 8; r++) for (int j = 0; j < 16; j++) VP_ASSUME(row(&IN.b, r)[j] < 16);
    b = IN.b;
    gost_init(&g, &b);
    dstu_get_sbox(&g, &c);
    for (int r = 0; r < 8; r++) for (int j = 0; j < 16; j++) VP_ASSERT(row(&c, r)[j] == row(&IN.b, r)[j], "S-box read back");
#elif PART == 4        /* default S-box: value, recognition, copying */
    static const uint8_t def[64] = {
        0xa9, 0xd6, 0xeb, 0x45, 0xf1, 0x3c, 0x70, 0x82, 0x80, 0xc4, 0x96, 0x7b, 0x23, 0x1f, 0x5e, 0xad,
        0xf6, 0x58, 0xeb, 0xa4, 0xc0, 0x37, 0x29, 0x1d, 0x38, 0xd9, 0x6b, 0xf0, 0x25, 0xca, 0x4e, 0x17,
        0xf8, 0xe9, 0x72, 0x0d, 0xc6, 0x15, 0xb4, 0x3a, 0x28, 0x97, 0x5f, 0x0b, 0xc1, 0xde, 0xa3, 0x64,
        0x38, 0xb5, 0x64, 0xea, 0x2c, 0x17, 0x9f, 0xd0, 0x12, 0x3e, 0x6d, 0xb8, 0xfa, 0xc5, 0x79, 0x04 };
    int same = 1; unsigned char *q;
    for (int i = 0; i < 64; i++) { VP_ASSERT(default_sbox[i] == def[i], "DKE no. 1"); if (IN.box[i] != def[i]) same = 0; }
    VP_ASSERT(!!is_default_sbox(box) == same, "default S-box recognised");
    q = copy_sbox(box);
    VP_ASSERT(q && q != box, "copy");
    for (int i = 0; i < 64; i++) VP_ASSERT(q[i] == IN.box[i], "copied");
    free(q);
#endif
}
#include "vp_main.h"
