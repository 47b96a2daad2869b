/* what the wide-number model leaves to the harness */
#ifndef WIDE_H_
#define WIDE_H_
#include <openssl/ec.h>
#define WIDE_TAG 0x5eed
extern int wide_hex_bits;       /* 0, or: numbers read from hex digits have exactly that many bits */
int vp_fault(void);
int wide_on_curve(const EC_GROUP *g, const BIGNUM *x, const BIGNUM *y);
#endif
