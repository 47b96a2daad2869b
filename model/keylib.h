/* What key store readers need from libcrypto and libc besides memory: opaque certificates and keys are
 * addresses of static objects, so that the harness sees which one was stored or freed how often. */
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <iconv.h>
#include <openssl/asn1.h>
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/x509.h>
#include "vp_count.h"
#ifndef KL_N
#define KL_N 8
#endif
struct kl_obj { int made, freed; };
static struct kl_obj kl_key[KL_N], kl_cert[KL_N];
static int kl_stray;
static inline void kl_reset(void) { static const struct kl_obj z; for (int i = 0; i < KL_N; i++) kl_key[i] = kl_cert[i] = z; kl_stray = 0; }
#define KL_GONE(a, p) do { if (!(p)) break; int f_ = 0; for (int i_ = 0; i_ < KL_N; i_++) if ((void *)(p) == (void *)&a[i_]) { a[i_].freed++; f_ = 1; } if (!f_) kl_stray++; } while (0)
/* the memory [p, p+n) may be read */
#ifdef VP_CBMC
#define VP_TOUCH(p, n, l) VP_ASSERT((n) == 0 || __CPROVER_r_ok(p, n), l)
#else
static volatile unsigned char kl_sink;
#define VP_TOUCH(p, n, l) do { const unsigned char *q_ = (const void *)(p); for (size_t i_ = 0, n_ = (n); i_ < n_; i_++) kl_sink += q_[i_]; } while (0)
#endif
#ifdef VP_CBMC
int *__errno_location(void) { static int e; return &e; }
#endif
