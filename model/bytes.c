/* memmove as a byte loop: CBMC's own goes through array theory and is far slower on small arrays. */
#include <stddef.h>
void *memmove(void *d, const void *s, size_t n)
{
    unsigned char t[64], *x = d; const unsigned char *y = s;
    __CPROVER_assert(n <= sizeof(t), "model: memmove of at most 64 bytes");
    for (size_t i = 0; i < n; i++) t[i] = y[i];
    for (size_t i = 0; i < n; i++) x[i] = t[i];
    return d;
}
