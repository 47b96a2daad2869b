#ifdef VP_CBMC      /* as an integer, a descriptor compares with (iconv_t)-1 at symbolic execution time */
#include <stddef.h>
typedef long iconv_t;
iconv_t iconv_open(const char *, const char *);
size_t iconv(iconv_t, char **, size_t *, char **, size_t *);
int iconv_close(iconv_t);
#else
#include_next <iconv.h>
#endif
