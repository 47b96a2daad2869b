/* live allocations of the model, for leak assertions (include after stdlib.h) */
extern long vp_live;
static inline void vp_count_free(void *p) { if (p) vp_live--; free(p); }
#define malloc(n) (vp_live++, malloc(n))
#define free(p) vp_count_free(p)
