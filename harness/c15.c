/* C15 (PROP 15) / C16 (PROP 16): STEPS requests to the generator, N1 or N2 bytes each; seeding and status fail as the solver likes.
 * C15: results compared with a ghost generator. C16: lock creation and acquisition may fail too; every sequence runs twice, once alone and once
 * with other threads scribbling over the state whenever the lock is free (it is put back when the lock is taken): all observables must agree. */
#include "vp.h"
#include <string.h>
#include <time.h>
#include <openssl/rand.h>
#include <openssl/crypto.h>
#include "cfb_spec.h"
#include "gost/gost89.h"
#include "rbg.h"
#ifndef N1
#define N1 1
#endif
#ifndef N2
#define N2 2
#endif
#ifdef OPS      /* the kinds of requests, concrete */
static const uint8_t ops[STEPS] = {OPS};
# define OP(k) ops[k]
#else
# define OP(k) IN.op[k]
#endif
#define MAXC (16 * (N1 > N2 ? N1 : N2) + 1)
struct in_t {
    uint8_t op[STEPS], seed[STEPS][40], seed_ok[STEPS], st[STEPS], lock_ok[STEPS], new_ok, once_ok[STEPS], scribble;
    int64_t time[STEPS];
    uint64_t out[STEPS][MAXC], init_out[STEPS];
};
VP_INPUT;
#if PROP == 15
# define A15(c, l) VP_ASSERT(c, l)
# define A16(c, l)
# define LOCK(c) 1
#else
# define A15(c, l)
# define A16(c, l) VP_ASSERT(c, l)
# define LOCK(c) ((c) & 1)
#endif
static int run;
void vp_first(void); void vp_afresh(void); void vp_save(void); void vp_restore(void); void vp_scribble(int);
/* The block cipher: call k of a request (the one right after reading the clock is kept apart) answers with an arbitrary block; the ghost's call k
 * must have the same key, S-box and input and gets the same answer. That admits every function and more. */
static int step, ncall, after_time, gcall;
#ifdef VP_CBMC
typedef struct { u256 k; u512 sb; uint64_t in; } call_t;
static call_t rec[MAXC], rec_init;
/* the tables are not built; the S-box a context got last is remembered */
static const gost_ctx *box_of; static u512 box;
void kboxinit(gost_ctx *c, const gost_subst_block *b)
{
    box_of = c; box = 0;
    for (int i = 0; i < 16; i++)
        box = box << 32 | (u512)((u4)b->k8[i] << 28 | (u4)b->k7[i] << 24 | (u4)b->k6[i] << 20 | (u4)b->k5[i] << 16 | (u4)b->k4[i] << 12 | (u4)b->k3[i] << 8 | (u4)b->k2[i] << 4 | (u4)b->k1[i]);
}
static uint64_t ld8(const uint8_t *p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
static void st8(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (uint8_t)(v >> 8 * i); }
void gostcrypt(gost_ctx *c, const byte *in, byte *out)
{
    call_t r; r.k = 0; r.sb = 0;
    for (int i = 0; i < 8; i++) r.k = r.k << 32 | (u256)(unsigned)(c->key[i] + c->mask[i]);
    r.sb = box_of == c ? box : 0;
    r.in = ld8(in);
    if (after_time) { after_time = 0; rec_init = r; st8(out, IN.init_out[step]); }
    else { VP_ASSUME(ncall < MAXC); rec[ncall] = r; st8(out, IN.out[step][ncall]); ncall++; }
}
static int same(const call_t *r, const uint8_t key[32], const sp_sbox *s, const uint8_t *in)
{
    u256 k = 0; u512 b = 0;
    for (int i = 0; i < 8; i++) k = k << 32 | (u256)sp_ld(key + 4 * i);
    for (int i = 0; i < 16; i++) { uint32_t w = 0; for (int j = 7; j >= 0; j--) w = w << 4 | s->row[j][i]; b = b << 32 | (u512)w; }
    return r->in == ld8(in) && k == r->k && b == r->sb;
}
static void g_enc(const uint8_t *key, const sp_sbox *s, const uint8_t *in, uint8_t *out)
{ A15(same(&rec[gcall], key, s, in), "block cipher call as in the standard"); st8(out, IN.out[step][gcall]); gcall++; }
static void g_enc_init(const uint8_t *key, const sp_sbox *s, const uint8_t *in, uint8_t *out)
{ A15(same(&rec_init, key, s, in), "block cipher call as in the standard"); st8(out, IN.init_out[step]); }
#else
# define g_enc sp_enc
# define g_enc_init sp_enc
#endif
/* ghost generator */
static struct { int on, fresh; uint8_t key[32], I[8], s[8], c[8]; } G;
static sp_sbox dflt;
static uint8_t sb[40]; static int sn;
static int seeds;      /* successful seedings */
/* ---- the lock ---- */
static int held, made, dead, onced, got_lock;
static char lock_obj;
CRYPTO_RWLOCK *CRYPTO_THREAD_lock_new(void) { made = 1; return LOCK(IN.new_ok) ? (CRYPTO_RWLOCK *)&lock_obj : NULL; }
int CRYPTO_THREAD_run_once(CRYPTO_ONCE *o, void (*f)(void))
{
    if (onced) return 1;
    if (!LOCK(IN.once_ok[step])) return 0;
    onced = 1; f(); return 1;
}
static int take(CRYPTO_RWLOCK *l, int how)
{
    A16(l == (CRYPTO_RWLOCK *)&lock_obj && !dead, "locks its own, live lock");
    A16(!held, "does not lock twice");
    if (!LOCK(IN.lock_ok[step])) return 0;
    held = how; got_lock++; if (run) vp_restore();
    return 1;
}
int CRYPTO_THREAD_write_lock(CRYPTO_RWLOCK *l) { return take(l, 1); }
int CRYPTO_THREAD_read_lock(CRYPTO_RWLOCK *l) { return take(l, 2); }
int CRYPTO_THREAD_unlock(CRYPTO_RWLOCK *l)
{
    A16(l == (CRYPTO_RWLOCK *)&lock_obj && !dead, "unlocks its own, live lock");
    A16(held, "unlocks only what it locked");
    if (run && held == 1) vp_save();
    held = 0; if (run) vp_scribble(IN.scribble);
    return 1;
}
void CRYPTO_THREAD_lock_free(CRYPTO_RWLOCK *l) { if (!l) return; A16(!held && !dead, "destroys a free lock once"); dead = 1; }
/* ---- the seeder ---- */
static const void *fw_buf; static int fw_num, fw_n;
static double fw_e;
static int s_seed(const void *b, int n) { fw_buf = b; fw_num = n; fw_n++; return 1; }
static int s_add(const void *b, int n, double e) { fw_buf = b; fw_num = n; fw_e = e; fw_n++; return 1; }
static int s_bytes(unsigned char *b, int n)
{
    VP_ASSUME(n > 0 && sn + n <= 40);
    if (!(IN.seed_ok[step] & 1)) return 0;
    for (int i = 0; i < n; i++) sb[sn + i] = b[i] = IN.seed[step][sn + i];
    sn += n;
    if (sn == 40) { sn = 0; seeds++; G.on = 2; }
    return 1;
}
static int s_status(void) { return IN.st[step] & 1; }
static RAND_METHOD seeder = {s_seed, s_bytes, NULL, s_add, s_bytes, s_status};
RAND_METHOD *RAND_OpenSSL(void) { return &seeder; }
time_t time(time_t *t)
{
    time_t v = IN.time[step];
    if (t) *t = v;
    after_time = 1;
    if (G.on == 2) {           /* seeded just now */
        for (int i = 0; i < 8; i++) G.c[i] = (uint8_t)((uint64_t)v >> 8 * i);
        memcpy(G.key, sb, 32); memcpy(G.s, sb + 32, 8);
        G.on = G.fresh = 1;
    }
    return v;
}
static inline void settle(void) { if (G.fresh) g_enc_init(G.key, &dflt, G.c, G.I); G.fresh = 0; after_time = 0; }
static inline uint8_t g_byte(void)
{
    uint8_t r = 0, x[8];
    for (int j = 0; j < 8; j++) {
        for (int i = 0; i < 8; i++) x[i] = G.I[i] ^ G.s[i];
        g_enc(G.key, &dflt, x, x);
        for (int i = 0; i < 8; i++) G.s[i] = x[i] ^ G.I[i];
        g_enc(G.key, &dflt, G.s, G.s);
        r |= (x[0] & 1) << j;
    }
    return r;
}
static void vp_randomise(void)
{
    vp_rand(&IN, sizeof(IN));
    for (int i = 0; i < STEPS; i++) IN.op[i] %= 6;
    for (int i = 0; i < STEPS; i++) IN.seed_ok[i] = IN.seed_ok[i] > 50;
    for (int i = 0; i < STEPS; i++) IN.st[i] = IN.st[i] > 50;
    for (int i = 0; i < STEPS; i++) { IN.lock_ok[i] = IN.lock_ok[i] > 40; IN.once_ok[i] = IN.once_ok[i] > 40; }
    IN.new_ok = IN.new_ok > 20;
}
/* what a run shows: results, bytes, cipher inputs, use of the seeder */
static struct { int ret[STEPS], seeds[STEPS], calls[STEPS]; uint8_t buf[STEPS][N1 + N2 + 2]; } obs[2];
#ifdef VP_CBMC
static call_t obs_rec[2][STEPS][MAXC], obs_init[2][STEPS];
#endif
static int bytes(int n, int pseudo)
{
    uint8_t buf[N1 + N2 + 2]; memset(buf, 0x77, sizeof(buf));
    int r = pseudo ? dstu_rand_meth.pseudorand(buf, n) : dstu_rand_meth.bytes(buf, n);
    A16(got_lock || r <= 0, "fails without the lock");
#if PROP == 15
    settle();
    if (r > 0) {
        gcall = 0;
        A15(G.on == 1, "success only when seeded");
        for (int i = 0; i < n; i++) A15(buf[i] == g_byte(), "the DSTU 4145 sequence");
    } else A15(G.on != 1, "a seeded generator delivers");
    A15(buf[n] == 0x77, "nothing written past the request");
#else
    if (r > 0) for (int i = 0; i < n; i++) obs[run].buf[step][i] = buf[i];
#endif
    return r > 0;
}
static void sequence(void)
{
    vp_afresh();
    onced = held = dead = 0; after_time = 0; sn = seeds = 0; G.on = G.fresh = 0;
    if (run) { vp_save(); vp_scribble(IN.scribble); }
    for (int k = 0; k < STEPS; k++) {
        step = k; ncall = gcall = 0;
        int s0 = seeds, on0 = G.on, r = 1;
        got_lock = 0; fw_n = 0; sn = 0;
        switch (OP(k)) {
        case 0: r = bytes(N1, 0); break;
        case 1: r = bytes(N2, 1); break;
        case 2:
            r = dstu_rand_meth.status() != 0;
            A16(got_lock || !r, "fails without the lock");
# if PROP == 15
            settle();
            A15(!r || G.on == 1, "ready only when seeded");
            A15(r || !(IN.st[k] & 1) || G.on != 1, "a seeded generator is ready");
# endif
            break;
        case 3: dstu_rand_meth.cleanup(); G.on = 0; break;
        case 4:
            r = dstu_rand_meth.seed(IN.seed, 7);
            A15(r == 1 && fw_n == 1 && fw_buf == IN.seed && fw_num == 7, "seed goes to the seeder");
            break;
        default:
            r = dstu_rand_meth.add(IN.seed, 9, 2.5);
            A15(r == 1 && fw_n == 1 && fw_buf == IN.seed && fw_num == 9 && fw_e == 2.5, "entropy goes to the seeder");
            break;
        }
        A16(!held, "releases the lock");
        A16(seeds == s0 || got_lock, "seeds only under the lock");
        A15(seeds == s0 || G.on == 1, "a seeding is complete");
        A15(seeds == s0 || !on0, "a seeded generator keeps its stream");
        obs[run].ret[k] = r; obs[run].seeds[k] = seeds; obs[run].calls[k] = ncall;
#ifdef VP_CBMC
        for (int i = 0; i < MAXC; i++) obs_rec[run][k][i] = rec[i];
        obs_init[run][k] = rec_init;
#endif
    }
}
static void vp_harness(void)
{
    static int first;
    if (!first++) vp_first();
    sp_unpack(sp_default_sbox, &dflt);
    memset(obs, 0, sizeof(obs));
    run = 0; sequence();
#if PROP == 16
    int d0 = dead, m0 = made;
    run = 1; sequence();
    VP_ASSERT(dead == d0 && made == m0, "same use of the lock");
    for (int k = 0; k < STEPS; k++) {
        VP_ASSERT(obs[0].ret[k] == obs[1].ret[k] && obs[0].seeds[k] == obs[1].seeds[k] && obs[0].calls[k] == obs[1].calls[k], "the state is used only under the lock");
        for (int i = 0; i < N1 + N2; i++) VP_ASSERT(!obs[0].ret[k] || obs[0].buf[k][i] == obs[1].buf[k][i], "the state is used only under the lock");
# ifdef VP_CBMC
        for (int i = 0; i < MAXC; i++) VP_ASSERT(!obs[0].ret[k] || i >= obs[0].calls[k] || (obs_rec[0][k][i].in == obs_rec[1][k][i].in && obs_rec[0][k][i].k == obs_rec[1][k][i].k), "the state is used only under the lock");
# endif
    }
#endif
}
#define VP_HAS_RANDOMISE
#include "vp_main.h"
