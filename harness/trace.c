/* P17: the trace of basic blocks and data addresses of a call must be the same for all secrets.
   The library is compiled with basic-block and memory-access callbacks; the functions below are their targets.
   With EMU: the embedded code, the emulator reports every instruction and data address.  --x elf --x <flags> */
#define _GNU_SOURCE
#ifdef EMU
#include "emu.h"
#endif
#include "kemx.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <unistd.h>
#define BLK 4096
static volatile int on; static uint64_t th, tn;           /* running hash, number of events */
static uint64_t *bh; static size_t nbh, capbh; static int keepb; /* per-block hashes */
static uint64_t want_blk = ~0ull; static uint64_t ev[2][BLK]; static int evi; /* events of one block */
static inline __attribute__((always_inline)) void event(uint64_t e)
{
    if (want_blk != ~0ull && tn / BLK == want_blk) ev[evi][tn % BLK] = e;
    th = (th ^ e) * 0x9E3779B97F4A7C15ull; th ^= th >> 29;
    tn++;
    if (keepb && tn % BLK == 0) { if (nbh == capbh) { capbh = capbh ? 2 * capbh : 1024; bh = realloc(bh, 8 * capbh); } bh[nbh++] = th; }
}
#ifdef EMU
static void emu_event(uint64_t e) { event(e); }
#else
#define V __attribute__((visibility("default"), noinline))
V void __sanitizer_cov_trace_pc(void) { if (on) event((uint64_t)__builtin_return_address(0)); }
#define LS(n) V void __asan_load##n##_noabort(uint64_t a) { if (on) event(a * 2 + (1ull << 62)); } V void __asan_store##n##_noabort(uint64_t a) { if (on) event(a * 2 + 1 + (1ull << 62)); }
LS(1) LS(2) LS(4) LS(8) LS(16)
V void __asan_loadN_noabort(uint64_t a, uint64_t n) { if (on) { event(a * 2 + (1ull << 62)); event(n); } }
V void __asan_storeN_noabort(uint64_t a, uint64_t n) { if (on) { event(a * 2 + 1 + (1ull << 62)); event(n); } }
V void __asan_handle_no_return(void) {}
static void ext(const void *f, const void *a, const void *b, uint64_t n, uint64_t r) { if (on) { event((uint64_t)f + (1ull << 61)); event((uint64_t)a); event((uint64_t)b); event(n); event(r); } }
/* library routines: what they are given, and for those that stop early, where they stop */
V void *__wrap_memcpy(void *d, const void *s, size_t n) { ext(memcpy, d, s, n, 0); return memcpy(d, s, n); }
V void *__wrap_memmove(void *d, const void *s, size_t n) { ext(memmove, d, s, n, 0); return memmove(d, s, n); }
V void *__wrap_memset(void *d, int c, size_t n) { ext(memset, d, 0, n, 0); return memset(d, c, n); }
static size_t firstdiff(const void *a, const void *b, size_t n, int z)
{
    const uint8_t *x = a, *y = b; size_t i;
    for (i = 0; i < n; i++) if (x[i] != y[i] || (z && !x[i])) break;
    return i;
}
V int __wrap_memcmp(const void *a, const void *b, size_t n) { ext(memcmp, a, b, n, firstdiff(a, b, n, 0)); return memcmp(a, b, n); }
V int __wrap_bcmp(const void *a, const void *b, size_t n) { ext(memcmp, a, b, n, firstdiff(a, b, n, 0)); return memcmp(a, b, n); }
V int __wrap_strncmp(const char *a, const char *b, size_t n) { ext(strncmp, a, b, n, firstdiff(a, b, n, 1)); return strncmp(a, b, n); }
V int __wrap_strcmp(const char *a, const char *b) { ext(strcmp, a, b, 0, firstdiff(a, b, ~0ul, 1)); return strcmp(a, b); }

/* memory the code allocates: from a pool of its own that starts over whenever everything has been given back,
   so that addresses depend on the code's requests only */
static uint8_t *pool; static size_t pool_at; static long pool_live;
#define POOL ((size_t)64 << 20)
V void *__wrap_aligned_alloc(size_t al, size_t n)
{
    if (!pool) pool = aligned_alloc(4096, POOL);
    if (al < 64) al = 64;
    size_t a = (pool_at + 16 + al - 1) / al * al;
    if (a + n > POOL) return NULL;
    memcpy(pool + a - 8, &n, 8); pool_at = a + n; pool_live++;
    return pool + a;
}
V void *__wrap_malloc(size_t n) { return __wrap_aligned_alloc(64, n); }
V void *__wrap_calloc(size_t k, size_t n) { void *p = __wrap_malloc(k * n); if (p) memset(p, 0, k * n); return p; }
V void __wrap_free(void *p)
{
    if (!p) return;
    if ((uint8_t *)p < pool || (uint8_t *)p >= pool + POOL) { free(p); return; }
    if (--pool_live == 0) pool_at = 0;
}
V void *__wrap_realloc(void *p, size_t n)
{
    size_t o; if (!p) return __wrap_malloc(n);
    if ((uint8_t *)p < pool || (uint8_t *)p >= pool + POOL) return realloc(p, n);
    memcpy(&o, (uint8_t *)p - 8, 8); void *q = __wrap_malloc(n); if (q) memcpy(q, p, o < n ? o : n); __wrap_free(p); return q;
}
V int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = __wrap_aligned_alloc(al, n); return *p ? 0 : 12; }
#endif

/* one call: op 0 keygen(tape), 1 encaps(pk,tape), 2 decaps(ct,sk), 3 cpa enc(m,seed,pk), 4 cpa dec(sk,ct) */
static uint8_t *c_p, *c_s, *c_c, *c_k, *c_m, *c_d; static uint8_t c_t[96 * 4];
static void __attribute__((noinline)) call_(int op)
{
    uint8_t *am[4], *ad[4], *ap[4], *as[4], *ac[4];
    for (int j = 0; j < 4; j++) { am[j] = c_m + 64 * j; ad[j] = c_d + 64 * j; ap[j] = c_p + I.pkb * j; as[j] = c_s + I.skb * j; ac[j] = c_c + I.ctb * j; }
    rnd_set(c_t, op == 0 ? 96 * I.lanes : op == 1 ? 32 * I.lanes : 0);
    th = tn = 0; nbh = 0;
    n_impl++;
#ifdef EMU
    arm_restore(); a_ev = emu_event;
#endif
    on = 1;
    if (op == 0) I.kp(c_p, c_s);
    else if (op == 1) I.enc(c_c, c_k, c_p);
    else if (op == 2) I.dec(c_k, c_c, c_s);
    else if (op == 3) imp_cpa_enc(am, ad, ap, ac);
    else imp_cpa_dec(as, ac, am);
    on = 0;
#ifdef EMU
    a_ev = NULL;
#endif
}
#ifdef EMU
static void call(int op) { call_(op); }
#else
/* always on the same stack, from the same depth */
#include <ucontext.h>
static ucontext_t uc_main, uc_call; static uint8_t *stk;
static void tramp(int op) { call_(op); }
static void call(int op)
{
    if (!stk) stk = aligned_alloc(4096, 8 << 20);
    getcontext(&uc_call); uc_call.uc_stack.ss_sp = stk; uc_call.uc_stack.ss_size = 8 << 20; uc_call.uc_link = &uc_main;
    makecontext(&uc_call, (void (*)(void))tramp, 1, op);
    swapcontext(&uc_main, &uc_call);
}
#endif
typedef struct { uint8_t p[8192], s[16384], c[8192], k[256], m[256], d[256], t[96 * 4]; } in_t;
static in_t X0[5]; static uint64_t H0[5], N0[5]; static uint64_t *B0[5]; static size_t NB0[5];
static void load(const in_t *x)
{
    memcpy(c_p, x->p, I.pkb * I.lanes); memcpy(c_s, x->s, I.skb * I.lanes); memcpy(c_c, x->c, I.ctb * I.lanes);
    memset(c_k, 0, 256); memcpy(c_m, x->m, 256); memcpy(c_d, x->d, 256); memcpy(c_t, x->t, sizeof c_t);
}
static const char *opn[] = {"key generation", "encapsulation", "decapsulation", "encryption", "decryption"};
static char *evtext(uint64_t e, char *b, size_t n)
{
#ifdef EMU
    if (e >> 62 & 1) snprintf(b, n, "%s at %08x", e & 1 ? "write" : "read", (unsigned)(e / 2)); else snprintf(b, n, "instruction at %s", arm_where(e));
    return b;
#endif
    Dl_info d;
    if (e >> 62 & 1) { uint64_t a = (e & ((1ull << 62) - 1)) / 2; snprintf(b, n, "%s at %p%s", e & 1 ? "write" : "read", (void *)a, dladdr((void *)a, &d) && d.dli_sname ? d.dli_sname : ""); return b; }
    if (dladdr((void *)e, &d) && d.dli_fname) snprintf(b, n, "basic block %s+0x%lx", d.dli_sname ? d.dli_sname : "?", (long)(e - (uint64_t)(d.dli_sname ? d.dli_saddr : d.dli_fbase)));
    else snprintf(b, n, "value %lx", (long)e);
    return b;
}
static void same(int op, const in_t *x, const char *fmt, ...)
{
    char what[300]; va_list ap; va_start(ap, fmt); vsnprintf(what, sizeof what, fmt, ap); va_end(ap);
    hc_where("%s, %s", opn[op], what);
    load(x); call(op);
    n_cmp++; n_states++;
    if (th == H0[op] && tn == N0[op]) return;
    keepb = 1; load(x); call(op);
    size_t k = 0; while (k < nbh && k < NB0[op] && bh[k] == B0[op][k]) k++;
    keepb = 0; want_blk = k; memset(ev, 0, sizeof ev);
    evi = 0; load(&X0[op]); call(op);
    evi = 1; load(x); call(op);
    want_blk = ~0ull;
    int i = 0; while (i < BLK - 1 && ev[0][i] == ev[1][i]) i++;
    char a[300], b[300], c[300];
    int q = i; while (q > 0 && ev[1][q - 1] >> 62 & 1) q--; /* last block before */
    viol("%s: the trace depends on %s: event %lu is %s instead of %s%s%s", opn[op], what, (unsigned long)(k * BLK + i), evtext(ev[1][i], b, sizeof b), evtext(ev[0][i], a, sizeof a),
         q ? ", in " : "", q ? evtext(ev[1][q - 1], c, sizeof c) : "");
}
#include <stdarg.h>
int main(int argc, char **argv)
{
    hc_init(argc, argv);
#ifdef EMU
    emu_comp = !!strchr(argx[1], 'c');
    M_nohalf = !!strchr(argx[1], '0');
    emu_load(argx[0], M_nohalf);
    emu_fill = 0;
    arm_snapshot();
#endif
    mkbase(6);
    c_p = bp; c_s = bs; c_c = bc; c_k = bk; c_m = aligned_alloc(64, 256); c_d = aligned_alloc(64, 256);
    int L = I.lanes;
    int full = 0; for (int i = 0; i < nargx; i++) if (!strcmp(argx[i], "full")) full = 1;
    for (int op = 0; op < 5; op++) {
        in_t *x = &X0[op];
        for (int j = 0; j < L; j++) {
            base_t *b = &B[j];
            memcpy(x->p + j * I.pkb, b->pk, I.pkb); memcpy(x->s + j * I.skb, b->sk, I.skb); memcpy(x->c + j * I.ctb, b->ct, I.ctb);
            memcpy(x->m + 64 * j, b->re, 32); memcpy(x->d + 64 * j, b->rk, 32);
            if (op == 0) memcpy(x->t + 96 * j, b->rk, 96); else memcpy(x->t + 32 * j, b->re, 32);
        }
        load(x); call(op); load(x); call(op); /* first call may initialise the library */
        H0[op] = th; N0[op] = tn;
        keepb = 1; load(x); call(op); keepb = 0;
        if (th != H0[op] || tn != N0[op]) { CASE_ALWAYS("repeat", op); viol("%s: two executions on the same inputs have different traces", opn[op]); }
        B0[op] = malloc(8 * nbh + 8); memcpy(B0[op], bh, 8 * nbh); NB0[op] = nbh;
        if (op == 0) { stat_add("trace_events_keygen", tn); } else if (op == 2) stat_add("trace_events_decaps", tn);
    }
    static in_t x;
    /* honest base instances: whole secrets exchanged */
    for (int i = 0; i < (thorough ? 200 : full ? 24 : 8); i++)
        if (CASE("kp", i)) { /* noise seed and rejection value vary, matrix seed fixed */
            x = X0[0];
            for (int j = 0; j < L; j++) { if (i < 2) memset(x.t + 96 * j + 32, i ? 0xff : 0, 64); else fill(x.t + 96 * j + 32, 64, 3000 + 4 * i + j); }
            same(0, &x, "the noise seed or rejection value (variation %d)", i);
        }
    for (int i = 0; i < (thorough ? 200 : full ? 24 : 8); i++)
        if (CASE("enc", i)) {
            x = X0[1];
            for (int j = 0; j < L; j++) { if (i < 2) memset(x.t + 32 * j, i ? 0xff : 0, 32); else fill(x.t + 32 * j, 32, 4000 + 4 * i + j); }
            same(1, &x, "the message (variation %d)", i);
        }
    int step = 1;
    for (int pos = 0; pos < 256; pos++)
        if (CASE("msgbit", pos)) for (int j = 0; j < L; j++) { if (!have_cpa()) break; x = X0[3]; x.m[64 * j + pos / 8] ^= 1 << pos % 8; same(3, &x, "message bit %d (slot %d)", pos, j); }
    for (int i = 0; i < (thorough ? 200 : full ? 24 : 8); i++)
        if (CASE("encseed", i)) { if (!have_cpa()) break; x = X0[3]; for (int j = 0; j < L; j++) fill(x.d + 64 * j, 32, 5000 + 4 * i + j); same(3, &x, "the encryption noise seed (variation %d)", i); }
    /* ciphertexts wrong at every position: accepted or rejected must look alike */
    for (int pos = 0; pos < I.ctb; pos += step)
        if (CASE("ct", pos)) for (int j = 0; j < L; j++) {
            if (L > 1 && !thorough && j != pos % L && j != (pos / 4) % L) continue;
            x = X0[2]; x.c[j * I.ctb + pos] ^= 1 << pos % 8; same(2, &x, "whether ciphertext byte %d is the honest one (slot %d)", pos, j);
            if (thorough) for (int m = 1; m < 256; m <<= 1) { x = X0[2]; x.c[j * I.ctb + pos] ^= m; same(2, &x, "whether ciphertext byte %d is the honest one (slot %d)", pos, j); }
        }
    for (int a = 1; a < (1 << L); a++) if (CASE("acc", a)) { x = X0[2]; for (int j = 0; j < L; j++) if (a >> j & 1) x.c[j * I.ctb + 5 * j] ^= 1; same(2, &x, "the accept/reject pattern %d", a); }
    /* secret key: every byte of the secret vector and of the rejection value (public part fixed) */
    for (int pos = 0; pos < I.skb; pos += step) {
        if (pos >= I.iskb && pos < I.skb - 32) continue;
        if (CASE("sk", pos)) for (int j = 0; j < L; j++) {
            if (L > 1 && !thorough && j != pos % L) continue;
            static const uint8_t vs[] = {0x00, 0xff, 0x01, 0x80};
            for (int v = 0; v < (thorough ? 4 : 1); v++) { x = X0[2]; if (thorough) x.s[j * I.skb + pos] = vs[v]; else x.s[j * I.skb + pos] ^= 0xff; same(2, &x, "secret key byte %d (slot %d)", pos, j); }
        }
    }
    for (int i = 0; i < 5; i++)
        if (CASE("skall", i)) {
            x = X0[2];
            for (int j = 0; j < L; j++) { uint8_t *s = x.s + j * I.skb; if (i < 2) memset(s, i ? 0xff : 0, I.iskb); else memcpy(s, B[(j + i) % 6].sk, I.iskb); }
            same(2, &x, "the secret vector (variation %d)", i);
            if (have_cpa()) { x = X0[4]; for (int j = 0; j < L; j++) { uint8_t *s = x.s + j * I.skb; if (i < 2) memset(s, i ? 0xff : 0, I.iskb); else memcpy(s, B[(j + i) % 6].sk, I.iskb); } same(4, &x, "the secret vector (variation %d)", i); }
        }
    hc_done();
}
