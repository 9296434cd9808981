/* P16: stateless exploration of the interleavings of two calls on real threads, at every access to conflicting library memory.
   The library is compiled with -fsanitize=thread; the callbacks below are the scheduler, not the sanitizer. */
#define _GNU_SOURCE
#include "kemx.h"
#include "ops.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

static uint8_t *lo, *hi;                 /* hull of the library's writable memory */
static uint8_t *wr, *ac;                 /* per granule: written with a new value / accessed, bit per thread */
static uint8_t *conf; static size_t ngr; /* granules in conflict */
static volatile int recording, exploring;
static __thread int me = -1;             /* 0/1 on worker threads while an operation runs */
static __thread uint8_t *pa; static __thread size_t pn; static __thread uint8_t pv[4096];
static long cnt[2]; static long cut[2][4]; static int ncut[2], icut[2]; static volatile int fin[2];
static sem_t go[2], done;
static int wop[2]; static bufs WB[2]; static int wbad[2];

static void resolve(void)
{
    if (!pa) return;
    for (size_t i = 0; i < pn; i++) if (pa[i] != pv[i]) wr[(pa + i - lo) >> 3] |= 1 << me;
    pa = NULL;
}
static void switch_to_other(void)
{
    int o = !me;
    if (fin[o]) return;
    sem_post(&go[o]);
    while (sem_wait(&go[me])) {}
}
static inline __attribute__((always_inline)) void access_(void *a, size_t n, int w)
{
    uint8_t *p = a;
    if (me < 0) return;
    if (pa) resolve();
    if (p + n <= lo || p >= hi || !n) return;
    if (p < lo) { n -= lo - p; p = lo; }
    if (p + n > hi) n = hi - p;
    size_t g0 = (p - lo) >> 3, g1 = (p + n - 1 - lo) >> 3;
    int c = 0;
    for (size_t g = g0; g <= g1; g++) { ac[g] |= 1 << me; c |= conf[g]; }
    if (c && exploring) {
        if (icut[me] < ncut[me] && cnt[me] == cut[me][icut[me]]) { icut[me]++; switch_to_other(); }
    }
    if (c) cnt[me]++;
    if (w && n <= sizeof pv) { pa = p; pn = n; memcpy(pv, p, n); }
    else if (w) for (size_t g = g0; g <= g1; g++) wr[g] |= 1 << me;
}
#define V __attribute__((visibility("default"), noinline))
V void __tsan_init(void) {}
V void __tsan_func_entry(void *p) { (void)p; }
V void __tsan_func_exit(void) { if (pa) resolve(); }
#define RW(n) V void __tsan_read##n(void *a) { access_(a, n, 0); } V void __tsan_write##n(void *a) { access_(a, n, 1); } \
    V void __tsan_unaligned_read##n(void *a) { access_(a, n, 0); } V void __tsan_unaligned_write##n(void *a) { access_(a, n, 1); } \
    V void __tsan_volatile_read##n(void *a) { access_(a, n, 0); } V void __tsan_volatile_write##n(void *a) { access_(a, n, 1); } \
    V void __tsan_unaligned_volatile_read##n(void *a) { access_(a, n, 0); } V void __tsan_unaligned_volatile_write##n(void *a) { access_(a, n, 1); } \
    V void __tsan_read_write##n(void *a) { access_(a, n, 1); } V void __tsan_unaligned_read_write##n(void *a) { access_(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
V void __tsan_read_range(void *a, size_t n) { access_(a, n, 0); }
V void __tsan_write_range(void *a, size_t n) { access_(a, n, 1); }
V void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
#define AT(n, T) \
    V T __tsan_atomic##n##_load(const T *a, int m) { (void)m; access_((void *)a, sizeof(T), 0); return __atomic_load_n(a, 5); } \
    V void __tsan_atomic##n##_store(T *a, T v, int m) { (void)m; access_((void *)a, sizeof(T), 1); __atomic_store_n(a, v, 5); } \
    V T __tsan_atomic##n##_exchange(T *a, T v, int m) { (void)m; access_((void *)a, sizeof(T), 1); return __atomic_exchange_n(a, v, 5); } \
    V T __tsan_atomic##n##_fetch_add(T *a, T v, int m) { (void)m; access_((void *)a, sizeof(T), 1); return __atomic_fetch_add(a, v, 5); } \
    V T __tsan_atomic##n##_fetch_sub(T *a, T v, int m) { (void)m; access_((void *)a, sizeof(T), 1); return __atomic_fetch_sub(a, v, 5); } \
    V T __tsan_atomic##n##_fetch_or(T *a, T v, int m) { (void)m; access_((void *)a, sizeof(T), 1); return __atomic_fetch_or(a, v, 5); } \
    V T __tsan_atomic##n##_fetch_and(T *a, T v, int m) { (void)m; access_((void *)a, sizeof(T), 1); return __atomic_fetch_and(a, v, 5); } \
    V int __tsan_atomic##n##_compare_exchange_strong(T *a, T *c, T v, int m, int f) { (void)m; (void)f; access_((void *)a, sizeof(T), 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    V int __tsan_atomic##n##_compare_exchange_weak(T *a, T *c, T v, int m, int f) { (void)m; (void)f; access_((void *)a, sizeof(T), 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
V void __tsan_atomic_thread_fence(int m) { (void)m; }
V void __tsan_atomic_signal_fence(int m) { (void)m; }
V void *__wrap_memcpy(void *d, const void *s, size_t n) { access_((void *)s, n, 0); access_(d, n, 1); memcpy(d, s, n); if (pa) resolve(); return d; }
V void *__wrap_memmove(void *d, const void *s, size_t n) { access_((void *)s, n, 0); access_(d, n, 1); memmove(d, s, n); if (pa) resolve(); return d; }
V void *__wrap_memset(void *d, int c, size_t n) { access_(d, n, 1); memset(d, c, n); if (pa) resolve(); return d; }

static void *worker(void *x)
{
    int t = (int)(intptr_t)x;
    for (;;) {
        while (sem_wait(&go[t])) {}
        ops_pre(wop[t], &WB[t]);
        me = t; pa = NULL;
        ops_call(wop[t], &WB[t]);
        if (pa) resolve();
        me = -1;
        wbad[t] = ops_bad(wop[t], &WB[t]);
        fin[t] = 1;
        if (fin[!t]) sem_post(&done); else sem_post(&go[!t]);
    }
    return NULL;
}
static long n_sched, n_switchpts, n_trunc, n_b1, n_b2;
/* runs both operations, thread `first` first; cuts: switch before the cut-th conflicting access of that thread */
static int run2(const uint8_t *mem, int first)
{
    rest(mem);
    cnt[0] = cnt[1] = icut[0] = icut[1] = 0; fin[0] = fin[1] = 0; wbad[0] = wbad[1] = 0;
    n_sched++; n_impl += 2; n_cmp += 2;
    sem_post(&go[first]);
    while (sem_wait(&done)) {}
    return wbad[0] || wbad[1];
}
static int conflicts(void)
{
    int n = 0;
    for (size_t g = 0; g < ngr; g++) {
        int c = conf[g] || ((wr[g] & 1) && (ac[g] & 2)) || ((wr[g] & 2) && (ac[g] & 1));
        if (c && !conf[g]) n++;
        conf[g] = c;
    }
    return n;
}
static void report(int st)
{
    char d[600]; int p = 0;
    for (int t = 0; t < 2; t++) {
        p += snprintf(d + p, sizeof d - p, "%s thread %d (%s) switches away before its conflicting access", t ? ";" : "", t, opn[wop[t]]);
        if (!ncut[t]) p += snprintf(d + p, sizeof d - p, " never");
        for (int i = 0; i < ncut[t]; i++) p += snprintf(d + p, sizeof d - p, " %ld", cut[t][i]);
    }
    viol("concurrent %s and %s, %s library: %s%s returned a result that differs from its result alone; schedule:%s", opn[wop[0]], opn[wop[1]], st ? "already used" : "unused",
         wbad[0] ? opn[wop[0]] : "", wbad[1] ? (wbad[0] ? " and the other" : opn[wop[1]]) : "", d);
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    dl_iterate_phdr(seg_cb, NULL);
    mkbase(6);
    setup();
    lo = hi = NULL;
    for (int i = 0; i < nS; i++) { if (!lo || S[i].p < lo) lo = S[i].p; if (S[i].p + S[i].n > hi) hi = S[i].p + S[i].n; }
    lo = (uint8_t *)((uintptr_t)lo & ~7ul);
    ngr = (hi - lo) / 8 + 2;
    wr = calloc(ngr, 1); ac = calloc(ngr, 1); conf = calloc(ngr, 1);
    for (int t = 0; t < 2; t++) { sem_init(&go[t], 0, 0); WB[t] = ops_bufs(); pthread_t th; pthread_create(&th, NULL, worker, (void *)(intptr_t)t); }
    sem_init(&done, 0, 0);
    uint8_t *mem[2] = {malloc(total + 1), malloc(total + 1)};
    save(mem[0]);
    for (int o = 0; o < NOP; o++) if (apply(o)) { CASE_ALWAYS("alone", o); viol("%s alone gives a wrong result in the instrumented build", opn[o]); }
    save(mem[1]);
    static const int qa[] = {0, 2, 5, 7}, qb[] = {1, 3, 6, 8}, ta[] = {0, 2, 4, 5, 7, 9, 10, 11}, tb[] = {1, 3, 6, 8, 0, 2, 5, 7, 9, 11};
    const int *A = thorough ? ta : qa, *Bq = thorough ? tb : qb; int na = thorough ? 8 : 4, nb = thorough ? 10 : 4;
    long cap1 = thorough ? 1000000 : 20000, cap2 = thorough ? 400000 : 1500;
    for (int st = 0; st < 2; st++)
        for (int i = 0; i < na; i++)
            for (int j = 0; j < nb; j++)
                if (CASE("pair", st, A[i], Bq[j])) {
                    wop[0] = A[i]; wop[1] = Bq[j];
                    memset(wr, 0, ngr); memset(ac, 0, ngr); memset(conf, 0, ngr);
                    int bad = 0, round = 0;
                    exploring = 0; ncut[0] = ncut[1] = 0;
                    /* footprints, both serial orders, both as first and as second call */
                    for (int f = 0; f < 2 && !bad; f++) if (run2(mem[st], f)) { report(st); bad = 1; }
                    conflicts();
                    exploring = 1;
                    while (!bad) {
                        long K[2];
                        run2(mem[st], 0); K[0] = cnt[0]; K[1] = cnt[1];
                        run2(mem[st], 1); if (cnt[0] > K[0]) K[0] = cnt[0]; if (cnt[1] > K[1]) K[1] = cnt[1];
                        if (!round) n_switchpts += K[0] + K[1];
                        for (int f = 0; f < 2 && !bad; f++) {       /* one preemption */
                            long stride = 1;
                            if (K[f] > cap1) { stride = K[f] / cap1 + 1; n_trunc++; }
                            for (long k = 0; k < K[f] && !bad; k += stride) {
                                ncut[f] = 1; cut[f][0] = k; ncut[!f] = 0; n_states++;
                                hc_where("pair %d %d, one preemption at %ld", A[i], Bq[j], k);
                                if (run2(mem[st], f)) { report(st); bad = 1; }
                            }
                        }
                        for (int f = 0; f < 2 && !bad; f++) {       /* two preemptions */
                            if (K[f] * K[!f] > cap2) { n_b1++; continue; }
                            n_b2++;
                            for (long k = 0; k < K[f] && !bad; k++)
                                for (long q = 0; q < K[!f] && !bad; q++) {
                                    ncut[f] = 1; cut[f][0] = k; ncut[!f] = 1; cut[!f][0] = q; n_states++;
                                    if (run2(mem[st], f)) { report(st); bad = 1; }
                                }
                        }
                        ncut[0] = ncut[1] = 0;
                        if (!conflicts() || ++round > 3) break;      /* an interleaving brought new conflicting memory: again with more switch points */
                    }
                    n_states++;
                    if (!bad && st == 1) { long c = 0; for (size_t g = 0; g < ngr; g++) c += conf[g]; if (!c) stat_add("pairs_without_shared_conflict", 1); }
                }
    stat_add("schedules", n_sched); stat_add("switch_points", n_switchpts); stat_add("pairs_with_thinned_schedules", n_trunc); stat_add("pair_orders_with_preemption_bound_1", n_b1); stat_add("pair_orders_with_preemption_bound_2", n_b2);
    hc_done();
}
