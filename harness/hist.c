/* P15: explicit-state exploration of call histories.  A state is the content of the library's writable memory. */
#define _GNU_SOURCE
#include "kemx.h"
#include <unistd.h>
#include "ops.h"
static char hist[2000];
typedef struct { uint8_t *mem; int parent, op, depth; } node;
static node *N; static int nN;
static uint64_t hashm(const uint8_t *b) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < total; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
static uint64_t *H;
static void path(int n, int o)
{
    char t[2000];
    snprintf(hist, sizeof hist, "%s", opn[o]);
    for (; N[n].parent >= 0; n = N[n].parent) { snprintf(t, sizeof t, "%s, %s", opn[N[n].op], hist); memcpy(hist, t, sizeof t); }
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    dl_iterate_phdr(seg_cb, NULL);
    mkbase(6);
    setup();
    int maxd = thorough ? 6 : 4, cap = thorough ? 60000 : 4000, fix = 1;
    N = calloc(cap + 1, sizeof *N); H = calloc(cap + 1, 8);
    uint8_t *cur = malloc(total + 1);
    uint8_t *init = malloc(total + 1); save(init);
    N[0].mem = malloc(total + 1); save(N[0].mem); N[0].parent = -1; H[0] = hashm(N[0].mem); nN = 1;
    long pairs = 0;
    if (CASE_ALWAYS("bfs", maxd)) {
        int stop = 0;
        for (int i = 0; i < nN && !stop; i++) {
            if (N[i].depth >= maxd) { fix = 0; continue; }
            for (int o = 0; o < NOP; o++) {
                rest(N[i].mem);
                hc_where("history %d/%s", i, opn[o]);
                int bad = apply(o);
                if (bad) { path(i, o); viol("history [%s]: the last call's result is not the one its inputs determine", hist); stop = 1; break; }
                save(cur);
                uint64_t h = hashm(cur);
                int k; for (k = 0; k < nN; k++) if (H[k] == h && !memcmp(N[k].mem, cur, total)) break;
                pairs++;
                if (k == nN) {
                    if (nN >= cap) { fix = 0; continue; }
                    N[nN].mem = malloc(total + 1); memcpy(N[nN].mem, cur, total); N[nN].parent = i; N[nN].op = o; N[nN].depth = N[i].depth + 1; H[nN++] = h;
                }
            }
        }
        n_states += nN;
        if (!fix && !stop) {
            /* words still changing at the last depths (call counters): enumerate their range instead, and close the quotient without them */
            size_t *w = malloc(sizeof(size_t) * (total / 8 + 1)); int nw = 0;
            for (size_t a = 0; a + 8 <= total; a += 8)
                for (int i = 1; i < nN; i++) if (N[i].depth >= 2 && N[i].depth == N[N[i].parent].depth + 1 && memcmp(N[i].mem + a, N[N[i].parent].mem + a, 8)) { w[nw++] = a; break; }
            /* only words that behave as counters over a long real history (never decrease, small steps) */
            if (nw <= 64) {
                uint64_t last[64], v; int okc[64], m = 0;
                rest(init); save(cur);
                for (int j = 0; j < nw; j++) { memcpy(&last[j], cur + w[j], 8); okc[j] = 1; }
                for (int r = 0; r < 3600 && !stop; r++) {
                    if (apply(r < 1200 ? r % NOP : (r / 100) % NOP)) { viol("call %d of a long mixed history gives another result", r); stop = 1; }
                    save(cur);
                    for (int j = 0; j < nw; j++) { memcpy(&v, cur + w[j], 8); if (v < last[j] || v - last[j] > 1 << 20) okc[j] = 0; last[j] = v; }
                }
                for (int j = 0; j < nw; j++) if (okc[j]) w[m++] = w[j];
                nw = m;
            } else nw = 0;
            for (int i = 0; i < nw && !stop; i++)
                for (int k = 0; k <= 128 && !stop; k++)
                    for (int o = 0; o < NOP; o++) {
                        uint64_t v = k < 64 ? 1ull << k : k < 128 ? (1ull << (k - 64)) - 1 : ~0ull;
                        memcpy(cur, N[nN - 1].mem, total); memcpy(cur + w[i], &v, 8);
                        rest(cur);
                        hc_where("counter word %zu = %llx, %s", w[i], (unsigned long long)v, opn[o]);
                        pairs++;
                        if (apply(o)) { viol("after a history that leaves the library's variable at data offset %zu at 0x%llx, %s gives another result", w[i], (unsigned long long)v, opn[o]); stop = 1; break; }
                    }
            /* quotient */
            int reps = 0; int *rep = malloc(sizeof(int) * (nN + 1));
            for (int i = 0; i < nN; i++) for (int j = 0; j < nw; j++) memset(N[i].mem + w[j], 0, 8);
            int grow = 0;
            for (int i = 0; i < nN; i++) {
                int k; for (k = 0; k < reps; k++) if (!memcmp(N[rep[k]].mem, N[i].mem, total)) break;
                if (k == reps) { rep[reps++] = i; if (N[i].depth >= maxd) grow = 1; }
            }
            if (!grow && nw && !stop) { fix = 1; stat_add("counter_words_abstracted", nw); }
            free(w); free(rep);
        }
        stat_add("history_states", nN); stat_add("history_transitions", pairs);
        stat_add("fixpoints_reached", fix); stat_add("configurations", 1);
    }
    /* all sequences, run on without restoring (also covers thread-local and heap state) */
    long tot = 1; int d = thorough ? 4 : 2;
    rest(init);
    for (int i = 0; i < d; i++) tot *= NOP;
    if (CASE_ALWAYS("sequences", d))
        for (long s = 0; s < tot; s++) {
            long v = s; int bad = 0;
            for (int i = 0; i < d && !bad; i++, v /= NOP) { bad = apply(v % NOP); if (bad) viol("call %d (%s) of sequence %ld (depth %d): result is not the one its inputs determine", i, opn[v % NOP], s, d); }
            n_states++;
            if (bad) break;
        }
    /* every call whose input differs from the preceding call's in one byte (or in two cancelling bytes): the result must be that of a fresh library */
    {
        uint8_t *init2 = malloc(total + 1); memcpy(init2, init, total);
        bufs b = {bp, bs, bc, bk};
        static uint8_t f1[8192], f2[16384], f3[256];
        int base[3] = {0, 2, 5};
        for (int t = 0; t < 5; t++) {      /* varied: key generation tape, encapsulation key, its tape, secret key, ciphertext */
            int o = t == 0 ? 0 : t < 3 ? 2 : 5, len = t == 0 ? 96 : t == 1 ? I.pkb : t == 2 ? 32 : t == 3 ? I.skb : I.ctb;
            for (int i = 0; i < len * I.lanes; i++) {
                if (!CASE("near", t, i)) continue;
                for (int two = 0; two < (thorough ? 2 : 1); two++)
                    for (int pr = -1; pr < 3; pr++) {      /* -1: fresh */
                        rest(init2);
                        if (pr >= 0) apply(base[pr]);
                        ops_pre(o, &b);
                        uint8_t *x = t == 0 || t == 2 ? rnd_q : t == 1 ? b.p : t == 3 ? b.s : b.c;
                        x[i] ^= 1 + (i & 0x7f);
                        if (two) x[(i / len) * len + (i % len + 8) % len] ^= 1 + (i & 0x7f);
                        hc_where("%s with byte %d of input %d changed", opn[o], i, t);
                        ops_call(o, &b); n_impl++;
                        if (pr < 0) { memcpy(f1, kind[o] == 0 ? b.p : b.c, 8192); memcpy(f2, b.s, 16384); memcpy(f3, b.k, 256); n_states++; continue; }
                        n_cmp++;
                        if (memcmp(f3, b.k, 32 * I.lanes * (kind[o] > 0)) || (kind[o] == 0 && (memcmp(f1, b.p, I.pkb * I.lanes) || memcmp(f2, b.s, I.skb * I.lanes))) || (kind[o] == 1 && memcmp(f1, b.c, I.ctb * I.lanes)))
                            viol("%s, with byte %d of its %s changed, gives another result after %s than in a fresh library", opn[o], i, (const char *[]){"random input", "public key", "random input", "secret key", "ciphertext"}[t], opn[base[pr]]);
                    }
            }
        }
        rest(init);
    }
    /* long histories of one repeated call followed by each other call */
    for (int o = 0; o < NOP; o++)
        if (CASE_ALWAYS("repeat", o)) {
            int reps = thorough ? 20000 : kind[o] == 1 ? 300 : 270, bad = 0;
            rest(init);
            for (int i = 0; i < reps && !bad; i++) { bad = apply(o); if (bad) viol("%s repeated: call number %d gives another result", opn[o], i + 1); }
            for (int q = 0; q < NOP && !bad; q++) { bad = apply(q); if (bad) viol("%s after %d times %s gives another result", opn[q], reps, opn[o]); }
            n_states++;
        }
    hc_done();
}
