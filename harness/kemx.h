/* Shared helpers of the KEM drivers: one case, placed in every slot of a batch implementation. */
#pragma GCC diagnostic ignored "-Wunused-function"
#pragma once
#include "hc.h"
/* emulated implementations run some hundred times slower: smaller bounds */
__attribute__((weak)) int emu_slow; __attribute__((weak)) int emu_comp;
/* the compressed secret-key format only holds 4-bit signed coefficients */
static void canon_sk(uint8_t *isk)
{
    uint16_t c[256];
    if (!emu_comp) return;
    for (int i = 0; i < I.p.l; i++) { M_unpack(c, isk + 416 * i, 256, 13); for (int k = 0; k < 256; k++) c[k] = (c[k] & 8 ? (c[k] & 15) - 16 : c[k] & 15) & 8191; M_pack(isk + 416 * i, c, 256, 13); }
}
#define MAXL 4
typedef struct { uint8_t pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[32], rk[96], re[32]; } base_t;
static base_t B[8];              /* honest instances computed by the model */
static uint8_t *bp, *bs, *bc, *bk; /* lane-concatenated buffers, 64-byte aligned */

#ifndef EMU
#include <sys/wait.h>
/* the inner encryption is no public interface: it is only called directly while it answers like one on ordinary inputs */
static void cpa_check(void)
{
    static uint8_t w[MAXCT], o[4][MAXCT] __attribute__((aligned(64))), mm[4][64], ss[4][64], dd[4][64];
    static uint8_t pp[4][1344] __attribute__((aligned(64))), kk[4][1664] __attribute__((aligned(64)));
    if (!have_cpa()) return;
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        uint8_t *am[4], *as[4], *ap[4], *ac[4], *ak[4], *ad[4];
        int bad = 0;
        for (int sig = 1; sig < 32; sig++) signal(sig, SIG_DFL);
        for (int j = 0; j < I.lanes; j++) {
            memcpy(am[j] = mm[j], B[1 + j].re, 32); memcpy(as[j] = ss[j], B[1 + j].rk, 32); memcpy(ap[j] = pp[j], B[1 + j].pk, I.pkb);
            memcpy(ak[j] = kk[j], B[1 + j].sk, I.iskb); ac[j] = o[j]; ad[j] = dd[j];
        }
        imp_cpa_enc(am, as, ap, ac);
        for (int j = 0; j < I.lanes; j++) { M_cpa_enc(&I.p, w, B[1 + j].re, B[1 + j].rk, B[1 + j].pk); bad |= !!memcmp(w, o[j], I.ctb); }
        imp_cpa_dec(ak, ac, ad);
        for (int j = 0; j < I.lanes; j++) bad |= !!memcmp(dd[j], B[1 + j].re, 32);
        _exit(bad);
    }
    int st = 1;
    if (pid < 0 || waitpid(pid, &st, 0) != pid || st) {
        printf("NOTE %s: the inner encryption has another interface; it is exercised through the KEM only\n", I.name);
        I.cpa_enc = I.cpa_dec = NULL;
    }
}
#endif
static void mkbase(int n)
{
    for (int i = 0; i < n; i++) {
        fill(B[i].rk, 96, 100 + i); fill(B[i].re, 32, 200 + i);
        M_keypair(&I.p, B[i].pk, B[i].sk, B[i].rk);
        M_enc(&I.p, B[i].ct, B[i].ss, B[i].pk, B[i].re);
    }
#ifndef EMU
    cpa_check();
#endif
    bp = aligned_alloc(64, 8192); bs = aligned_alloc(64, 16384); bc = aligned_alloc(64, 8192); bk = aligned_alloc(64, 256);
}
static int first_diff(const uint8_t *a, const uint8_t *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return i; return -1; }

/* one decapsulation case; in the batch code it is placed in every slot in turn, the others holding honest instances */
static void dec_case(const uint8_t *sk, const uint8_t *ct, const uint8_t *want, const char *what)
{
    for (int L = 0; L < I.lanes; L++) {
        for (int j = 0; j < I.lanes; j++) {
            memcpy(bs + j * I.skb, j == L ? sk : B[1 + j].sk, I.skb);
            memcpy(bc + j * I.ctb, j == L ? ct : B[1 + j].ct, I.ctb);
        }
        memset(bk, 0xA5, 32 * I.lanes);
        rnd_set((const uint8_t *)"", 0);
        int rc = I.dec(bk, bc, bs);
        n_impl++;
        if (rc) viol("%s: status %d", what, rc);
        if (rnd_pos) viol("%s: decapsulation drew %ld random bytes", what, (long)rnd_pos);
        for (int j = 0; j < I.lanes; j++) {
            n_cmp++;
            if (memcmp(bk + 32 * j, j == L ? want : B[1 + j].ss, 32)) {
                const char *k = "";
                if (j == L && !memcmp(bk + 32 * j, B[0].ss, 32)) k = " (it is the honest key)";
                viol("%s: shared secret of slot %d differs from the specified one%s (case in slot %d)", what, j, k, L);
            }
        }
    }
}
/* rejected-ciphertext case: cheap expected value; the full model settles a disagreement */
static void rej_case(const uint8_t *sk, const uint8_t *ct, const char *what)
{
    uint8_t want[32];
    M_reject(&I.p, want, ct, sk);
    for (int L = 0; L < I.lanes; L++) {
        for (int j = 0; j < I.lanes; j++) {
            memcpy(bs + j * I.skb, j == L ? sk : B[1 + j].sk, I.skb);
            memcpy(bc + j * I.ctb, j == L ? ct : B[1 + j].ct, I.ctb);
        }
        memset(bk, 0xA5, 32 * I.lanes);
        int rc = I.dec(bk, bc, bs);
        n_impl++;
        int bad = rc != 0;
        for (int j = 0; j < I.lanes; j++) { n_cmp++; if (memcmp(bk + 32 * j, j == L ? want : B[1 + j].ss, 32)) bad = 1; }
        if (bad) { M_dec(&I.p, want, ct, sk); dec_case(sk, ct, want, what); return; }
    }
}
static void kp_case(const uint8_t *rnd, const char *what)  /* rnd: 96 bytes for the lane under test */
{
    static uint8_t wp[MAXPK], ws[MAXSK];
    uint8_t all[96 * MAXL];
    M_keypair(&I.p, wp, ws, rnd);
    for (int L = 0; L < I.lanes; L++) {
        for (int j = 0; j < I.lanes; j++) memcpy(all + 96 * j, j == L ? rnd : B[1 + j].rk, 96);
        rnd_set(all, 96 * I.lanes);
        memset(bp, 0x5A, I.pkb * I.lanes); memset(bs, 0x5A, I.skb * I.lanes);
        int rc = I.kp(bp, bs);
        n_impl++;
        if (rc) viol("%s: status %d", what, rc);
        if (rnd_pos != 96u * I.lanes) viol("%s: key generation drew %ld random bytes", what, (long)rnd_pos);
        for (int j = 0; j < I.lanes; j++) {
            int d;
            n_cmp++;
            if ((d = first_diff(bp + j * I.pkb, j == L ? wp : B[1 + j].pk, I.pkb)) >= 0) viol("%s: public key byte %d of slot %d differs from the specification", what, d, j);
            if ((d = first_diff(bs + j * I.skb, j == L ? ws : B[1 + j].sk, I.skb)) >= 0) viol("%s: secret key byte %d of slot %d differs from the specification", what, d, j);
        }
    }
}
static void enc_case(const uint8_t *pk, const uint8_t *rnd, const char *what)
{
    static uint8_t wc[MAXCT]; uint8_t wk[32], all[32 * MAXL];
    M_enc(&I.p, wc, wk, pk, rnd);
    for (int L = 0; L < I.lanes; L++) {
        for (int j = 0; j < I.lanes; j++) {
            memcpy(all + 32 * j, j == L ? rnd : B[1 + j].re, 32);
            memcpy(bp + j * I.pkb, j == L ? pk : B[1 + j].pk, I.pkb);
        }
        rnd_set(all, 32 * I.lanes);
        memset(bc, 0x5A, I.ctb * I.lanes); memset(bk, 0x5A, 32 * I.lanes);
        int rc = I.enc(bc, bk, bp);
        n_impl++;
        if (rc) viol("%s: status %d", what, rc);
        if (rnd_pos != 32u * I.lanes) viol("%s: encapsulation drew %ld random bytes", what, (long)rnd_pos);
        for (int j = 0; j < I.lanes; j++) {
            int d;
            n_cmp++;
            if ((d = first_diff(bc + j * I.ctb, j == L ? wc : B[1 + j].ct, I.ctb)) >= 0) viol("%s: ciphertext byte %d of slot %d differs from the specification", what, d, j);
            if (memcmp(bk + 32 * j, j == L ? wk : B[1 + j].ss, 32)) viol("%s: shared secret of slot %d differs from the specification", what, j);
        }
    }
}
static uint8_t *P4(uint8_t *arr[4], uint8_t *x, int L, int off) { (void)off; arr[L] = x; return x; }
static void cpaenc_case(const uint8_t *m, const uint8_t *sd, const uint8_t *pk, const char *what)
{
    static uint8_t wc[MAXCT] __attribute__((aligned(64))), o[4][MAXCT] __attribute__((aligned(64))), mm[4][64], ss[4][64];
    static uint8_t pp[4][1344] __attribute__((aligned(64)));
    uint8_t *am[4], *as[4], *ap[4], *ac[4];
    if (!have_cpa()) return;
    M_cpa_enc(&I.p, wc, m, sd, pk);
    for (int L = 0; L < I.lanes; L++) {
        for (int j = 0; j < I.lanes; j++) {
            memcpy(mm[j], j == L ? m : B[1 + j].re, 32); memcpy(ss[j], j == L ? sd : B[1 + j].rk, 32); memcpy(pp[j], j == L ? pk : B[1 + j].pk, I.pkb);
            P4(am, mm[j], j, 0); P4(as, ss[j], j, 0); P4(ap, pp[j], j, 0); P4(ac, o[j], j, 0);
        }
        imp_cpa_enc(am, as, ap, ac);
        n_cmp++;
        int d = first_diff(o[L], wc, I.ctb);
        if (d >= 0) viol("%s: ciphertext byte %d (slot %d) differs from the specified encryption", what, d, L);
    }
}
static void cpadec_case(const uint8_t *isk, const uint8_t *ct, const char *what)
{
    static uint8_t o[4][64], ss[4][1664] __attribute__((aligned(64))), cc[4][1536] __attribute__((aligned(64)));
    uint8_t want[32], *as[4], *ac[4], *am[4];
    if (!have_cpa()) return;
    M_cpa_dec(&I.p, want, isk, ct);
    for (int L = 0; L < I.lanes; L++) {
        for (int j = 0; j < I.lanes; j++) {
            memcpy(ss[j], j == L ? isk : B[1 + j].sk, I.iskb); memcpy(cc[j], j == L ? ct : B[1 + j].ct, I.ctb);
            as[j] = ss[j]; ac[j] = cc[j]; am[j] = o[j]; memset(o[j], 0x77, 32);
        }
        imp_cpa_dec(as, ac, am);
        n_cmp++;
        int d = first_diff(o[L], want, 32);
        if (d >= 0) viol("%s: decrypted message byte %d (slot %d) is %02x, specified %02x", what, d, L, o[L][d], want[d]);
    }
}

