/* P05 (ring arithmetic) and P06 (sampler): the extendable-output function is replaced, at link time,
 * by a programmable oracle, so that the matrix and the secret can be chosen freely. */
#include "kemx.h"

static struct { uint8_t seed[32]; const uint8_t *st; size_t n; int on; long used; } prog[4];
static int prog_enabled = 1;
static int lookup(uint8_t *o, size_t on, const uint8_t *in, size_t n, int count)
{
    if (n != 32) return 0;
    for (int i = 0; i < 4; i++)
        if (prog[i].on && on > 32 && !memcmp(prog[i].seed, in, 32)) {
            size_t k = on < prog[i].n ? on : prog[i].n;
            memcpy(o, prog[i].st, k);
            if (on > k) memset(o + k, 0xDB, on - k);
            prog[i].used += count;
            return 1;
        }
    return 0;
}
static int model_override(uint8_t *o, size_t on, const uint8_t *in, size_t n) { return lookup(o, on, in, n, 0); }
#ifndef EMU
typedef void (*shake_t)(uint8_t *, unsigned long long, const uint8_t *, unsigned long long);
typedef void (*shake4_t)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, unsigned long long, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, unsigned long long);
typedef void (*aes_t)(uint8_t *, unsigned long long, const uint8_t *);
void __wrap_shake128(uint8_t *o, unsigned long long on, const uint8_t *in, unsigned long long n)
{
    static shake_t real;
    if (!real) real = (shake_t)hc_sym(&I, "shake128");
    if (!lookup(o, on, in, n, 1)) real(o, on, in, n);
}
void __wrap_shake128x4(uint8_t *o0, uint8_t *o1, uint8_t *o2, uint8_t *o3, unsigned long long on, const uint8_t *i0, const uint8_t *i1, const uint8_t *i2, const uint8_t *i3, unsigned long long n)
{
    static shake4_t real;
    if (!real) real = (shake4_t)hc_sym(&I, "shake128x4");
    uint8_t s[4][64];
    if (n == 32) { memcpy(s[0], i0, 32); memcpy(s[1], i1, 32); memcpy(s[2], i2, 32); memcpy(s[3], i3, 32); }
    real(o0, o1, o2, o3, on, i0, i1, i2, i3, n);
    if (n != 32) return;
    uint8_t *o[4] = {o0, o1, o2, o3};
    for (int j = 0; j < 4; j++) lookup(o[j], on, s[j], n, 1);
}
void __wrap_saber_aes256ctr_prf(uint8_t *o, unsigned long long on, const uint8_t *in)
{
    static aes_t real;
    if (!real) real = (aes_t)hc_sym(&I, "saber_aes256ctr_prf");
    if (!lookup(o, on, in, 32, 1)) real(o, on, in);
}
#endif

static uint8_t stA[4 * 4 * 416 + 64], stS[4 * 320 + 64];
static uint8_t rk[96], seedA[32], coin[32], pkx[MAXPK], msg[32];
static uint16_t A[4][4][256]; static uint16_t S[4][256];   /* S: noise groups giving chosen secrets */

static void set_prog(void)
{
    memset(prog, 0, sizeof prog);
    fill(rk, 96, 4242); fill(coin, 32, 4243);
    M_xof_override = NULL;
    M_prf(&I.p, seedA, 32, rk);
    M_xof_override = model_override;
    memcpy(prog[0].seed, seedA, 32); prog[0].st = stA; prog[0].n = m_matb(&I.p);
    memcpy(prog[1].seed, rk + 32, 32); prog[1].st = stS; prog[1].n = m_noiseb(&I.p);
    memcpy(prog[2].seed, coin, 32); prog[2].st = stS; prog[2].n = m_noiseb(&I.p);
    for (int i = 0; i < 3; i++) prog[i].on = prog_enabled;
}
/* a group of bits that samples to value v (v within range) */
static int group_of(int v)
{
    int w = I.p.mu / 2;
    if (I.p.u) return v & 3;
    return v >= 0 ? (1 << v) - 1 : ((1 << -v) - 1) << w;
}
static int smax(void) { return I.p.u ? 1 : I.p.mu / 2; }
static int smin(void) { return I.p.u ? -2 : -I.p.mu / 2; }
static void load(void)
{
    int w = I.p.u ? 2 : I.p.mu;
    for (int i = 0; i < I.p.l; i++) {
        for (int j = 0; j < I.p.l; j++) M_pack(stA + (i * I.p.l + j) * 32 * I.p.eq, A[i][j], 256, I.p.eq);
        M_pack(stS + i * 32 * w, S[i], 256, w);
    }
}
static void zero(void) { memset(A, 0, sizeof A); int g = group_of(0); for (int i = 0; i < 4; i++) for (int k = 0; k < 256; k++) S[i][k] = g; }
static void both(const char *what, int do_enc)
{
    load();
    kp_case(rk, what);
    if (do_enc) {
        memcpy(pkx + I.p.l * 320, seedA, 32);
        cpaenc_case(msg, coin, pkx, what);
    }
}
static int calibrate(void)
{
    zero();
    for (int i = 0; i < I.p.l; i++) A[i][i][0] = 8;
    load();
    rnd_set(rk, 96);
    for (int j = 1; j < I.lanes; j++) { uint8_t t[384]; for (int q = 0; q < 4; q++) memcpy(t + 96 * q, q ? B[q].rk : rk, 96); rnd_set(t, 384); }
    I.kp(bp, bs);
    if (!(prog[0].used > 0 && prog[1].used > 0)) return 0;
#ifndef EMU
    if (have_cpa()) { /* and in encryption */
        static uint8_t o[4][MAXCT] __attribute__((aligned(64))), mm[4][64], ss[4][64], pp[4][1344] __attribute__((aligned(64)));
        uint8_t *am[4], *as[4], *ap[4], *ac[4];
        long u = prog[0].used;
        memcpy(pkx + I.p.l * 320, seedA, 32);
        for (int j = 0; j < I.lanes; j++) {
            am[j] = mm[j]; memcpy(as[j] = ss[j], j ? B[1 + j].rk : coin, 32); memcpy(ap[j] = pp[j], j ? B[1 + j].pk : pkx, I.pkb); ac[j] = o[j];
        }
        imp_cpa_enc(am, as, ap, ac);
        if (prog[0].used == u || !prog[2].used) return 0;
    }
#endif
    return 1;
}
static void dense(uint16_t *c, int pat, int w)
{
    int m = (1 << w) - 1;
    uint8_t b[512];
    switch (pat) {
    case 0: fill(b, 512, 71); for (int k = 0; k < 256; k++) c[k] = (b[2 * k] | b[2 * k + 1] << 8) & m; break;
    case 1: for (int k = 0; k < 256; k++) c[k] = m; break;
    case 2: for (int k = 0; k < 256; k++) c[k] = 1; break;
    case 3: for (int k = 0; k < 256; k++) c[k] = (m + 1) >> 1; break;
    case 4: for (int k = 0; k < 256; k++) c[k] = (k * 31 + 1) & m; break;
    case 5: for (int k = 0; k < 256; k++) c[k] = k & 1 ? m : 0; break;
    case 6: for (int k = 0; k < 256; k++) c[k] = k & 16 ? m : 4; break;
    default: fill(b, 512, 71 + pat); for (int k = 0; k < 256; k++) c[k] = (b[2 * k] | b[2 * k + 1] << 8) & m; break;
    }
}
static void dense_s(uint16_t *g, int pat)
{
    for (int k = 0; k < 256; k++) {
        int v;
        switch (pat) {
        case 0: v = smax(); break;
        case 1: v = smin(); break;
        case 2: v = k & 1 ? smin() : smax(); break;
        case 3: v = k & 64 ? smin() : smax(); break;
        case 4: v = smin() + (k * 5 + k / 16) % (smax() - smin() + 1); break;
        default: v = k & 16 ? smin() : smax(); break;
        }
        g[k] = group_of(v);
    }
}

static void p05(int full)
{
    int l = I.p.l, np = full || thorough ? 8 : 3;
    /* where each matrix entry and vector entry acts: all l^3 combinations, all degrees */
    for (int r = 0; r < l; r++) for (int c = 0; c < l; c++) for (int j = 0; j < l; j++)
        for (int d = 0; d < 256; d += full || thorough ? 1 : 16) {
            if (!CASE("slot", r, c, j, d)) continue;
            n_states++;
            zero(); A[r][c][d] = 8 * (3 + d); S[j][(d * 7) & 255] = group_of(d & 1 ? smax() : smin());
            memset(pkx, 0, sizeof pkx); both("one matrix entry, one secret entry", 1);
        }
    /* every monomial of the secret, every coefficient of a dense matrix at once */
    for (int j = 0; j < l; j++)
        for (int k = 0; k < 256; k++)
            for (int v = smin(); v <= smax(); v++)
                for (int p = 0; p < np; p++) {
                    if (!v) continue;
                    if (!full && !thorough && (v != smax() && v != smin() && v != 1)) continue;
                    if (emu_slow && !thorough && (p != k % 3 || v == 1)) continue;
                    if (!CASE("smono", j, k, v, p)) continue;
                    n_states += 256 * l;
                    zero();
                    for (int a = 0; a < l; a++) for (int b = 0; b < l; b++) dense(A[a][b], p ? p : 10 + a * 4 + b, I.p.eq);
                    S[j][k] = group_of(v);
                    for (int a = 0; a < l; a++) { uint16_t t[256]; dense(t, p ? p : 40 + a, 10); M_pack(pkx + a * 320, t, 256, 10); }
                    memset(msg, k, 32);
                    both("dense matrix, monomial secret", 1);
                }
    /* every monomial of the matrix, dense secrets */
    for (int r = 0; r < l; r++) for (int c = 0; c < l; c++)
        for (int k = 0; k < 256; k++)
            for (int p = 0; p < (full || thorough ? 6 : 2); p++) {
                if (emu_slow && !thorough && p != k % 2) continue;
                if (!CASE("amono", r, c, k, p)) continue;
                n_states += 256;
                zero();
                A[r][c][k] = (p & 1 ? 8191 : 4097 + k) & ((1 << I.p.eq) - 1);
                for (int j = 0; j < l; j++) dense_s(S[j], (p + j) % 6);
                for (int a = 0; a < l; a++) { uint16_t t[256] = {0}; if (a == r) t[k] = 1023 - p; M_pack(pkx + a * 320, t, 256, 10); }
                both("monomial matrix, dense secret", 1);
            }
    /* four-block patterns of extreme values in both operands: 4^4 x 4^4 */
    static const int av[] = {0, 1, 8191, 4096};
    for (int x = 0; x < 256; x++)
        for (int y = 0; y < 256; y++) {
            if (!thorough && (full ? (x + y) % 4 : (x * 7 + y) % 61)) continue;
            if (!CASE("block", x, y)) continue;
            n_states++;
            zero();
            int j0 = (x + y) % l, sv[4] = {0, smax(), smin(), 1};
            for (int k = 0; k < 256; k++) {
                int q = k / 64;
                for (int c = 0; c < l; c++) A[j0][c][k] = A[c][j0][k] = av[(x >> (2 * q)) & 3] & ((1 << I.p.eq) - 1);
                S[j0][k] = group_of(sv[(y >> (2 * q)) & 3]);
            }
            for (int a = 0; a < l; a++) { uint16_t t[256]; for (int k = 0; k < 256; k++) t[k] = av[(x >> (2 * (k / 64))) & 3] >> 3; M_pack(pkx + a * 320, t, 256, 10); }
            both("block pattern", 1);
        }
    /* everything extreme at once: all entries dense */
    for (int p = 0; p < 12; p++)
        for (int q = 0; q < 6; q++) {
            if (!CASE("dense", p, q)) continue;
            n_states++;
            zero();
            for (int a = 0; a < l; a++) { for (int b = 0; b < l; b++) dense(A[a][b], p, I.p.eq); dense_s(S[a], q); }
            for (int a = 0; a < l; a++) { uint16_t t[256]; dense(t, p, 10); M_pack(pkx + a * 320, t, 256, 10); }
            both("dense operands", 1);
        }
    /* every value of every secret coefficient with every constant matrix value: v * a over all a */
    for (int a = 0; a < (1 << I.p.eq); a++) {
        if (!thorough && (full ? a % 16 : a % 128) && a % 1023) continue;
        if (!CASE("aval", a)) continue;
        n_states += (smax() - smin() + 1);
        zero();
        for (int r = 0; r < l; r++) for (int c = 0; c < l; c++) for (int k = 0; k < 256; k++) A[r][c][k] = (a + 331 * k + 17 * c + r) & ((1 << I.p.eq) - 1);
        for (int k = 0; k < 256; k++) S[a % l][k] = group_of(smin() + (k + a) % (smax() - smin() + 1));
        both("all matrix values", 1);
    }
    /* decryption side: block patterns of arbitrary 13-bit secrets against 10-bit ciphertext coefficients */
    static const int sv2[] = {0, 1, 8191, 4096};
    if (have_cpa())
        for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) {
            if (!thorough && (full ? (x + y) % 2 : (x * 7 + y) % 31)) continue;
            if (!CASE("decblock", x, y)) continue;
            n_states++;
            static uint8_t isk[MAXSK], ct[MAXCT]; uint16_t t[256];
            memset(isk, 0, sizeof isk); memset(ct, 0, sizeof ct);
            for (int i = 0; i < l; i++) {
                for (int k = 0; k < 256; k++) t[k] = sv2[(x >> (2 * (k / 64))) & 3];
                M_pack(isk + i * 32 * I.p.eq, t, 256, I.p.eq);
                for (int k = 0; k < 256; k++) t[k] = av[(y >> (2 * (k / 64))) & 3] >> 3;
                M_pack(ct + i * 320, t, 256, 10);
            }
            for (int k = 0; k < 256; k++) t[k] = k;
            M_pack(ct + l * 320, t, 256, I.p.et);
            canon_sk(isk);
            cpadec_case(isk, ct, "decryption of block patterns");
        }
}

static void p06(int full)
{
    int l = I.p.l, w = I.p.u ? 2 : I.p.mu;
    (void)full;
    /* run v: group at position k of polynomial i holds value v + stride*k + ...: every value at every position */
    for (int o = 0; o < (thorough ? 8 : 2); o++)
        for (int v = 0; v < (1 << w); v++) {
            if (!CASE("latin", o, v)) continue;
            n_states += l * 256;
            zero();
            for (int i = 0; i < l; i++) A[i][i][0] = 8;    /* encryption then publishes s' itself */
            for (int i = 0; i < l; i++) for (int k = 0; k < 256; k++) S[i][k] = (v + (2 * o + 1) * k + (k / 16) + 5 * i) & ((1 << w) - 1);
            memset(pkx, 0, sizeof pkx);
            both("sampler", 1);
        }
    /* every single bit set / cleared: it influences its own coefficient only */
    for (int base = 0; base < 2; base++)
        for (int bit = 0; bit < l * 256 * w; bit++) {
            if (!full && !thorough && bit % (emu_slow ? 9 : 3)) continue;
            if (!CASE("bit", base, bit)) continue;
            n_states++;
            zero();
            for (int i = 0; i < l; i++) A[i][i][0] = 8;
            for (int i = 0; i < l; i++) for (int k = 0; k < 256; k++) S[i][k] = base ? (1 << w) - 1 : 0;
            int g = bit / w;
            S[g / 256][g % 256] ^= 1 << (bit % w);
            both("sampler, one bit", bit % 5 == 0);
        }
    /* one group at a time, every value, all other groups zero / full */
    for (int base = 0; base < 2; base++)
        for (int i = 0; i < l; i++)
            for (int k = 0; k < 256; k += full || thorough ? 1 : emu_slow ? 15 : 5)
                for (int v = 0; v < (1 << w); v += thorough ? 1 : full ? 7 : 37) {
                    if (!CASE("group", base, i, k, v)) continue;
                    n_states++;
                    zero();
                    for (int a = 0; a < l; a++) for (int q = 0; q < 256; q++) S[a][q] = base ? (1 << w) - 1 : 0;
                    S[i][k] = (v + k) & ((1 << w) - 1);
                    both("sampler, one group", 0);
                }
    /* the exact distribution: over all 2^w groups each value occurs C(mu, mu/2+v) times */
    if (CASE("law", 0)) {
        long cnt[64] = {0};
        static uint8_t sk[MAXSK];
        uint16_t t[256];
        n_states++;
        int m0 = smin(), m1 = smax();
        int lim = (1 << w) < 256 ? 256 : (1 << w);
        for (int off = 0; off < lim; off += 256) {
            zero();
            for (int k = 0; k < 256; k++) S[0][k] = (off + k) & ((1 << w) - 1);
            load();
            uint8_t all[384];
            for (int q = 0; q < 4; q++) memcpy(all + 96 * q, q ? B[q].rk : rk, 96);
            rnd_set(all, 96 * I.lanes);
            I.kp(bp, bs); n_impl++;
            memcpy(sk, bs, I.skb);
            M_unpack(t, sk, 256, I.p.eq);
            for (int k = 0; k < 256; k++) {
                int v = t[k] >= (1 << (I.p.eq - 1)) ? t[k] - (1 << I.p.eq) : t[k];
                if (v < m0 || v > m1) viol("sampled value %d leaves [%d,%d]", v, m0, m1); else cnt[v - m0]++;
            }
        }
        for (int v = m0; v <= m1; v++) {
            double e = 1; int n = I.p.mu, r = I.p.mu / 2 + v;
            for (int i = 0; i < r; i++) e = e * (n - i) / (i + 1);
            long want = I.p.u ? 64 : (long)(e + 0.5) * (lim >> w);
            n_cmp++;
            if (cnt[v - m0] != want) viol("value %d occurs %ld times over all groups, specified %ld", v, cnt[v - m0], want);
        }
    }
}
#ifndef EMU
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    mkbase(8);
    set_prog();
    if (!calibrate()) {
        /* the code no longer asks the XOF through the wrapped symbol: fall back to real seeds */
        printf("NOTE %s: programmable XOF not consulted; enumerating seeds instead\n", I.name);
        prog_enabled = 0; set_prog();
        uint8_t r[96];
        for (int v = 0; v < 4000; v++) { if (!CASE("seed", v)) continue; n_states++; fill(r, 96, 70000 + v); kp_case(r, "seed"); }
        hc_done();
    }
    int full = nargx > 1 && !strcmp(argx[1], "full");
    if (!strcmp(argx[0], "p05")) p05(full); else p06(full);
    hc_done();
}
#endif
