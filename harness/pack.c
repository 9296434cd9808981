/* P08: every packing routine, exhaustively per position, against the bit-level definition. */
#include "hc.h"
#include <stdint.h>

enum { PK, PKM, PK4, PK4M, UN, UNM, UN4, UN4M, CMP, PKI, UNI };
typedef struct { const char *name; int kind, w, vec, grp, loose; } rt;
/* w: 0 -> EQ, -1 -> ET; vec: 1 -> l polynomials; grp: bit mask of families; loose bit 0: packer is only defined on
   reduced coefficients; bit 1: unpacked value is only fixed modulo 2^w; bit 2: sign-extended */
enum { GREF = 1, GAVX = 2, GX4 = 4, GM4 = 8, GM0 = 16 };
static const rt T[] = {
    {"POLT2BS", PK, -1, 0, GREF | GM4, 0}, {"BS2POLT", UN, -1, 0, GREF, 0}, {"BS2POLT", UN, -1, 0, GM4, 2},
    {"POLVECq2BS", PK, 0, 1, GREF | GAVX | GX4 | GM4 | GM0, 0}, {"BS2POLVECq", UN, 0, 1, GREF | GAVX | GX4 | GM0, 0}, {"BS2POLVECq", UN, 0, 1, GM4, 2},
    {"POLVECp2BS", PK, 10, 1, GREF | GAVX | GX4 | GM4 | GM0, 0}, {"BS2POLVECp", UN, 10, 1, GREF | GAVX | GX4 | GM0, 0}, {"BS2POLVECp", UN, 10, 1, GM4, 2},
    {"POLmsg2BS", PK, 1, 0, GREF | GM4, 0}, {"BS2POLmsg", UN, 1, 0, GREF, 0}, {"BS2POLmsg", UN, 1, 0, GM4, 2},
    {"POLp2BS", PK, 10, 0, GM4, 0}, {"BS2POLp", UN, 10, 0, GM4, 2}, {"POLq2BS", PK, 0, 0, GM4, 0}, {"BS2POLq", UN, 0, 0, GM4, 2},
    {"POLmu2BS", PK, 4, 0, GM4, 0}, {"BS2POLmu", UN, 4, 0, GM4, 4}, {"POLVECmu2BS", PK, 4, 1, GM4, 0}, {"BS2POLVECmu", UN, 4, 1, GM4, 4},
    {"POLp2BS_cmp", CMP, 10, 0, GM4, 0}, {"POLT2BS_cmp", CMP, -1, 0, GM4, 0}, {"POLVECp2BS_cmp", CMP, 10, 1, GM4, 0},
    {"SABER_pack_3bit", PK, 3, 0, GAVX | GX4 | GM0, 0}, {"SABER_un_pack3bit", UN, 3, 0, GAVX | GX4 | GM0, 0},
    {"SABER_pack_4bit", PK, 4, 0, GAVX | GX4 | GM0, 0}, {"SABER_un_pack4bit", UN, 4, 0, GAVX | GX4 | GM0, 0},
    {"SABER_pack_6bit", PK, 6, 0, GAVX | GX4 | GM0, 0}, {"SABER_un_pack6bit", UN, 6, 0, GAVX | GX4 | GM0, 0},
    {"SABER_pack10bit", PK, 10, 1, GAVX | GX4, 0}, {"SABER_un_pack10bit", UN, 10, 1, GAVX | GX4, 0},
    {"SABER_pack11bit", PK, 11, 1, GAVX | GX4, 0}, {"SABER_un_pack11bit", UN, 11, 1, GAVX | GX4, 0},
    {"SABER_pack13bit", PK, 13, 1, GAVX | GX4, 0}, {"SABER_un_pack13bit", UN, 13, 1, GAVX | GX4, 0},
    {"SABER_poly_un_pack13bit", UN, 13, 0, GAVX | GX4, 0},
    {"SABER_pack14bit", PK, 14, 1, GAVX | GX4, 0}, {"SABER_un_pack14bit", UN, 14, 1, GAVX | GX4, 0},
    {"POLVEC2BS", PKM, 10, 1, GAVX | GX4, 0}, {"POLVEC2BS", PKM, 13, 1, GAVX | GX4, 0},
    {"BS2POLVEC", UNM, 10, 1, GAVX | GX4, 0}, {"BS2POLVEC", UNM, 13, 1, GAVX | GX4, 0},
    {"SABER_pack_4bitX4", PK4, 4, 0, GX4, 0}, {"SABER_un_pack4bitX4", UN4, 4, 0, GX4, 0},
    {"POLVEC2BSX4", PK4M, 10, 1, GX4, 0}, {"POLVEC2BSX4", PK4M, 13, 1, GX4, 0},
    {"BS2POLVECX4", UN4M, 10, 1, GX4, 0}, {"BS2POLVECX4", UN4M, 13, 1, GX4, 0},
    {"SABER_pack13bitX4", PK4, 13, 1, GX4, 0},
    {"POLp2BS", PKI, 10, 1, GM0, 0}, {"BS2POLp", UNI, 10, 1, GM0, 0}, {"BS2POLq", UN, 13, 0, GM0, 0},
};
#define MAXN 1024
#define MAXB (MAXN * 2)
#define PAD 128
static uint8_t bb[4][MAXB + 2 * PAD] __attribute__((aligned(64)));
static uint16_t dd[4][MAXN + PAD] __attribute__((aligned(64)));
static uint8_t eb[4][MAXB];
static uint16_t ed[4][MAXN];
static const rt *R; static void *F; static int W, N, NB, LN, ri;

static void mpack(uint8_t *b, const uint16_t *d, int n, int w)
{
    uint32_t acc = 0; int k = 0;
    for (int j = 0; j < n; j++) { acc |= (uint32_t)(d[j] & ((1u << w) - 1)) << k; k += w; while (k >= 8) { *b++ = acc; acc >>= 8; k -= 8; } }
}
static void munpack(const uint8_t *b, uint16_t *d, int n, int w)
{
    uint32_t acc = 0; int k = 0;
    for (int j = 0; j < n; j++) { while (k < w) { acc |= (uint32_t)*b++ << k; k += 8; } d[j] = acc & ((1u << w) - 1); acc >>= w; k -= w; }
}
static uint32_t call(uint8_t *b0, uint8_t *b1, uint8_t *b2, uint8_t *b3, int idx)
{
    typedef void (*f2)(void *, void *); typedef void (*f3)(void *, void *, uint16_t);
    typedef void (*f8)(void *, void *, void *, void *, void *, void *, void *, void *);
    typedef void (*f9)(void *, void *, void *, void *, void *, void *, void *, void *, uint16_t);
    typedef uint32_t (*fc)(void *, void *); typedef void (*fi)(uint16_t, void *, void *);
    n_impl++;
    uint16_t mod = W == 10 ? 1024 : 8192;
    switch (R->kind) {
    case PK: case UN: ((f2)F)(b0, dd[0]); return 0;
    case PKM: case UNM: ((f3)F)(b0, dd[0], mod); return 0;
    case PK4: case UN4: ((f8)F)(b0, b1, b2, b3, dd[0], dd[1], dd[2], dd[3]); return 0;
    case PK4M: case UN4M: ((f9)F)(b0, b1, b2, b3, dd[0], dd[1], dd[2], dd[3], mod); return 0;
    case CMP: return ((fc)F)(b0, dd[0]);
    case PKI: ((f3)F)(b0, dd[0], idx); return 0;
    case UNI: ((fi)F)(idx, b0, dd[0]); return 0;
    }
    return 0;
}
static int isun(void) { return R->kind == UN || R->kind == UNM || R->kind == UN4 || R->kind == UN4M || R->kind == UNI; }

/* dd[lane][0..N) holds the input coefficients */
static void run_pack(const char *what)
{
    n_states++;
    int reps = R->kind == PKI ? I.p.l : 1, n = R->kind == PKI ? 256 : N, nb = n * W / 8;
    for (int idx = 0; idx < reps; idx++) {
        uint16_t keep[4][MAXN];
        for (int q = 0; q < LN; q++) {
            memset(bb[q], 0xA5, sizeof bb[q]); memcpy(keep[q], dd[q], n * 2);
            for (int i = 0; i < PAD; i++) dd[q][n + i] = 0xffff;
        }
        call(bb[0] + PAD, bb[1] + PAD, bb[2] + PAD, bb[3] + PAD, idx);
        n_cmp++;
        for (int q = 0; q < LN; q++) {
            int off = R->kind == PKI ? idx * nb : 0;
            memset(eb[q], 0xA5, sizeof eb[q]);
            mpack(eb[q] + off, keep[q], n, W);
            for (int i = 0; i < MAXB - PAD; i++)
                if (bb[q][PAD + i] != (i < off || i >= off + nb ? 0xA5 : eb[q][i])) {
                    viol("%s (%d bit)%s: byte %d of slot %d is %02x, must be %02x [%s]", R->name, W, i >= off + nb || i < off ? " wrote outside its output" : "",
                         i, q, bb[q][PAD + i], i >= off + nb || i < off ? 0xA5 : eb[q][i], what);
                    return;
                }
            for (int i = 0; i < PAD; i++) if (bb[q][i] != 0xA5) { viol("%s (%d bit) wrote before its output", R->name, W); return; }
            if (memcmp(keep[q], dd[q], n * 2)) { viol("%s (%d bit) changed its input [%s]", R->name, W, what); return; }
        }
    }
}
/* eb[lane][0..NB) holds the input bytes */
static void run_unpack(const char *what)
{
    n_states++;
    int reps = R->kind == UNI ? I.p.l : 1, n = R->kind == UNI ? 256 : N;
    for (int idx = 0; idx < reps; idx++) {
        for (int q = 0; q < LN; q++) {
            memset(bb[q], 0xFF, sizeof bb[q]); memcpy(bb[q] + PAD, eb[q], NB);
            for (int i = 0; i < MAXN + PAD; i++) dd[q][i] = 0xA5C3;
        }
        call(bb[0] + PAD, bb[1] + PAD, bb[2] + PAD, bb[3] + PAD, idx);
        n_cmp++;
        for (int q = 0; q < LN; q++) {
            munpack(eb[q] + (R->kind == UNI ? idx * 256 * W / 8 : 0), ed[q], n, W);
            for (int i = 0; i < n; i++) {
                uint16_t e = ed[q][i], g = dd[q][i];
                if (R->loose & 2) g &= (1u << W) - 1;
                if (R->loose & 4) e = (uint16_t)(int16_t)((int16_t)(e << (16 - W)) >> (16 - W));
                if (g != e) { viol("%s (%d bit): coefficient %d of slot %d is %d, must be %d [%s]", R->name, W, i, q, g, e, what); return; }
            }
            for (int i = n; i < MAXN + PAD; i++) if (dd[q][i] != 0xA5C3) { viol("%s (%d bit) wrote beyond its output (coefficient %d)", R->name, W, i); return; }
            if (memcmp(bb[q] + PAD, eb[q], NB)) { viol("%s (%d bit) changed its input", R->name, W); return; }
        }
    }
}
static uint16_t bgval(int bg, int j, int q) { return bg == 0 ? 0 : bg == 1 ? 0xffff : (uint16_t)((j + 1 + 37 * q) * 40503u >> 3); }
static void pack_cases(void)
{
    uint16_t mask = (1u << W) - 1;
    int ncf = R->kind == PKI ? 256 : N;
    /* A: every value at every position: coefficient j holds v + c*j */
    static const int cs[] = {0, 1, 3, 0x55, 257};
    for (int c = 0; c < (thorough ? 5 : 2); c++)
        for (int lo = 0; lo <= mask; lo += 512)
            if (CASE("packdiag", ri, c, lo))
                for (int v = lo; v < lo + 512 && v <= mask; v++) {
                    for (int q = 0; q < LN; q++) for (int j = 0; j < ncf; j++) dd[q][j] = (v + cs[c] * j + 5 * q) & mask;
                    run_pack("diagonal");
                }
    /* B: every single bit of every coefficient set / cleared over three backgrounds, in each slot */
    for (int bg = 0; bg < 3; bg++)
        for (int j = 0; j < ncf; j++)
            if (CASE("packbit", ri, bg, j))
                for (int q = 0; q < LN; q++)
                    for (int b = 0; b < W; b++) {
                        for (int s = 0; s < LN; s++) for (int i = 0; i < ncf; i++) dd[s][i] = bgval(bg, i, s) & mask;
                        dd[q][j] ^= 1u << b;
                        run_pack("single bit");
                    }
    /* C: unreduced coefficients */
    if (!(R->loose & 1))
        for (int hb = W; hb < 16; hb++)
            for (int j = 0; j < ncf; j += (thorough || LN == 1) ? 1 : 8)
                if (CASE("packhigh", ri, hb, j))
                    for (int bg = 0; bg < 3; bg++) {
                        for (int s = 0; s < LN; s++) for (int i = 0; i < ncf; i++) dd[s][i] = bgval(bg, i, s) & mask;
                        for (int s = 0; s < LN; s++) dd[s][(j + s) % ncf] |= 1u << hb;
                        run_pack("unreduced");
                    }
    if (!(R->loose & 1) && CASE("packall", ri, 0))
        for (int bg = 0; bg < 3; bg++) {
            for (int s = 0; s < LN; s++) for (int i = 0; i < ncf; i++) dd[s][i] = bgval(bg, i, s);
            run_pack("unreduced background");
        }
    if (thorough) /* D: every value of every coefficient over two backgrounds */
        for (int j = 0; j < ncf; j++)
            for (int bg = 0; bg < 2; bg++)
                if (CASE("packval", ri, bg, j))
                    for (int v = 0; v <= mask; v += (W > 12 && j >= 32) ? 7 : 1) {
                        for (int s = 0; s < LN; s++) for (int i = 0; i < ncf; i++) dd[s][i] = bgval(bg, i, s) & mask;
                        dd[(j + v) % LN][j] = v;
                        run_pack("value");
                    }
}
static void unpack_cases(void)
{
    for (int bg = 0; bg < 3; bg++)
        for (int i = 0; i < NB; i++)
            if (CASE("unpack", ri, bg, i))
                for (int v = 0; v < 256; v += 1) {
                    if (!thorough && bg == 2 && (v & (v - 1))) continue;
                    for (int s = 0; s < LN; s++) for (int k = 0; k < NB; k++) eb[s][k] = bgval(bg, k, s);
                    eb[(v + i) % LN][i] = v;
                    run_unpack("one byte");
                }
    for (int c = 0; c < 4; c++)
        if (CASE("unpackdiag", ri, c))
            for (int v = 0; v < 256; v++) {
                for (int s = 0; s < LN; s++) for (int k = 0; k < NB; k++) eb[s][k] = v + k * (c * 2 + (c > 0)) + 11 * s;
                run_unpack("diagonal");
            }
    /* two adjacent bytes, all 65536 values, within the first two groups */
    int lim = thorough ? 40 : 16;
    for (int i = 0; i + 1 < lim && i + 1 < NB; i++)
        if (CASE("unpackpair", ri, i))
            for (int v = 0; v < 65536; v += thorough ? 1 : LN == 1 ? 7 : 37) {
                if (v == 0 || 1) for (int s = 0; s < LN; s++) memset(eb[s], 0x5A, NB);
                eb[v % LN][i] = v; eb[v % LN][i + 1] = v >> 8;
                run_unpack("byte pair");
            }
}
static void cmp_cases(void)
{
    uint16_t mask = (1u << W) - 1;
    for (int bg = 0; bg < 3; bg++)
        for (int i = -1; i < NB; i++)
            if (CASE("cmp", ri, bg, i)) {
                for (int j = 0; j < N; j++) dd[0][j] = bgval(bg, j, 0);
                mpack(bb[0] + PAD, dd[0], N, W);
                for (int j = 0; j < N; j++) if (bg != 2) dd[0][j] &= mask;
                if (i < 0) { n_states++; n_cmp++; if (call(bb[0] + PAD, 0, 0, 0, 0)) viol("%s reports a difference between equal encodings", R->name); continue; }
                for (int d = 1; d < 256; d++) {
                    n_states++; n_cmp++;
                    bb[0][PAD + i] ^= d;
                    if (!call(bb[0] + PAD, 0, 0, 0, 0)) { viol("%s misses a difference %02x in byte %d", R->name, d, i); break; }
                    bb[0][PAD + i] ^= d;
                }
                static const int ds[] = {1, 0x80, 0xff, 0x10};
                for (int k = i + 1; k < NB; k++)
                    for (int t = 0; t < 4; t++) {
                        if (!thorough && k > i + 14 && t != (i + k) % 4) continue;
                        for (int neg = 0; neg < 2; neg++) {
                            n_states++; n_cmp++;
                            uint8_t o1 = bb[0][PAD + i], o2 = bb[0][PAD + k];
                            bb[0][PAD + i] ^= ds[t]; bb[0][PAD + k] = neg ? (uint8_t)(o2 - (bb[0][PAD + i] - o1)) : o2 ^ ds[t];
                            if (!call(bb[0] + PAD, 0, 0, 0, 0)) { viol("%s misses a pair of differences in bytes %d and %d", R->name, i, k); return; }
                            bb[0][PAD + i] = o1; bb[0][PAD + k] = o2;
                        }
                    }
            }
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    int g = 0;
    const char *gs = argx[0];
    if (!strcmp(gs, "ref")) g = GREF; else if (!strcmp(gs, "avx")) g = GAVX; else if (!strcmp(gs, "x4")) g = GX4; else if (!strcmp(gs, "m4")) g = GM4; else g = GM0;
    int seen = 0;
    if (I.kp) { /* the batch code initialises its vector constants on first use */
        static uint8_t k[4 * 8192] __attribute__((aligned(64))), rr[4096];
        fill(rr, sizeof rr, 8); rnd_set(rr, sizeof rr); I.kp(k, k + 2 * 8192);
    }
    for (ri = 0; ri < (int)(sizeof T / sizeof *T); ri++) {
        R = &T[ri];
        if (!(R->grp & g)) continue;
        F = hc_sym(&I, R->name);
        if (!F) continue;
        seen++;
        W = R->w == 0 ? I.p.eq : R->w == -1 ? I.p.et : R->w;
        N = R->vec ? I.p.l * 256 : 256; NB = N * W / 8;
        LN = R->kind == PK4 || R->kind == UN4 || R->kind == PK4M || R->kind == UN4M ? 4 : 1;
        if (R->kind == CMP) cmp_cases(); else if (isun()) unpack_cases(); else pack_cases();
    }
    stat_add("routines", seen);
    if (!seen) printf("NOTE %s: no packing routine is visible by name\n", I.name);
    hc_done();
}
