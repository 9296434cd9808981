/* P24: the multiplication routines of the Cortex-M4 code, shipped and generated, executed instruction by instruction against the schoolbook product.
 * --x elf */
#include "emu.h"
enum { NEG_SET, NEG_ADD, FULL };
typedef struct { const char *name; int n, kind, mask, order; } rt; /* order 0: (a, b, result[, scratch])  1: (result, a, b) */
static const rt RT[] = {
    {"poly_mul", 256, NEG_SET, 8191, 0}, {"poly_mul_acc", 256, NEG_ADD, 8191, 0}, {"toom_cook_4way_striding_asm", 256, NEG_ADD, 8191, 0},
    {"toom_cook_4way_mem_asm", 256, NEG_ADD, 8191, 0}, {"kara_strd_mem_asm", 64, NEG_SET, 65535, 0}, {"polymul_asm", 256, FULL, 8191, 1},
};
static const rt *r; static uint32_t fp;
static uint16_t a[256], b[256], res[512], want[512];
static int run(const char *what)
{
    uint32_t at[4] = {4096, 8192, 12288, 16384}; int n = r->n, rn = r->kind == FULL ? 2 * n - 1 : n;
    for (int i = 0; i < rn; i++) want[i] = r->kind == NEG_ADD ? res[i] : 0;
    for (int i = 0; i < n; i++) if (a[i]) for (int j = 0; j < n; j++) { int k = i + j; if (r->kind != FULL && k >= n) want[k - n] -= a[i] * b[j]; else want[k] += a[i] * b[j]; }
    memset(a_perm, 0, AREN_SZ);
    memcpy(a_aren + at[0], a, 2 * n); memset(a_perm + at[0], n == 64 ? A_R | A_W : A_R, 2 * n); /* the 64-coefficient routine works in place */
    memcpy(a_aren + at[1], b, 2 * n); memset(a_perm + at[1], A_R | A_W, 2 * n); /* the second operand serves as scratch memory */
    memcpy(a_aren + at[2], res, 2 * rn); memset(a_perm + at[2], A_R | A_W, 2 * rn);
    memset(a_aren + at[3], 0xA9, 2 * n); memset(a_perm + at[3], A_R | A_W, 2 * n);
    uint32_t arg[4] = {AREN + at[0], AREN + at[1], AREN + at[2], AREN + at[3]}, argr[3] = {arg[2], arg[0], arg[1]};
    n_impl++; n_cmp++; n_states++;
    if (arm_call(fp, r->order ? 3 : n == 64 ? 4 : 3, r->order ? argr : arg)) {
        if (a_unsupported) { printf("NOTE %s: %s: %s; the rest was not explored\n", I.name, r->name, a_fault); stat_add("configurations_cut_short", 1); hc_done(); }
        viol("%s, %s: the code %s", r->name, what, a_fault);
        return 1;
    }
    uint16_t *g = (uint16_t *)(a_aren + at[2]);
    for (int k = 0; k < rn; k++) if ((g[k] ^ want[k]) & r->mask) { viol("%s, %s: coefficient %d of the result is %d, should be %d", r->name, what, k, g[k] & r->mask, want[k] & r->mask); return 1; }
    return 0;
}
static void dense(uint16_t *o, int k)
{
    for (int i = 0; i < r->n; i++) switch (k) {
    case 0: o[i] = 0; break; case 1: o[i] = 65535; break; case 2: o[i] = 8191; break; case 3: o[i] = 32768; break; case 4: o[i] = 4096; break;
    case 5: o[i] = i & 1 ? 65532 : 4; break; case 6: o[i] = i % 9 < 5 ? i % 5 : 65531 + i % 5; break; case 7: o[i] = 32767; break;
    case 8: o[i] = i & 4 ? 8191 : 0; break; case 9: o[i] = 1; break; default: { uint8_t t[512]; fill(t, 512, 600 + k); memcpy(o, t, 2 * r->n); k = -1 - k; } return; }
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    arm_load(argx[0]);
    for (unsigned q = 0; q < sizeof RT / sizeof *RT; q++) {
        r = &RT[q];
        if (!(fp = arm_sym(r->name))) continue;
        stat_add("routines", 1);
        int n = r->n;
        /* every pair of monomials */
        for (int i = 0; i < n; i++)
            if (CASE("monomials", q, i)) for (int j = 0; j < n; j += thorough || n == 64 ? 1 : 1 + (i + j) % 7) {
                memset(a, 0, sizeof a); memset(b, 0, sizeof b); for (int k = 0; k < 512; k++) res[k] = k * 77;
                a[i] = 1 + (i * 5 + j) % 8191; b[j] = 1 + (j * 11 + i) % 8191;
                if (run("product of two monomials")) break;
            }
        /* every monomial times dense operands, either way round */
        for (int i = 0; i < n; i++)
            if (CASE("dense", q, i)) for (int k = 1; k < 13; k++) for (int s = 0; s < 2; s++) {
                uint16_t *x = s ? b : a, *y = s ? a : b;
                memset(x, 0, 512); x[i] = k & 1 ? 1 : 65535; dense(y, k); for (int t = 0; t < 512; t++) res[t] = 65535 - t;
                if (run("product with a dense polynomial")) { k = 13; break; }
            }
        for (int i = 0; i < 13 * 13; i++) if (CASE("extreme", q, i)) { dense(a, i / 13); dense(b, i % 13); memset(res, i & 1 ? 0xff : 0, sizeof res); run("product of two dense polynomials"); }
        /* every coefficient value */
        for (int v = 0; v < 65536; v += thorough ? 1 : 13) if (CASE("value", q, v)) { dense(a, 10); dense(b, 11); a[v % n] = v; b[(v / n) % n] = v ^ 0x5555; memset(res, 3, sizeof res); run("product of dense polynomials"); }
        /* every block pattern: zero and nonzero quarters and sixteenths */
        for (int w = 0; w < 256; w++) if (CASE("blocks", q, w)) {
            dense(a, 12); dense(b, 6);
            for (int i = 0; i < n; i++) { if (!(w >> (i * 4 / n) & 1)) a[i] = 0; if (!(w >> 4 >> (i % 4) & 1)) b[i] = 0; }
            memset(res, 0, sizeof res); if (run("product with zero blocks")) continue;
            dense(a, 6); dense(b, 12);
            for (int i = 0; i < n; i++) { if (!(w >> (i % 4) & 1)) a[i] = 0; if (!(w >> 4 >> (i * 4 / n) & 1)) b[i] = 0; }
            run("product with zero blocks");
        }
    }
    hc_done();
}
