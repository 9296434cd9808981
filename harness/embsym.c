/* P09 for the Cortex-M0 firmware: its hashes, executed instruction by instruction, against the standard. --x elf */
#include "emu.h"
typedef struct { const char *name; int kind, rate, outn; void (*m)(uint8_t *, const uint8_t *, size_t); uint8_t dom; } fn;
static const fn F[] = {
    {"sha3_256", 0, 136, 32, M_sha3_256, 6}, {"sha3_512", 0, 72, 64, M_sha3_512, 6}, {"shake128", 1, 168, 0, 0, 0x1f}, {"shake256", 1, 136, 0, 0, 0x1f},
    {"cshake128_simple", 2, 168, 0, 0, 4}, {"cshake256_simple", 2, 136, 0, 0, 4},
};
static const fn *f; static uint32_t fp; static int cstm;
static uint8_t bg[8192], ex[8192];
static int run(uint32_t o, size_t on, uint32_t in, size_t n)
{
    uint32_t a[8] = {o, in, n, 0}; int k = 4;
    if (f->kind) { a[1] = 0; a[2] = on; a[3] = 0; k = 8; a[4] = f->kind == 1 ? in : (uint32_t)cstm; a[5] = f->kind == 1 ? 0 : in; a[6] = n; a[7] = 0; }
    n_impl++; n_cmp++; n_states++;
    if (arm_call(fp, k, a)) {
        if (a_unsupported) { printf("NOTE %s: %s; the rest was not explored\n", I.name, a_fault); stat_add("configurations_cut_short", 1); hc_done(); }
        viol("%s of %zu bytes, %zu bytes of output: the code %s", f->name, n, on, a_fault);
        return 1;
    }
    if (f->m) f->m(ex, bg, n);
    else if (f->kind == 2) {
        static uint8_t t[8192];
        memset(t, 0, f->rate);
        t[0] = 1; t[1] = f->rate; t[2] = 1; t[4] = 1; t[5] = 16; t[6] = cstm; t[7] = cstm >> 8;
        memcpy(t + f->rate, bg, n);
        M_keccak(ex, on, t, f->rate + n, f->rate, 4);
    } else if (f->rate == 168) M_shake128(ex, on, bg, n);
    else M_shake256(ex, on, bg, n);
    return 0;
}
static int one(size_t on, size_t n, int so, int si)
{
    uint32_t o = 8192 + so, in = 64 + si;
    if (f->outn) on = f->outn;
    memset(a_perm, 0, AREN_SZ); memset(a_perm + o, A_R | A_W, on); memset(a_perm + in, A_R, n);
    memcpy(a_aren + in, bg, n); memset(a_aren + o, 0x6B, on);
    if (run(AREN + o, on, AREN + in, n)) return 1;
    if (memcmp(a_aren + o, ex, on)) { viol("%s of %zu bytes, %zu bytes of output: wrong result", f->name, n, on); return 1; }
    return 0;
}
static int same(size_t on, size_t n, int d)
{
    uint32_t in = 4096, o = in + d;
    if (f->outn) on = f->outn;
    memset(a_perm, 0, AREN_SZ); memset(a_perm + in, A_R, n); memset(a_perm + o, A_R | A_W, on);
    memcpy(a_aren + in, bg, n);
    if (run(AREN + o, on, AREN + in, n)) return 1;
    if (memcmp(a_aren + o, ex, on)) { viol("%s of %zu bytes, output of %zu bytes overlapping at %d: wrong result", f->name, n, on, d); return 1; }
    return 0;
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    a_v6m = 1; arm_load(argx[0]);
    for (unsigned fi = 0; fi < sizeof F / sizeof *F; fi++) {
        f = &F[fi];
        if (!(fp = arm_sym(f->name))) continue;
        int r = f->rate;
        cstm = 0x1234;
        fill(bg, sizeof bg, 900 + fi);
        if (f->outn) {
            for (int n = 0; n <= 3 * r + 9; n++) if (CASE("hashlen", fi, n)) for (int s = 0; s < 16; s++) if (one(0, n, s & 3, s >> 2)) break;
        } else {
            for (int n = 0; n <= (thorough ? 2 : 1) * r + 3; n++)
                if (CASE("xof", fi, n)) for (int o = 0; o <= (thorough ? 3 : 1) * r + 9; o += thorough ? 1 : 1 + (n + o) % 7) if (one(o, n, (n + o) & 3, n >> 2 & 3)) break;
            for (int o = 0; o <= 8 * r; o++) if (CASE("xoflong", fi, o)) { one(o, 32, o & 3, 0); one(o, 33, 1, 1); }
        }
        for (int i = 0; i < 2 * r; i++) if (CASE("inbit", fi, i)) for (int b = 0; b < 8; b++) { memset(bg, 0, sizeof bg); bg[i] = 1 << b; if (one(64, 2 * r, 0, 0)) break; }
        fill(bg, sizeof bg, 900 + fi);
        static const int ns[] = {0, 1, 32, 64, 72, 136, 168, 169, 992, 1088};
        for (unsigned k = 0; k < sizeof ns / sizeof *ns; k++)
            for (int d = -40; d <= 40; d++) if (CASE("overlap", fi, k, d)) { same(32, ns[k], d); same(64, ns[k], d); }
        if (f->kind == 2)
            for (int hi = 0; hi < 256; hi++) if (CASE("cstm", fi, hi)) { for (int lo = 0; lo < 256; lo += 1 + hi % 5) { cstm = hi << 8 | lo; if (one(40, 32 + (lo & 3), 0, 0)) break; } cstm = 0x1234; }
    }
    hc_done();
}
