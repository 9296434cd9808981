/* P18, P19: the Cortex-M4 and Cortex-M0 code, cross-compiled from /repo and executed instruction by instruction, against the model.
 * Parts of it also serve P02-P06, P14 and P15 for these two implementations.
 * --x elf --x <flags: c compressed secret keys, 0 Cortex-M0> --x <parts> */
#define EMU
#include "emu.h"
int emu_slow = 1;
#include "kem.c"
#include "alg.c"
static int xof_hook(uint8_t *o, size_t on, const uint8_t *in, size_t n) { return lookup(o, on, in, n, 1); }

static void placement(void)
{
    static uint8_t ct[MAXCT];
    for (int f = -1; f < 256; f += f < 0 ? 1 : 255)
        for (int w = 0; w < 256; w++) {
            if (!thorough && w % 85 && w % 4 && w % 64) continue;
            if (!CASE("place", f, w)) continue;
            n_states++;
            emu_fill = f;
            for (int i = 0; i < 4; i++) emu_off[i] = w >> 2 * i & 3;
            kp_case(B[0].rk, "buffers at any address"); enc_case(B[1].pk, B[1].re, "buffers at any address");
            dec_case(B[2].sk, B[2].ct, B[2].ss, "buffers at any address");
            memcpy(ct, B[2].ct, I.ctb); ct[w * 4] ^= 1; rej_case(B[2].sk, ct, "buffers at any address");
            cpaenc_case(B[0].re, B[0].rk, B[0].pk, "buffers at any address"); cpadec_case(B[0].sk, B[0].ct, "buffers at any address");
        }
    emu_fill = -1; memset(emu_off, 0, sizeof emu_off);
}
/* every sequence of three calls, static data carried over from call to call */
static void histories(void)
{
    static uint8_t bad[MAXCT];
    memcpy(bad, B[3].ct, I.ctb); bad[7] ^= 16;
    for (int w = 0; w < 6 * 6 * 6; w++) {
        if (!CASE("calls", w)) continue;
        n_states++;
        for (int i = 0, x = w; i < 3; i++, x /= 6)
            switch (x % 6) {
            case 0: kp_case(B[0].rk, "key generation after other calls"); break;
            case 1: kp_case(B[1].rk, "key generation after other calls"); break;
            case 2: enc_case(B[0].pk, B[0].re, "encapsulation after other calls"); break;
            case 3: enc_case(B[1].pk, B[2].re, "encapsulation after other calls"); break;
            case 4: dec_case(B[3].sk, B[3].ct, B[3].ss, "decapsulation after other calls"); break;
            default: rej_case(B[3].sk, bad, "rejection after other calls");
            }
    }
}
/* the polynomial multiplier, where it has a symbol: every pair of monomials and extreme dense operands modulo q */
static void multiplier(void)
{
    uint32_t f = arm_sym("pol_mul");
    if (!f) return;
    static uint16_t a[256], b[256], c[256], got[256];
    static const uint16_t ext[] = {1, 8191, 4096, 5, 8188, 2731};
    for (int i = 0; i < 256; i++)
        for (int kind = 0; kind < 4; kind++) {
            if (!CASE("mul", i, kind)) continue;
            for (int j = 0; j < 256; j += kind == 0 && !thorough ? 5 : kind ? 51 : 1) {
                n_states++;
                for (int k = 0; k < 256; k++) {
                    a[k] = kind == 3 ? (k * 37 + i * 331 + j) & 8191 : kind == 2 ? 8191 : k == i ? ext[(i + j) % 6] : 0;
                    b[k] = kind == 0 ? (k == j ? ext[(i * 7 + j) % 6] : 0) : kind == 3 ? (k * k + i * j) & 8191 : (k + i + j) % 9 < 5 ? (k + j) % 5 : 8192 - (k + i) % 5 - 1;
                    c[k] = (k * 3 + i) & 8191;
                }
                memset(a_perm, 0, AREN_SZ); memset(a_perm + 1024, A_R, 512); memset(a_perm + 2048, A_R, 512); memset(a_perm + 4096, A_R | A_W, 512);
                memcpy(a_aren + 1024, a, 512); memcpy(a_aren + 2048, b, 512); memcpy(a_aren + 4096, c, 512);
                uint32_t arg[3] = {AREN + 1024, AREN + 2048, AREN + 4096};
                n_impl++; n_cmp++;
                if (arm_call(f, 3, arg)) { if (a_unsupported) return; viol("multiplication: the code %s", a_fault); return; }
                memcpy(got, a_aren + 4096, 512);
                M_mulacc(c, a, b);
                for (int k = 0; k < 256; k++) if ((got[k] ^ c[k]) & 8191) { viol("product of two polynomials: coefficient %d is %d, should be %d", k, got[k] & 8191, c[k] & 8191); return; }
            }
        }
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    emu_comp = !!strchr(argx[1], 'c');
    M_nohalf = !!strchr(argx[1], '0');
    emu_load(argx[0], M_nohalf);
    mkbase(8);
    const char *parts = argx[2];
    emu_fill = -1;
    /* k: ph234, s: p4, a: 56 */
    if (strpbrk(parts, "kps")) placement();
    if (strpbrk(parts, "kh")) histories();
    if (strpbrk(parts, "k2")) p02(0);
    if (strpbrk(parts, "k3")) p03(0);
    if (strpbrk(parts, "ks4")) p04(0);
    if (strchr(parts, 'm')) multiplier();
    if (strpbrk(parts, "a56")) {
        set_prog();
        emu_xof = xof_hook;
        if (calibrate()) { if (strpbrk(parts, "a5")) p05(0); if (strpbrk(parts, "a6")) p06(0); }
        else printf("NOTE %s: programmable XOF not consulted\n", I.name);
        M_xof_override = NULL; emu_xof = NULL;
    }
    hc_done();
}
