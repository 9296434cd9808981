/* P14: memory footprint, alignment, independence of prior memory contents. */
#define _GNU_SOURCE
#include "kemx.h"
#include <sys/mman.h>
#include <unistd.h>
#define PG 4096
#define SP (5 * PG) /* usable span of one arena */
typedef struct { uint8_t *base; } arena;
static arena AR[3];
static void mkarena(arena *a)
{
    uint8_t *m = mmap(NULL, SP + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + PG, SP, PROT_READ | PROT_WRITE);
    a->base = m + PG;
}
/* placement: 0..63 start offset from a page; 64 flush to the end guard page; 65 flush to the start guard page */
static uint8_t *place(arena *a, int len, int pl) { return pl == 64 ? a->base + SP - len : pl == 65 ? a->base : a->base + PG + pl; }
static void __attribute__((noinline)) poison(int v) { volatile uint8_t b[160000]; memset((void *)b, v, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }

typedef struct { int in; int len; const uint8_t *want; const uint8_t *src; const char *name; } buf;
static uint8_t rn[96 * 4];
static void call_case(int op, int inst, const int pl[3], int pre, int around)
{
    static uint8_t img[3][20000], wn[3][20000];
    buf b[3]; uint8_t *p[3];
    int L = I.lanes, nb = op == 0 ? 2 : 3;
    static const char *nm[3][3] = {{"public key", "secret key", ""}, {"ciphertext", "shared secret", "public key"}, {"shared secret", "ciphertext", "secret key"}};
    for (int j = 0; j < L; j++) {
        base_t *x = &B[1 + (inst + j) % 4];
        if (op == 0) { memcpy(wn[0] + j * I.pkb, x->pk, I.pkb); memcpy(wn[1] + j * I.skb, x->sk, I.skb); memcpy(rn + 96 * j, x->rk, 96); }
        else if (op == 1) { memcpy(wn[0] + j * I.ctb, x->ct, I.ctb); memcpy(wn[1] + j * 32, x->ss, 32); memcpy(wn[2] + j * I.pkb, x->pk, I.pkb); memcpy(rn + 32 * j, x->re, 32); }
        else {
            memcpy(wn[1] + j * I.ctb, x->ct, I.ctb); memcpy(wn[2] + j * I.skb, x->sk, I.skb);
            if ((inst + j) % 2) { wn[1][j * I.ctb + (inst * 37) % I.ctb] ^= 4; M_reject(&I.p, wn[0] + 32 * j, wn[1] + j * I.ctb, x->sk); }
            else memcpy(wn[0] + 32 * j, x->ss, 32);
        }
    }
    int lens[3][3] = {{I.pkb, I.skb, 0}, {I.ctb, 32, I.pkb}, {32, I.ctb, I.skb}};
    int isin[3][3] = {{0, 0, 0}, {0, 0, 1}, {0, 1, 1}};
    for (int k = 0; k < nb; k++) {
        b[k].len = lens[op][k] * L; b[k].in = isin[op][k]; b[k].name = nm[op][k];
        mprotect(AR[k].base, SP, PROT_READ | PROT_WRITE);
        memset(AR[k].base, around, SP);
        p[k] = place(&AR[k], b[k].len, pl[k]);
        if (b[k].in) memcpy(p[k], wn[k], b[k].len); else memset(p[k], pre, b[k].len);
        if (b[k].in) mprotect(AR[k].base, SP, PROT_READ); else memcpy(img[k], AR[k].base, SP < 20000 ? SP : 20000);
    }
    rnd_set(rn, op == 0 ? 96 * L : op == 1 ? 32 * L : 0);
    hc_where("%s with buffers placed at %d %d %d", op == 0 ? "key generation" : op == 1 ? "encapsulation" : "decapsulation", pl[0], pl[1], pl[2]);
    poison(pre ^ 0x3C);
    int rc = op == 0 ? I.kp(p[0], p[1]) : op == 1 ? I.enc(p[0], p[1], p[2]) : I.dec(p[0], p[1], p[2]);
    n_impl++; n_states++;
    if (rc) viol("status %d", rc);
    for (int k = 0; k < nb; k++) {
        if (b[k].in) continue;
        n_cmp++;
        for (int i = 0; i < b[k].len; i++) if (p[k][i] != wn[k][i]) { viol("%s byte %d is %02x, must be %02x (placement %d %d %d, output memory held %02x before)", b[k].name, i, p[k][i], wn[k][i], pl[0], pl[1], pl[2], pre); return; }
        for (uint8_t *q = AR[k].base; q < AR[k].base + SP; q++)
            if ((q < p[k] || q >= p[k] + b[k].len) && *q != (uint8_t)around) { viol("wrote outside the %s, at offset %ld", b[k].name, (long)(q - p[k])); return; }
    }
}
#ifdef __SANITIZE_ADDRESS__
#define INNER 1
#else
#define INNER 0
#endif
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    mkbase(5);
    for (int k = 0; k < 3; k++) mkarena(&AR[k]);
    static const int pres[] = {0x00, 0xff, 0xA5};
    if (INNER) { /* instrumented build: accesses inside the code's own objects; placements matter less here */
        for (int op = 0; op < 3; op++)
            for (int a = 0; a < (thorough ? 66 : 8); a++)
                if (CASE("inner", op, a)) for (int v = 0; v < 4; v++) { int pl[3] = {a, a, a}; call_case(op, v, pl, pres[v % 3], 0x77); }
        hc_done();
    }
    for (int op = 0; op < 3; op++) {
        int nb = op == 0 ? 2 : 3;
        for (int k = 0; k < nb; k++) /* one buffer at every address class, the others aligned */
            for (int a = 0; a < 66; a++)
                if (CASE("align", op, k, a)) for (int v = 0; v < 3; v++) { int pl[3] = {0, 0, 0}; pl[k] = a; call_case(op, (a + v) & 3, pl, pres[v], pres[(v + 1) % 3]); }
        for (int a = 0; a < 66; a++) /* all buffers there */
            if (CASE("alignall", op, a)) for (int v = 0; v < 3; v++) { int pl[3] = {a, a, a}; call_case(op, (a + v) & 3, pl, pres[v], pres[(v + 2) % 3]); }
        static const int ext[] = {0, 1, 8, 15, 63, 64, 65};
        int ne = thorough ? 66 : 7;
        for (int a = 0; a < ne; a++) for (int b = 0; b < ne; b++) for (int c = 0; c < (op == 0 ? 1 : thorough ? 7 : ne); c++)
            if (CASE("place", op, a, b, c)) { int pl[3] = {thorough ? a : ext[a], thorough ? b : ext[b], ext[c]}; call_case(op, (a + b + c) & 3, pl, pres[(a + c) % 3], pres[b % 3]); }
        for (int v = 0; v < 256; v++) if (CASE("prefill", op, v)) { int pl[3] = {64, 64, 64}; call_case(op, v & 3, pl, v, 255 - v); pl[0] = pl[1] = pl[2] = 65; call_case(op, v & 3, pl, v, v); }
    }
    hc_done();
}
