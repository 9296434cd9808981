/* P09 / P10: hashes, XOFs and AES counter-mode streams, all lengths, against OpenSSL and an own Keccak. */
#define _GNU_SOURCE
#include "hc.h"
#include <sys/mman.h>
#include <unistd.h>
typedef unsigned long long ull;
#define BUF (3 << 20)
static uint8_t inb[4][BUF + 256] __attribute__((aligned(64))), outb[4][BUF + 256] __attribute__((aligned(64))), exq[4][BUF] __attribute__((aligned(64)));
static uint8_t bg[4][BUF];
#define G 64 /* guard bytes on each side */

typedef void (*h1_t)(uint8_t *, const uint8_t *, ull);
typedef void (*x1_t)(uint8_t *, ull, const uint8_t *, ull);
typedef void (*c1_t)(uint8_t *, ull, uint16_t, const uint8_t *, ull);
typedef void (*h4_t)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, ull);
typedef void (*x4_t)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, ull, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, ull);
typedef struct { const char *name; int kind, rate, outn; void (*m)(uint8_t *, const uint8_t *, size_t); uint8_t dom; } fn;
enum { H1, X1, C1, H4, X4 };
static const fn F[] = {
    {"sha3_256", H1, 136, 32, M_sha3_256, 6}, {"sha3_512", H1, 72, 64, M_sha3_512, 6}, {"sha256", H1, 64, 32, M_sha256, 0}, {"sha512", H1, 128, 64, M_sha512, 0},
    {"shake128", X1, 168, 0, 0, 0x1f}, {"shake256", X1, 136, 0, 0, 0x1f}, {"cshake128_simple", C1, 168, 0, 0, 4}, {"cshake256_simple", C1, 136, 0, 0, 4},
    {"sha3_256x4", H4, 136, 32, M_sha3_256, 6}, {"sha3_512x4", H4, 72, 64, M_sha3_512, 6}, {"shake128x4", X4, 168, 0, 0, 0x1f}, {"shake256x4", X4, 136, 0, 0, 0x1f},
};
static const fn *f; static void *fp; static int fi, cstm;
static void model(uint8_t *o, size_t on, const uint8_t *in, size_t n)
{
    if (f->m) f->m(o, in, n);
    else if (f->kind == C1) {
        static uint8_t t[BUF + 512];
        if (n > BUF) abort();
        memset(t, 0, f->rate);
        t[0] = 1; t[1] = f->rate; t[2] = 1; t[3] = 0; t[4] = 1; t[5] = 16; t[6] = cstm; t[7] = cstm >> 8;
        memcpy(t + f->rate, in, n);
        M_keccak(o, on, t, f->rate + n, f->rate, 4);
    } else if (f->rate == 168) M_shake128(o, on, in, n);
    else M_shake256(o, on, in, n);
}
static void invoke(uint8_t **o, size_t on, uint8_t **in, size_t n)
{
    n_impl++;
    switch (f->kind) {
    case H1: ((h1_t)fp)(o[0], in[0], n); break;
    case X1: ((x1_t)fp)(o[0], on, in[0], n); break;
    case C1: ((c1_t)fp)(o[0], on, cstm, in[0], n); break;
    case H4: ((h4_t)fp)(o[0], o[1], o[2], o[3], in[0], in[1], in[2], in[3], n); break;
    case X4: ((x4_t)fp)(o[0], o[1], o[2], o[3], on, in[0], in[1], in[2], in[3], n); break;
    }
}
static int L(void) { return f->kind >= H4 ? 4 : 1; }
/* separate buffers with guards; memory content of the input given by bg */
static int one(size_t on, size_t n, int shift)
{
    uint8_t *o[4], *in[4];
    int l = L();
    n_states++;
    if (f->outn) on = f->outn;
    for (int q = 0; q < l; q++) {
        o[q] = outb[q] + G + shift; in[q] = inb[q] + G + (shift * 3 & 31);
        memset(o[q] - G, 0x6B, on + 2 * G);
        memcpy(in[q], bg[q], n);
    }
    invoke(o, on, in, n);
    for (int q = 0; q < l; q++) {
        model(exq[q], on, bg[q], n);
        n_cmp++;
        if (memcmp(o[q], exq[q], on)) { viol("%s of %zu bytes, %zu bytes of output, slot %d: wrong result", f->name, n, on, q); return 1; }
        for (int i = 0; i < G; i++)
            if (o[q][-1 - i] != 0x6B || o[q][on + i] != 0x6B) { viol("%s of %zu bytes, %zu bytes of output wrote outside its output", f->name, n, on); return 1; }
        if (memcmp(in[q], bg[q], n)) { viol("%s changed its input", f->name); return 1; }
    }
    return 0;
}
/* output placed at offset d relative to the input, same buffer */
static int overlap(size_t on, size_t n, int d)
{
    uint8_t *o[4], *in[4];
    int l = L();
    n_states++;
    if (f->outn) on = f->outn;
    for (int q = 0; q < l; q++) { in[q] = inb[q] + 1024; o[q] = in[q] + d; memset(inb[q], 0x6B, 8192); memcpy(in[q], bg[q], n); }
    invoke(o, on, in, n);
    for (int q = 0; q < l; q++) {
        model(exq[q], on, bg[q], n);
        n_cmp++;
        if (memcmp(o[q], exq[q], on)) { viol("%s of %zu bytes, output of %zu bytes overlapping at %d: wrong result", f->name, n, on, d); return 1; }
    }
    return 0;
}
/* Lengths beyond 32 bits: one window of memory is mapped again and again to make a huge buffer. As input it is periodic;
   as output the end of the stream remains in the window. */
#define W ((size_t)1 << 26)
#define HUGE_N (((size_t)1 << 32) + 5)
static uint8_t *window(int *fd)
{
    size_t k = HUGE_N / W + 2;
    uint8_t *b = mmap(NULL, (k + 2) * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((*fd = memfd_create("w", 0)) < 0 || ftruncate(*fd, W) || b == MAP_FAILED) return NULL;
    for (size_t i = 1; i <= k; i++) if (mmap(b + i * W, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, *fd, 0) == MAP_FAILED) return NULL;
    return b + W;
}
static void unwindow(uint8_t *b, int fd) { munmap(b - W, (HUGE_N / W + 4) * W); close(fd); }
static void huge(int out)
{
    int fd, l = L(); uint8_t *b = window(&fd), *o[4], *in[4], res[4][64 + 2 * G];
    if (!b) { printf("NOTE no memory for lengths beyond 32 bits\n"); return; }
    n_states++;
    if (out) {
        /* all slots ask for the same input: their outputs land in the same window */
        for (int q = 0; q < l; q++) { o[q] = b; in[q] = inb[q]; memcpy(inb[q], bg[0], 40); }
        invoke(o, HUGE_N, in, 40);
        uint8_t *keep = malloc(W); memcpy(keep, b, W);
        model(b, HUGE_N, bg[0], 40); n_cmp++;
        if (memcmp(keep, b, W)) viol("%s: output of %zu bytes is wrong", f->name, HUGE_N);
        free(keep);
    } else {
        for (size_t i = 0; i < W; i += BUF) memcpy(b + i, bg[0], W - i < BUF ? W - i : BUF);
        for (int q = 0; q < l; q++) { o[q] = res[q] + G; in[q] = b; memset(res[q], 0x6B, sizeof res[q]); }
        size_t on = f->outn ? (size_t)f->outn : 64;
        invoke(o, on, in, HUGE_N);
        model(exq[0], on, b, HUGE_N);
        for (int q = 0; q < l; q++) { n_cmp++; if (memcmp(o[q], exq[0], on)) { viol("%s of %zu bytes, slot %d: wrong result", f->name, HUGE_N, q); break; } }
    }
    unwindow(b, fd);
}
static void setbg(int c)
{
    for (int q = 0; q < 4; q++) {
        if (c == 0) for (size_t i = 0; i < 40000; i++) bg[q][i] = (uint8_t)((i + 1 + 97 * q) * 2654435761u >> 21);
        else memset(bg[q], c == 1 ? 0xff : 0, 40000);
    }
}
static void p09(void)
{
    int seen = 0;
    for (int q = 0; q < 4; q++) fill(bg[q], BUF, 900 + q);
    for (fi = 0; fi < (int)(sizeof F / sizeof *F); fi++) {
        f = &F[fi];
        if (!(fp = hc_sym(&I, f->name))) continue;
        seen++;
        int r = f->rate, four = f->kind >= H4;
        cstm = 0x1234;
        if (f->outn) {
            for (int c = 0; c < 3; c++)
                for (int n = 0; n <= 4 * r + 9; n++) if (CASE("hashlen", fi, c, n)) { setbg(c); for (int s = 0; s < (c ? 1 : 16); s++) if (one(0, n, s)) break; }
        } else {
            int mi = thorough ? 3 * r + 3 : four ? r + 9 : 2 * r + 3, mo = thorough ? 4 * r + 3 : four ? 2 * r + 9 : 3 * r + 3;
            for (int n = 0; n <= mi; n++)
                if (CASE("xof", fi, n)) { setbg(0); for (int o = 0; o <= mo; o++) if (one(o, n, (n + o) & 31)) break; }
            for (int o = 0; o <= (thorough ? 40 : 16) * r; o += four && !thorough ? 3 : 1) if (CASE("xoflong", fi, o)) { setbg(0); one(o, 32, 0); one(o, 33, 1); }
        }
        /* every byte of short inputs takes every value */
        for (int n = 1; n <= 3; n++)
            for (int i = 0; i < n; i++) if (CASE("byteval", fi, n, i)) for (int v = 0; v < 256; v++) { setbg(0); for (int q = 0; q < 4; q++) bg[q][i] = v + q; if (one(64, n, 0)) break; }
        /* every bit of a two-block input */
        for (int i = 0; i < 2 * r; i++) if (CASE("inbit", fi, i)) for (int b = 0; b < 8; b++) { setbg(2); bg[(i + b) % L()][i] = 1 << b; if (one(2 * 64, 2 * r, 0)) break; }
        /* overlapping */
        static const int ns[] = {0, 1, 31, 32, 33, 64, 71, 72, 73, 135, 136, 137, 167, 168, 169, 300, 992, 1312};
        for (unsigned k = 0; k < sizeof ns / sizeof *ns; k++)
            for (int d = -64; d <= 64; d++) if (CASE("overlap", fi, k, d)) { setbg(0); static const int os[] = {32, 64, 200, 400}; for (int j = 0; j < (f->outn ? 1 : 4); j++) overlap(os[j], ns[k], d); }
        if (f->kind == C1)
            for (int hi = 0; hi < 256; hi++) if (CASE("cstm", fi, hi)) { setbg(0); for (int lo = 0; lo < 256; lo++) { cstm = hi << 8 | lo; if (one(40, 32 + (lo & 3), 0)) break; } cstm = 0x1234; }
        /* bit lengths that need more than two bytes of length field */
        static const int big[] = {8190, 8191, 8192, 8193, 32768, 65535, 65536, 2097150, 2097152, 2097153};
        if (!four) for (int k = 0; k < 10; k++) if (CASE("big", fi, k)) { for (int q = 0; q < 4; q++) fill(bg[q], BUF, 900 + q); one(64, big[k], 0); }
        if (f->kind == X1 || f->kind == X4) if (CASE("bigout", fi, 0)) { setbg(0); one(2000003, 32, 0); }
    }
    /* incremental squeezing of the four-way state */
    typedef void (*sq_t)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, ull, void *);
    sq_t sq = (sq_t)hc_sym(&I, "shake128x4_squeezeblocks");
    if (sq) {
        seen++;
        for (int m = 0; m < 32; m++) /* every composition of six blocks into pieces */
            if (CASE("squeeze4", m)) {
                static uint64_t st[100] __attribute__((aligned(64)));
                setbg(0);
                for (int q = 0; q < 4; q++) {
                    uint8_t t[168] = {0}; memcpy(t, bg[q], 40); t[40] = 0x1f; t[167] |= 0x80;
                    for (int i = 0; i < 25; i++) { uint64_t w = 0; if (i < 21) memcpy(&w, t + 8 * i, 8); st[4 * i + q] = w; }
                    memset(outb[q], 0x6B, 8 * 168);
                    M_shake128(exq[q], 6 * 168, bg[q], 40);
                }
                int pos = 0, len = 1;
                for (int b = 0; b < 6; b++) {
                    if (b < 5 && !(m >> b & 1)) { len++; continue; }
                    sq(outb[0] + pos, outb[1] + pos, outb[2] + pos, outb[3] + pos, len, st); n_impl++;
                    pos += len * 168; len = 1;
                }
                n_states++;
                for (int q = 0; q < 4; q++) { n_cmp++; if (memcmp(outb[q], exq[q], 6 * 168) || outb[q][6 * 168] != 0x6B) viol("shake128x4_squeezeblocks differs from SHAKE128 in slot %d", q); }
            }
    }
    stat_add("routines", seen);
    hc_done();
}
/* lengths that do not fit in 32 bits, of the functions named */
static void p09huge(void)
{
    int seen = 0;
    for (int k = 1; k < 8 && argx[k]; k++)
        for (fi = 0; fi < (int)(sizeof F / sizeof *F); fi++) {
            f = &F[fi];
            if (strcmp(f->name, argx[k]) || f->kind == C1 || !(fp = hc_sym(&I, f->name))) continue;
            seen++;
            for (int out = 0; out < 2; out++)
                if (!(out && f->outn) && CASE("huge", fi, out)) { for (int q = 0; q < 4; q++) fill(bg[q], BUF, 900 + q); alarm(700); huge(out); }
        }
    stat_add("routines_with_lengths_beyond_32_bits", seen);
    hc_done();
}
/* ---------- P10 */
typedef int (*cs_t)(uint8_t *, ull, const uint8_t *, const uint8_t *);
typedef void (*prf_t)(uint8_t *, size_t, const uint8_t *, const uint8_t *);
typedef void (*sp_t)(uint8_t *, ull, const uint8_t *);
typedef void (*ini_t)(void *, const uint8_t *, const uint8_t *);
typedef void (*sqb_t)(uint8_t *, size_t, void *);
static cs_t cs; static prf_t prf; static sp_t sp;
static int cmpout(const char *fnn, uint8_t *o, size_t n)
{
    n_cmp++;
    if (memcmp(o, exq[0], n)) { size_t i = 0; while (o[i] == exq[0][i]) i++; viol("%s: keystream byte %zu of %zu is wrong", fnn, i, n); return 1; }
    for (int i = 0; i < G; i++) if (o[-1 - i] != 0x6B || o[n + i] != 0x6B) { viol("%s: wrote outside the %zu requested bytes", fnn, n); return 1; }
    return 0;
}
static int run10(int which, size_t n, const uint8_t *key, const uint8_t *nonce, int sh)
{
    uint8_t *o = outb[0] + G + sh, iv[16] = {0}, k2[48], n2[32];
    memset(o - G, 0x6B, n + 2 * G);
    memcpy(k2 + (sh & 7), key, 32); memcpy(n2 + (sh & 7), nonce, 16);
    n_states++; n_impl++;
    if (which == 0) { int r = cs(o, n, n2 + (sh & 7), k2 + (sh & 7)); memcpy(iv, nonce, 16); if (r) viol("crypto_stream_aes256ctr returned %d", r); }
    else if (which == 1) { prf(o, n, k2 + (sh & 7), n2 + (sh & 7)); memcpy(iv, nonce, 12); }
    else sp(o, n, k2 + (sh & 7));
    M_aesctr(exq[0], n, key, iv);
    return cmpout(which == 0 ? "crypto_stream_aes256ctr" : which == 1 ? "aes256ctr_prf" : "saber_aes256ctr_prf", o, n);
}
static void huge10(int which, const uint8_t *key, const uint8_t *nonce)
{
    int fd; uint8_t *b = window(&fd), iv[16] = {0};
    if (!b) { printf("NOTE no memory for lengths beyond 32 bits\n"); return; }
    n_states++; n_impl++;
    alarm(700);
    if (which == 0) { cs(b, HUGE_N, nonce, key); memcpy(iv, nonce, 16); }
    else if (which == 1) { prf(b, HUGE_N, key, nonce); memcpy(iv, nonce, 12); }
    else sp(b, HUGE_N, key);
    /* the end of the stream, from the block that begins one 1 MB below it */
    size_t from = (HUGE_N - (1 << 20)) / 16 * 16, n = HUGE_N - from;
    uint64_t add = from / 16;
    for (int i = 15; i >= 0 && add; i--) { add += iv[i]; iv[i] = add; add >>= 8; }
    M_aesctr(exq[0], n, key, iv); n_cmp++;
    if (memcmp(b + from, exq[0], n)) viol("stream function %d: output of %zu bytes is wrong", which, HUGE_N);
    unwindow(b, fd);
}
static void p10(void)
{
    uint8_t key[32], nonce[16];
    cs = (cs_t)hc_sym(&I, "crypto_stream_aes256ctr"); prf = (prf_t)hc_sym(&I, "aes256ctr_prf"); sp = (sp_t)hc_sym(&I, "saber_aes256ctr_prf");
    int seen = 0;
    if (nargx > 1) for (int w = 0; w < 3; w++)
        if ((w == 0 ? (void *)cs : w == 1 ? (void *)prf : (void *)sp) && CASE("huge", w)) { fill(key, 32, 1000); fill(nonce, 16, 1001); huge10(w, key, nonce); }
    for (int w = 0; w < 3; w++) {
        if (!(w == 0 ? (void *)cs : w == 1 ? (void *)prf : (void *)sp)) continue;
        seen++;
        fill(key, 32, 1000); fill(nonce, 16, 1001);
        for (int n = 0; n <= (thorough ? 6000 : 1600); n++) if (CASE("len", w, n)) for (int s = 0; s < 16; s++) if (run10(w, n, key, nonce, s)) break;
        for (int b = 0; b < 2; b++)
            for (int i = 0; i < 32; i++) if (CASE("key", w, b, i)) for (int v = 0; v < 256; v++) { uint8_t k[32] = {0}; if (b) memcpy(k, key, 32); k[i] = v; if (run10(w, 130, k, nonce, 0)) break; }
        if (w < 2)
            for (int b = 0; b < 2; b++)
                for (int i = 0; i < (w ? 12 : 16); i++) if (CASE("nonce", w, b, i)) for (int v = 0; v < 256; v++) { uint8_t k[16] = {0}; if (b) memcpy(k, nonce, 16); k[i] = v; if (run10(w, 130, key, k, 0)) break; }
        static const int big[] = {65535, 65536, 65537, 1048560, 1048576, 1048577, 1048640, 2100000};
        for (int k = 0; k < 8; k++) if (CASE("big", w, k)) run10(w, big[k], key, nonce, 0);
    }
    if (cs) /* counter carries: the 128-bit counter starts k blocks below a multiple of 2^(8p) */
        for (int p = 1; p <= 16; p++)
            for (int hi = 0; hi < 3; hi++)
                for (int k = 0; k <= (thorough ? 40 : 20); k++)
                    if (CASE("carry", p, hi, k)) {
                        uint8_t c[16]; /* big endian counter */
                        for (int i = 0; i < 16; i++) c[i] = i < 16 - p ? (hi == 0 ? 0 : hi == 1 ? 0xff : nonce[i]) : 0;
                        int bor = k; for (int i = 15; i >= 0 && bor; i--) { int t = c[i] - bor; c[i] = t; bor = t < 0 ? (-t + 255) / 256 : 0; }
                        for (int n = 0; n <= 16 * (k + 12); n += n % 16 == 15 || n % 16 == 0 || thorough ? 1 : 7) if (run10(0, n, key, c, 0)) break;
                    }
    ini_t ini = (ini_t)hc_sym(&I, "aes256ctr_init"); sqb_t sqb = (sqb_t)hc_sym(&I, "aes256ctr_squeezeblocks");
    if (ini && sqb) {
        seen++;
        static uint8_t ctx[8192] __attribute__((aligned(64)));
        uint8_t iv[16] = {0};
        for (int m = 0; m < 128; m++) /* every composition of eight pieces */
            for (int z = 0; z < 3; z++)
                if (CASE("split", m, z)) {
                    if (z) fill(key, 32, 1002 + z);
                    fill(nonce, 16, 1001); memcpy(iv, nonce, 12);
                    M_aesctr(exq[0], 512, key, iv);
                    uint8_t *o = outb[0] + G;
                    memset(o - G, 0x6B, 512 + 2 * G);
                    ini(ctx, key, nonce);
                    int pos = 0, len = 1;
                    for (int b = 0; b < 8; b++) {
                        if (b < 7 && !(m >> b & 1)) { len++; continue; }
                        if (z == 2) sqb(o + pos, 0, ctx);
                        sqb(o + pos, len, ctx); n_impl++;
                        pos += 64 * len; len = 1;
                    }
                    n_states++;
                    cmpout("aes256ctr_squeezeblocks", o, 512);
                }
        long tot = thorough ? (1L << 22) + 64 : (1L << 14) + 64; /* 64-byte pieces: counter passes 2^16 (thorough 2^24) */
        if (CASE("longstream", tot)) {
            fill(nonce, 16, 1001); memcpy(iv, nonce, 12); fill(key, 32, 1000);
            ini(ctx, key, nonce);
            for (long done = 0; done < tot;) {
                long c = tot - done < 1000 ? tot - done : 1000;
                uint8_t *o = outb[0] + G; memset(o - G, 0x6B, c * 64 + 2 * G);
                sqb(o, c, ctx); n_impl++; n_states++;
                uint32_t blk = done * 4; iv[12] = blk >> 24; iv[13] = blk >> 16; iv[14] = blk >> 8; iv[15] = blk;
                M_aesctr(exq[0], c * 64, key, iv);
                if (cmpout("aes256ctr_squeezeblocks (long stream)", o, c * 64)) break;
                done += c;
            }
        }
    }
    stat_add("routines", seen);
    hc_done();
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    if (!strcmp(argx[0], "p09")) p09(); else if (!strcmp(argx[0], "p09huge")) p09huge(); else p10();
}
