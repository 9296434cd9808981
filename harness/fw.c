/* P20 and P22: the Cortex-M0 firmware on a model of its peripherals.  --x elf --x p20|p22|p22m (timing program, memory measuring program) */
#include "emu.h"
#define WORD_ 0x48020000u
#define CHK_ 0x48020004u
#define CTRL_ 0x4802000Cu
#define TRBSR_ 0x48000114u
#define UART_IN_ 0x48000180u
#define CLKCR_ 0x40010300u
#define SYST_ 0xE000E010u
enum { E_KEY, E_READ };
static struct { int kind; uint16_t v, ctrl; int seen, ready; } ev[8192];
static int nev, busy, seen_ready, pat[64], nkey, uart_wait, clk_wait, clk_reads;
static uint16_t ctrl; static long nread;
static uint16_t (*word)(long i);
static char uart[4096]; static int nuart, fifo, fifo_wait, fifo_lost;
static uint32_t st_csr, st_rvr, st_cvr; static uint64_t st_at; /* system timer: value at instruction st_at, one tick an instruction */
static void st_now(void)
{
    uint64_t n = a_icount - st_at; st_at = a_icount;
    if (!(st_csr & 1) || !n) return;
    if (!st_cvr) { st_cvr = st_rvr; n--; }
    st_cvr = n <= st_cvr ? st_cvr - n : st_rvr - (n - st_cvr - 1) % (st_rvr + 1ull);
}
static struct { uint32_t a, v; } reg[512]; static int nreg;
static uint32_t *rg(uint32_t a) { for (int i = 0; i < nreg; i++) if (reg[i].a == a) return &reg[i].v; if (nreg == 512) return &reg[0].v; reg[nreg].a = a; reg[nreg].v = 0; return &reg[nreg++].v; }
static int dev(uint32_t a, int size, int write, uint32_t *v)
{
    uint32_t w = a & ~3u;
    if (w == WORD_ || w == CHK_ || w == CTRL_) {
        if (a & 3) { *v = 0; return 1; }                    /* upper parts of the 16-bit registers */
        if (w == CTRL_) { if (write) ctrl = *v & 0xE; else *v = ctrl; return 1; }
        if (w == CHK_) { if (!write) { *v = 0xFFFE; if (!busy) { *v |= 1; seen_ready = 1; } else if (busy > 0) busy--; } return 1; }
        if (nev < 8192) { ev[nev].kind = write ? E_KEY : E_READ; ev[nev].v = *v; ev[nev].ctrl = ctrl; ev[nev].seen = seen_ready; ev[nev].ready = !busy; nev++; }
        if (write) { busy = pat[nkey < 63 ? nkey : 63]; nkey++; seen_ready = 0; return 1; }
        *v = word(nread++);
        if ((ctrl & 6) == 2) *v &= 0xff;                    /* byte-sized blocks */
        if (size == 1) *v &= 0xff;
        return 1;
    }
    /* a transmit buffer of 32 characters, which empties after a number of looks at its state */
    if (w == TRBSR_) { if (write) return 1; if (fifo_wait > 0) fifo_wait--; else fifo = 0; *v = 8 | (fifo == 0) << 11 | (fifo == 32) << 12; return 1; }
    if (w >= UART_IN_ && w < UART_IN_ + 0x80) { if (write) { if (fifo == 32) fifo_lost++; else fifo++; fifo_wait = uart_wait; } if (write && nuart < (int)sizeof uart - 1) uart[nuart++] = *v; else *v = 0; return 1; }
    if (w == SYST_) { st_now(); if (write) st_csr = *v & 7; else *v = st_csr; return 1; }
    if (w == SYST_ + 4) { st_now(); if (write) st_rvr = *v & 0xffffff; else *v = st_rvr; return 1; }
    if (w == SYST_ + 8) { st_now(); if (write) st_cvr = 0; else *v = st_cvr; return 1; }
    if (w == CLKCR_) { if (write) { *rg(w) = *v; clk_reads = clk_wait; } else { *v = *rg(w) & ~(1u << 30); if (clk_reads > 0) { clk_reads--; *v |= 1u << 30; } } return 1; }
    if ((a >> 28) == 4 || (a >> 28) == 0xE || (a >> 28) == 5) { if (write) *rg(w) = *v; else *v = *rg(w); return 1; }
    return 0;
}
static void reset_dev(void) { nev = busy = seen_ready = nkey = nuart = uart_wait = fifo = fifo_wait = fifo_lost = st_csr = st_rvr = st_cvr = st_at = clk_wait = clk_reads = nreg = 0; ctrl = 0; nread = 0; memset(pat, 0, sizeof pat); }
static int bad(const char *what) /* reports the fault of the last call */
{
    if (a_unsupported) { printf("NOTE %s: %s: %s; the rest was not explored\n", I.name, what, a_fault); stat_add("configurations_cut_short", 1); hc_done(); }
    viol("%s: the code %s", what, a_fault);
    return 1;
}
/* word streams */
static uint32_t gen(long i) { uint8_t b[8]; static uint64_t tag; uint32_t r; (void)tag; fill(b, 8, 70000 + i); memcpy(&r, b, 4); return r; }
static long stream_tag;
static uint16_t w_id0(long i) { return (uint16_t)(((2 * i) & 255) | ((2 * i + 1) & 255) << 8); }
static uint16_t w_id1(long i) { return (uint16_t)(((2 * i) >> 8 & 255) | ((2 * i + 1) >> 8 & 255) << 8); }
static uint16_t w_0(long i) { (void)i; return 0; }
static uint16_t w_1(long i) { (void)i; return 0xffff; }
static uint16_t w_g(long i) { return gen(i + stream_tag * 4099); }
static uint16_t w_n(long i) { return ~gen(i + stream_tag * 4099); }
static uint16_t w_b(long i) { return 1u << (i * 5 + stream_tag) % 16; }

static uint32_t f_rnd, f_en;
static uint8_t out[3][20000];
/* one request; returns nonzero after a report */
static int request(uint8_t *o, size_t n, int off)
{
    uint32_t at = 64 + off, a[4] = {AREN + at, 0, n, 0};
    memset(a_perm, 0, AREN_SZ); memset(a_perm + at, A_R | A_W, n); memset(a_aren + at, 0x6B, n);
    n_impl++;
    if (arm_call(f_rnd, 4, a)) return bad("random bytes");
    memcpy(o, a_aren + at, n);
    return 0;
}
static int src[20000];
/* where every output byte comes from: twice the word number plus the half; nonzero after a report */
static int sources(const size_t *len, int k, int off)
{
    size_t n = 0, p;
    static uint16_t (*const st[])(long) = {w_id0, w_id1, w_0, w_1, w_g, w_n, w_b};
    for (int i = 0; i < k; i++) n += len[i];
    for (unsigned s = 0; s < sizeof st / sizeof *st; s++) {
        reset_dev(); ctrl = 4; word = st[s]; p = 0;
        uint8_t *o = out[s < 2 ? s : 2];
        for (int i = 0; i < k; i++) { if (request(o + p, len[i], (off + i) & 3)) return 1; p += len[i]; }
        n_cmp++;
        if (s == 1) {
            static uint8_t used[65536]; memset(used, 0, sizeof used);
            for (size_t i = 0; i < n; i++) {
                src[i] = out[0][i] | out[1][i] << 8;
                if (src[i] >= 2 * nread) { viol("%zu bytes: byte %zu does not come from a word of the generator", n, i); return 1; }
                if (used[src[i]]) { viol("%zu bytes: byte %zu repeats a part of a generated word used before", n, i); return 1; }
                used[src[i]] = 1;
            }
        }
        if (s >= 2) for (size_t i = 0; i < n; i++) {
            uint8_t w = word(src[i] / 2) >> 8 * (src[i] & 1);
            if (o[i] != w) { viol("%zu bytes: byte %zu is %02x, the generator delivered %02x there", n, i, o[i], w); return 1; }
        }
        for (int i = 0; i < nev; i++) if (ev[i].kind == E_KEY) { viol("%zu bytes: writes to the generator", n); return 1; }
        if (ctrl != 4) { viol("%zu bytes: changes the mode of the generator", n); return 1; }
    }
    return 0;
}
/* the events of start-up; returns the number of discarded words, -1 after a report */
static const uint16_t KEY[5] = {0x19b2, 0x5856, 0xe1c1, 0x50ca, 0x834c};
static int startup(int upto, const char *what)
{
    int k = 0, i = 0;
    for (; i < upto && ev[i].kind == E_KEY; i++, k++) {
        if ((ev[i].ctrl & 0xE) != 0xC) { viol("%s: key word %d written while the generator is not in word-sized key-loading mode", what, k); return -1; }
        if (k && !ev[i].seen) { viol("%s: key word %d written before word %d was seen accepted", what, k, k - 1); return -1; }
        if (k < 5 && ev[i].v != KEY[k]) { viol("%s: key word %d is %04x, should be %04x", what, k, ev[i].v, KEY[k]); return -1; }
    }
    if (k != 5) { viol("%s: %d key words loaded instead of 5", what, k); return -1; }
    int w = 0;
    for (; i < upto; i++) {
        if (ev[i].kind == E_KEY) { viol("%s: key word written after the generator was started", what); return -1; }
        if (ev[i].ctrl & 8) { viol("%s: output read in key-loading mode", what); return -1; }
        if (!ev[i].seen) { viol("%s: output read before the last key word was seen accepted", what); return -1; }
        if ((ev[i].ctrl & 6) == 4) w += 2; else if ((ev[i].ctrl & 6) == 2) w++;
    }
    if (w < 8) { viol("%s: only %d bits of warm-up output discarded, 64 needed", what, 8 * w); return -1; }
    if ((ctrl & 0xE) != 4) { viol("%s: the generator is left in mode %x", what, ctrl); return -1; }
    return upto - k;
}
static void p20(void)
{
    int max = thorough ? 4096 : 700;
    if (f_rnd) {
        for (int n = 0; n <= max; n++)
            for (int off = 0; off < 4; off++) { if (off && n > 200 && n % 64 > 2) continue; if (CASE("length", n, off)) { n_states++; size_t l[1] = {n}; if (sources(l, 1, off)) break; } }
        for (int a = 0; a <= 40; a++) for (int b = 0; b <= 40; b++) if (CASE("two", a, b)) { n_states++; size_t l[2] = {a, b}; sources(l, 2, 0); }
        for (int w = 0; w < 6 * 6 * 6 * 6; w++) if (CASE("four", w)) { static const size_t c[] = {0, 1, 2, 3, 32, 33}; n_states++; size_t l[4] = {c[w % 6], c[w / 6 % 6], c[w / 36 % 6], c[w / 216]}; sources(l, 4, w & 3); }
    } else printf("NOTE %s: no randombytes symbol\n", I.name);
    if (f_en) {
        /* every pattern of waiting times, every mode the generator may be found in */
        for (int w = 0; w < 4 * 4 * 4 * 4 * 4; w++)
            for (int c0 = 0; c0 < 16; c0 += 2) {
                if (!CASE("start", w, c0)) continue;
                reset_dev(); word = w_g; ctrl = c0; n_states++; n_impl++; n_cmp++;
                for (int i = 0, x = w; i < 5; i++, x /= 4) pat[i] = x % 4 == 3 ? 1000 : x % 4;
                if (arm_call(f_en, 0, NULL)) { bad("start-up"); continue; }
                if (startup(nev, "start-up") >= 0 && nuart) viol("start-up: reports an error although the generator started");
            }
        /* a generator that never accepts key word k keeps the code waiting */
        for (int k = 0; k < 5; k++)
            for (int c0 = 0; c0 < 16; c0 += 2) {
                if (!CASE("stuck", k, c0)) continue;
                reset_dev(); word = w_g; ctrl = c0; n_states++; n_impl++; n_cmp++;
                pat[k] = -1;
                uint64_t lim = a_ilimit; a_ilimit = 200000;
                int r = arm_call(f_en, 0, NULL); a_ilimit = lim;
                if (a_unsupported) bad("start-up");
                if (!r) { viol("start-up: goes on although the generator never accepted key word %d", k); continue; }
                if (!strstr(a_fault, "terminate")) bad("start-up");
                for (int i = 0; i < nev; i++) if (ev[i].kind == E_READ) { viol("start-up: reads output although the generator never accepted key word %d", k); break; }
                if (nkey != k + 1) viol("start-up: %d key words written although the generator did not accept word %d", nkey, k);
            }
    } else printf("NOTE %s: no rng_enable symbol\n", I.name);
}
static int in_ram(const uint8_t *b, size_t n, uint32_t lim) { for (uint32_t i = 0; i + n <= lim; i++) if (!memcmp(a_ram + i, b, n)) return 1; return 0; }
static uint32_t deep;
/* the stack that each operation takes below its caller's */
static uint32_t op_fn[3], op_base[16], op_depth[16], op_ret, op_min; static uint64_t op_at, op_ticks[16]; static int nop;
static void op_end(void) { if (nop) op_depth[nop - 1] = op_base[nop - 1] - a_minsp; if (a_minsp < op_min) op_min = a_minsp; }
static void op_watch(uint64_t e)
{
    if (op_ret && e == op_ret && nop && R[13] == op_base[nop - 1]) { op_ticks[nop - 1] = a_icount - op_at; op_ret = 0; return; }
    if (e != op_fn[0] && e != op_fn[1] && e != op_fn[2]) return;
    op_end();
    if (nop < 16) op_base[nop++] = R[13];
    a_minsp = R[13]; op_ret = R[14] & ~1u; op_at = a_icount;
}
/* the reported times: one tick an instruction here; no operation takes so long that the timer overflows */
static void timefig(void)
{
    uint32_t f[8], n = 0;
    for (char *q = uart; n < 8 && (q = strstr(q, "0x")); q += 2) f[n++] = strtoul(q, NULL, 16);
    if (n < 3) { viol("run from reset: %u figures reported instead of 3", n); return; }
    if (nop != 3) { printf("NOTE %s: the duration of single operations could not be followed\n", I.name); return; }
    for (int i = 0; i < 3; i++) {
        static const char *const what[] = {"key generation", "encapsulation", "decapsulation"};
        if (op_ticks[i] < 0xff0000 && (f[i] > op_ticks[i] + 500 || f[i] + 500 < op_ticks[i])) { viol("run from reset: %u ticks reported for %s, %u passed", f[i], what[i], (unsigned)op_ticks[i]); return; }
    }
}
/* the reported stack use: three operations, and all of them together */
static void memfig(void)
{
    uint32_t f[8], n = 0, d = 0;
    for (char *q = uart; n < 8 && (q = strstr(q, "0x")); q += 2) f[n++] = strtoul(q, NULL, 16);
    if (n < 4) { viol("run from reset: %u figures reported instead of 4", n); return; }
    if (nop != 6) { printf("NOTE %s: the stack use of single operations could not be followed\n", I.name); return; }
    for (int i = 0; i < 4; i++) {
        static const char *const what[] = {"key generation", "encapsulation", "decapsulation", "all operations"};
        if (i < 3) d = op_depth[i]; else for (int k = d = 0; k < 3; k++) if (op_depth[3 + k] > d) d = op_depth[3 + k];
        /* the lowest words may be reserved but not written, or hold the value of the marks */
if (f[i] > d + 64 || f[i] + 64 < d) { viol("run from reset: %u bytes of stack reported for %s, %u used", f[i], what[i], d); return; }
    }
}
/* rounds: how often the program runs the three operations; the last round's results stay in memory */
static void p22(int rounds)
{
    static uint8_t pk[MAXPK], sk[MAXSK], ct[MAXCT], ss[32], tape[256];
    M_nohalf = 1;
    size_t l[8] = {32, 32, 32, 32, 32, 32, 32, 32};
    if (!f_rnd || !f_en) { printf("NOTE %s: no entry points\n", I.name); return; }
    static const uint8_t fills[] = {0, 0xff, 0xa5, 0x42};
    for (int v = 0; v < (thorough ? 400 : 96); v++) {
        if (!CASE("boot", v)) continue;
        n_states++;
        if (sources(l, 4 * rounds, 0)) return;
        memset(a_ram, fills[v % 4], 0x4000);
        if (v % 8 >= 4) for (int i = 0; i < 0x4000; i++) a_ram[i] = i * 2654435761u >> 13;
        reset_dev();
        stream_tag = v / 8; word = v % 3 ? v % 3 == 1 ? w_n : w_b : w_g;
        if (v == 5) word = w_0;
        if (v == 6) word = w_1;
        uart_wait = v / 4 % 3 == 2 ? 40 : v / 4 % 3; clk_wait = v / 2 % 4; for (int i = 0; i < 5; i++) pat[i] = v >> i & 1 ? 3 : 0;
        a_ramlim = 0x4000; n_impl++; n_cmp++;
        a_ilimit = 200000000;
        nop = 0; op_min = -1; op_ret = 0; a_ev = op_watch;
        int r = arm_boot(0x10001000);
        a_ramlim = RAM_SZ; a_ev = NULL;
        op_end(); a_minsp = op_min;
        if (r) { bad("run from reset"); continue; }
        if (a_minsp < arm_dataend()) { viol("run from reset: the stack reaches down to %08x, into the static data", a_minsp); continue; }
        int w = 0; while (w < nev && ev[w].kind == E_KEY) w++;
        int total = nev - w, warm = total - 64 * rounds;     /* 4 requests of 32 bytes a round, two bytes a word */
        if (warm < 0) { viol("run from reset: %d words read", total); continue; }
        if (startup(w + warm, "run from reset") < 0) continue;
        for (int i = 0; i < 128 * rounds; i++) tape[i] = word(warm + src[i] / 2) >> 8 * (src[i] & 1);
        uint8_t *t = tape + 128 * (rounds - 1);
        M_keypair(&I.p, pk, sk, t); M_enc(&I.p, ct, ss, pk, t + 96);
        if (!in_ram(pk, I.pkb, 0x4000)) viol("run from reset: the public key of the delivered random bytes is not in memory");
        else if (!in_ram(sk, I.skb, 0x4000)) viol("run from reset: the secret key of the delivered random bytes is not in memory");
        else if (!in_ram(ct, I.ctb, 0x4000)) viol("run from reset: the ciphertext of the delivered random bytes is not in memory");
        else if (!in_ram(ss, 32, 0x4000)) viol("run from reset: the shared secret is not in memory");
        uart[nuart] = 0;
        if (strstr(uart, "ERROR")) viol("run from reset: reports an error");
        int lines = 0; for (int i = 0; i < nuart; i++) lines += uart[i] == '\n';
        if (lines < 2 + rounds) viol("run from reset: %d lines reported instead of %d", lines, 2 + rounds);
        if (rounds == 2) memfig(); else timefig();
        if (fifo_lost) viol("run from reset: %d characters sent while the transmit buffer was full", fifo_lost);
        if (0x20004000 - a_minsp > deep) deep = 0x20004000 - a_minsp;
    }
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    a_v6m = 1; a_physical = 1; arm_load(argx[0]); a_dev = dev;
    I.pkb = m_pkb(&I.p); I.skb = m_skb(&I.p); I.ctb = m_ctb(&I.p);
    f_rnd = arm_sym("randombytes"); f_en = arm_sym("rng_enable");
    op_fn[0] = arm_sym("crypto_kem_keypair") & ~1u; op_fn[1] = arm_sym("crypto_kem_enc") & ~1u; op_fn[2] = arm_sym("crypto_kem_dec") & ~1u;
    if (!strcmp(argx[1], "p20")) p20(); else { p22(argx[1][3] == 'm' ? 2 : 1); if (deep && 1) printf("NOTE %s: deepest stack of a run from reset: %u bytes\n", I.name, deep); }
    hc_done();
}
