/* The operations used as an alphabet by the history and schedule explorers. */
#define NOP 12
static uint8_t wk[NOP][8192], ws[NOP][16384], in1[NOP][8192], in2[NOP][16384], tape[NOP][96 * 4];
static int kind[NOP];
static const char *opn[NOP] = {"keygen A", "keygen B", "encaps A", "encaps B", "encaps malformed key", "decaps honest A", "decaps honest B", "decaps altered A", "decaps altered B",
                               "decaps foreign ciphertext", "encaps A other tape", "decaps arbitrary bytes"};
static void setup(void)
{
    for (int o = 0; o < NOP; o++)
        for (int j = 0; j < I.lanes; j++) {
            base_t *x = &B[(j + (o % 2)) % 6], *y = &B[(j + 2) % 6];
            uint8_t pk[MAXPK], ct[MAXCT], sk[MAXSK], re[32];
            memcpy(pk, x->pk, I.pkb); memcpy(ct, x->ct, I.ctb); memcpy(sk, x->sk, I.skb); memcpy(re, x->re, 32);
            if (o < 2) { kind[o] = 0; memcpy(tape[o] + 96 * j, x->rk, 96); memcpy(wk[o] + j * I.pkb, x->pk, I.pkb); memcpy(ws[o] + j * I.skb, x->sk, I.skb); continue; }
            if (o < 5 || o == 10) {
                kind[o] = 1;
                if (o == 4) memset(pk, 0xff, I.pkb);
                if (o == 10) fill(re, 32, 1500 + j);
                memcpy(tape[o] + 32 * j, re, 32); memcpy(in1[o] + j * I.pkb, pk, I.pkb);
                M_enc(&I.p, wk[o] + j * I.ctb, ws[o] + 32 * j, pk, re);
                continue;
            }
            kind[o] = 2;
            if (o == 7 || o == 8) ct[(o * 131 + j * 17) % I.ctb] ^= 0x40;
            if (o == 9) memcpy(ct, y->ct, I.ctb);
            if (o == 11) { fill(sk, I.skb, 1600 + j); fill(ct, I.ctb, 1700 + j); }
            memcpy(in1[o] + j * I.ctb, ct, I.ctb); memcpy(in2[o] + j * I.skb, sk, I.skb);
            M_dec(&I.p, wk[o] + 32 * j, ct, sk);
        }
}
typedef struct { uint8_t *p, *s, *c, *k; } bufs;
static void ops_call(int o, bufs *b)   /* the implementation call alone */
{
    if (kind[o] == 0) b->k[255] = I.kp(b->p, b->s) != 0;
    else if (kind[o] == 1) b->k[255] = I.enc(b->c, b->k, b->p) != 0;
    else b->k[255] = I.dec(b->k, b->c, b->s) != 0;
}
static void ops_pre(int o, bufs *b)
{
    int L = I.lanes;
    if (kind[o] == 0) { memset(b->p, 0x33, I.pkb * L); memset(b->s, 0x33, I.skb * L); rnd_set(tape[o], 96 * L); }
    else if (kind[o] == 1) { memcpy(b->p, in1[o], I.pkb * L); memset(b->c, 0x33, I.ctb * L); memset(b->k, 0x33, 32 * L); rnd_set(tape[o], 32 * L); }
    else { memcpy(b->c, in1[o], I.ctb * L); memcpy(b->s, in2[o], I.skb * L); memset(b->k, 0x33, 32 * L); rnd_set(tape[o], 0); }
}
static int ops_bad(int o, bufs *b)   /* rnd_pos is per thread: call on the thread that ran the operation */
{
    int L = I.lanes;
    if (b->k[255]) return 1;
    if (kind[o] == 0) return memcmp(b->p, wk[o], I.pkb * L) || memcmp(b->s, ws[o], I.skb * L) || rnd_pos != 96u * L;
    if (kind[o] == 1) return memcmp(b->c, wk[o], I.ctb * L) || memcmp(b->k, ws[o], 32 * L) || rnd_pos != 32u * L;
    return memcmp(b->k, wk[o], 32 * L) || rnd_pos != 0;
}
static bufs ops_bufs(void) { bufs b = {aligned_alloc(64, 8192), aligned_alloc(64, 16384), aligned_alloc(64, 8192), aligned_alloc(64, 256)}; return b; }
static int apply(int o)
{
    bufs b = {bp, bs, bc, bk};
    n_impl++; n_cmp++;
    ops_pre(o, &b); ops_call(o, &b);
    return ops_bad(o, &b);
}
/* the library's writable memory */
#include <link.h>
typedef struct { uint8_t *p; size_t n; } seg;
static seg S[16]; static int nS; static size_t total; static int has_tls;
static int seg_cb(struct dl_phdr_info *d, size_t sz, void *x)
{
    (void)sz; (void)x;
    char a[4096], b[4096];
    if (!d->dlpi_name[0] || !realpath(d->dlpi_name, a) || !realpath(I.path, b) || strcmp(a, b)) return 0;
    uintptr_t rlo = 0, rhi = 0;
    for (int i = 0; i < d->dlpi_phnum; i++) {
        const ElfW(Phdr) *h = &d->dlpi_phdr[i];
        if (h->p_type == PT_GNU_RELRO) { rlo = d->dlpi_addr + h->p_vaddr; rhi = rlo + h->p_memsz; rhi &= ~4095ul; }
        if (h->p_type == PT_TLS) has_tls = 1;
    }
    for (int i = 0; i < d->dlpi_phnum; i++) {
        const ElfW(Phdr) *h = &d->dlpi_phdr[i];
        if (h->p_type != PT_LOAD || !(h->p_flags & PF_W)) continue;
        uintptr_t lo = d->dlpi_addr + h->p_vaddr, hi = lo + h->p_memsz;
        if (rhi > lo && rlo <= lo) lo = rhi;
        if (hi > lo) { S[nS].p = (uint8_t *)lo; S[nS++].n = hi - lo; total += hi - lo; }
    }
    return 0;
}
static void save(uint8_t *o) { for (int i = 0; i < nS; i++) { memcpy(o, S[i].p, S[i].n); o += S[i].n; } }
static void rest(const uint8_t *o) { for (int i = 0; i < nS; i++) { memcpy(S[i].p, o, S[i].n); o += S[i].n; } }
