#include "emu.h"
int emu_off[4], emu_fill = 0, emu_comp; uint32_t emu_depth;
int (*emu_xof)(uint8_t *, size_t, const uint8_t *, size_t);
static uint32_t f_kp, f_enc, f_dec, f_cenc, f_cdec;
static int is_m0;
extern int __wrap_randombytes(unsigned char *x, unsigned long long n);

static void xof(uint8_t *o, size_t on, const uint8_t *in, size_t n) { if (!emu_xof || !emu_xof(o, on, in, n)) M_shake128(o, on, in, n); }
/* incremental SHAKE-128 whose whole state lives in the 208 bytes of the caller's context */
typedef struct { uint32_t magic, phase, len, pos; uint8_t d[192]; } inc_t;
static uint8_t h1[1 << 16], h2[1 << 16];
/* Keccak-f[1600] served by the host; the state after absorbing a programmed seed yields the programmed stream block by block */
static void permute(uint8_t *s)
{
    static struct { uint8_t seed[32]; } known[8]; static int nk;
    static const char tag[9] = "PROGRAM\1";
    uint64_t id, blk, l[25];
    int i;
    if (emu_xof) {
        if (!memcmp(s + 168, tag, 8)) {
            memcpy(&id, s + 176, 8); memcpy(&blk, s + 184, 8);
            if (id < 8 && (blk + 2) * 168 <= sizeof h1 && emu_xof(h1, (blk + 2) * 168, known[id].seed, 32)) {
                blk++; memcpy(s, h1 + 168 * blk, 168); memcpy(s + 184, &blk, 8);
                return;
            }
        }
        for (i = 33; i < 200 && s[i] == (i == 167 ? 0x80 : 0); i++) {}
        if (i == 200 && s[32] == 0x1f && emu_xof(h1, 168, s, 32)) {
            for (i = 0; i < 8 && i < nk && memcmp(known[i].seed, s, 32); i++) {}
            if (i == nk || i == 8) { i = nk < 8 ? nk++ : 0; memcpy(known[i].seed, s, 32); }
            id = i; blk = 0;
            memset(s, 0, 200); memcpy(s, h1, 168); memcpy(s + 168, tag, 8); memcpy(s + 176, &id, 8); memcpy(s + 184, &blk, 8);
            return;
        }
    }
    memcpy(l, s, 200); M_keccakf(l); memcpy(s, l, 200);
}
static void host(int n)
{
    static uint8_t st[200];
    inc_t c; uint32_t a = arm_arg(0), b = arm_arg(1), d = arm_arg(2), e = arm_arg(3);
    switch (n) {
    case 1: if (b > sizeof h1) arm_stop("asks for an absurd number of random bytes", 0); __wrap_randombytes(h1, b); arm_put(a, h1, b); R[0] = 0; return;
    case 2: case 11: if (b > sizeof h1 || e > sizeof h2) arm_stop("hashes an absurd length", 0);
        arm_get(d, h2, e); if (n == 2) xof(h1, b, h2, e); else M_shake256(h1, b, h2, e); arm_put(a, h1, b); return;
    case 3: case 4: if (d > sizeof h2) arm_stop("hashes an absurd length", 0);
        arm_get(b, h2, d); if (n == 3) M_sha3_256(h1, h2, d); else M_sha3_512(h1, h2, d); arm_put(a, h1, n == 3 ? 32 : 64); return;
    case 5: memset(&c, 0, sizeof c); c.magic = 0x51AB3E00; break;
    case 6: arm_get(a, (uint8_t *)&c, sizeof c); if (c.magic != 0x51AB3E00 || c.phase || c.len + d > sizeof c.d) arm_stop("absorbs into a context in a state the host does not serve", 1);
        arm_get(b, c.d + c.len, d); c.len += d; break;
    case 7: arm_get(a, (uint8_t *)&c, sizeof c); c.phase = 1; c.pos = 0; break;
    case 8: arm_get(d, (uint8_t *)&c, sizeof c); a = arm_arg(0);
        if (c.magic != 0x51AB3E00 || c.phase != 1 || c.pos + b > sizeof h1) arm_stop("squeezes a context that was not absorbed and finalised", 0);
        xof(h1, c.pos + b, c.d, c.len); arm_put(a, h1 + c.pos, b); c.pos += b; arm_put(d, (uint8_t *)&c, sizeof c); return;
    case 9: arm_get(a, (uint8_t *)&c, sizeof c); memset(&c, 0xA7, sizeof c); break;
    case 10: arm_get(b, (uint8_t *)&c, sizeof c); break;
    case 12: if (d > sizeof h1 || e) arm_stop("asks for an absurd number of random bytes", 0); __wrap_randombytes(h1, d); arm_put(a, h1, d); return; /* 64-bit length */
    case 20: case 21: case 22: /* exclusive-or into, read from, permute a state */
        if (n == 22) d = e = 0;
        if (d > 200 || e > 200 || d + e > 200) arm_stop("names bytes outside the Keccak state", 0);
        arm_get(a, st, 200);
        if (n == 21) { arm_put(b, st + d, e); return; }
        if (n == 22) permute(st);
        else { arm_get(b, h1, e); for (uint32_t i = 0; i < e; i++) st[d + i] ^= h1[i]; }
        arm_put(a, st, 200);
        return;
    default: arm_stop("unknown breakpoint", 1);
    }
    arm_put(a, (uint8_t *)&c, sizeof c);
}
static uint32_t call(const char *what, uint32_t f, int n, uint32_t *arg)
{
    if (!is_m0 && emu_fill >= 0) memset(a_ram + RAM_SZ - 0x20000, emu_fill, 0x20000 - 256);
    if (is_m0 && emu_fill >= 0) memset(a_ram + RAM_SZ - 0x10000, emu_fill, 0x10000 - 256);
    if (arm_call(f, n, arg)) {
        if (a_unsupported) { printf("NOTE %s: %s: %s; the rest of this configuration was not explored\n", I.name, what, a_fault); stat_add("configurations_cut_short", 1); hc_done(); }
        viol("%s: the code %s", what, a_fault);
        return ~0u;
    }
    if (STACK_TOP - a_minsp > emu_depth) emu_depth = STACK_TOP - a_minsp;
    return R[0];
}
static uint32_t slot_end;
static void begin(void) { memset(a_perm, 0, AREN_SZ); slot_end = 64; }
static uint32_t buf(const uint8_t *in, int n, int perm, int which)
{
    uint32_t at = ((slot_end + 127) & ~63u) + emu_off[which]; slot_end = at + n;
    if (in) memcpy(a_aren + at, in, n); else memset(a_aren + at, 0x5A, n);
    memset(a_perm + at, perm, n);
    return AREN + at;
}
static void sk_in(uint8_t *o, const uint8_t *sk)    /* standard format -> format of the code */
{
    uint16_t c[256];
    if (!emu_comp) { memcpy(o, sk, I.skb); return; }
    for (int i = 0; i < I.p.l; i++) { M_unpack(c, sk + 416 * i, 256, 13); for (int k = 0; k < 256; k++) c[k] &= 15; M_pack(o + 128 * i, c, 256, 4); }
    memcpy(o + 128 * I.p.l, sk + I.iskb, I.skb - I.iskb);
}
static void sk_out(uint8_t *sk, const uint8_t *o)
{
    uint16_t c[256];
    if (!emu_comp) { memcpy(sk, o, I.skb); return; }
    for (int i = 0; i < I.p.l; i++) { M_unpack(c, o + 128 * i, 256, 4); for (int k = 0; k < 256; k++) c[k] = (c[k] & 8 ? c[k] - 16 : c[k]) & 8191; M_pack(sk + 416 * i, c, 256, 13); }
    memcpy(sk + I.iskb, o + 128 * I.p.l, I.skb - I.iskb);
}
static int skn(void) { return emu_comp ? I.skb - I.iskb + 128 * I.p.l : I.skb; }
static int kp(uint8_t *pk, uint8_t *sk)
{
    begin();
    uint32_t a[2] = {buf(NULL, I.pkb, A_R | A_W, 0), buf(NULL, skn(), A_R | A_W, 1)}, r = call("key generation", f_kp, 2, a);
    memcpy(pk, arm_ptr(a[0]), I.pkb); sk_out(sk, arm_ptr(a[1]));
    return r;
}
static int enc(uint8_t *ct, uint8_t *k, const uint8_t *pk)
{
    begin();
    uint32_t a[3] = {buf(NULL, I.ctb, A_R | A_W, 0), buf(NULL, 32, A_R | A_W, 1), buf(pk, I.pkb, A_R, 2)}, r = call("encapsulation", f_enc, 3, a);
    memcpy(ct, arm_ptr(a[0]), I.ctb); memcpy(k, arm_ptr(a[1]), 32);
    return r;
}
static int dec(uint8_t *k, const uint8_t *ct, const uint8_t *sk)
{
    static uint8_t s[MAXSK];
    begin(); sk_in(s, sk);
    uint32_t a[3] = {buf(NULL, 32, A_R | A_W, 0), buf(ct, I.ctb, A_R, 1), buf(s, skn(), A_R, 2)}, r = call("decapsulation", f_dec, 3, a);
    memcpy(k, arm_ptr(a[0]), 32);
    return r;
}
static void cenc(const uint8_t *m, const uint8_t *sd, const uint8_t *pk, uint8_t *ct)
{
    begin();
    uint32_t a[4] = {buf(m, 32, A_R, 0), buf(sd, 32, A_R, 1), buf(pk, I.pkb, A_R, 2), buf(NULL, I.ctb, A_R | A_W, 3)};
    call("encryption", f_cenc, 4, a);
    memcpy(ct, arm_ptr(a[3]), I.ctb);
}
static void cdec(const uint8_t *isk, const uint8_t *ct, uint8_t *m)
{
    static uint8_t s[MAXSK], t[MAXSK];
    begin(); memset(t, 0, sizeof t); memcpy(t, isk, I.iskb); sk_in(s, t);
    uint32_t a[3] = {buf(s, emu_comp ? 128 * I.p.l : I.iskb, A_R, 0), buf(ct, I.ctb, A_R, 1), buf(NULL, 32, A_R | A_W, 2)};
    call("decryption", f_cdec, 3, a);
    memcpy(m, arm_ptr(a[2]), 32);
}
void emu_load(const char *elf, int m0)
{
    is_m0 = m0; a_v6m = m0;
    arm_load(elf);
    a_host = host;
    f_kp = arm_sym("crypto_kem_keypair"); f_enc = arm_sym("crypto_kem_enc"); f_dec = arm_sym("crypto_kem_dec");
    f_cenc = arm_sym("indcpa_kem_enc"); f_cdec = arm_sym("indcpa_kem_dec");
    if (!f_kp || !f_enc || !f_dec) { fprintf(stderr, "no KEM in %s\n", elf); exit(3); }
    I.pkb = m_pkb(&I.p); I.skb = m_skb(&I.p); I.ctb = m_ctb(&I.p); I.iskb = m_iskb(&I.p); I.lanes = 1;
    I.kp = kp; I.enc = enc; I.dec = dec;
    if (f_cenc && f_cdec) { I.cpa_enc = (void *)cenc; I.cpa_dec = (void *)cdec; }
}
