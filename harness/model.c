#include "model.h"
#include <openssl/evp.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

int (*M_xof_override)(uint8_t *, size_t, const uint8_t *, size_t);

static EVP_MD *md(const char *n, EVP_MD **slot)
{
    if (!*slot) { *slot = EVP_MD_fetch(NULL, n, NULL); if (!*slot) abort(); }
    return *slot;
}
static void dig(EVP_MD *m, int xof, uint8_t *o, size_t on, const uint8_t *in, size_t n)
{
    static __thread EVP_MD_CTX *c;
    if (!c) c = EVP_MD_CTX_new();
    if (on == 0) return;
    uint8_t tmp[64];
    if (!EVP_DigestInit_ex2(c, m, NULL) || !EVP_DigestUpdate(c, in, n)) abort();
    if (xof) { if (!EVP_DigestFinalXOF(c, o, on)) abort(); }
    else { if (!EVP_DigestFinal_ex(c, tmp, NULL)) abort(); memcpy(o, tmp, on); }
}
static EVP_MD *e1, *e2, *e3, *e4, *e5, *e6;
void M_sha3_256(uint8_t *o, const uint8_t *in, size_t n) { dig(md("SHA3-256", &e1), 0, o, 32, in, n); }
void M_sha3_512(uint8_t *o, const uint8_t *in, size_t n) { dig(md("SHA3-512", &e2), 0, o, 64, in, n); }
void M_shake128(uint8_t *o, size_t on, const uint8_t *in, size_t n) { dig(md("SHAKE128", &e3), 1, o, on, in, n); }
void M_shake256(uint8_t *o, size_t on, const uint8_t *in, size_t n) { dig(md("SHAKE256", &e4), 1, o, on, in, n); }
void M_sha256(uint8_t *o, const uint8_t *in, size_t n) { dig(md("SHA256", &e5), 0, o, 32, in, n); }
void M_sha512(uint8_t *o, const uint8_t *in, size_t n) { dig(md("SHA512", &e6), 0, o, 64, in, n); }

static EVP_CIPHER *cctr, *cecb;
void M_aesctr(uint8_t *o, size_t n, const uint8_t key[32], const uint8_t iv[16])
{
    static __thread EVP_CIPHER_CTX *c;
    int l;
    if (!cctr) cctr = EVP_CIPHER_fetch(NULL, "AES-256-CTR", NULL);
    if (!c) c = EVP_CIPHER_CTX_new();
    if (!n) return;
    uint8_t *z = calloc(1, n);
    if (!EVP_EncryptInit_ex2(c, cctr, key, iv, NULL) || !EVP_EncryptUpdate(c, o, &l, z, (int)n)) abort();
    free(z);
}
void M_aesecb(uint8_t o[16], const uint8_t key[32], const uint8_t in[16])
{
    static __thread EVP_CIPHER_CTX *c;
    int l;
    if (!cecb) cecb = EVP_CIPHER_fetch(NULL, "AES-256-ECB", NULL);
    if (!c) c = EVP_CIPHER_CTX_new();
    if (!EVP_EncryptInit_ex2(c, cecb, key, NULL, NULL) || !EVP_EncryptUpdate(c, o, &l, in, 16)) abort();
}

/* Keccak, straight from FIPS 202 */
static uint64_t rotl(uint64_t x, int n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
static int rcbit(int t)
{
    int r = 1, i;
    t %= 255;
    for (i = 0; i < t; i++) { r <<= 1; if (r & 256) r ^= 0x171; }
    return r & 1;
}
void M_keccakf(uint64_t s[25])
{
    static int ready; static uint64_t RC[24];
    if (!ready) {
        for (int i = 0; i < 24; i++) {
            RC[i] = 0;
            for (int j = 0; j <= 6; j++)
                if (rcbit(j + 7 * i)) RC[i] |= 1ull << ((1 << j) - 1);
        }
        ready = 1;
    }
    for (int r = 0; r < 24; r++) {
        uint64_t C[5], D[5], B[25];
        for (int x = 0; x < 5; x++) C[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
        for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rotl(C[(x + 1) % 5], 1);
        for (int i = 0; i < 25; i++) s[i] ^= D[i % 5];
        int x = 1, y = 0;
        B[0] = s[0];
        for (int t = 0; t < 24; t++) {
            int nx = y, ny = (2 * x + 3 * y) % 5;
            B[nx + 5 * ny] = rotl(s[x + 5 * y], (t + 1) * (t + 2) / 2);
            x = nx; y = ny;
        }
        for (int yy = 0; yy < 5; yy++)
            for (int xx = 0; xx < 5; xx++)
                s[xx + 5 * yy] = B[xx + 5 * yy] ^ (~B[(xx + 1) % 5 + 5 * yy] & B[(xx + 2) % 5 + 5 * yy]);
        s[0] ^= RC[r];
    }
}
void M_keccak(uint8_t *o, size_t on, const uint8_t *in, size_t n, int rate, uint8_t dom)
{
    uint64_t s[25] = {0};
    uint8_t *b = (uint8_t *)s;                    /* little-endian host */
    size_t pos = 0;
    for (size_t i = 0; i < n; i++) { b[pos++] ^= in[i]; if (pos == (size_t)rate) { M_keccakf(s); pos = 0; } }
    b[pos] ^= dom; b[rate - 1] ^= 0x80;
    M_keccakf(s); pos = 0;
    for (size_t i = 0; i < on; i++) { if (pos == (size_t)rate) { M_keccakf(s); pos = 0; } o[i] = b[pos++]; }
}

void M_H(const mp_t *p, uint8_t *o, const uint8_t *in, size_t n) { if (p->n90) M_sha256(o, in, n); else M_sha3_256(o, in, n); }
void M_G(const mp_t *p, uint8_t *o, const uint8_t *in, size_t n) { if (p->n90) M_sha512(o, in, n); else M_sha3_512(o, in, n); }
void M_prf(const mp_t *p, uint8_t *o, size_t on, const uint8_t seed[32])
{
    static const uint8_t iv[16];
    uint8_t s[32];
    memcpy(s, seed, 32);
    if (M_xof_override && M_xof_override(o, on, s, 32)) return;
    if (p->n90) M_aesctr(o, on, s, iv); else M_shake128(o, on, s, 32);
}

void M_pack(uint8_t *bytes, const uint16_t *c, int n, int w)
{
    uint32_t acc = 0; int nb = 0;
    for (int i = 0; i < n; i++) {
        acc |= (uint32_t)(c[i] & ((1u << w) - 1)) << nb; nb += w;
        while (nb >= 8) { *bytes++ = (uint8_t)acc; acc >>= 8; nb -= 8; }
    }
}
void M_unpack(uint16_t *c, const uint8_t *bytes, int n, int w)
{
    uint32_t acc = 0; int nb = 0;
    for (int i = 0; i < n; i++) {
        while (nb < w) { acc |= (uint32_t)*bytes++ << nb; nb += 8; }
        c[i] = acc & ((1u << w) - 1); acc >>= w; nb -= w;
    }
}
/* res += a*b in Z[x]/(x^256+1), modulo 2^16 */
void M_mulacc(uint16_t res[MN], const uint16_t a[MN], const uint16_t b[MN])
{
    uint16_t c[2 * MN] = {0};
    for (int i = 0; i < MN; i++) {
        uint16_t ai = a[i];
        if (!ai) continue;
        for (int j = 0; j < MN; j++) c[i + j] = (uint16_t)(c[i + j] + (uint32_t)ai * b[j]);
    }
    for (int i = 0; i < MN; i++) res[i] = (uint16_t)(res[i] + c[i] - c[i + MN]);
}

void M_expandA(const mp_t *p, uint16_t A[ML][ML][MN], const uint8_t seed[32])
{
    uint8_t buf[4 * 4 * 32 * 13];
    M_prf(p, buf, m_matb(p), seed);
    for (int i = 0; i < p->l; i++)
        for (int j = 0; j < p->l; j++)
            M_unpack(A[i][j], buf + (i * p->l + j) * 32 * p->eq, MN, p->eq);
}
void M_sample(const mp_t *p, uint16_t s[ML][MN], const uint8_t seed[32])
{
    uint8_t buf[4 * 32 * 10];
    int w = p->u ? 2 : p->mu;
    M_prf(p, buf, m_noiseb(p), seed);
    for (int i = 0; i < p->l; i++) {
        M_unpack(s[i], buf + i * 32 * w, MN, w);
        for (int k = 0; k < MN; k++) {
            int v = s[i][k], r;
            if (p->u) r = (v & 2) ? v - 4 : v;
            else r = __builtin_popcount(v & ((1 << (w / 2)) - 1)) - __builtin_popcount(v >> (w / 2));
            s[i][k] = (uint16_t)r;
        }
    }
}
void M_cpa_keypair(const mp_t *p, uint8_t *pk, uint8_t *isk, const uint8_t rnd[64])
{
    uint16_t A[ML][ML][MN], s[ML][MN], b[ML][MN];
    uint8_t seedA[32];
    int l = p->l, mq = (1 << p->eq) - 1;
    M_prf(p, seedA, 32, rnd);
    M_expandA(p, A, seedA);
    M_sample(p, s, rnd + 32);
    for (int i = 0; i < l; i++) {
        memset(b[i], 0, sizeof b[i]);
        for (int j = 0; j < l; j++) M_mulacc(b[i], A[j][i], s[j]);
        for (int k = 0; k < MN; k++) b[i][k] = ((b[i][k] + (1 << (p->eq - p->ep - 1))) & mq) >> (p->eq - p->ep);
        M_pack(pk + i * 32 * p->ep, b[i], MN, p->ep);
        for (int k = 0; k < MN; k++) s[i][k] &= mq;
        M_pack(isk + i * 32 * p->eq, s[i], MN, p->eq);
    }
    memcpy(pk + l * 32 * p->ep, seedA, 32);
}
int M_nohalf;
void M_cpa_enc(const mp_t *p, uint8_t *ct, const uint8_t m[32], const uint8_t seed[32], const uint8_t *pk)
{
    uint16_t A[ML][ML][MN], s[ML][MN], b[MN], v[MN] = {0};
    int l = p->l, mq = (1 << p->eq) - 1, mpp = (1 << p->ep) - 1, h1 = 1 << (p->eq - p->ep - 1);
    uint8_t sd[32], mm[32];
    memcpy(sd, seed, 32); memcpy(mm, m, 32);
    M_expandA(p, A, pk + l * 32 * p->ep);
    M_sample(p, s, sd);
    for (int i = 0; i < l; i++) {
        memset(b, 0, sizeof b);
        for (int j = 0; j < l; j++) M_mulacc(b, A[i][j], s[j]);
        for (int k = 0; k < MN; k++) b[k] = ((b[k] + h1) & mq) >> (p->eq - p->ep);
        M_pack(ct + i * 32 * p->ep, b, MN, p->ep);
    }
    for (int i = 0; i < l; i++) {
        M_unpack(b, pk + i * 32 * p->ep, MN, p->ep);
        M_mulacc(v, b, s[i]);
    }
    for (int k = 0; k < MN; k++) {
        int bit = (mm[k >> 3] >> (k & 7)) & 1;
        v[k] = ((v[k] - (bit << (p->ep - 1)) + (M_nohalf ? 0 : h1)) & mpp) >> (p->ep - p->et);
    }
    M_pack(ct + l * 32 * p->ep, v, MN, p->et);
}
void M_cpa_dec(const mp_t *p, uint8_t m[32], const uint8_t *isk, const uint8_t *ct)
{
    uint16_t s[MN], b[MN], v[MN] = {0}, c[MN];
    int mpp = (1 << p->ep) - 1;
    int h2 = (1 << (p->ep - 2)) - (1 << (p->ep - p->et - 1)) + (M_nohalf ? 0 : 1 << (p->eq - p->ep - 1));
    for (int i = 0; i < p->l; i++) {
        M_unpack(s, isk + i * 32 * p->eq, MN, p->eq);
        M_unpack(b, ct + i * 32 * p->ep, MN, p->ep);
        M_mulacc(v, b, s);
    }
    M_unpack(c, ct + p->l * 32 * p->ep, MN, p->et);
    memset(m, 0, 32);
    for (int k = 0; k < MN; k++)
        m[k >> 3] |= (((v[k] + h2 - (c[k] << (p->ep - p->et))) & mpp) >> (p->ep - 1)) << (k & 7);
}
void M_keypair(const mp_t *p, uint8_t *pk, uint8_t *sk, const uint8_t rnd[96])
{
    M_cpa_keypair(p, pk, sk, rnd);
    memcpy(sk + m_iskb(p), pk, m_pkb(p));
    M_H(p, sk + m_skb(p) - 64, pk, m_pkb(p));
    memcpy(sk + m_skb(p) - 32, rnd + 64, 32);
}
void M_enc(const mp_t *p, uint8_t *ct, uint8_t ss[32], const uint8_t *pk, const uint8_t rnd[32])
{
    uint8_t buf[64], kr[64];
    M_H(p, buf, rnd, 32);
    M_H(p, buf + 32, pk, m_pkb(p));
    M_G(p, kr, buf, 64);
    M_cpa_enc(p, ct, buf, kr + 32, pk);
    M_H(p, kr + 32, ct, m_ctb(p));
    M_H(p, ss, kr, 64);
}
void M_reject(const mp_t *p, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk)
{
    uint8_t kr[64];
    memcpy(kr, sk + m_skb(p) - 32, 32);
    M_H(p, kr + 32, ct, m_ctb(p));
    M_H(p, ss, kr, 64);
}
int M_dec(const mp_t *p, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk)
{
    uint8_t buf[64], kr[64], cmp[MAXCT];
    M_cpa_dec(p, buf, sk, ct);
    memcpy(buf + 32, sk + m_skb(p) - 64, 32);
    M_G(p, kr, buf, 64);
    M_cpa_enc(p, cmp, buf, kr + 32, sk + m_iskb(p));
    if (memcmp(cmp, ct, m_ctb(p))) { M_reject(p, ss, ct, sk); return 1; }
    M_H(p, kr + 32, ct, m_ctb(p));
    M_H(p, ss, kr, 64);
    return 0;
}

void M_inc128(uint8_t v[16]) { for (int i = 15; i >= 0; i--) if (++v[i]) break; }
void M_drbg_update(m_drbg *d, const uint8_t *data48)
{
    uint8_t t[48];
    for (int i = 0; i < 3; i++) { M_inc128(d->V); M_aesecb(t + 16 * i, d->K, d->V); }
    if (data48) for (int i = 0; i < 48; i++) t[i] ^= data48[i];
    memcpy(d->K, t, 32); memcpy(d->V, t + 32, 16);
}
void M_drbg_init(m_drbg *d, const uint8_t ent[48], const uint8_t *pers)
{
    uint8_t s[48];
    memcpy(s, ent, 48);
    if (pers) for (int i = 0; i < 48; i++) s[i] ^= pers[i];
    memset(d, 0, sizeof *d);
    M_drbg_update(d, s);
}
void M_drbg_gen(m_drbg *d, uint8_t *o, size_t n)
{
    uint8_t b[16];
    size_t pos = 0;
    while (pos < n) {
        size_t k = n - pos < 16 ? n - pos : 16;
        M_inc128(d->V); M_aesecb(b, d->K, d->V);
        memcpy(o + pos, b, k); pos += k;
    }
    M_drbg_update(d, NULL);
}
