/* Exhaustive enumeration of bounded input spaces of the KEM, every outcome compared with the model.
 * Modes (first --x argument): p01 p02 p03 p04 p07 */
#include "kemx.h"

/* ---- P02: implicit rejection ---- */
static void flip_low(uint8_t *ct, int idx, int bit)
{
    int b = idx < I.p.l * 256 ? idx * 10 + bit : I.p.l * 2560 + (idx - I.p.l * 256) * I.p.et + bit;
    ct[b / 8] ^= 1 << b % 8;
}
static void p02(int full)
{
    uint8_t ct[MAXCT];
    int n = I.ctb;
    for (int k = 0; k < 2; k++) {
        /* every byte position, every difference */
        for (int pos = 0; pos < n; pos++)
            for (int d = 1; d < 256; d++) {
                if (!(full && k == 0) && !(thorough && k == 0)) { if ((d & (d - 1)) && d != 0xff) continue; if (k && d != 1 && d != 128) continue; }
                if (emu_slow && (k || (d != 1 && d != 128 && d != (1 << pos % 8)))) continue;
                n_states++;
                if (!CASE("byte", k, pos, d)) { n_states--; continue; }
                memcpy(ct, B[k].ct, n); ct[pos] ^= d;
                rej_case(B[k].sk, ct, "ciphertext changed in one byte");
            }
    }
    /* two differences that could cancel each other: equal, complementary, sum zero */
    static const int gaps[] = {1, 5, 320, 4, 8, 2, 3, 7, 16, 31, 32, 64, 128, 256, 512};
    for (unsigned g = 0; g < (emu_slow && !thorough ? 4 : sizeof gaps / sizeof *gaps); g++)
        for (int pos = 0; pos + gaps[g] < n; pos++)
            for (int v = 0; v < (full || thorough ? 6 : emu_slow ? 1 : 2); v++) {
                static const uint8_t da[] = {1, 128, 255, 0x55, 16, 2}, db[] = {1, 128, 1, 0xaa, 0xf0, 0xfe};
                if (!CASE("pair", gaps[g], pos, v)) continue;
                n_states++;
                memcpy(ct, B[0].ct, n); ct[pos] ^= da[v]; ct[pos + gaps[g]] ^= db[v];
                rej_case(B[0].sk, ct, "ciphertext changed in two bytes");
            }
    /* first and last byte of everything, every difference pair on the diagonal */
    for (int d = 1; d < 256; d++)
        for (int e = 1; e < 256; e++) {
            if ((!(full || thorough) || emu_slow) && e != d && e != 256 - d) continue;
            if (emu_slow && (d & (d - 1)) && d != 255) continue;
            if (!CASE("ends", d, e)) continue;
            n_states++;
            memcpy(ct, B[0].ct, n); ct[0] ^= d; ct[n - 1] ^= e;
            rej_case(B[0].sk, ct, "first and last ciphertext byte changed");
        }
    /* blocks: every prefix and suffix length flipped with each bit / with all ones */
    for (int len = 1; len <= n; len++)
        for (int v = 0; v < (full || thorough ? 10 : 3); v++) {
            static const uint8_t dv[] = {0xff, 1, 0x80, 2, 4, 8, 16, 32, 64, 0x55};
            if (emu_slow && (v || (len > 12 && len % 16))) continue;
            if (!CASE("run", len, v)) continue;
            n_states++;
            memcpy(ct, B[0].ct, n);
            for (int i = 0; i < len; i++) ct[i] ^= dv[v];
            rej_case(B[0].sk, ct, "ciphertext prefix changed");
            memcpy(ct, B[0].ct, n);
            for (int i = n - len; i < n; i++) ct[i] ^= dv[v];
            rej_case(B[0].sk, ct, "ciphertext suffix changed");
        }
    /* the coefficients: every field moved by every small amount keeps the decrypted message but must be rejected */
    for (int idx = 0; idx < I.p.l * 256 + 256; idx++)
        for (int v = 1; v < 4; v++) {
            if (emu_slow && v > 1 && !thorough) continue;
            if (!CASE("field", idx, v)) continue;
            n_states++;
            uint16_t c[256];
            memcpy(ct, B[0].ct, n);
            if (idx < I.p.l * 256) {
                uint8_t *q = ct + (idx / 256) * 320;
                M_unpack(c, q, 256, 10); c[idx % 256] += v; M_pack(q, c, 256, 10);
            } else {
                uint8_t *q = ct + I.p.l * 320;
                M_unpack(c, q, 256, I.p.et); c[idx % 256] += v; M_pack(q, c, 256, I.p.et);
            }
            rej_case(B[0].sk, ct, "one ciphertext coefficient changed");
        }
    /* low-order bits of many coefficients: the decrypted message stays, so the comparison alone decides. Every number of
       changed coefficients, so that counts, sums and parities of the differences take every value they can */
    int nc = I.p.l * 256 + 256;
    static const int strides[] = {1, 4, 4, 8, 2}, bits[] = {0, 0, 1, 0, 0};
    for (int s = 0; s < (emu_slow && !thorough ? 2 : 5); s++)
        for (int k = 2; k <= nc / strides[s]; k++) {
            if (emu_slow && !thorough && k > 8 && k % 8) continue;
            if (!CASE("many", s, k)) continue;
            n_states++;
            memcpy(ct, B[0].ct, n);
            for (int j = 0; j < k; j++) flip_low(ct, j * strides[s], bits[s]);
            rej_case(B[0].sk, ct, "low bits of many coefficients changed");
            memcpy(ct, B[0].ct, n);
            for (int j = 0; j < k; j++) flip_low(ct, nc - 1 - j * strides[s], bits[s]);
            rej_case(B[0].sk, ct, "low bits of many coefficients changed");
        }
    static const int dist[] = {4, 8, 1, 16, 32, 64, 128, 256, 512, 2, 12, 20, 24, 40, 768, 1020};
    for (int g = 0; g < (emu_slow && !thorough ? 2 : 16); g++)
        for (int i = 0; i + dist[g] < nc; i++)
            for (int b = 0; b < 2; b++) {
                if (emu_slow && !thorough && (b || i % 4)) continue;
                if (!CASE("lowpair", g, i, b)) continue;
                n_states++;
                memcpy(ct, B[0].ct, n); flip_low(ct, i, b); flip_low(ct, i + dist[g], b);
                rej_case(B[0].sk, ct, "low bits of two coefficients changed");
                if (g == 0 && i + 12 < nc) { /* four equal differences */
                    flip_low(ct, i + 8, b); flip_low(ct, i + 12, b);
                    rej_case(B[0].sk, ct, "low bits of four coefficients changed");
                }
            }
    /* whole ciphertexts: constants, foreign, rotated, zero-extended halves */
    for (int v = 0; v < 256 + 40; v++) {
        if (emu_slow && v < 256 && v % 15) continue;
        if (!CASE("whole", v)) continue;
        n_states++;
        if (v < 256) memset(ct, v, n);
        else if (v < 256 + 7) memcpy(ct, B[1 + (v - 256) % 7].ct, n);
        else if (v < 256 + 20) { int r = v - 262; for (int i = 0; i < n; i++) ct[i] = B[0].ct[(i + r) % n]; }
        else if (v < 256 + 30) { int h = n * (v - 275) / 10; memcpy(ct, B[0].ct, n); memcpy(ct, B[1].ct, h < n ? h : n); }
        else { int h = n * (v - 285) / 10; memcpy(ct, B[0].ct, n); memset(ct + h, 0, n - h > 0 ? n - h : 0); }
        if (memcmp(ct, B[0].ct, n)) rej_case(B[0].sk, ct, "foreign ciphertext");
    }
    /* the rejection value is used whatever it is, byte for byte */
    for (int b = 0; b < 32; b++)
        for (int v = 0; v < 256; v++) {
            if (emu_slow && v != (1 << (b % 8)) && v != 255) continue;
            if (!CASE("z", b, v)) continue;
            n_states++;
            uint8_t sk[MAXSK];
            memcpy(sk, B[0].sk, I.skb); sk[I.skb - 32 + b] = v;
            memcpy(ct, B[0].ct, n); ct[n / 2] ^= 4;
            rej_case(sk, ct, "rejection value byte");
            dec_case(sk, B[0].ct, B[0].ss, "rejection value must not matter for an honest ciphertext");
        }
    /* accepted controls: the honest ciphertexts are accepted */
    for (int k = 0; k < 8; k++) {
        if (!CASE("honest", k)) continue;
        n_states++;
        dec_case(B[k].sk, B[k].ct, B[k].ss, "honest ciphertext");
    }
    /* the comparison helper itself, where exported */
    int (*verify)(const unsigned char *, const unsigned char *, size_t) = hc_sym(&I, "verify");
    if (verify && I.p.l == 3) {
        uint8_t a[1600], b[1600];
        fill(a, sizeof a, 77);
        for (int len = 1; len <= 1500; len++)
            for (int pos = 0; pos < len; pos++) {
                if (!thorough && len > 72 && len != 736 && len != 1088 && len != 1472) continue;
                if (!CASE("verify", len, pos)) continue;
                n_states++;
                memcpy(b, a, sizeof a);
                for (int d = 1; d < 256; d += 1) {
                    b[pos] = a[pos] ^ d; n_impl++; n_cmp++;
                    if (!verify(a, b, len)) { viol("verify misses difference %02x at %d of %d", d, pos, len); break; }
                }
                b[pos] = a[pos]; b[len] ^= 1; n_impl++; n_cmp++;
                if (verify(a, b, len) != 0) viol("verify reports equal strings of length %d as different", len);
            }
        /* every number of equal differences */
        for (int len = 64; len <= 1472; len += len == 64 ? 672 : 1)
            for (int d = 1; d < 256; d++) {
                if (len != 64 && len != 736 && len != 1088 && len != 1472 && !thorough) continue;
                if (!CASE("verifymany", len, d)) continue;
                n_states++;
                memcpy(b, a, sizeof a);
                for (int k = 0; k < len; k++) { b[k] ^= d; n_impl++; n_cmp++; if (!verify(a, b, len)) { viol("verify misses difference %02x in %d bytes of %d", d, k + 1, len); break; } }
                for (int k = 0; k + 1 < len; k++) { b[k] ^= d; n_impl++; n_cmp++; if (!verify(a, b, len)) { viol("verify misses difference %02x in the last %d bytes of %d", d, len - k - 1, len); break; } }
            }
    }
}

/* ---- P03: key generation and encapsulation against the specification ---- */
static void p03(int full)
{
    uint8_t r[96], pk[MAXPK], m[32], sd[32];
    for (int base = 0; base < 3; base++)
        for (int bit = -1; bit < 768; bit++) {
            if (!full && !thorough && bit >= 0 && (bit & 7) != (bit >> 3) % 8) continue;
            if (base == 2 && bit >= 0 && !thorough) continue;
            if (emu_slow && !thorough && bit >= 0 && (base || bit % 2 == 0)) continue;
            if (!CASE("kp", base, bit)) continue;
            n_states++;
            if (base < 2) memset(r, base ? 0xff : 0, 96); else fill(r, 96, 900);
            if (bit >= 0) r[bit >> 3] ^= 1 << (bit & 7);
            kp_case(r, "key generation");
        }
    for (int v = 0; v < (emu_slow ? 16 : thorough ? 512 : 48); v++) {
        if (!CASE("kpv", v)) continue;
        n_states++; fill(r, 96, 5000 + v); kp_case(r, "key generation");
    }
    for (int base = 0; base < 3; base++)
        for (int bit = -1; bit < 256; bit++) {
            if (!full && !thorough && bit >= 0 && (bit & 7) != (bit >> 3) % 8) continue;
            if (emu_slow && !thorough && bit >= 0 && base) continue;
            if (!CASE("enc", base, bit)) continue;
            n_states++;
            if (base < 2) memset(r, base ? 0xff : 0, 32); else fill(r, 32, 901);
            if (bit >= 0) r[bit >> 3] ^= 1 << (bit & 7);
            enc_case(B[0].pk, r, "encapsulation");
        }
    /* every value of every public-key coefficient (Latin square: run v holds value v+i at position i) */
    for (int v = 0; v < 1024; v++) {
        if (emu_slow && !thorough && v % 8) continue;
        if (!CASE("pklatin", v)) continue;
        n_states += I.p.l * 256;
        uint16_t c[256];
        for (int i = 0; i < I.p.l; i++) {
            for (int k = 0; k < 256; k++) c[k] = (v + 7 * k + 341 * i) & 1023;
            M_pack(pk + i * 320, c, 256, 10);
        }
        memcpy(pk + I.p.l * 320, B[0].pk + I.p.l * 320, 32);
        enc_case(pk, B[0].re, "encapsulation to an arbitrary public key");
    }
    /* one coefficient away from a constant key, each position, extreme values */
    static const int ext[] = {1023, 512, 511, 1, 0, 513, 1022, 2, 256, 768};
    for (int base = 0; base < 2; base++)
        for (int idx = 0; idx < I.p.l * 256; idx++)
            for (int e = 0; e < (thorough ? 10 : full ? 3 : 1); e++) {
                if (emu_slow && (e > 1 || (!thorough && (base || idx % 2)))) continue;
                if (!CASE("pkone", base, idx, e)) continue;
                n_states++;
                uint16_t c[256];
                memset(pk, 0, sizeof pk);
                for (int i = 0; i < I.p.l; i++) {
                    for (int k = 0; k < 256; k++) c[k] = base ? 1023 : 0;
                    if (idx / 256 == i) c[idx % 256] = base ? 1023 - ext[e] : ext[e];
                    M_pack(pk + i * 320, c, 256, 10);
                }
                fill(pk + I.p.l * 320, 32, idx);
                enc_case(pk, B[0].re, "encapsulation to a one-coefficient public key");
            }
    /* every bit and every byte value of the public seed */
    for (int b = 0; b < 32; b++)
        for (int v = 0; v < 256; v++) {
            if (!full && !thorough && (v & (v - 1))) continue;
            if (emu_slow && !thorough && v != (1 << (b % 8)) && v) continue;
            if (!CASE("pkseed", b, v)) continue;
            n_states++;
            memcpy(pk, B[0].pk, I.pkb); pk[I.p.l * 320 + b] = v;
            enc_case(pk, B[0].re, "encapsulation with another public seed");
        }
    for (int v = 0; v < 256; v++) {
        if (emu_slow && !thorough && v % 15) continue;
        if (!CASE("pkconst", v)) continue;
        n_states++;
        memset(pk, v, I.pkb); enc_case(pk, B[0].re, "encapsulation to a constant-byte public key");
    }
    /* messages and coins at the encryption seam */
    for (int b = 0; b < 32; b++)
        for (int v = 0; v < 256; v++) {
            if (emu_slow && (v & (v - 1)) && v != 255) continue;
            if (!CASE("msg", b, v)) continue;
            n_states++;
            memset(m, b & 1 ? 0xff : 0, 32); m[b] = v; fill(sd, 32, 4);
            cpaenc_case(m, sd, B[0].pk, "encryption of a chosen message");
        }
    for (int base = 0; base < 2; base++)
        for (int bit = -1; bit < 256; bit++) {
            if (emu_slow && !thorough && bit >= 0 && bit % 9) continue;
            if (!CASE("coin", base, bit)) continue;
            n_states++;
            memset(sd, base ? 0xff : 0, 32); if (bit >= 0) sd[bit >> 3] ^= 1 << (bit & 7);
            cpaenc_case(B[0].re, sd, B[1].pk, "encryption with chosen coins");
        }
}

/* ---- P04: decryption and decapsulation of arbitrary bytes ---- */
static void p04(int full)
{
    uint8_t isk[MAXSK], ct[MAXCT], sk[MAXSK], want[32];
    uint16_t c[256];
    int l = I.p.l, et = I.p.et, eq = I.p.eq, n = I.ctb;
    /* rounding: secret = unit vector, so v = chosen coefficients; every v, every c, every position */
    if (have_cpa())
        for (int i = 0; i < l; i++)
            for (int cm = 0; cm < (1 << et); cm++)
                for (int v = 0; v < 1024; v++) {
                    if (!full && !thorough && ((v + cm + i) % 4)) continue;
                    if (emu_slow && ((v + cm + i) % (thorough ? 8 : 16 << (et > 4 ? 2 : 0)))) continue;
                    if (!CASE("round", i, cm, v)) continue;
                    n_states += 256;
                    memset(isk, 0, m_iskb(&I.p)); memset(ct, 0, n);
                    memset(c, 0, sizeof c); c[0] = 1; M_pack(isk + i * 32 * eq, c, 256, eq);
                    for (int k = 0; k < 256; k++) c[k] = (v + 4 * k) & 1023;
                    M_pack(ct + i * 320, c, 256, 10);
                    for (int k = 0; k < 256; k++) c[k] = (cm + k) & ((1 << et) - 1);
                    M_pack(ct + l * 320, c, 256, et);
                    cpadec_case(isk, ct, "decryption with a unit secret");
                }
    /* every value at every secret position (Latin square) */
    for (int v = 0; v < (1 << eq); v++) {
        if (!full && !thorough && v % 8 && v % 1021) continue;
        if (emu_slow && (thorough ? v % 8 : v % 64) && v % 1021) continue;
        if (!CASE("sklatin", v)) continue;
        n_states += l * 256;
        memcpy(sk, B[0].sk, I.skb);
        for (int i = 0; i < l; i++) {
            for (int k = 0; k < 256; k++) c[k] = (v + 29 * k + 2731 * i) & ((1 << eq) - 1);
            M_pack(sk + i * 32 * eq, c, 256, eq);
        }
        canon_sk(sk);
        M_dec(&I.p, want, B[0].ct, sk);
        dec_case(sk, B[0].ct, want, "decapsulation with an arbitrary secret vector");
        cpadec_case(sk, B[0].ct, "decryption with an arbitrary secret vector");
        cpadec_case(sk, B[1].ct, "decryption with an arbitrary secret vector");
    }
    /* monomial secrets, extreme values, every position; dense ciphertext */
    static const int ext[] = {1, 8191, 4096, 4095, 2, 5, 8187, 1024, 1023, 512};
    for (int i = 0; i < l; i++)
        for (int k = 0; k < 256; k++)
            for (int e = 0; e < (full || thorough ? 10 : 3); e++) {
                if (!CASE("skmono", i, k, e)) continue;
                n_states++;
                memset(isk, 0, m_iskb(&I.p)); memset(c, 0, sizeof c); c[k] = ext[e] & ((1 << eq) - 1);
                M_pack(isk + i * 32 * eq, c, 256, eq);
                canon_sk(isk);
                cpadec_case(isk, B[2].ct, "decryption with a monomial secret");
            }
    /* every value of every ciphertext coefficient (Latin square) */
    for (int v = 0; v < 1024; v++) {
        if (emu_slow && v % (thorough ? 2 : 8)) continue;
        if (!CASE("ctlatin", v)) continue;
        n_states += l * 256 + 256;
        for (int i = 0; i < l; i++) {
            for (int k = 0; k < 256; k++) c[k] = (v + 5 * k + 341 * i) & 1023;
            M_pack(ct + i * 320, c, 256, 10);
        }
        for (int k = 0; k < 256; k++) c[k] = (v + 3 * k) & ((1 << et) - 1);
        M_pack(ct + l * 320, c, 256, et);
        M_dec(&I.p, want, ct, B[0].sk);
        dec_case(B[0].sk, ct, want, "decapsulation of an arbitrary ciphertext");
        cpadec_case(B[0].sk, ct, "decryption of an arbitrary ciphertext");
    }
    /* every bit of the secret key, with an honest ciphertext, against the full model */
    for (int bit = 0; bit < I.skb * 8; bit++) {
        if (!full && !thorough && (bit & 7) != (bit >> 3) % 8 && bit < (I.skb - 96) * 8) continue;
        if (emu_slow && !thorough && (bit & 7) != (bit >> 3) % 8) continue;
        if (!CASE("skbit", bit)) continue;
        n_states++;
        memcpy(sk, B[0].sk, I.skb); sk[bit >> 3] ^= 1 << (bit & 7);
        canon_sk(sk);
        M_dec(&I.p, want, B[0].ct, sk);
        dec_case(sk, B[0].ct, want, "decapsulation with one secret-key bit changed");
    }
    for (int bit = 0; bit < n * 8; bit++) {
        if (!full && !thorough && (bit & 7) != (bit >> 3) % 8) continue;
        if (!CASE("ctbit", bit)) continue;
        n_states++;
        memcpy(ct, B[3].ct, n); ct[bit >> 3] ^= 1 << (bit & 7);
        M_dec(&I.p, want, ct, B[3].sk);
        dec_case(B[3].sk, ct, want, "decapsulation with one ciphertext bit changed");
    }
    for (int a = 0; a < 256; a += full || thorough ? 1 : 15)
        for (int b = 0; b < 256; b += thorough ? 3 : 15) {
            if (emu_slow && (a % 51 || b % 51)) continue;
            if (!CASE("const", a, b)) continue;
            n_states++;
            memset(sk, a, I.skb); memset(ct, b, n);
            canon_sk(sk);
            M_dec(&I.p, want, ct, sk);
            dec_case(sk, ct, want, "decapsulation of constant bytes");
        }
}

/* ---- P01: round trip across implementations (the other libraries come as --x path:name) ---- */
static void p01(void)
{
    static impl_t im[8]; int n = 0;
    im[n++] = I;
    for (int i = 1; i < nargx; i++) {
        static char nm[8][256]; char *c;
        snprintf(nm[n], 256, "%s", argx[i]); c = strchr(nm[n], ':'); *c = 0;
        im[n] = I; im[n].name = c + 3; im[n].lanes = c[1] - '0'; hc_load(&im[n], nm[n]); n++;
    }
    uint8_t *pk = bp, *sk = bs, *ct = bc, k1[128], k2[128], all[96 * 4];
    int npts = thorough ? 2 * 1024 + 256 : 2 * 128 + 64;
    for (int pt = 0; pt < npts; pt++)
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) {
            if (!thorough && !(a == b && b == c) && pt % 16) continue;
            if (!CASE("trip", pt, a, b, c)) continue;
            n_states++;
            /* random input of this point: one-hot / one-cold bit of the 128 bytes drawn, or generic */
            uint8_t r[4][128];
            int half = thorough ? 1024 : 128;
            for (int j = 0; j < 4; j++) {
                if (pt < 2 * half) {
                    int bit = thorough ? pt % half : (pt % half) * 8 + (pt % 8);
                    memset(r[j], pt < half ? 0 : 0xff, 128); r[j][bit >> 3] ^= 1 << (bit & 7);
                    r[j][127 - 32 * j] ^= 0x10 * j;
                } else fill(r[j], 128, 10000 + pt * 4 + j);
            }
            /* every step is done for four slots; a single-instance implementation is called four times */
            hc_where("keygen %s, encapsulation %s, decapsulation %s", im[a].name, im[b].name, im[c].name);
#define EACH(x, body) for (int s_ = 0; s_ < 4; s_ += (x).lanes) { body }
            int bad = 0;
            EACH(im[a], for (int j = 0; j < im[a].lanes; j++) memcpy(all + 96 * j, r[s_ + j], 96); rnd_set(all, 96 * im[a].lanes);
                 bad |= im[a].kp(pk + s_ * I.pkb, sk + s_ * I.skb); n_impl++; if (rnd_over) viol("key generation by %s drew extra random bytes", im[a].name);)
            EACH(im[b], for (int j = 0; j < im[b].lanes; j++) memcpy(all + 32 * j, r[s_ + j] + 96, 32); rnd_set(all, 32 * im[b].lanes);
                 bad |= im[b].enc(ct + s_ * I.ctb, k1 + 32 * s_, pk + s_ * I.pkb); n_impl++; if (rnd_over) viol("encapsulation by %s drew extra random bytes", im[b].name);)
            memset(k2, 0xA5, sizeof k2);
            EACH(im[c], rnd_set(all, 0); bad |= im[c].dec(k2 + 32 * s_, ct + s_ * I.ctb, sk + s_ * I.skb); n_impl++;
                 if (rnd_pos) viol("decapsulation by %s drew random bytes", im[c].name);)
            if (bad) viol("nonzero status (keygen %s, enc %s, dec %s)", im[a].name, im[b].name, im[c].name);
            for (int j = 0; j < 4; j++) {
                n_cmp++;
                if (memcmp(k1 + 32 * j, k2 + 32 * j, 32)) {
                    /* decryption failure is part of the scheme (2^-120): ask the model */
                    uint8_t w[32];
                    M_dec(&I.p, w, ct + j * I.ctb, sk + j * I.skb);
                    viol("shared secrets differ in slot %d: keygen %s, encapsulation %s, decapsulation %s%s", j, im[a].name, im[b].name, im[c].name,
                         memcmp(w, k1 + 32 * j, 32) ? " (the model does not accept this ciphertext either)" : "");
                }
            }
        }
}

/* ---- P07: the batch code against single instances (AVX Saber library given as --x) ---- */
static void p07(void)
{
    static impl_t S;
    S = I; S.lanes = 1;
    hc_load(&S, argx[1]);
    uint8_t r[96 * 4], wp[4][MAXPK], ws[4][MAXSK], wc[4][MAXCT], wk[4][32];
    base_t T[6];
    for (int i = 0; i < 6; i++) {       /* instances computed by the real single implementation */
        fill(T[i].rk, 96, 300 + i); fill(T[i].re, 32, 400 + i);
        if (i == 4) { memset(T[i].rk, 0, 96); memset(T[i].re, 0, 32); }
        if (i == 5) { memset(T[i].rk, 0xff, 96); memset(T[i].re, 0xff, 32); }
        rnd_set(T[i].rk, 96); S.kp(T[i].pk, T[i].sk);
        rnd_set(T[i].re, 32); S.enc(T[i].ct, T[i].ss, T[i].pk);
        uint8_t k[32]; S.dec(k, T[i].ct, T[i].sk);
        n_impl += 3;
        uint8_t mp[MAXPK], ms[MAXSK], mc[MAXCT], mk[32];
        M_keypair(&I.p, mp, ms, T[i].rk); M_enc(&I.p, mc, mk, mp, T[i].re);
        if (CASE_ALWAYS("single", i) && (memcmp(mp, T[i].pk, I.pkb) || memcmp(ms, T[i].sk, I.skb) || memcmp(mc, T[i].ct, I.ctb) || memcmp(mk, T[i].ss, 32) || memcmp(k, mk, 32)))
            viol("the single-instance AVX2 Saber differs from the model");
    }
    /* every assignment of six instances to four slots */
    for (int w = 0; w < 6 * 6 * 6 * 6; w++) {
        if (!CASE("assign", w)) continue;
        n_states++;
        int a[4] = {w % 6, w / 6 % 6, w / 36 % 6, w / 216};
        for (int j = 0; j < 4; j++) memcpy(r + 96 * j, T[a[j]].rk, 96);
        rnd_set(r, 384); I.kp(bp, bs); n_impl++;
        for (int j = 0; j < 4; j++) {
            n_cmp++;
            if (memcmp(bp + j * I.pkb, T[a[j]].pk, I.pkb) || memcmp(bs + j * I.skb, T[a[j]].sk, I.skb)) viol("batch key generation: slot %d differs from the single run", j);
        }
        for (int j = 0; j < 4; j++) { memcpy(r + 32 * j, T[a[(j + 1) & 3]].re, 32); memcpy(bp + j * I.pkb, T[a[j]].pk, I.pkb); }
        rnd_set(r, 128); I.enc(bc, bk, bp); n_impl++;
        for (int j = 0; j < 4; j++) {
            n_cmp++;
            rnd_set(T[a[(j + 1) & 3]].re, 32); S.enc(wc[j], wk[j], T[a[j]].pk);
            if (memcmp(bc + j * I.ctb, wc[j], I.ctb) || memcmp(bk + 32 * j, wk[j], 32)) viol("batch encapsulation: slot %d differs from the single run", j);
        }
        for (int j = 0; j < 4; j++) { memcpy(bs + j * I.skb, T[a[j]].sk, I.skb); memcpy(bc + j * I.ctb, T[a[j]].ct, I.ctb); }
        I.dec(bk, bc, bs); n_impl++;
        for (int j = 0; j < 4; j++) { n_cmp++; if (memcmp(bk + 32 * j, T[a[j]].ss, 32)) viol("batch decapsulation: slot %d differs from the single run", j); }
    }
    /* accept/reject patterns: each slot is honest, corrupted at one of several places, foreign, or under a foreign key: 6^4 */
    int places = 1 + 1088 / (thorough ? 17 : 136);
    for (int pl = 0; pl < places; pl++)
        for (int w = 0; w < 6 * 6 * 6 * 6; w++) {
            if (!CASE("pattern", pl, w)) continue;
            n_states++;
            int a[4] = {w % 6, w / 6 % 6, w / 36 % 6, w / 216};
            for (int j = 0; j < 4; j++) {
                uint8_t *c = bc + j * I.ctb, *s = bs + j * I.skb;
                memcpy(c, T[j].ct, I.ctb); memcpy(s, T[j].sk, I.skb);
                int pos = (pl * (thorough ? 17 : 136)) % I.ctb;
                switch (a[j]) {
                case 1: c[pos] ^= 1; break;
                case 2: c[I.ctb - 1 - pos] ^= 0x80; break;
                case 3: memcpy(c, T[(j + 1) & 3].ct, I.ctb); break;
                case 4: memcpy(s, T[(j + 1) & 3].sk, I.skb); break;
                case 5: s[(pos * 2) % I.skb] ^= 2; break;
                }
                S.dec(wk[j], c, s); n_impl++;
            }
            memset(bk, 0, 128);
            I.dec(bk, bc, bs); n_impl++;
            for (int j = 0; j < 4; j++) { n_cmp++; if (memcmp(bk + 32 * j, wk[j], 32)) viol("batch decapsulation (slot kinds %d%d%d%d): slot %d differs from the single run", a[0], a[1], a[2], a[3], j); }
        }
    /* changing one slot's random bits changes only that slot */
    for (int bit = 0; bit < 4 * 768; bit++) {
        if (!thorough && (bit & 7) != (bit >> 3) % 8) continue;
        if (!CASE("kpbit", bit)) continue;
        n_states++;
        for (int j = 0; j < 4; j++) memcpy(r + 96 * j, T[j].rk, 96);
        r[bit >> 3] ^= 1 << (bit & 7);
        int L = bit / 768;
        rnd_set(r + 96 * L, 96); S.kp(wp[L], ws[L]);
        rnd_set(r, 384); I.kp(bp, bs); n_impl += 2;
        for (int j = 0; j < 4; j++) {
            n_cmp++;
            if (memcmp(bp + j * I.pkb, j == L ? wp[L] : T[j].pk, I.pkb) || memcmp(bs + j * I.skb, j == L ? ws[L] : T[j].sk, I.skb))
                viol("random bit %d of slot %d changed: slot %d is not the single result", bit % 768, L, j);
        }
    }
    for (int bit = 0; bit < 4 * 256; bit++) {
        if (!CASE("encbit", bit)) continue;
        n_states++;
        for (int j = 0; j < 4; j++) { memcpy(r + 32 * j, T[j].re, 32); memcpy(bp + j * I.pkb, T[j].pk, I.pkb); }
        r[bit >> 3] ^= 1 << (bit & 7);
        int L = bit / 256;
        rnd_set(r + 32 * L, 32); S.enc(wc[L], wk[L], T[L].pk);
        rnd_set(r, 128); I.enc(bc, bk, bp); n_impl += 2;
        for (int j = 0; j < 4; j++) {
            n_cmp++;
            if (memcmp(bc + j * I.ctb, j == L ? wc[L] : T[j].ct, I.ctb) || memcmp(bk + 32 * j, j == L ? wk[L] : T[j].ss, 32))
                viol("random bit %d of slot %d changed: slot %d is not the single result", bit % 256, L, j);
        }
    }
    /* every byte of one slot's public key / ciphertext / secret key changed */
    for (int L = 0; L < 4; L++)
        for (int which = 0; which < 3; which++) {
            int len = which == 0 ? I.pkb : which == 1 ? I.ctb : I.skb;
            for (int pos = 0; pos < len; pos += thorough ? 1 : 3) {
                if (!CASE("inbyte", L, which, pos)) continue;
                n_states++;
                for (int j = 0; j < 4; j++) {
                    memcpy(bp + j * I.pkb, T[j].pk, I.pkb); memcpy(bc + j * I.ctb, T[j].ct, I.ctb); memcpy(bs + j * I.skb, T[j].sk, I.skb);
                    memcpy(r + 32 * j, T[j].re, 32);
                }
                uint8_t d = 1 << (pos & 7);
                if (which == 0) {
                    bp[L * I.pkb + pos] ^= d;
                    rnd_set(T[L].re, 32); S.enc(wc[L], wk[L], bp + L * I.pkb);
                    rnd_set(r, 128); I.enc(bc, bk, bp);
                    n_impl += 2;
                    for (int j = 0; j < 4; j++) { n_cmp++; if (memcmp(bc + j * I.ctb, j == L ? wc[L] : T[j].ct, I.ctb) || memcmp(bk + 32 * j, j == L ? wk[L] : T[j].ss, 32)) viol("public-key byte %d of slot %d changed: slot %d is not the single result", pos, L, j); }
                } else {
                    if (which == 1) bc[L * I.ctb + pos] ^= d; else bs[L * I.skb + pos] ^= d;
                    S.dec(wk[L], bc + L * I.ctb, bs + L * I.skb);
                    I.dec(bk, bc, bs); n_impl += 2;
                    for (int j = 0; j < 4; j++) { n_cmp++; if (memcmp(bk + 32 * j, j == L ? wk[L] : T[j].ss, 32)) viol("%s byte %d of slot %d changed: slot %d is not the single result", which == 1 ? "ciphertext" : "secret-key", pos, L, j); }
                }
            }
        }
}

#ifndef EMU
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    mkbase(8);
    const char *mode = argx[0];
    int full = nargx > 1 && !strcmp(argx[1], "full");
    if (!strcmp(mode, "p01")) p01();
    else if (!strcmp(mode, "p02")) p02(full);
    else if (!strcmp(mode, "p03")) p03(full);
    else if (!strcmp(mode, "p04")) p04(full);
    else if (!strcmp(mode, "p07")) p07();
    else return 3;
    hc_done();
}
#endif
