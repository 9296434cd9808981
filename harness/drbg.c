/* P11 / P12 / P13: the random generator, the seed expander, and both under cipher-backend faults. */
#define _GNU_SOURCE
#include "hc.h"
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <openssl/evp.h>
#include <openssl/aes.h>

typedef int (*rb_t)(uint8_t *, unsigned long long);
typedef void (*ri_t)(uint8_t *, uint8_t *, int);
typedef int (*si_t)(void *, uint8_t *, uint8_t *, unsigned long);
typedef int (*se_t)(void *, uint8_t *, unsigned long);
static rb_t rb[5]; static int nrb; static ri_t rinit; static si_t sinit; static se_t sexp;

/* ---- interposed cipher library (the executable's symbols win over libcrypto's) */
static volatile int inj_on, inj_at, inj_kind; static volatile long inj_n;
#define REAL(ret, name, args) static ret (*r) args; if (!r) *(void **)&r = dlsym(RTLD_NEXT, name)
static int hit(void) { return inj_on && inj_n++ == inj_at; }
static int failval(void) { return inj_kind == 1 ? -1 : 0; }
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { REAL(EVP_CIPHER_CTX *, "EVP_CIPHER_CTX_new", (void)); return hit() ? NULL : r(); }
#define IA (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *i)
int EVP_EncryptInit_ex IA { REAL(int, "EVP_EncryptInit_ex", IA); return hit() ? failval() : r(c, t, e, k, i); }
#define IA2 (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *i, const OSSL_PARAM *p)
int EVP_EncryptInit_ex2 IA2 { REAL(int, "EVP_EncryptInit_ex2", IA2); return hit() ? failval() : r(c, t, k, i, p); }
#define IAO (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *i)
int EVP_EncryptInit IAO { REAL(int, "EVP_EncryptInit", IAO); return hit() ? failval() : r(c, t, k, i); }
#define CIA (EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *i, int enc)
int EVP_CipherInit_ex CIA { REAL(int, "EVP_CipherInit_ex", CIA); return hit() ? failval() : r(c, t, e, k, i, enc); }
#define UA (EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *in, int il)
static int failup(unsigned char *o, int *ol) { if (inj_kind == 2) { memset(o, 0xDD, 8); *ol = 8; } return failval(); }
int EVP_EncryptUpdate UA { REAL(int, "EVP_EncryptUpdate", UA); return hit() ? failup(o, ol) : r(c, o, ol, in, il); }
int EVP_CipherUpdate UA { REAL(int, "EVP_CipherUpdate", UA); return hit() ? failup(o, ol) : r(c, o, ol, in, il); }
#define FA (EVP_CIPHER_CTX *c, unsigned char *o, int *ol)
int EVP_EncryptFinal_ex FA { REAL(int, "EVP_EncryptFinal_ex", FA); return hit() ? failval() : r(c, o, ol); }
#define PA (EVP_CIPHER_CTX *c, int pad)
int EVP_CIPHER_CTX_set_padding PA { REAL(int, "EVP_CIPHER_CTX_set_padding", PA); return r(c, pad); }
int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c) { REAL(int, "EVP_CIPHER_CTX_reset", (EVP_CIPHER_CTX *)); return r(c); }

static uint8_t ent[48], pers[48], pers2[48];
static uint8_t out[(1 << 24) + 1024], ex[(1 << 24) + 1024];
static m_drbg D[5];
static void seed_all(uint8_t *e, uint8_t *p, int st)
{
    uint8_t e2[48], p2[48];
    memcpy(e2, e, 48); if (p) memcpy(p2, p, 48);
    rinit(e, p, st); n_impl++;
    if (memcmp(e2, e, 48) || (p && memcmp(p2, p, 48))) viol("randombytes_init changed its input");
    for (int i = 0; i < 5; i++) M_drbg_init(&D[i], e2, p ? p2 : NULL);
}
static int req(int g, size_t n, const char *what)
{
    uint8_t *o = out + 64;
    memset(out, 0x5D, n + 128);
    int r = rb[g](o, n); n_impl++; n_cmp++;
    M_drbg_gen(&D[g], ex, n);
    if (r) { viol("randombytes%s returned %d", g ? "N" : "", r); return 1; }
    if (memcmp(o, ex, n)) { size_t i = 0; while (o[i] == ex[i]) i++; viol("generator %d, request of %zu bytes: byte %zu is not the SP 800-90A output (%s)", g, n, i, what); return 1; }
    for (int i = 0; i < 64; i++) if (out[i] != 0x5D || o[n + i] != 0x5D) { viol("request of %zu bytes wrote outside the buffer", n); return 1; }
    return 0;
}
static const int LEN[] = {0, 1, 15, 16, 17, 32, 33, 47, 48, 64, 100};
#define NL 11
/* one request beyond the range of int: the output lies in 1 MB of memory mapped again and again, so the last
   1 MB of the stream remains; it and the next request are compared */
static void p11_huge(int g)
{
    size_t W = 1 << 20, K = 2049, n = ((size_t)1 << 31) + W - 5;
    int fd = memfd_create("w", 0);
    uint8_t *b = mmap(NULL, (K + 2) * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (fd < 0 || ftruncate(fd, W) || b == MAP_FAILED) { printf("NOTE no memory for the huge request\n"); return; }
    for (size_t i = 0; i < K; i++) if (mmap(b + (i + 1) * W, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { printf("NOTE no mapping\n"); return; }
    n_states++; seed_all(ent, pers, 256);
    int r = rb[g](b + W, n); n_impl++; n_cmp++;
    m_drbg *d = &D[g]; uint64_t blocks = (n + 15) / 16, first = (n - (W - 16)) / 16;
    if (r) viol("randombytes returned %d for a request of %zu bytes", r, n);
    for (uint64_t i = 0; i < blocks; i++) {
        int j = 15; while (j >= 0 && ++d->V[j] == 0) j--;
        if (i >= first) {
            uint8_t o[16]; M_aesecb(o, d->K, d->V);
            size_t m = n - i * 16 < 16 ? n - i * 16 : 16;
            if (memcmp(o, b + W + i * 16, m)) { viol("request of %zu bytes: block %llu is not the SP 800-90A output", n, (unsigned long long)i); return; }
        }
    }
    M_drbg_gen(d, ex, 0);
    munmap(b, (K + 2) * W); close(fd);
    req(g, 33, "after a huge request");
}
static void p11(void)
{
    uint8_t e2[48];
    /* every request length, followed by another request */
    for (int n = 0; n <= (thorough ? 4200 : 1100); n++)
        for (int g = 0; g < nrb; g++)
            if (CASE("len", g, n)) { n_states++; seed_all(ent, n & 1 ? pers : NULL, 256); if (!req(g, n, "first")) req(g, 16 + n % 17, "second"); }
    /* large requests: around the powers of two, each followed by another request */
    for (int e = 11; e <= 24; e++)
        for (int dl = -1; dl <= 1; dl++)
            for (int g = 0; g < nrb; g++)
                if ((thorough || e <= 20 || dl == 1) && CASE("large", g, e, dl)) { n_states++; seed_all(ent, pers, 256); if (!req(g, (1u << e) + dl, "large")) req(g, 33, "after a large request"); }
    if (thorough) for (int g = 0; g < nrb; g++)
        if (CASE("huge", g)) p11_huge(g);
    /* every operation sequence: requests of 11 lengths on any generator, re-seeding with and without a string */
    int nops = (nrb == 1 ? NL : 4 * 5) + 4, depth = thorough ? (nrb == 1 ? 5 : 4) : 4;
    if (nrb > 1 && !thorough) depth = 3;
    long tot = 1; for (int i = 0; i < depth; i++) tot *= nops;
    for (long s = 0; s < tot; s++)
        if (CASE("seq", s)) {
            long v = s; n_states++;
            seed_all(ent, NULL, 256);
            for (int i = 0; i < depth; i++, v /= nops) {
                int op = v % nops;
                if (op == nops - 1) seed_all(ent, pers, 256);
                else if (op == nops - 2) seed_all(pers, NULL, 128);
                else if (op == nops - 3) seed_all(ent, NULL, 0);
                else if (op == nops - 4) seed_all(pers2, pers2, 256);
                else if (nrb == 1) { if (req(0, LEN[op], "sequence")) break; }
                else { static const int l4[] = {0, 16, 33, 48}; if (req(op / 4, l4[op % 4], "sequence")) break; }
            }
        }
    /* every bit of the entropy input and of the personalisation string matters as specified */
    for (int w = 0; w < 3; w++)
        for (int b = 0; b < 384; b++)
            if (CASE("seedbit", w, b)) {
                uint8_t p3[48]; n_states++;
                memcpy(e2, ent, 48); memcpy(p3, pers, 48);
                if (w == 0 || w == 2) e2[b / 8] ^= 1 << b % 8; else p3[b / 8] ^= 1 << b % 8;
                seed_all(e2, w == 2 ? NULL : p3, 256);
                for (int g = 0; g < nrb; g++) if (req(g, 33, "seed bit")) break;
            }
    /* counter carries: choose the entropy so that V starts k below a multiple of 2^(8p) */
    for (int p = 1; p <= 16; p++)
        for (int k = 0; k <= 8; k++)
            for (int hi = 0; hi < 3; hi++)
                if (CASE("carry", p, k, hi)) {
                    uint8_t V[16], z[48] = {0}; m_drbg d0;
                    for (int i = 0; i < 16; i++) V[i] = i < 16 - p ? (hi == 0 ? 0 : hi == 1 ? 0xff : ent[i]) : 0xff;
                    for (int i = 0; i < k; i++) { int j = 15; while (j >= 0 && V[j]-- == 0) j--; }
                    M_drbg_init(&d0, z, NULL);
                    memcpy(e2, ent, 48);
                    for (int i = 0; i < 16; i++) e2[32 + i] = d0.V[i] ^ V[i];
                    for (int n = 0; n <= 200; n += 1) {
                        if (!thorough && n % 16 > 1 && n % 16 < 15) continue;
                        n_states++;
                        seed_all(e2, NULL, 256);
                        if (memcmp(D[0].V, V, 16)) { printf("NOTE carry construction failed\n"); break; }
                        int bad = 0;
                        for (int g = 0; g < nrb && !bad; g++) bad = req(g, n, "counter carry") || req(g, 16, "after counter carry");
                        if (bad) break;
                    }
                }
    /* long histories */
    for (int g = 0; g < nrb; g++)
        if (CASE("long", g)) {
            n_states++;
            seed_all(ent, pers, 256);
            for (int i = 0; i < (thorough ? 70000 : 3000); i++) if (req(g, i % 37 == 0 ? 0 : 1 + i % 50, "long history")) break;
        }
    hc_done();
}
/* ---- seed expander: the stream is AES-256 in counter mode over diversifier | maxlen | counter32 */
static uint8_t ctxb[512] __attribute__((aligned(64)));
static uint8_t sd[32], dv[8];
static uint8_t *stream; static size_t streamn;
static void mkstream(unsigned long maxlen, size_t n)
{
    uint8_t iv[16]; memcpy(iv, dv, 8);
    iv[8] = maxlen >> 24; iv[9] = maxlen >> 16; iv[10] = maxlen >> 8; iv[11] = maxlen; memset(iv + 12, 0, 4);
    if (n > streamn) { stream = realloc(stream, n); streamn = n; }
    M_aesctr(stream, n, sd, iv);
}
static unsigned long rem_, pos_;
static int sx_init(unsigned long maxlen, size_t n)
{
    uint8_t s2[32], d2[8]; memcpy(s2, sd, 32); memcpy(d2, dv, 8);
    memset(ctxb, 0xC7, sizeof ctxb);
    int r = sinit(ctxb, s2, d2, maxlen); n_impl++;
    if (r) { viol("seedexpander_init(maxlen %lu) returned %d", maxlen, r); return 1; }
    mkstream(maxlen, n); rem_ = maxlen; pos_ = 0;
    return 0;
}
static int sx(unsigned long n, int null)
{
    int want = null ? -2 : n >= rem_ ? -3 : 0;
    size_t m = want ? 256 : n;
    uint8_t *o = out + 64;
    memset(out, 0x5D, m + 128);
    int r = sexp(ctxb, null ? NULL : o, n); n_impl++; n_cmp++;
    if (r != want) { viol("request of %lu bytes with %lu remaining (position %lu)%s returned %d, must be %d", n, rem_, pos_, null ? ", no buffer" : "", r, want); return 1; }
    if (want) m = 0;
    if (memcmp(o, stream + pos_, m)) { viol("request of %lu bytes at position %lu: wrong bytes", n, pos_); return 1; }
    for (int i = 0; i < 64; i++) if (out[i] != 0x5D || o[m + i] != 0x5D) { viol("request of %lu bytes (returned %d) wrote outside its output", n, r); return 1; }
    pos_ += m; rem_ -= m;
    return 0;
}
static void p12(void)
{
    int lim = thorough ? 50 : 34;
    for (int a = 0; a <= lim; a++) /* every split into three requests, plus a refused one in between */
        for (int b = 0; b <= lim; b++)
            if (CASE("split", a, b))
                for (int c = 0; c <= lim; c++) {
                    n_states++;
                    if (sx_init(1000, 256) || sx(a, 0)) break;
                    if (c % 3 == 1 && sx(5000, 0)) break;
                    if (c % 3 == 2 && sx(7, 1)) break;
                    if (sx(b, 0) || sx(c, 0) || sx(20, 0)) break;
                }
    for (int M = 0; M <= (thorough ? 64 : 40); M++) /* small limits: every pair of requests, then every third one */
        for (int a = 0; a <= M + 2; a++)
            if (CASE("limit", M, a))
                for (int b = 0; b <= M + 2; b++) {
                    n_states++;
                    if (sx_init(M, 256) || sx(a, 0) || sx(b, 0) || sx(a, 1) || sx(M + 1, 0)) break;
                    if (sx(rem_, 0) || (rem_ > 0 && sx(rem_ - 1, 0)) || sx(1, 0) || sx(0, 0)) break;
                }
    int ops = 9; static const int ol[] = {0, 1, 7, 15, 16, 17, 33, -1, 100000}; /* every sequence of nine operations to depth 4 (5) */
    long tot = 1; for (int i = 0; i < (thorough ? 6 : 5); i++) tot *= ops;
    for (long s = 0; s < tot; s++)
        if (CASE("seq", s)) {
            long v = s; n_states++;
            if (sx_init(3000, 512)) break;
            for (int i = 0; i < (thorough ? 6 : 5); i++, v /= ops) if (sx(ol[v % ops] < 0 ? 5 : ol[v % ops], ol[v % ops] < 0)) break;
        }
    for (int b = 0; b < 256 + 64 + 32; b++) /* every bit of seed, diversifier and limit */
        if (CASE("bit", b)) {
            n_states++;
            unsigned long m = 5000;
            fill(sd, 32, 1201); fill(dv, 8, 1202);
            if (b < 256) sd[b / 8] ^= 1 << b % 8; else if (b < 320) dv[(b - 256) / 8] ^= 1 << b % 8; else m = 1ul << (b - 320);
            if (!sx_init(m, 512)) { sx(m > 60 ? 60 : m - 1, 0); sx(17, 0); }
            fill(sd, 32, 1201); fill(dv, 8, 1202);
        }
    static const unsigned long bad[] = {0x100000000ul, 0x100000001ul, 0x1ffffffffful, 0x200000000ul, 0x8000000000000000ul, ~0ul, 0x100000000ul - 1, 0xfffffffeul, 0x80000000ul, 0x7ffffffful};
    for (int k = 0; k < 10; k++)
        if (CASE("maxlen", k)) {
            n_states++;
            if (k < 6) { int r = sinit(ctxb, sd, dv, bad[k]); n_impl++; n_cmp++; if (r != -1) viol("seedexpander_init with maximum length %lu returned %d, must be -1", bad[k], r); }
            else if (!sx_init(bad[k], 512)) { sx(100, 0); sx(bad[k], 0); sx(bad[k] - 50, 0); sx(~0ul, 0); sx(1ul << 32, 0); sx(33, 0); }
        }
    for (int b = 40; b < 64; b++) if (CASE("huge", b)) { n_states++; if (!sx_init(100, 512) && !sx(10, 0)) { sx(1ul << b, 0); sx((1ul << b) + 5, 0); sx(16, 0); } }
    long long n = thorough ? 0xf0000000ll - 8192 : (1LL << 28) + 100000; /* counter passes 2^24 blocks (the whole stream) */
    if (CASE("longstream", (long)n)) {
        n_states++;
        if (!sx_init(0xf0000000ul, 16)) {
            uint8_t iv[16]; memcpy(iv, dv, 8); iv[8] = 0xf0; memset(iv + 9, 0, 3);
            long long done = 0;
            while (done < n) {
                uint32_t blk = done / 16; iv[12] = blk >> 24; iv[13] = blk >> 16; iv[14] = blk >> 8; iv[15] = blk;
                static uint8_t st[8192];
                M_aesctr(st, 4096, sd, iv); /* requests of 4080+8+8 keep the position block aligned at the end */
                int bad_ = sexp(ctxb, out, 4080) || sexp(ctxb, out + 4080, 7) || sexp(ctxb, out + 4087, 9);
                n_impl += 3; n_cmp++;
                if (bad_ || memcmp(out, st, 4096)) { viol("stream differs in the bytes from %lld", done); break; }
                done += 4096;
            }
        }
    }
    hc_done();
}
/* ---- P13 */
static struct sh { int stage; int ret; uint8_t o[4096]; } *sh;
static int scenario(int sc, int child)
{
    /* seeding happens with injection on as well; stage counts completed operations */
    static const int q[] = {1, 16, 17, 48, 100};
    int g = 0;
    sh->stage = 0;
    uint8_t e[48]; memcpy(e, ent, 48);
    if (sc < 10) { rinit(e, sc % 2 ? pers : NULL, 256); sh->stage = 1; rb[g](sh->o + 64, q[sc % 5]); sh->stage = 2; rb[g](sh->o + 256, 16); sh->stage = 3; }
    else if (sc < 14) { if (nrb < 5) return 0; rinit(e, NULL, 256); sh->stage = 1; rb[1 + sc - 10](sh->o + 64, 33); sh->stage = 2; rb[1 + sc - 10](sh->o + 256, 16); sh->stage = 3; }
    else { sinit(ctxb, sd, dv, 1000); sh->stage = 1; sexp(ctxb, sh->o + 64, sc == 14 ? 5 : 40); sh->stage = 2; sexp(ctxb, sh->o + 256, 20); sh->stage = 3; }
    return 1;
}
static void p13(void)
{
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    static uint8_t good[4096];
    for (int sc = 0; sc < 16; sc++) {
        if (sc >= 10 && sc < 14 && nrb < 5) continue;
        memset(sh->o, 0x5D, sizeof sh->o);
        inj_on = 1; inj_at = -1; inj_n = 0;
        scenario(sc, 0);
        long N = inj_n; inj_on = 0;
        memcpy(good, sh->o, sizeof good);
        if (!N) { printf("NOTE %s: scenario %d makes no cipher-library call\n", I.name, sc); continue; }
        /* boundaries of the stages, to know which call belongs to which operation */
        for (long i = 0; i < N; i++)
            for (int k = 0; k < 3; k++)
                if (CASE("fault", sc, i, k)) {
                    n_states++; n_impl++; n_cmp++;
                    memset(sh->o, 0x5D, sizeof sh->o); sh->stage = -1;
                    fflush(stdout);
                    pid_t p = fork();
                    if (!p) {
                        int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
                        signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGILL, SIG_DFL);
                        inj_on = 1; inj_at = i; inj_n = 0; inj_kind = k;
                        scenario(sc, 1);
                        _exit(0);
                    }
                    int st; waitpid(p, &st, 0);
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { viol("cipher call %ld of %ld fails (%s), yet the process goes on and hands out bytes", i, N, k == 1 ? "-1" : "0"); continue; }
                    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) { viol("cipher call %ld of %ld fails and the process crashes with signal %d instead of aborting", i, N, WTERMSIG(st)); continue; }
                    for (int j = 0; j < (int)sizeof good; j++)
                        if (sh->o[j] != 0x5D && sh->o[j] != good[j]) { viol("cipher call %ld of %ld fails and output byte %d has a value not produced by the cipher", i, N, j); break; }
                }
        stat_add("fault_points", N);
    }
    hc_done();
}
int main(int argc, char **argv)
{
    hc_init(argc, argv);
    *(void **)&rb[0] = hc_sym(&I, "randombytes"); *(void **)&rinit = hc_sym(&I, "randombytes_init");
    *(void **)&sinit = hc_sym(&I, "seedexpander_init"); *(void **)&sexp = hc_sym(&I, "seedexpander");
    nrb = 1;
    for (int i = 0; i < 4; i++) { char n[16]; sprintf(n, "randombytes%d", i); *(void **)&rb[i + 1] = hc_sym(&I, n); if (rb[i + 1]) nrb = i + 2; }
    if (nrb != 5) nrb = 1;
    fill(ent, 48, 1100); fill(pers, 48, 1101); fill(pers2, 48, 1102); fill(sd, 32, 1201); fill(dv, 8, 1202);
    if (!strcmp(argx[0], "p11")) p11(); else if (!strcmp(argx[0], "p12")) p12(); else p13();
}
