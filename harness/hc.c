#define _GNU_SOURCE
#include "hc.h"
#include <dlfcn.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>

impl_t I;
int thorough, replaying, nargx;
const char *argx[16];
static long shard, nshard = 1, counter;
static char only[256];
static char cur[256], det[512];
long n_eval, n_states, n_impl, n_cmp;
static long nviol;
static int nsample;

__thread uint8_t rnd_q[4096];
__thread size_t rnd_n, rnd_pos;
__thread long rnd_calls, rnd_over;
void rnd_set(const uint8_t *b, size_t n) { memcpy(rnd_q, b, n); rnd_n = n; rnd_pos = 0; rnd_calls = 0; rnd_over = 0; }
static int serve(unsigned char *x, unsigned long long n)
{
    rnd_calls++;
    for (unsigned long long i = 0; i < n; i++) {
        if (rnd_pos < rnd_n) x[i] = rnd_q[rnd_pos]; else { x[i] = 0xEE; rnd_over++; }
        rnd_pos++;
    }
    return 0;
}
__attribute__((visibility("default"))) int __wrap_randombytes(unsigned char *x, unsigned long long n) { return serve(x, n); }
__attribute__((visibility("default"))) long long cpucycles(void) { return 0; }

void hc_where(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(det, sizeof det, fmt, a); va_end(a); }

static const char *ck; static int cn; static long cv[8];
static void curtext(void)
{
    int p = snprintf(cur, sizeof cur, "%s", ck ? ck : "init");
    for (int i = 0; i < cn; i++) p += snprintf(cur + p, sizeof cur - p, " %ld", cv[i]);
}
int hc_case_always(const char *kind, int n, const long *v)
{
    ck = kind; cn = n; memcpy(cv, v, n * sizeof(long)); det[0] = 0;
    if (only[0]) { curtext(); if (strcmp(cur, only)) return 0; }
    alarm(thorough ? 600 : 240);
    n_eval++;
    if (nsample < 2) { nsample++; curtext(); printf("SAMPLE %s: %s\n", I.name ? I.name : "", cur); }
    return 1;
}
int hc_case(const char *kind, int n, const long *v)
{
    if (nviol >= 5 && !only[0]) return 0;
    if (!only[0] && (counter++ % nshard) != shard) return 0;
    return hc_case_always(kind, n, v);
}
void viol(const char *fmt, ...)
{
    va_list a; char b[1500];
    va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    curtext();
    nviol++;
    if (nviol <= 5) { printf("VIOL %s | %s | %s\n", cur, I.name ? I.name : "", b); fflush(stdout); }
}
void stat_add(const char *key, long v) { printf("STAT %s %ld\n", key, v); }
void sample(const char *fmt, ...)
{
    va_list a;
    printf("SAMPLE %s: ", I.name ? I.name : ""); va_start(a, fmt); vprintf(fmt, a); va_end(a); printf("\n");
}
static void onsig(int s)
{
    char b[1200];
    curtext();
    int n = snprintf(b, sizeof b, "\nVIOL %s | %s | %s (signal %d) %s\nENDED\n", cur, I.name ? I.name : "",
                     s == SIGALRM ? "call does not terminate" : "crash", s, det);
    fflush(stdout);
    if (write(1, b, n)) {}
    _exit(0);
}
void *hc_sym(impl_t *im, const char *name) { return im->h ? dlsym(im->h, name) : NULL; }
void hc_load(impl_t *im, const char *path)
{
    im->h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!im->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    im->path = path;
    *(void **)&im->kp = dlsym(im->h, "crypto_kem_keypair");
    *(void **)&im->enc = dlsym(im->h, "crypto_kem_enc");
    *(void **)&im->dec = dlsym(im->h, "crypto_kem_dec");
    im->cpa_kp = dlsym(im->h, "indcpa_kem_keypair");
    im->cpa_enc = dlsym(im->h, "indcpa_kem_enc");
    im->cpa_dec = dlsym(im->h, "indcpa_kem_dec");
    im->pkb = m_pkb(&im->p); im->skb = m_skb(&im->p); im->ctb = m_ctb(&im->p); im->iskb = m_iskb(&im->p);
}
void hc_init(int argc, char **argv)
{
    const char *lib = NULL;
    I.lanes = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        const char *k = argv[i], *v = argv[i + 1];
        if (!strcmp(k, "--lib")) lib = v;
        else if (!strcmp(k, "--name")) I.name = v;
        else if (!strcmp(k, "--par"))
            sscanf(v, "%d,%d,%d,%d,%d,%d,%d,%d", &I.p.l, &I.p.mu, &I.p.et, &I.p.eq, &I.p.ep, &I.p.u, &I.p.n90, &I.lanes);
        else if (!strcmp(k, "--tier")) thorough = !strcmp(v, "thorough");
        else if (!strcmp(k, "--shard")) sscanf(v, "%ld/%ld", &shard, &nshard);
        else if (!strcmp(k, "--only")) { snprintf(only, sizeof only, "%s", v); replaying = 1; }
        else if (!strcmp(k, "--x") && nargx < 16) argx[nargx++] = v;
        else { fprintf(stderr, "bad argument %s\n", k); exit(3); }
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (lib) hc_load(&I, lib);
    static uint8_t alt[1 << 16];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, NULL);
    struct sigaction sa = {.sa_handler = onsig, .sa_flags = SA_ONSTACK | SA_NODEFER};
    int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP, SIGSYS};
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
}
void hc_done(void)
{
    alarm(0);
    stat_add("evaluations", n_eval); stat_add("states", n_states); stat_add("impl_runs", n_impl);
    stat_add("compared", n_cmp); stat_add("violations", nviol);
    printf("DONE\n");
    fflush(stdout);
    _exit(0);
}
int have_cpa(void) { return I.cpa_enc && I.cpa_dec; }
typedef void (*ce1)(const uint8_t *, const uint8_t *, const uint8_t *, uint8_t *);
typedef void (*cd1)(const uint8_t *, const uint8_t *, uint8_t *);
typedef void (*ce4)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, uint8_t *, uint8_t *, uint8_t *, uint8_t *, const uint8_t *, uint8_t *,
                    const uint8_t *, uint8_t *, const uint8_t *, uint8_t *, const uint8_t *, uint8_t *);
typedef void (*cd4)(const uint8_t *, const uint8_t *, uint8_t *, const uint8_t *, const uint8_t *, uint8_t *, const uint8_t *,
                    const uint8_t *, uint8_t *, const uint8_t *, const uint8_t *, uint8_t *);
void imp_cpa_enc(uint8_t **m, uint8_t **sd, uint8_t **pk, uint8_t **ct)
{
    n_impl++;
    if (I.lanes == 1) ((ce1)I.cpa_enc)(m[0], sd[0], pk[0], ct[0]);
    else ((ce4)I.cpa_enc)(m[0], m[1], m[2], m[3], sd[0], sd[1], sd[2], sd[3], pk[0], ct[0], pk[1], ct[1], pk[2], ct[2], pk[3], ct[3]);
}
void imp_cpa_dec(uint8_t **sk, uint8_t **ct, uint8_t **m)
{
    n_impl++;
    if (I.lanes == 1) ((cd1)I.cpa_dec)(sk[0], ct[0], m[0]);
    else ((cd4)I.cpa_dec)(sk[0], ct[0], m[0], sk[1], ct[1], m[1], sk[2], ct[2], m[2], sk[3], ct[3], m[3]);
}
void fill(uint8_t *b, size_t n, uint64_t tag)
{
    uint8_t s[32] = "saber-verif-base-point";
    memcpy(s + 24, &tag, 8);
    M_shake128(b, n, s, 32);
}
void hexs(char *o, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", b[i]); }
/* monitored builds: an access outside any object ends the case with a report */
#ifdef __SANITIZE_ADDRESS__
const char *__asan_default_options(void) { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:detect_stack_use_after_return=0:log_path=/dev/null"; }
const char *__asan_get_report_description(void); int __asan_get_report_access_type(void); unsigned long __asan_get_report_access_size(void);
void __asan_on_error(void)
{
    viol("the code %s %ld bytes outside the object it works on (%s) %s", __asan_get_report_access_type() ? "writes" : "reads", (long)__asan_get_report_access_size(), __asan_get_report_description(), det);
    hc_done();
}
#endif
