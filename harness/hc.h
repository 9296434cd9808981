/* Common driver code: loading an implementation, seams, case enumeration, reports. */
#ifndef HC_H
#define HC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "model.h"

typedef struct {
    const char *path, *name;
    void *h;
    int lanes;                 /* 1, or 4 for the batch code */
    mp_t p;
    int (*kp)(uint8_t *, uint8_t *);
    int (*enc)(uint8_t *, uint8_t *, const uint8_t *);
    int (*dec)(uint8_t *, const uint8_t *, const uint8_t *);
    void *cpa_kp, *cpa_enc, *cpa_dec;
    int pkb, skb, ctb, iskb;   /* per lane */
} impl_t;

extern impl_t I;               /* the implementation given by --lib */
extern int thorough;           /* tier */
extern int replaying;
extern const char *argx[16];   /* extra --x arguments */
extern int nargx;

void hc_init(int argc, char **argv);
void hc_load(impl_t *im, const char *path);
void *hc_sym(impl_t *im, const char *name); /* NULL if absent */

/* randomness seam: bytes served to randombytes() */
extern __thread uint8_t rnd_q[4096];
extern __thread size_t rnd_n, rnd_pos;  /* bytes queued / consumed */
extern __thread long rnd_calls, rnd_over;
void rnd_set(const uint8_t *b, size_t n);

/* case enumeration.  CASE returns 1 when this process is to run the case. */
int hc_case(const char *kind, int n, const long *v);
#define CASE(kind, ...) hc_case(kind, (int)(sizeof((long[]){__VA_ARGS__}) / sizeof(long)), (long[]){__VA_ARGS__})
#define CASE_ALWAYS(kind, ...) hc_case_always(kind, (int)(sizeof((long[]){__VA_ARGS__}) / sizeof(long)), (long[]){__VA_ARGS__})
int hc_case_always(const char *kind, int n, const long *v); /* not sharded */
void hc_where(const char *fmt, ...); /* extra detail for the crash report */
void viol(const char *fmt, ...);
void stat_add(const char *key, long v);
void sample(const char *fmt, ...);
extern long n_eval, n_states, n_impl, n_cmp; /* cases run, distinct enumerated states, calls of the code, outcomes compared */
void hc_done(void);

/* IND-CPA seam, lane-aware: arrays of lanes */
void imp_cpa_enc(uint8_t **m, uint8_t **seed, uint8_t **pk, uint8_t **ct);
void imp_cpa_dec(uint8_t **isk, uint8_t **ct, uint8_t **m);
int have_cpa(void);

/* deterministic filler (not a random test: only a fixed generic base point) */
void fill(uint8_t *b, size_t n, uint64_t tag);
void hexs(char *o, const uint8_t *b, size_t n);
#endif
