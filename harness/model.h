/* Independent executable model of the Saber specification: schoolbook arithmetic, generic bit
 * packing, OpenSSL primitives.  Nothing here is taken from /repo. */
#ifndef MODEL_H
#define MODEL_H
#include <stdint.h>
#include <stddef.h>
#define MN 256
#define ML 4
typedef struct { int l, mu, et, eq, ep, u, n90; } mp_t;
static inline int m_pkb(const mp_t *p) { return p->l * p->ep * 32 + 32; }
static inline int m_iskb(const mp_t *p) { return p->l * p->eq * 32; }
static inline int m_skb(const mp_t *p) { return m_iskb(p) + m_pkb(p) + 64; }
static inline int m_ctb(const mp_t *p) { return p->l * p->ep * 32 + p->et * 32; }
static inline int m_noiseb(const mp_t *p) { return p->l * 32 * (p->u ? 2 : p->mu); }
static inline int m_matb(const mp_t *p) { return p->l * p->l * 32 * p->eq; }
#define MAXPK (4 * 320 + 32)
#define MAXSK (4 * 416 + MAXPK + 64)
#define MAXCT (4 * 320 + 6 * 32)

/* primitives */
void M_sha3_256(uint8_t *o, const uint8_t *in, size_t n);
void M_sha3_512(uint8_t *o, const uint8_t *in, size_t n);
void M_shake128(uint8_t *o, size_t on, const uint8_t *in, size_t n);
void M_shake256(uint8_t *o, size_t on, const uint8_t *in, size_t n);
void M_sha256(uint8_t *o, const uint8_t *in, size_t n);
void M_sha512(uint8_t *o, const uint8_t *in, size_t n);
void M_aesctr(uint8_t *o, size_t n, const uint8_t key[32], const uint8_t iv[16]);
void M_aesecb(uint8_t o[16], const uint8_t key[32], const uint8_t in[16]);
/* own Keccak sponge: rate, domain byte; used for cSHAKE and as a second opinion on OpenSSL */
void M_keccak(uint8_t *o, size_t on, const uint8_t *in, size_t n, int rate, uint8_t dom);
void M_keccakf(uint64_t s[25]);

/* XOF override: returns 1 when it produced the bytes */
extern int (*M_xof_override)(uint8_t *o, size_t on, const uint8_t *in, size_t n);
void M_H(const mp_t *p, uint8_t *o, const uint8_t *in, size_t n);
void M_G(const mp_t *p, uint8_t *o, const uint8_t *in, size_t n);
void M_prf(const mp_t *p, uint8_t *o, size_t on, const uint8_t seed[32]);

/* bit packing */
void M_pack(uint8_t *bytes, const uint16_t *c, int n, int w);   /* writes exactly n*w/8 bytes */
void M_unpack(uint16_t *c, const uint8_t *bytes, int n, int w);
void M_mulacc(uint16_t res[MN], const uint16_t a[MN], const uint16_t b[MN]);

/* KEM */
extern int M_nohalf; /* the Cortex-M0 firmware rounds the message part of the ciphertext without the constant h1 */
void M_expandA(const mp_t *p, uint16_t A[ML][ML][MN], const uint8_t seed[32]);
void M_sample(const mp_t *p, uint16_t s[ML][MN], const uint8_t seed[32]);
void M_cpa_keypair(const mp_t *p, uint8_t *pk, uint8_t *isk, const uint8_t rnd[64]);
void M_cpa_enc(const mp_t *p, uint8_t *ct, const uint8_t m[32], const uint8_t seed[32], const uint8_t *pk);
void M_cpa_dec(const mp_t *p, uint8_t m[32], const uint8_t *isk, const uint8_t *ct);
void M_keypair(const mp_t *p, uint8_t *pk, uint8_t *sk, const uint8_t rnd[96]);
void M_enc(const mp_t *p, uint8_t *ct, uint8_t ss[32], const uint8_t *pk, const uint8_t rnd[32]);
int M_dec(const mp_t *p, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk); /* returns 1 if rejected */
void M_reject(const mp_t *p, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk);

/* CTR_DRBG (no derivation function), AES-256 */
typedef struct { uint8_t K[32], V[16]; } m_drbg;
void M_drbg_update(m_drbg *d, const uint8_t *data48);
void M_drbg_init(m_drbg *d, const uint8_t ent[48], const uint8_t *pers);
void M_drbg_gen(m_drbg *d, uint8_t *o, size_t n);
void M_inc128(uint8_t v[16]);
#endif
