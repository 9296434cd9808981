#define _GNU_SOURCE
#include "arm.h"
#include <elf.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
uint32_t R[16];
uint8_t *a_flash, *a_ram, *a_aren, *a_perm; int a_v6m; uint64_t a_icount, a_ilimit = 400000000ull; uint32_t a_minsp;
char a_fault[320]; uint32_t a_ramlim = RAM_SZ; int a_physical; int a_unsupported; void (*a_host)(int); void (*a_ev)(uint64_t); int (*a_dev)(uint32_t, int, int, uint32_t *);
static int N, Z, C, V, Qf; static uint32_t GE; static uint8_t it; static jmp_buf jb;
static uint32_t curpc; static uint32_t flash_end, data_end;
typedef struct { char n[80]; uint32_t v; } sym_t; static sym_t *syms; static int nsym;

static void fault(const char *f, ...) __attribute__((noreturn, format(printf, 1, 2)));
const char *arm_where(uint32_t pc)
{
    static char b[120]; int best = -1;
    for (int i = 0; i < nsym; i++) if ((syms[i].v & ~1u) <= pc && (best < 0 || (syms[i].v & ~1u) > (syms[best].v & ~1u))) best = i;
    if (best < 0) snprintf(b, sizeof b, "%08x", pc); else snprintf(b, sizeof b, "%s+0x%x", syms[best].n, pc - (syms[best].v & ~1u));
    return b;
}
static void fault(const char *f, ...)
{
    char t[160]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap);
    snprintf(a_fault, sizeof a_fault, "%s in %s", t, arm_where(curpc));
    longjmp(jb, 1);
}
static void undef(uint32_t h) { a_unsupported = 1; fault("instruction %08x not known to the emulator", h); }
uint8_t *arm_ptr(uint32_t a)
{
    if (a - RAM < RAM_SZ) return a_ram + (a - RAM);
    if (a - AREN < AREN_SZ) return a_aren + (a - AREN);
    if (a - FLASH < FLASH_SZ) return a_flash + (a - FLASH);
    return NULL;
}
static inline uint32_t ld(uint32_t a, int n)
{
    uint8_t *p; uint32_t v = 0;
    if (a_ev) a_ev((uint64_t)a * 2 + (1ull << 62));
    if ((a & (n - 1)) && a_v6m) fault("unaligned %d-byte read at %08x", n, a);
    if (a - RAM <= a_ramlim - n) p = a_ram + (a - RAM);
    else if (a - FLASH <= FLASH_SZ - n) { p = a_flash + (a - FLASH); if (a + n > flash_end) fault("read at %08x outside the program", a); }
    else if (a - AREN <= AREN_SZ - n) {
        p = a_aren + (a - AREN);
        for (int i = 0; i < n; i++) if (!(a_perm[a - AREN + i] & A_R)) fault("reads %08x outside any buffer it was given", a + i);
    } else { if (a_dev && a_dev(a, n, 0, &v)) return v; fault("reads unmapped address %08x", a); }
    switch (n) { case 1: return *p; case 2: { uint16_t h; memcpy(&h, p, 2); return h; } default: memcpy(&v, p, 4); return v; }
}
static inline void st(uint32_t a, uint32_t v, int n)
{
    uint8_t *p;
    if (a_ev) a_ev((uint64_t)a * 2 + 1 + (1ull << 62));
    if ((a & (n - 1)) && a_v6m) fault("unaligned %d-byte write at %08x", n, a);
    if (a - RAM <= a_ramlim - n) p = a_ram + (a - RAM);
    else if (a - AREN <= AREN_SZ - n) {
        p = a_aren + (a - AREN);
        for (int i = 0; i < n; i++) if (!(a_perm[a - AREN + i] & A_W)) fault("writes %08x outside any output buffer it was given", a + i);
    } else { if (a_dev && a_dev(a, n, 1, &v)) return; fault("writes address %08x", a); }
    switch (n) { case 1: *p = v; break; case 2: { uint16_t h = v; memcpy(p, &h, 2); break; } default: memcpy(p, &v, 4); }
}
/* decoded instructions */
enum { AND_, BIC_, ORR_, ORN_, EOR_, ADD_, ADC_, SBC_, SUB_, RSB_, MOV_, MVN_, TST_, TEQ_, CMN_, CMP_ };
enum { I_NONE, I_DPI, I_DPR, I_SHR, I_LD, I_LDR, I_LDLIT, I_ST, I_STR, I_LDRD, I_STRD, I_LDM, I_STM, I_TB, I_B, I_BC, I_BL, I_BX, I_BLX, I_CBZ, I_IT, I_NOP, I_BKPT, I_ADR,
       I_EXT, I_REV, I_MUL, I_MLA, I_MLS, I_SMLAXY, I_SMLAD, I_SMLAW, I_SMLSD, I_SMMLA, I_SMMLS, I_LMUL, I_DIV, I_PKH, I_PAR, I_QADD, I_SEL, I_CLZ, I_MOVT, I_BF, I_SAT, I_MRS, I_UNDEF };
typedef struct { uint8_t k, op, s, rd, rn, rm, ra, sh, am, sz, sg, idx, add, wb, cond, len; uint32_t imm; } ins;
static ins *cache;
#define S_IT 2 /* sets flags outside IT blocks */

static uint32_t expand(uint32_t i12, int *c)
{
    uint32_t b = i12 & 0xff;
    *c = 2;
    if (!(i12 & 0xc00)) switch (i12 >> 8 & 3) { case 0: return b; case 1: return b << 16 | b; case 2: return b << 24 | b << 8; default: return b * 0x01010101u; }
    uint32_t v = 0x80 | (i12 & 0x7f), n = i12 >> 7;
    v = v >> n | v << (32 - n);
    *c = v >> 31;
    return v;
}
static void decode16(uint32_t h, ins *d, uint32_t pc)
{
    (void)pc;
    d->len = 2;
    uint32_t rd = h & 7, rm = h >> 3 & 7, i5 = h >> 6 & 31;
    switch (h >> 11) {
    case 0: case 1: case 2:
        d->k = I_DPR; d->op = MOV_; d->s = S_IT; d->rd = rd; d->rm = rm; d->sh = h >> 11; d->am = i5;
        if (d->sh && !i5) d->am = 32;
        return;
    case 3:
        d->rd = rd; d->rn = rm; d->s = S_IT; d->op = h >> 9 & 1 ? SUB_ : ADD_;
        if (h >> 10 & 1) { d->k = I_DPI; d->imm = h >> 6 & 7; d->am = 2; } else { d->k = I_DPR; d->rm = h >> 6 & 7; }
        return;
    case 4: case 5: case 6: case 7:
        d->k = I_DPI; d->imm = h & 0xff; d->am = 2; d->rd = d->rn = h >> 8 & 7; d->s = (h >> 11) == 5 ? 1 : S_IT;
        d->op = (const uint8_t[]){MOV_, CMP_, ADD_, SUB_}[h >> 11 & 3];
        return;
    case 8:
        if (!(h & 0x400)) {
            d->k = I_DPR; d->rd = d->rn = rd; d->rm = rm; d->s = S_IT;
            switch (h >> 6 & 15) {
            case 0: d->op = AND_; return; case 1: d->op = EOR_; return;
            case 2: case 3: case 4: case 7: d->k = I_SHR; d->sh = (h >> 6 & 15) == 7 ? 3 : (h >> 6 & 15) - 2; return;
            case 5: d->op = ADC_; return; case 6: d->op = SBC_; return; case 8: d->op = TST_; d->s = 1; return;
            case 9: d->k = I_DPI; d->op = RSB_; d->rn = rm; d->imm = 0; d->am = 2; return;
            case 10: d->op = CMP_; d->s = 1; return; case 11: d->op = CMN_; d->s = 1; return; case 12: d->op = ORR_; return;
            case 13: d->k = I_MUL; d->rn = rd; return; case 14: d->op = BIC_; return; default: d->op = MVN_; return;
            }
        }
        d->rd = d->rn = (h & 7) | (h >> 4 & 8); d->rm = h >> 3 & 15;
        switch (h >> 8 & 3) {
        case 0: d->k = I_DPR; d->op = ADD_; return;
        case 1: d->k = I_DPR; d->op = CMP_; d->s = 1; return;
        case 2: d->k = I_DPR; d->op = MOV_; return;
        default: d->k = h & 0x80 ? I_BLX : I_BX; return;
        }
    case 9: d->k = I_LDLIT; d->rd = h >> 8 & 7; d->imm = (h & 0xff) * 4; d->sz = 4; d->add = 1; return;
    case 10: case 11: {
        static const uint8_t z[] = {4, 2, 1, 1, 4, 2, 1, 2};
        int o = h >> 9 & 7;
        d->k = o < 3 ? I_STR : I_LDR; d->rd = rd; d->rn = rm; d->rm = h >> 6 & 7; d->sz = z[o]; d->sg = o == 3 || o == 7; d->idx = d->add = 1; return; }
    case 12: case 13: d->k = h >> 11 & 1 ? I_LD : I_ST; d->rd = rd; d->rn = rm; d->imm = i5 * 4; d->sz = 4; d->idx = d->add = 1; return;
    case 14: case 15: d->k = h >> 11 & 1 ? I_LD : I_ST; d->rd = rd; d->rn = rm; d->imm = i5; d->sz = 1; d->idx = d->add = 1; return;
    case 16: case 17: d->k = h >> 11 & 1 ? I_LD : I_ST; d->rd = rd; d->rn = rm; d->imm = i5 * 2; d->sz = 2; d->idx = d->add = 1; return;
    case 18: case 19: d->k = h >> 11 & 1 ? I_LD : I_ST; d->rd = h >> 8 & 7; d->rn = 13; d->imm = (h & 0xff) * 4; d->sz = 4; d->idx = d->add = 1; return;
    case 20: d->k = I_ADR; d->rd = h >> 8 & 7; d->imm = (h & 0xff) * 4; d->add = 1; return;
    case 21: d->k = I_DPI; d->op = ADD_; d->rd = h >> 8 & 7; d->rn = 13; d->imm = (h & 0xff) * 4; d->am = 2; return;
    case 22: case 23:
        if ((h & 0xff00) == 0xb000) { d->k = I_DPI; d->op = h & 0x80 ? SUB_ : ADD_; d->rd = d->rn = 13; d->imm = (h & 0x7f) * 4; d->am = 2; return; }
        if ((h & 0xf500) == 0xb100) { d->k = I_CBZ; d->rn = rd; d->op = h >> 11 & 1; d->imm = (h >> 9 & 1) << 6 | (h >> 3 & 31) << 1; return; }
        if ((h & 0xff00) == 0xb200) { d->k = I_EXT; d->rd = rd; d->rm = rm; d->rn = 15; d->op = h >> 6 & 3; return; } /* 0 SXTH 1 SXTB 2 UXTH 3 UXTB */
        if ((h & 0xfe00) == 0xb400) { d->k = I_STM; d->rn = 13; d->wb = 1; d->op = 1; d->imm = (h & 0xff) | (h & 0x100 ? 1 << 14 : 0); return; }
        if ((h & 0xfe00) == 0xbc00) { d->k = I_LDM; d->rn = 13; d->wb = 1; d->imm = (h & 0xff) | (h & 0x100 ? 1 << 15 : 0); return; }
        if ((h & 0xff00) == 0xba00 && (h >> 6 & 3) != 2) { d->k = I_REV; d->rd = rd; d->rm = rm; d->op = h >> 6 & 3; return; }
        if ((h & 0xff00) == 0xbe00) { d->k = I_BKPT; d->imm = h & 0xff; return; }
        if ((h & 0xff00) == 0xbf00) { if (h & 15) { d->k = I_IT; d->imm = h & 0xff; } else d->k = I_NOP; return; }
        if ((h & 0xffe8) == 0xb660) { d->k = I_NOP; return; }
        break;
    case 24: d->k = I_STM; d->rn = h >> 8 & 7; d->wb = 1; d->imm = h & 0xff; return;
    case 25: d->k = I_LDM; d->rn = h >> 8 & 7; d->imm = h & 0xff; d->wb = !(d->imm >> d->rn & 1); return;
    case 26: case 27:
        if ((h >> 8 & 15) >= 14) break;
        d->k = I_BC; d->cond = h >> 8 & 15; d->imm = (uint32_t)((int32_t)(int8_t)h * 2); return;
    case 28: d->k = I_B; d->imm = (uint32_t)((int32_t)(h << 21) >> 20); return;
    }
    d->k = I_UNDEF; d->imm = h;
}
static void decode32(uint32_t h1, uint32_t h2, ins *d)
{
    uint32_t op1 = h1 >> 11 & 3, op2 = h1 >> 4 & 0x7f, rn = h1 & 15, rd = h2 >> 8 & 15, rm = h2 & 15, rt = h2 >> 12;
    d->len = 4;
    if (op1 == 1) {
        if ((op2 & 0x64) == 0) {
            int o = op2 >> 3 & 3, L = op2 & 1;
            if (o == 1 || o == 2) { d->k = L ? I_LDM : I_STM; d->rn = rn; d->wb = op2 >> 1 & 1; d->op = o == 2; d->imm = h2; return; }
        } else if ((op2 & 0x64) == 4) {
            int P = h1 >> 8 & 1, U = h1 >> 7 & 1, W = h1 >> 5 & 1, L = h1 >> 4 & 1;
            if (!P && !W) { if (U && L && (h2 & 0xe0) == 0) { d->k = I_TB; d->rn = rn; d->rm = rm; d->sz = h2 & 0x10 ? 2 : 1; return; } }
            else { d->k = L ? I_LDRD : I_STRD; d->rn = rn; d->rd = rt; d->ra = rd; d->imm = (h2 & 0xff) * 4; d->idx = P; d->add = U; d->wb = W; return; }
        } else if ((op2 & 0x60) == 0x20) {
            int o = op2 >> 1 & 15;
            d->s = op2 & 1; d->rd = rd; d->rn = rn; d->rm = rm; d->sh = h2 >> 4 & 3; d->am = (h2 >> 12 & 7) << 2 | (h2 >> 6 & 3);
            if (o == 6) { d->k = I_PKH; d->op = h2 >> 5 & 1; if (d->op && !d->am) d->am = 32; d->s = 0; return; }
            d->k = I_DPR;
            if (d->sh && !d->am) { if (d->sh == 3) d->sh = 4; else d->am = 32; } /* 4: RRX */
            switch (o) {
            case 0: d->op = rd == 15 && d->s ? TST_ : AND_; return; case 1: d->op = BIC_; return; case 2: d->op = rn == 15 ? MOV_ : ORR_; return;
            case 3: d->op = rn == 15 ? MVN_ : ORN_; return; case 4: d->op = rd == 15 && d->s ? TEQ_ : EOR_; return;
            case 8: d->op = rd == 15 && d->s ? CMN_ : ADD_; return; case 10: d->op = ADC_; return; case 11: d->op = SBC_; return;
            case 13: d->op = rd == 15 && d->s ? CMP_ : SUB_; return; case 14: d->op = RSB_; return;
            }
        }
    } else if (op1 == 2 && !(h2 & 0x8000)) {
        uint32_t i12 = (h1 >> 10 & 1) << 11 | (h2 >> 12 & 7) << 8 | (h2 & 0xff);
        if (!(op2 & 0x20)) {
            int o = op2 >> 1 & 15, c;
            d->k = I_DPI; d->s = op2 & 1; d->rd = rd; d->rn = rn; d->imm = expand(i12, &c); d->am = c;
            switch (o) {
            case 0: d->op = rd == 15 && d->s ? TST_ : AND_; return; case 1: d->op = BIC_; return; case 2: d->op = rn == 15 ? MOV_ : ORR_; return;
            case 3: d->op = rn == 15 ? MVN_ : ORN_; return; case 4: d->op = rd == 15 && d->s ? TEQ_ : EOR_; return;
            case 8: d->op = rd == 15 && d->s ? CMN_ : ADD_; return; case 10: d->op = ADC_; return; case 11: d->op = SBC_; return;
            case 13: d->op = rd == 15 && d->s ? CMP_ : SUB_; return; case 14: d->op = RSB_; return;
            }
        } else {
            int o = h1 >> 4 & 31;
            d->rd = rd; d->rn = rn;
            uint32_t lsb = (h2 >> 12 & 7) << 2 | (h2 >> 6 & 3), w = h2 & 31;
            switch (o) {
            case 0: case 10: if (rn == 15) { d->k = I_ADR; d->imm = i12; d->add = o == 0; } else { d->k = I_DPI; d->op = o ? SUB_ : ADD_; d->imm = i12; d->am = 2; } return;
            case 4: d->k = I_DPI; d->op = MOV_; d->imm = rn << 12 | i12; d->am = 2; return;
            case 12: d->k = I_MOVT; d->imm = rn << 12 | i12; return;
            case 16: case 18: case 24: case 26: d->k = I_SAT; d->op = o >= 24; d->imm = w + (o < 24); d->sh = o & 2 ? 2 : 0; d->am = lsb; if ((o & 2) && !lsb) d->sz = 1; else d->sz = 0; return;
            case 20: case 28: d->k = I_BF; d->op = o == 20 ? 0 : 1; d->sh = lsb; d->am = w + 1; return;
            case 22: d->k = I_BF; d->op = rn == 15 ? 3 : 2; d->sh = lsb; d->am = w - lsb + 1; return;
            }
        }
    } else if (op1 == 2) {
        uint32_t s = h1 >> 10 & 1, j1 = h2 >> 13 & 1, j2 = h2 >> 11 & 1;
        if (!(h2 & 0x5000)) {
            uint32_t c = h1 >> 6 & 15;
            if (c < 14) { d->k = I_BC; d->cond = c; d->imm = (uint32_t)((int32_t)(s << 31 | j2 << 30 | j1 << 29 | (h1 & 0x3f) << 23 | (h2 & 0x7ff) << 12) >> 11); return; }
            if ((h1 & 0xfff0) == 0xf3a0 || (h1 & 0xfff0) == 0xf3b0) { d->k = I_NOP; return; }
            if ((h1 & 0xffe0) == 0xf3e0) { d->k = I_MRS; d->rd = rd; d->imm = h2 & 0xff; return; }
            if ((h1 & 0xffe0) == 0xf380) { d->k = I_NOP; return; } /* MSR: interrupts masked or not does not matter here */
        } else if (h2 & 0x1000) {
            uint32_t i1 = !(j1 ^ s), i2 = !(j2 ^ s);
            d->k = h2 & 0x4000 ? I_BL : I_B;
            d->imm = (uint32_t)((int32_t)(s << 31 | i1 << 30 | i2 << 29 | (h1 & 0x3ff) << 19 | (h2 & 0x7ff) << 8) >> 7);
            return;
        }
    } else {
        if ((op2 & 0x71) == 0 || (op2 & 0x67) == 1 || (op2 & 0x67) == 3 || (op2 & 0x67) == 5) {
            int L = op2 & 1;
            d->sz = 1 << (op2 >> 1 & 3); d->sg = h1 >> 8 & 1; d->rd = rt; d->rn = rn; d->idx = d->add = 1;
            if (L && rt == 15 && d->sz < 4) { d->k = I_NOP; return; } /* PLD */
            if (L && rn == 15) { d->k = I_LDLIT; d->imm = h2 & 0xfff; d->add = h1 >> 7 & 1; return; }
            d->k = L ? I_LD : I_ST;
            if (h1 & 0x80) { d->imm = h2 & 0xfff; return; }
            if (h2 & 0x800) { d->imm = h2 & 0xff; d->idx = h2 >> 10 & 1; d->add = h2 >> 9 & 1; d->wb = h2 >> 8 & 1; return; }
            if ((h2 & 0xfc0) == 0) { d->k = L ? I_LDR : I_STR; d->rm = rm; d->am = h2 >> 4 & 3; return; }
        } else if ((op2 & 0x70) == 0x20) {
            int o1 = op2 & 15, o2 = h2 >> 4 & 15;
            d->rd = rd; d->rn = rn; d->rm = rm;
            if (rt == 15) {
                if (o1 < 8 && o2 == 0) { d->k = I_SHR; d->sh = o1 >> 1; d->s = o1 & 1; return; }
                if (o1 < 6 && o2 >= 8) { d->k = I_EXT; d->am = (o2 & 3) * 8; d->op = (const uint8_t[]){0, 2, 4, 5, 1, 3}[o1]; return; }
                if (o1 >= 8 && o2 < 8 && (o2 & 3) != 3) { d->k = I_PAR; d->op = o1 & 7; d->sh = o2; return; }
                if (o1 >= 8 && o1 < 12 && o2 >= 8 && o2 < 12) {
                    switch (o1 & 3) {
                    case 0: d->k = I_QADD; d->op = o2 & 3; return;
                    case 1: d->k = I_REV; d->op = o2 & 3; return; /* 0 REV 1 REV16 2 RBIT 3 REVSH */
                    case 2: d->k = I_SEL; return;
                    case 3: d->k = I_CLZ; return;
                    }
                }
            }
        } else if ((op2 & 0x78) == 0x30) {
            d->rd = rd; d->rn = rn; d->rm = rm; d->ra = rt; d->op = h2 >> 4 & 3;
            switch (op2 & 7) {
            case 0: d->k = d->op ? I_MLS : I_MLA; if (d->op > 1) break; return;
            case 1: d->k = I_SMLAXY; return; case 2: d->k = I_SMLAD; return; case 3: d->k = I_SMLAW; return;
            case 4: d->k = I_SMLSD; return; case 5: d->k = I_SMMLA; return; case 6: d->k = I_SMMLS; return;
            }
        } else if ((op2 & 0x78) == 0x38) {
            int o1 = op2 & 7, o2 = h2 >> 4 & 15;
            d->rd = rd; d->rn = rn; d->rm = rm; d->ra = rt; d->imm = o1 << 4 | o2;
            if ((o1 == 1 || o1 == 3) && o2 == 15) { d->k = I_DIV; d->op = o1 == 3; return; }
            switch (d->imm) { case 0x00: case 0x20: case 0x40: case 0x60: case 0x66: case 0x48: case 0x49: case 0x4a: case 0x4b: case 0x4c: case 0x4d: case 0x5c: case 0x5d: d->k = I_LMUL; return; }
        }
    }
    d->k = I_UNDEF; d->imm = h1 << 16 | h2;
}
static inline int cond(int c)
{
    int r;
    switch (c >> 1) { case 0: r = Z; break; case 1: r = C; break; case 2: r = N; break; case 3: r = V; break; case 4: r = C && !Z; break; case 5: r = N == V; break; case 6: r = !Z && N == V; break; default: return 1; }
    return (c & 1) ? !r : r;
}
static inline uint32_t shift(uint32_t v, int t, int n, int *c)
{
    switch (t) {
    case 0: if (!n) return v; if (n > 32) { *c = 0; return 0; } *c = v >> (32 - n) & 1; return n == 32 ? 0 : v << n;
    case 1: if (!n) return v; if (n > 32) { *c = 0; return 0; } *c = v >> (n - 1) & 1; return n == 32 ? 0 : v >> n;
    case 2: if (!n) return v; if (n >= 32) { *c = v >> 31; return (int32_t)v >> 31; } *c = v >> (n - 1) & 1; return (int32_t)v >> n;
    case 3: if (!n) return v; n &= 31; if (n) v = v >> n | v << (32 - n); *c = v >> 31; return v;
    default: { uint32_t r = v >> 1 | (uint32_t)*c << 31; *c = v & 1; return r; } /* RRX */
    }
}
static inline uint32_t addc(uint32_t a, uint32_t b, int ci, int s)
{
    uint64_t u = (uint64_t)a + b + ci; uint32_t r = u;
    if (s) { N = r >> 31; Z = !r; C = u >> 32; V = ((a ^ r) & (b ^ r)) >> 31; }
    return r;
}
static void bxto(uint32_t a) { if (!(a & 1)) fault("branch to %08x without the Thumb bit", a); R[15] = a & ~1u; }
static int32_t ssat(int64_t v, int n) { int64_t hi = (1ll << (n - 1)) - 1, lo = -(1ll << (n - 1)); if (v > hi) { Qf = 1; return hi; } if (v < lo) { Qf = 1; return lo; } return v; }
static int32_t usat(int64_t v, int n) { int64_t hi = (1ll << n) - 1; if (v > hi) { Qf = 1; return hi; } if (v < 0) { Qf = 1; return 0; } return v; }
static uint32_t parallel(int op, int ty, uint32_t a, uint32_t b)
{
    int un = ty >> 2, md = ty & 3; uint32_t r = 0, ge = 0;
    if (op == 0 || op == 4) {
        for (int i = 0; i < 4; i++) {
            int x = a >> 8 * i & 0xff, y = b >> 8 * i & 0xff, v;
            if (!un) { x = (int8_t)x; y = (int8_t)y; }
            v = op == 0 ? x + y : x - y;
            if (md == 0) { if (un ? (op == 0 ? v >= 256 : v >= 0) : v >= 0) ge |= 1u << i; }
            else if (md == 1) { if (un) v = v < 0 ? 0 : v > 255 ? 255 : v; else v = v < -128 ? -128 : v > 127 ? 127 : v; }
            else v >>= 1;
            r |= (uint32_t)(v & 0xff) << 8 * i;
        }
    } else {
        int x0 = a & 0xffff, x1 = a >> 16, y0 = b & 0xffff, y1 = b >> 16, v[2], isadd[2];
        if (!un) { x0 = (int16_t)x0; x1 = (int16_t)x1; y0 = (int16_t)y0; y1 = (int16_t)y1; }
        switch (op) {
        case 1: v[0] = x0 + y0; v[1] = x1 + y1; isadd[0] = isadd[1] = 1; break;
        case 5: v[0] = x0 - y0; v[1] = x1 - y1; isadd[0] = isadd[1] = 0; break;
        case 2: v[0] = x0 - y1; v[1] = x1 + y0; isadd[0] = 0; isadd[1] = 1; break; /* ASX */
        case 6: v[0] = x0 + y1; v[1] = x1 - y0; isadd[0] = 1; isadd[1] = 0; break; /* SAX */
        default: undef(op); return 0;
        }
        for (int i = 0; i < 2; i++) {
            int w = v[i];
            if (md == 0) { if (un ? (isadd[i] ? w >= 65536 : w >= 0) : w >= 0) ge |= 3u << 2 * i; }
            else if (md == 1) { if (un) w = w < 0 ? 0 : w > 65535 ? 65535 : w; else w = w < -32768 ? -32768 : w > 32767 ? 32767 : w; }
            else w >>= 1;
            r |= (uint32_t)(w & 0xffff) << 16 * i;
        }
    }
    if (md == 0) GE = ge;
    return r;
}
/* memory as seen by a host routine: same access rights as the code's own accesses */
void arm_get(uint32_t a, uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = ld(a + i, 1); }
void arm_put(uint32_t a, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) st(a + i, b[i], 1); }
void arm_stop(const char *why, int unsupported) { a_unsupported = unsupported; fault("%s", why); }
static void step_loop(void)
{
    for (;;) {
        uint32_t pc = R[15];
        if (pc == 0xF0000000u) return;
        curpc = pc;
        if (a_ev) a_ev(pc);
        if (pc - FLASH >= FLASH_SZ || pc + 2 > flash_end) fault("executes at %08x", pc);
        ins *d = &cache[(pc - FLASH) >> 1];
        if (!d->k) {
            uint16_t h1, h2; memcpy(&h1, a_flash + (pc - FLASH), 2); memcpy(&h2, a_flash + (pc - FLASH) + 2, 2);
            if ((h1 >> 11) >= 0x1d) decode32(h1, h2, d); else decode16(h1, d, pc);
            if (a_v6m && d->len == 4 && d->k != I_BL && d->k != I_NOP && d->k != I_MRS) fault("instruction %04x %04x does not exist on ARMv6-M", h1, h2);
        }
        if (++a_icount > a_ilimit) fault("does not terminate");
        uint32_t next = pc + d->len;
        int init = 0;
        if (it) {
            int c = it >> 4;
            init = 1;
            it = (it & 7) ? (it & 0xe0) | ((it << 1) & 0x1f) : 0;
            if (!cond(c)) { R[15] = next; continue; }
        }
        R[15] = pc + 4;
        uint32_t a, b, r; int c, s = d->s == S_IT ? !init : d->s;
        switch (d->k) {
        case I_DPI:
            b = d->imm; c = d->am == 2 ? C : d->am; a = R[d->rn];
            goto alu;
        case I_DPR:
            b = R[d->rm]; c = C; a = R[d->rn];
            if (d->am || d->sh == 4) b = shift(b, d->sh, d->am, &c);
        alu:
            switch (d->op) {
            case AND_: r = a & b; goto lg; case BIC_: r = a & ~b; goto lg; case ORR_: r = a | b; goto lg; case ORN_: r = a | ~b; goto lg; case EOR_: r = a ^ b; goto lg;
            case MOV_: r = b; goto lg; case MVN_: r = ~b; goto lg;
            case ADD_: r = addc(a, b, 0, s); break; case ADC_: r = addc(a, b, C, s); break; case SBC_: r = addc(a, ~b, C, s); break;
            case SUB_: r = addc(a, ~b, 1, s); break; case RSB_: r = addc(~a, b, 1, s); break;
            case TST_: r = a & b; goto fl; case TEQ_: r = a ^ b; goto fl;
            case CMN_: addc(a, b, 0, 1); R[15] = next; continue;
            default: addc(a, ~b, 1, 1); R[15] = next; continue;
            lg: if (s) { N = r >> 31; Z = !r; C = c; } break;
            fl: N = r >> 31; Z = !r; C = c; R[15] = next; continue;
            }
            if (d->rd == 15) { R[15] = r & ~1u; continue; }
            if (d->rd == 13) { if (r < a_minsp) a_minsp = r; }
            R[d->rd] = r;
            break;
        case I_SHR: c = C; r = shift(R[d->rn], d->sh, R[d->rm] & 0xff, &c); R[d->rd] = r; if (s) { N = r >> 31; Z = !r; C = c; } break;
        case I_LD: case I_LDR: case I_LDLIT:
            if (d->k == I_LDLIT) a = ((pc + 4) & ~3u) + (d->add ? d->imm : -d->imm);
            else {
                b = d->k == I_LDR ? R[d->rm] << d->am : d->imm;
                uint32_t o = R[d->rn], n = d->add ? o + b : o - b;
                a = d->idx ? n : o;
                if (d->wb) { R[d->rn] = n; }
            }
            r = ld(a, d->sz);
            if (d->sg) r = d->sz == 1 ? (uint32_t)(int8_t)r : (uint32_t)(int16_t)r;
            if (d->rd == 15) { bxto(r); continue; }
            R[d->rd] = r;
            break;
        case I_ST: case I_STR: {
            b = d->k == I_STR ? R[d->rm] << d->am : d->imm;
            uint32_t o = R[d->rn], n = d->add ? o + b : o - b, v = R[d->rd];
            if (d->wb) { R[d->rn] = n; if (d->rn == 13 && n < a_minsp) a_minsp = n; }
            st(d->idx ? n : o, v, d->sz);
            break; }
        case I_LDRD: case I_STRD: {
            uint32_t o = d->rn == 15 ? (pc + 4) & ~3u : R[d->rn], n = d->add ? o + d->imm : o - d->imm; a = d->idx ? n : o;
            if (a & 3) fault("unaligned double-word access at %08x", a);
            if (d->k == I_LDRD) { r = ld(a, 4); b = ld(a + 4, 4); if (d->wb) R[d->rn] = n; R[d->rd] = r; R[d->ra] = b; }
            else { st(a, R[d->rd], 4); st(a + 4, R[d->ra], 4); if (d->wb) R[d->rn] = n; }
            break; }
        case I_LDM: {
            uint32_t n = __builtin_popcount(d->imm) * 4; a = d->op ? R[d->rn] - n : R[d->rn]; b = d->op ? a : a + n;
            if (a & 3) fault("unaligned load-multiple at %08x", a);
            uint32_t base = d->rn, t = 0; int j = 0;
            if (d->wb) R[base] = b;
            for (int i = 0; i < 15; i++) if (d->imm >> i & 1) { uint32_t v = ld(a, 4); a += 4; R[i] = v; }
            if (d->imm >> 15 & 1) { t = ld(a, 4); j = 1; }
            if (j) { bxto(t); continue; }
            break; }
        case I_STM: {
            uint32_t n = __builtin_popcount(d->imm) * 4; a = d->op ? R[d->rn] - n : R[d->rn]; b = d->op ? a : a + n;
            if (a & 3) fault("unaligned store-multiple at %08x", a);
            for (int i = 0; i < 15; i++) if (d->imm >> i & 1) { st(a, R[i], 4); a += 4; }
            if (d->wb) { R[d->rn] = b; if (d->rn == 13 && b < a_minsp) a_minsp = b; }
            break; }
        case I_TB: a = d->rn == 15 ? pc + 4 : R[d->rn]; r = d->sz == 2 ? ld(a + R[d->rm] * 2, 2) : ld(a + R[d->rm], 1); R[15] = pc + 4 + 2 * r; continue;
        case I_B: R[15] = pc + 4 + d->imm; continue;
        case I_BC: R[15] = cond(d->cond) ? pc + 4 + d->imm : next; continue;
        case I_BL: R[14] = next | 1; R[15] = pc + 4 + d->imm; continue;
        case I_BX: bxto(R[d->rm]); continue;
        case I_BLX: r = R[d->rm]; R[14] = next | 1; bxto(r); continue;
        case I_CBZ: R[15] = (R[d->rn] == 0) != d->op ? pc + 4 + d->imm : next; continue;
        case I_IT: it = d->imm; break;
        case I_NOP: break;
        case I_BKPT: R[15] = next; if (a_host) a_host(d->imm); else fault("breakpoint %u", d->imm); break;
        case I_ADR: R[d->rd] = ((pc + 4) & ~3u) + (d->add ? d->imm : -d->imm); break;
        case I_EXT:
            r = R[d->rm]; if (d->am) r = r >> d->am | r << (32 - d->am);
            switch (d->op) { case 0: r = (int16_t)r; break; case 1: r = (int8_t)r; break; case 2: r = (uint16_t)r; break; case 3: r = (uint8_t)r; break;
            case 4: r = ((uint32_t)(int8_t)r & 0xffff) | (uint32_t)(int8_t)(r >> 16) << 16; break; default: r &= 0xff00ff; }
            if (d->rn != 15) r = d->op >= 4 ? ((r + R[d->rn]) & 0xffff) | ((r & 0xffff0000) + (R[d->rn] & 0xffff0000)) : r + R[d->rn];
            R[d->rd] = r; break;
        case I_REV:
            a = R[d->rm];
            switch (d->op) { case 0: r = __builtin_bswap32(a); break; case 1: r = (a >> 8 & 0xff00ff) | (a & 0xff00ff) << 8; break;
            case 2: r = 0; for (int i = 0; i < 32; i++) r |= (a >> i & 1) << (31 - i); break; default: r = (int16_t)__builtin_bswap16(a); }
            R[d->rd] = r; break;
        case I_MUL: r = R[d->rn] * R[d->rm]; R[d->rd] = r; if (s) { N = r >> 31; Z = !r; } break;
        case I_MLA: R[d->rd] = R[d->rn] * R[d->rm] + (d->ra == 15 ? 0 : R[d->ra]); break;
        case I_MLS: R[d->rd] = R[d->ra] - R[d->rn] * R[d->rm]; break;
        case I_SMLAXY: { int32_t x = (int16_t)(d->op & 2 ? R[d->rn] >> 16 : R[d->rn]), y = (int16_t)(d->op & 1 ? R[d->rm] >> 16 : R[d->rm]); int64_t v = (int64_t)x * y + (d->ra == 15 ? 0 : (int32_t)R[d->ra]); if (v != (int32_t)v) Qf = 1; R[d->rd] = v; break; }
        case I_SMLAD: case I_SMLSD: {
            uint32_t m = R[d->rm]; if (d->op & 1) m = m >> 16 | m << 16;
            int64_t p0 = (int64_t)(int16_t)R[d->rn] * (int16_t)m, p1 = (int64_t)(int16_t)(R[d->rn] >> 16) * (int16_t)(m >> 16);
            int64_t v = (d->k == I_SMLAD ? p0 + p1 : p0 - p1) + (d->ra == 15 ? 0 : (int32_t)R[d->ra]); if (v != (int32_t)v) Qf = 1; R[d->rd] = v; break; }
        case I_SMLAW: { int64_t v = ((int64_t)(int32_t)R[d->rn] * (int16_t)(d->op & 1 ? R[d->rm] >> 16 : R[d->rm])) >> 16; if (d->ra != 15) v += (int32_t)R[d->ra]; if (v != (int32_t)v) Qf = 1; R[d->rd] = v; break; }
        case I_SMMLA: { int64_t v = (int64_t)(int32_t)R[d->rn] * (int32_t)R[d->rm]; if (d->ra != 15) v += (int64_t)((uint64_t)R[d->ra] << 32); if (d->op & 1) v += 0x80000000ll; R[d->rd] = v >> 32; break; }
        case I_SMMLS: { int64_t v = (int64_t)((uint64_t)R[d->ra] << 32) - (int64_t)(int32_t)R[d->rn] * (int32_t)R[d->rm]; if (d->op & 1) v += 0x80000000ll; R[d->rd] = v >> 32; break; }
        case I_LMUL: {
            uint64_t acc = (uint64_t)R[d->rd] << 32 | R[d->ra]; uint64_t v; uint32_t x = R[d->rn], y = R[d->rm];
            switch (d->imm) {
            case 0x00: v = (int64_t)(int32_t)x * (int32_t)y; break; case 0x20: v = (uint64_t)x * y; break;
            case 0x40: v = acc + (int64_t)(int32_t)x * (int32_t)y; break; case 0x60: v = acc + (uint64_t)x * y; break;
            case 0x66: v = (uint64_t)x * y + R[d->rd] + R[d->ra]; break;
            case 0x48: case 0x49: case 0x4a: case 0x4b: v = acc + (int64_t)((int32_t)(int16_t)(d->imm & 2 ? x >> 16 : x) * (int16_t)(d->imm & 1 ? y >> 16 : y)); break;
            default: { if (d->imm & 1) y = y >> 16 | y << 16; int64_t p0 = (int64_t)(int16_t)x * (int16_t)y, p1 = (int64_t)(int16_t)(x >> 16) * (int16_t)(y >> 16); v = acc + (d->imm >= 0x5c ? p0 - p1 : p0 + p1); } }
            R[d->ra] = v; R[d->rd] = v >> 32; break; }
        case I_DIV: { uint32_t x = R[d->rn], y = R[d->rm]; if (!y) r = 0; else if (d->op) r = x / y; else r = (x == 0x80000000u && y == ~0u) ? x : (uint32_t)((int32_t)x / (int32_t)y); R[d->rd] = r; break; }
        case I_PKH: c = 0; b = shift(R[d->rm], d->op ? 2 : 0, d->am, &c); a = R[d->rn]; R[d->rd] = d->op ? (a & 0xffff0000u) | (b & 0xffff) : (b & 0xffff0000u) | (a & 0xffff); break;
        case I_PAR: R[d->rd] = parallel(d->op, d->sh, R[d->rn], R[d->rm]); break;
        case I_QADD: { int32_t n = R[d->rn], m = R[d->rm]; if (d->op & 1) n = ssat(2ll * n, 32); R[d->rd] = ssat(d->op & 2 ? (int64_t)m - n : (int64_t)m + n, 32); break; }
        case I_SEL: r = 0; for (int i = 0; i < 4; i++) r |= ((GE >> i & 1) ? R[d->rn] : R[d->rm]) & (0xffu << 8 * i); R[d->rd] = r; break;
        case I_CLZ: R[d->rd] = R[d->rm] ? __builtin_clz(R[d->rm]) : 32; break;
        case I_MOVT: R[d->rd] = (R[d->rd] & 0xffff) | d->imm << 16; break;
        case I_BF: {
            uint32_t m = d->am >= 32 ? ~0u : (1u << d->am) - 1;
            switch (d->op) { case 0: R[d->rd] = (uint32_t)((int32_t)(R[d->rn] << (32 - d->am - d->sh)) >> (32 - d->am)); break; case 1: R[d->rd] = R[d->rn] >> d->sh & m; break;
            case 2: R[d->rd] = (R[d->rd] & ~(m << d->sh)) | (R[d->rn] & m) << d->sh; break; default: R[d->rd] &= ~(m << d->sh); }
            break; }
        case I_SAT: if (d->sz) { undef(0); } c = 0; b = shift(R[d->rn], d->sh, d->am, &c); R[d->rd] = d->op ? (uint32_t)usat((int32_t)b, d->imm) : (uint32_t)ssat((int32_t)b, d->imm); break;
        case I_MRS: R[d->rd] = d->imm <= 3 ? (uint32_t)N << 31 | (uint32_t)Z << 30 | (uint32_t)C << 29 | (uint32_t)V << 28 | (uint32_t)Qf << 27 | GE << 16 : 0; break;
        default: undef(d->imm);
        }
        R[15] = next;
    }
}
uint32_t arm_arg(int i) { if (i < 4) return R[i]; uint32_t v; uint8_t *p = arm_ptr(R[13] + 4 * (i - 4)); if (!p) fault("bad stack"); memcpy(&v, p, 4); return v; }
/* reset: stack pointer and entry from the vector table at the start of flash */
int arm_boot(uint32_t vectors)
{
    a_fault[0] = 0; a_icount = 0; it = 0; N = Z = C = V = 0;
    for (int i = 0; i < 13; i++) R[i] = 0xDEAD0000u + i;
    memcpy(&R[13], arm_ptr(vectors), 4); memcpy(&R[15], arm_ptr(vectors + 4), 4);
    R[15] &= ~1u; a_minsp = R[13]; R[14] = 0xF0000001u;
    if (setjmp(jb)) return 1;
    step_loop();
    return 0;
}
int arm_call(uint32_t addr, int n, const uint32_t *arg)
{
    a_fault[0] = 0; a_icount = 0; it = 0; N = Z = C = V = 0;
    for (int i = 0; i < 13; i++) R[i] = 0xDEAD0000u + i;
    uint32_t sp = STACK_TOP - 256;
    if (n > 4) { sp -= ((n - 4) * 4 + 7) & ~7u; memcpy(a_ram + (sp - RAM), arg + 4, (n - 4) * 4); }
    for (int i = 0; i < n && i < 4; i++) R[i] = arg[i];
    R[13] = a_minsp = sp; R[14] = 0xF0000001u; R[15] = addr & ~1u;
    uint32_t cs[8]; memcpy(cs, R + 4, sizeof cs);
    if (setjmp(jb)) return 1;
    step_loop();
    if (R[13] != sp || memcmp(cs, R + 4, sizeof cs)) { snprintf(a_fault, sizeof a_fault, "does not preserve the registers of its caller"); return 1; }
    return 0;
}
uint32_t arm_sym(const char *n) { for (int i = 0; i < nsym; i++) if (!strcmp(syms[i].n, n)) return syms[i].v; return 0; }
void arm_load(const char *path)
{
    FILE *f = fopen(path, "rb"); if (!f) { perror(path); exit(3); }
    fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f);
    uint8_t *b = malloc(sz); if (fread(b, 1, sz, f) != (size_t)sz) exit(3);
    fclose(f);
    a_flash = calloc(FLASH_SZ + 8, 1); a_ram = calloc(RAM_SZ + 8, 1); a_aren = calloc(AREN_SZ + 8, 1); a_perm = calloc(AREN_SZ + 8, 1);
    cache = calloc(FLASH_SZ / 2 + 4, sizeof *cache);
    Elf32_Ehdr *e = (void *)b; Elf32_Phdr *ph = (void *)(b + e->e_phoff);
    for (int i = 0; i < e->e_phnum; i++) {
        if (ph[i].p_type != PT_LOAD || !ph[i].p_memsz) continue;
        if (a_physical && ph[i].p_vaddr - RAM < RAM_SZ) { /* initial values lie in flash, start-up code has to copy them */
            if (ph[i].p_filesz) memcpy(arm_ptr(ph[i].p_paddr), b + ph[i].p_offset, ph[i].p_filesz);
            if (ph[i].p_paddr - FLASH < FLASH_SZ && ph[i].p_paddr + ph[i].p_filesz > flash_end) flash_end = ph[i].p_paddr + ph[i].p_filesz;
            if (ph[i].p_vaddr + ph[i].p_memsz > data_end) data_end = ph[i].p_vaddr + ph[i].p_memsz;
            continue;
        }
        uint8_t *p = arm_ptr(ph[i].p_vaddr);
        if (!p || !arm_ptr(ph[i].p_vaddr + ph[i].p_memsz - 1)) { fprintf(stderr, "segment at %08x\n", ph[i].p_vaddr); exit(3); }
        memcpy(p, b + ph[i].p_offset, ph[i].p_filesz);
        uint32_t end = ph[i].p_vaddr + ph[i].p_memsz;
        if (ph[i].p_vaddr - FLASH < FLASH_SZ && end > flash_end) flash_end = end;
        if (ph[i].p_vaddr - RAM < RAM_SZ && end > data_end) data_end = end;
    }
    Elf32_Shdr *sh = (void *)(b + e->e_shoff);
    for (int i = 0; i < e->e_shnum; i++) {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        Elf32_Sym *s = (void *)(b + sh[i].sh_offset); const char *st_ = (char *)b + sh[sh[i].sh_link].sh_offset; int k = sh[i].sh_size / sizeof *s;
        syms = calloc(k, sizeof *syms);
        for (int j = 0; j < k; j++) {
            const char *nm = st_ + s[j].st_name; int t = ELF32_ST_TYPE(s[j].st_info);
            if (!nm[0] || nm[0] == '$' || (t != STT_FUNC && t != STT_OBJECT && t != STT_NOTYPE) || s[j].st_shndx == SHN_UNDEF) continue;
            snprintf(syms[nsym].n, sizeof syms[0].n, "%s", nm); syms[nsym++].v = s[j].st_value;
        }
    }
    free(b);
}
uint32_t arm_dataend(void) { return data_end; }
static uint8_t *snap;
void arm_snapshot(void) { if (!snap) snap = malloc(RAM_SZ); memcpy(snap, a_ram, data_end > RAM ? data_end - RAM : 0); }
void arm_restore(void) { memcpy(a_ram, snap, data_end > RAM ? data_end - RAM : 0); }
