/* Instruction-level emulator of the ARMv6-M / ARMv7E-M integer instruction set, for running the cross-compiled embedded code. */
#ifndef ARM_H
#define ARM_H
#include <stdint.h>
#include <stddef.h>
#define FLASH 0x10000000u
#define FLASH_SZ 0x100000u
#define RAM 0x20000000u
#define RAM_SZ 0x100000u
#define STACK_TOP (RAM + RAM_SZ)
#define AREN 0x30000000u
#define AREN_SZ 0x40000u
#define A_R 1
#define A_W 2
extern uint32_t R[16];
extern uint8_t *a_flash, *a_ram, *a_aren, *a_perm;  /* a_perm: access rights of every arena byte */
extern int a_v6m;                                    /* ARMv6-M: unaligned accesses fault, no 32-bit instructions except BL */
extern uint64_t a_icount, a_ilimit; extern uint32_t a_minsp;
extern char a_fault[320];                            /* text of the last fault */
extern int a_unsupported;                            /* the emulator lacks the instruction (no verdict) */
extern void (*a_host)(int n);                        /* BKPT #n */
extern int (*a_dev)(uint32_t addr, int size, int write, uint32_t *v); /* accesses outside memory; nonzero when handled */
extern void (*a_ev)(uint64_t e);                      /* told every instruction address and, plus 1 << 62, twice every data address (+1: write) */
const char *arm_where(uint32_t pc);
void arm_load(const char *elf);
uint32_t arm_sym(const char *name);                  /* 0 when absent */
/* calls a function; 0 ok, else a_fault says why.  Result in R[0], R[1]. */
int arm_call(uint32_t addr, int nargs, const uint32_t *args);
uint8_t *arm_ptr(uint32_t addr);                     /* host address, NULL when unmapped */
uint32_t arm_arg(int i);                             /* argument i of a host call (stack arguments included) */
void arm_get(uint32_t a, uint8_t *b, size_t n); void arm_put(uint32_t a, const uint8_t *b, size_t n); /* from a host routine */
void arm_stop(const char *why, int unsupported) __attribute__((noreturn));
extern uint32_t a_ramlim; extern int a_physical;       /* bytes of RAM; load initialised data at its flash address only */
int arm_boot(uint32_t vectors); uint32_t arm_dataend(void);
void arm_snapshot(void); void arm_restore(void);     /* the RAM below the stack */
#endif
