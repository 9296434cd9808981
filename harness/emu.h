/* An embedded implementation run in the emulator, presented as an impl_t. */
#include "hc.h"
#include "arm.h"
extern int emu_off[4];      /* misalignment of the buffers handed over */
extern int emu_fill;        /* stack contents before each call; -1: what the previous call left */
extern int emu_comp;        /* secret keys in the compressed format */
extern int (*emu_xof)(uint8_t *o, size_t on, const uint8_t *in, size_t n); /* programmable XOF; 0: not programmed */
void emu_load(const char *elf, int m0);
extern uint32_t emu_depth;  /* deepest stack use so far */
