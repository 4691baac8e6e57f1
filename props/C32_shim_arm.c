// The helpers of platform/arm.h; where the host is x86, its clz instruction is an assembler macro.
#ifndef SHIM_FALLBACK
#include "embc/config.h"
#undef EMBC_PLATFORM_STDLIB
#define EMBC_PLATFORM_ARM 1
#if defined(__x86_64__) || defined(__i386__)
__asm__(".macro clz d s\n\tbsrl \\s, \\d\n\tjnz 1f\n\tmovl $63, \\d\n1:\n\txorl $31, \\d\n.endm\n");
#endif
#include "embc/cdef.h"
#include "embc/platform.h"
#define HAVE 1
#else
#include "embc/platform.h"
#define HAVE 0
#endif
int c32_arm(void) { return HAVE; }
uint32_t c32_arm_clz(uint32_t x) { return embc_clz(x); }
uint32_t c32_arm_pow2(uint32_t x) { return embc_upper_power_of_two(x); }
void c32_arm_memset(void *p, int v, embc_size_t n) { embc_memset(p, v, n); }
void c32_arm_memcpy(void *d, const void *s, embc_size_t n) { embc_memcpy(d, s, n); }
