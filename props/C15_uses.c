// Every byte buffer macro used as a statement or a value. Only compiled when the C15 harness does not build (see check.py).
#include "embc/bbuf.h"
// uses
void e0(uint8_t * p, uint8_t * q, uint8_t v, int c) { EMBC_BBUF_ENCODE_U8(p, v); EMBC_BBUF_ENCODE_U8(c ? p : q, v); EMBC_BBUF_ENCODE_U8(p + c, (uint8_t) (v | 1)); }
void f0(uint8_t * p, uint8_t * q, uint8_t v, int c) { if (c) EMBC_BBUF_ENCODE_U8(p, v); else EMBC_BBUF_ENCODE_U8(q, v); while (c--) EMBC_BBUF_ENCODE_U8(p, v); }
uint8_t d0(uint8_t const * p) { return EMBC_BBUF_DECODE_U8(p); }
uint8_t g0(uint8_t const * p, uint8_t const * q, int c) { return (uint8_t) (EMBC_BBUF_DECODE_U8(c ? p : q) + 1 + EMBC_BBUF_DECODE_U8(p + c)); }
void e1(uint8_t * p, uint8_t * q, uint16_t v, int c) { EMBC_BBUF_ENCODE_U16_BE(p, v); EMBC_BBUF_ENCODE_U16_BE(c ? p : q, v); EMBC_BBUF_ENCODE_U16_BE(p + c, (uint16_t) (v | 1)); }
void f1(uint8_t * p, uint8_t * q, uint16_t v, int c) { if (c) EMBC_BBUF_ENCODE_U16_BE(p, v); else EMBC_BBUF_ENCODE_U16_BE(q, v); while (c--) EMBC_BBUF_ENCODE_U16_BE(p, v); }
uint16_t d1(uint8_t const * p) { return EMBC_BBUF_DECODE_U16_BE(p); }
uint16_t g1(uint8_t const * p, uint8_t const * q, int c) { return (uint16_t) (EMBC_BBUF_DECODE_U16_BE(c ? p : q) + 1 + EMBC_BBUF_DECODE_U16_BE(p + c)); }
void e2(uint8_t * p, uint8_t * q, uint16_t v, int c) { EMBC_BBUF_ENCODE_U16_LE(p, v); EMBC_BBUF_ENCODE_U16_LE(c ? p : q, v); EMBC_BBUF_ENCODE_U16_LE(p + c, (uint16_t) (v | 1)); }
void f2(uint8_t * p, uint8_t * q, uint16_t v, int c) { if (c) EMBC_BBUF_ENCODE_U16_LE(p, v); else EMBC_BBUF_ENCODE_U16_LE(q, v); while (c--) EMBC_BBUF_ENCODE_U16_LE(p, v); }
uint16_t d2(uint8_t const * p) { return EMBC_BBUF_DECODE_U16_LE(p); }
uint16_t g2(uint8_t const * p, uint8_t const * q, int c) { return (uint16_t) (EMBC_BBUF_DECODE_U16_LE(c ? p : q) + 1 + EMBC_BBUF_DECODE_U16_LE(p + c)); }
void e3(uint8_t * p, uint8_t * q, uint32_t v, int c) { EMBC_BBUF_ENCODE_U32_BE(p, v); EMBC_BBUF_ENCODE_U32_BE(c ? p : q, v); EMBC_BBUF_ENCODE_U32_BE(p + c, (uint32_t) (v | 1)); }
void f3(uint8_t * p, uint8_t * q, uint32_t v, int c) { if (c) EMBC_BBUF_ENCODE_U32_BE(p, v); else EMBC_BBUF_ENCODE_U32_BE(q, v); while (c--) EMBC_BBUF_ENCODE_U32_BE(p, v); }
uint32_t d3(uint8_t const * p) { return EMBC_BBUF_DECODE_U32_BE(p); }
uint32_t g3(uint8_t const * p, uint8_t const * q, int c) { return (uint32_t) (EMBC_BBUF_DECODE_U32_BE(c ? p : q) + 1 + EMBC_BBUF_DECODE_U32_BE(p + c)); }
void e4(uint8_t * p, uint8_t * q, uint32_t v, int c) { EMBC_BBUF_ENCODE_U32_LE(p, v); EMBC_BBUF_ENCODE_U32_LE(c ? p : q, v); EMBC_BBUF_ENCODE_U32_LE(p + c, (uint32_t) (v | 1)); }
void f4(uint8_t * p, uint8_t * q, uint32_t v, int c) { if (c) EMBC_BBUF_ENCODE_U32_LE(p, v); else EMBC_BBUF_ENCODE_U32_LE(q, v); while (c--) EMBC_BBUF_ENCODE_U32_LE(p, v); }
uint32_t d4(uint8_t const * p) { return EMBC_BBUF_DECODE_U32_LE(p); }
uint32_t g4(uint8_t const * p, uint8_t const * q, int c) { return (uint32_t) (EMBC_BBUF_DECODE_U32_LE(c ? p : q) + 1 + EMBC_BBUF_DECODE_U32_LE(p + c)); }
void e5(uint8_t * p, uint8_t * q, uint64_t v, int c) { EMBC_BBUF_ENCODE_U64_BE(p, v); EMBC_BBUF_ENCODE_U64_BE(c ? p : q, v); EMBC_BBUF_ENCODE_U64_BE(p + c, (uint64_t) (v | 1)); }
void f5(uint8_t * p, uint8_t * q, uint64_t v, int c) { if (c) EMBC_BBUF_ENCODE_U64_BE(p, v); else EMBC_BBUF_ENCODE_U64_BE(q, v); while (c--) EMBC_BBUF_ENCODE_U64_BE(p, v); }
uint64_t d5(uint8_t const * p) { return EMBC_BBUF_DECODE_U64_BE(p); }
uint64_t g5(uint8_t const * p, uint8_t const * q, int c) { return (uint64_t) (EMBC_BBUF_DECODE_U64_BE(c ? p : q) + 1 + EMBC_BBUF_DECODE_U64_BE(p + c)); }
void e6(uint8_t * p, uint8_t * q, uint64_t v, int c) { EMBC_BBUF_ENCODE_U64_LE(p, v); EMBC_BBUF_ENCODE_U64_LE(c ? p : q, v); EMBC_BBUF_ENCODE_U64_LE(p + c, (uint64_t) (v | 1)); }
void f6(uint8_t * p, uint8_t * q, uint64_t v, int c) { if (c) EMBC_BBUF_ENCODE_U64_LE(p, v); else EMBC_BBUF_ENCODE_U64_LE(q, v); while (c--) EMBC_BBUF_ENCODE_U64_LE(p, v); }
uint64_t d6(uint8_t const * p) { return EMBC_BBUF_DECODE_U64_LE(p); }
uint64_t g6(uint8_t const * p, uint8_t const * q, int c) { return (uint64_t) (EMBC_BBUF_DECODE_U64_LE(c ? p : q) + 1 + EMBC_BBUF_DECODE_U64_LE(p + c)); }
