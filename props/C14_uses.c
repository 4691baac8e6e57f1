// The static buffer macros as statements and definitions. Only compiled when the C14 harness does not build (see check.py).
#include "embc/memory/buffer.h"
struct h_s { EMBC_BUFFER_STATIC_DECLARE(b, 48); };
// uses
void u0(struct h_s * h) { EMBC_BUFFER_STATIC_INITIALIZE(h->b); }
void u1(struct h_s * h, int c) { if (c) EMBC_BUFFER_STATIC_INITIALIZE(h->b); else EMBC_BUFFER_STATIC_INITIALIZE(h->b); }
EMBC_BUFFER_STATIC_DEFINE(u2, 40);
int u3(void) { EMBC_BUFFER_STATIC_DEFINE(b, 32); embc_buffer_write_u8(&b, 1); return embc_buffer_length(&b); }
int u4(void) { EMBC_BUFFER_STATIC_DECLARE(b, 32); EMBC_BUFFER_STATIC_INITIALIZE(b); return embc_buffer_length(&b); }
