// Platform helpers and general macros as functions, arguments also as expressions.
#include "embc/cdef.h"
#include "embc/platform.h"
#include "embc/ec.h"
#include "embc/log.h"
#include "embc/inttypes.h"
#include <stdio.h>
uint32_t c32_clz(uint32_t x) { return embc_clz(x); }
uint32_t c32_pow2(uint32_t x) { return embc_upper_power_of_two(x); }
void c32_memset(void *p, int v, embc_size_t n) { embc_memset(p, v, n); }
void c32_memcpy(void *d, const void *s, embc_size_t n) { embc_memcpy(d, s, n); }
void *c32_alloc_clr(embc_size_t n) { return embc_alloc_clr(n); }
long long c32_range(long long v, long long lo, long long hi) { return EMBC_RESTRICT_TO_RANGE(v, lo, hi); }
long long c32_range_e(long long v, long long a, long long lo, long long hi) { return EMBC_RESTRICT_TO_RANGE(v ^ a, lo ^ a, hi ^ a); }
double c32_range_d(double v, double lo, double hi) { return EMBC_RESTRICT_TO_RANGE(v, lo, hi); }
int c32_signum(long long v) { return EMBC_SIGNUM(v); }
int c32_signum_e(long long v, long long a) { return EMBC_SIGNUM(v ^ a); }
long long c32_round(long long x, long long m) { return EMBC_ROUND_UP_TO_MULTIPLE(x, m); }
long long c32_round_e(long long x, long long a, long long m, long long b) { return EMBC_ROUND_UP_TO_MULTIPLE(x + a, m + b); }
struct big_s { char a; int b; double c; short d[7]; void *e; };
void *c32_container(void *base, int which, int expr) {
    struct big_s *s = (struct big_s *) base;
    switch (which) {
        case 0: return EMBC_CONTAINER_OF(&s->a, struct big_s, a);
        case 1: return EMBC_CONTAINER_OF(&s->b, struct big_s, b);
        case 2: return EMBC_CONTAINER_OF(&s->c, struct big_s, c);
        case 3: { short *p = s->d; return expr ? EMBC_CONTAINER_OF(p + 3, struct big_s, d[3]) : EMBC_CONTAINER_OF(&s->d[3], struct big_s, d[3]); }
        default: return EMBC_CONTAINER_OF(&s->e, struct big_s, e);
    }
}
int c32_struct_init(int ptr, unsigned char fill) {  // number of bytes left nonzero or clobbered outside
    struct { char before[8]; struct big_s s; char after[8]; } x;
    memset(&x, fill, sizeof(x));
    if (ptr) { struct big_s *p = &x.s; EMBC_STRUCT_PTR_INIT(p); } else EMBC_STRUCT_INIT(x.s);
    int bad = 0;
    for (unsigned i = 0; i < sizeof(x.s); ++i) bad += ((unsigned char *) &x.s)[i] != 0;
    for (unsigned i = 0; i < 8; ++i) bad += ((unsigned char) x.before[i] != fill) + ((unsigned char) x.after[i] != fill);
    return bad;
}
static int calls_;
static int32_t eval(int32_t v) { ++calls_; return v; }
int c32_calls(void) { int c = calls_; calls_ = 0; return c; }
int32_t c32_return_on_error(int32_t v) { EMBC_RETURN_ON_ERROR(eval(v)); return -77; }
int32_t c32_return_on_error_msg(int32_t v) { EMBC_RETURN_ON_ERROR_MSG(eval(v), "m"); return -77; }
int32_t c32_exit_on_error(int32_t v) { EMBC_EXIT_ON_ERROR(eval(v)); return -77; exit: return -78; }
int32_t c32_exit_with_error(int32_t v) { int32_t rc = -76; EMBC_EXIT_WITH_ERROR(rc, eval(v)); return rc == -76 ? -76 : -75; exit: return rc; }
int c32_sizes(void) { int8_t a[9]; struct big_s b[13]; char c[1]; (void) a; (void) b; (void) c; return EMBC_ARRAY_SIZE(a) == 9 && EMBC_ARRAY_SIZE(b) == 13 && EMBC_ARRAY_SIZE(c) == 1 && embc_sizeof(b[0]) == (embc_size_t) sizeof(struct big_s); }
int c32_format(char *out, size_t n, int which, embc_size_t v) {  // the formats of inttypes.h for sizes
    switch (which) {
        case 0: return snprintf(out, n, "<%" PRIdS ">", v);
        case 1: return snprintf(out, n, "<%" PRIxS ">", v);
        case 2: return snprintf(out, n, "<%" PRIuS ">", v);
        case 3: return snprintf(out, n, "<%" PRIXS ">", v);
        default: return snprintf(out, n, "<%" PRIoS ">", v);
    }
}
