// The time macros as functions, each also with its arguments given as expressions.
#include "embc/time.h"
typedef long long ll;
ll c31_fn(int which, ll x, ll z) {
    ll z1 = z / 2, z2 = z - z1, x1 = x / 3, x2 = x - x1;
    switch (which) {
        case 0: return EMBC_TIME_TO_COUNTER(x, z);
        case 1: return EMBC_TIME_TO_COUNTER(x1 + x2, z1 + z2);
        case 2: return EMBC_TIME_TO_COUNTER_ROUND_UP(x, z);
        case 3: return EMBC_TIME_TO_COUNTER_ROUND_UP(x1 + x2, z1 + z2);
        case 4: return EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z);
        case 5: return EMBC_TIME_TO_COUNTER_ROUND_DOWN(x1 + x2, z1 + z2);
        case 6: return EMBC_COUNTER_TO_TIME(x, z);
        case 7: return EMBC_COUNTER_TO_TIME(x1 + x2, z1 + z2);
        case 8: return EMBC_TIME_TO_SECONDS(x);
        case 9: return EMBC_TIME_TO_MILLISECONDS(x);
        case 10: return EMBC_TIME_TO_MICROSECONDS(x);
        case 11: return EMBC_TIME_TO_NANOSECONDS(x);
        case 12: return EMBC_SECONDS_TO_TIME(x);
        case 13: return EMBC_MILLISECONDS_TO_TIME(x);
        case 14: return EMBC_MICROSECONDS_TO_TIME(x);
        case 15: return EMBC_NANOSECONDS_TO_TIME(x);
        case 16: return EMBC_TIME_ABS(x);
        case 17: { int xi = (int) x, zi = (int) z; return EMBC_TIME_TO_COUNTER(xi, zi); }
        case 18: { int xi = (int) x, zi = (int) z; return EMBC_COUNTER_TO_TIME(xi, zi); }
        case 19: { int xi = (int) x; return EMBC_SECONDS_TO_TIME(xi); }
        case 20: { unsigned xi = (unsigned) x; return EMBC_MILLISECONDS_TO_TIME(xi); }
        case 21: { int xi = (int) x, zi = (int) z; return EMBC_TIME_TO_COUNTER_ROUND_DOWN(xi, zi); }
        case 22: { int xi = (int) x, zi = (int) z; return EMBC_TIME_TO_COUNTER_ROUND_UP(xi, zi); }
        default: return 0;
    }
}
double c31_to_f(int single, ll x) { return single ? EMBC_TIME_TO_F32(x) : EMBC_TIME_TO_F64(x); }
ll c31_from_f(int single, double d) { float f = (float) d; return single ? EMBC_F32_TO_TIME(f) : EMBC_F64_TO_TIME(d); }
ll c31_const(int i) {
    switch (i) {
        case 0: return EMBC_TIME_SECOND; case 1: return EMBC_TIME_MILLISECOND; case 2: return EMBC_TIME_MICROSECOND;
        case 3: return EMBC_TIME_NANOSECOND; case 4: return EMBC_TIME_MINUTE; case 5: return EMBC_TIME_HOUR;
        case 6: return EMBC_TIME_DAY; case 7: return EMBC_TIME_WEEK; case 8: return EMBC_TIME_YEAR; case 9: return EMBC_TIME_MONTH;
        case 10: return EMBC_TIME_MAX; case 11: return EMBC_TIME_MIN; case 12: return EMBC_TIME_EPOCH_UNIX_OFFSET_SECONDS; default: return EMBC_TIME_Q;
    }
}
