// Contract macros as functions.
#include "embc/dbc.h"
#include "embc/argchk.h"
#include "embc/assert.h"
#include <stdint.h>
static int evals_;
int c35_evals(void) { int e = evals_; evals_ = 0; return e; }
static int ev(int x) { ++evals_; return x; }
static void *evp(void *x) { ++evals_; return x; }
int c35_line;
#define D(N, M) case N: c35_line = __LINE__; M; return 0;
int c35_dbc(int which, int a, int b, int c, void *p) {
    switch (which) {
        D(0, EMBC_DBC_ASSERT(ev(a), "m")) D(1, EMBC_DBC_TRUE(ev(a))) D(2, EMBC_DBC_FALSE(ev(a))) D(3, EMBC_DBC_NOT_NULL(evp(p)))
        D(4, EMBC_DBC_EQUAL(ev(a), b)) D(5, EMBC_DBC_GT(ev(a), b)) D(6, EMBC_DBC_GTE(ev(a), b)) D(7, EMBC_DBC_NE(ev(a), b)) D(8, EMBC_DBC_LT(ev(a), b))
        D(9, EMBC_DBC_LTE(ev(a), b)) D(10, EMBC_DBC_GT_ZERO(ev(a))) D(11, EMBC_DBC_GTE_ZERO(ev(a))) D(12, EMBC_DBC_NE_ZERO(ev(a))) D(13, EMBC_DBC_LT_ZERO(ev(a)))
        D(14, EMBC_DBC_LTE_ZERO(ev(a))) D(15, EMBC_DBC_RANGE_INT(ev(a), b, c)) D(16, EMBC_DBC_REQUIRE(ev(a))) D(17, EMBC_ASSERT(ev(a))) D(18, EMBC_ASSERT_ALLOC(evp(p)))
        // operands that are expressions themselves
        D(19, EMBC_DBC_EQUAL(ev(a) & 255, b & 255)) D(20, EMBC_DBC_GT(ev(a) & 255, b & 255)) D(21, EMBC_DBC_LTE(b ? ev(a) : ev(b), c ? c : b)) D(22, EMBC_DBC_FALSE(ev(a) && b)) D(23, EMBC_ASSERT(ev(a) || b))
        case 24: c35_line = __LINE__; EMBC_FATAL("stop"); return 0;
    }
    return 0;
}
int c35_argchk(int which, int a, int b, int c, void *p) {
    switch (which) {
        D(0, EMBC_ARGCHK_ASSERT(ev(a), "m")) D(1, EMBC_ARGCHK_TRUE(ev(a))) D(2, EMBC_ARGCHK_FALSE(ev(a))) D(3, EMBC_ARGCHK_NOT_NULL(evp(p)))
        D(10, EMBC_ARGCHK_GT_ZERO(ev(a))) D(11, EMBC_ARGCHK_GTE_ZERO(ev(a))) D(12, EMBC_ARGCHK_NE_ZERO(ev(a))) D(13, EMBC_ARGCHK_LT_ZERO(ev(a)))
        D(14, EMBC_ARGCHK_LTE_ZERO(ev(a))) D(15, EMBC_ARGCHK_RANGE_INT(ev(a), b, c)) D(16, EMBC_ARGCHK_REQUIRE(ev(a)))
        D(22, EMBC_ARGCHK_FALSE(ev(a) && b)) D(25, EMBC_ARGCHK_GTE_ZERO(b ? ev(a) : ev(c)))
    }
    return -1;
}

// The same macros for operands of other types.
#define TYPED(SUFFIX, T) \
    static T ev_##SUFFIX(T x) { ++evals_; return x; } \
    int c35_dbc_##SUFFIX(int which, T a, T b) { \
        switch (which) { \
            D(0, EMBC_DBC_ASSERT(ev_##SUFFIX(a), "m")) D(1, EMBC_DBC_TRUE(ev_##SUFFIX(a))) D(2, EMBC_DBC_FALSE(ev_##SUFFIX(a))) \
            D(4, EMBC_DBC_EQUAL(ev_##SUFFIX(a), b)) D(5, EMBC_DBC_GT(ev_##SUFFIX(a), b)) D(6, EMBC_DBC_GTE(ev_##SUFFIX(a), b)) D(7, EMBC_DBC_NE(ev_##SUFFIX(a), b)) \
            D(8, EMBC_DBC_LT(ev_##SUFFIX(a), b)) D(9, EMBC_DBC_LTE(ev_##SUFFIX(a), b)) D(10, EMBC_DBC_GT_ZERO(ev_##SUFFIX(a))) D(11, EMBC_DBC_GTE_ZERO(ev_##SUFFIX(a))) \
            D(12, EMBC_DBC_NE_ZERO(ev_##SUFFIX(a))) D(13, EMBC_DBC_LT_ZERO(ev_##SUFFIX(a))) D(14, EMBC_DBC_LTE_ZERO(ev_##SUFFIX(a))) \
            D(16, EMBC_DBC_REQUIRE(ev_##SUFFIX(a))) D(17, EMBC_ASSERT(ev_##SUFFIX(a))) \
        } \
        return 0; \
    } \
    int c35_argchk_##SUFFIX(int which, T a) { \
        switch (which) { \
            D(0, EMBC_ARGCHK_ASSERT(ev_##SUFFIX(a), "m")) D(1, EMBC_ARGCHK_TRUE(ev_##SUFFIX(a))) D(2, EMBC_ARGCHK_FALSE(ev_##SUFFIX(a))) \
            D(10, EMBC_ARGCHK_GT_ZERO(ev_##SUFFIX(a))) D(11, EMBC_ARGCHK_GTE_ZERO(ev_##SUFFIX(a))) D(12, EMBC_ARGCHK_NE_ZERO(ev_##SUFFIX(a))) \
            D(13, EMBC_ARGCHK_LT_ZERO(ev_##SUFFIX(a))) D(14, EMBC_ARGCHK_LTE_ZERO(ev_##SUFFIX(a))) D(16, EMBC_ARGCHK_REQUIRE(ev_##SUFFIX(a))) \
        } \
        return -1; \
    }
TYPED(i64, int64_t)
TYPED(u32, uint32_t)
TYPED(u64, uint64_t)
TYPED(f64, double)
