// Logging macros with the level limits taken from variables.
extern int c33_level, c33_global;
#define EMBC_LOG_GLOBAL_LEVEL (c33_global)
#define EMBC_LOG_LEVEL (c33_level)
#include "embc/log.h"
#include <string.h>
int c33_line;
const char *c33_file(void) { return __FILENAME__; }
static int hits_;
int c33_hits(void) { int h = hits_; hits_ = 0; return h; }
static int arg(int x) { ++hits_; return x; }
#define ONE(N, M) case N: c33_line = __LINE__; if (form == 0) { M("%s/%d/%x", s, arg(a), 77); } else if (form == 1) { M(s); } else { M("%d %d %d %d %d %d %d %d %d %s", arg(a), 1, 2, 3, 4, 5, 6, 7, 8, s); } break;
void c33_log(int which, int form, const char *s, int a) {
    switch (which) {
        ONE(0, EMBC_LOG_EMERGENCY) ONE(1, EMBC_LOG_ALERT) ONE(2, EMBC_LOG_CRITICAL) ONE(3, EMBC_LOG_ERROR) ONE(4, EMBC_LOG_WARNING)
        ONE(5, EMBC_LOG_NOTICE) ONE(6, EMBC_LOG_INFO) ONE(7, EMBC_LOG_DEBUG1) ONE(8, EMBC_LOG_DEBUG2) ONE(9, EMBC_LOG_DEBUG3)
        ONE(10, EMBC_LOG_ERR) ONE(11, EMBC_LOG_WARN) ONE(12, EMBC_LOG_DEBUG) ONE(13, EMBC_LOG_DBG) ONE(14, EMBC_LOGE) ONE(15, EMBC_LOGW)
        ONE(16, EMBC_LOGN) ONE(17, EMBC_LOGI) ONE(18, EMBC_LOGD) ONE(19, EMBC_LOGD1) ONE(20, EMBC_LOGD2) ONE(21, EMBC_LOGD3)
    }
}
void c33_log_at(int lvl, int other, int pick, const char *s, int a) {  // level given as an expression
    c33_line = __LINE__ + 1;
    EMBC_LOG(pick ? lvl : other, "%s/%d/%x", s, arg(a), 77);
}
int c33_check(int lvl) { return EMBC_LOG_CHECK_STATIC(lvl); }
int c33_check_e(int a, int b) { return EMBC_LOG_CHECK_STATIC(a ^ b); }
int c33_lcheck(int lvl, int cfg) { return EMBC_LOG_LEVEL_CHECK(lvl, cfg); }
int c33_lcheck_e(int a, int b, int c, int d) { return EMBC_LOG_LEVEL_CHECK(a ^ b, c ^ d); }
const char *c33_name(int i) { return embc_log_level_str[i]; }
char c33_char(int i) { return embc_log_level_char[i]; }
int c33_value(int i) {
    static const int v[] = {EMBC_LOG_LEVEL_EMERGENCY, EMBC_LOG_LEVEL_ALERT, EMBC_LOG_LEVEL_CRITICAL, EMBC_LOG_LEVEL_ERROR, EMBC_LOG_LEVEL_WARNING, EMBC_LOG_LEVEL_NOTICE,
        EMBC_LOG_LEVEL_INFO, EMBC_LOG_LEVEL_DEBUG1, EMBC_LOG_LEVEL_DEBUG2, EMBC_LOG_LEVEL_DEBUG3, EMBC_LOG_LEVEL_ALL};
    return v[i];
}
