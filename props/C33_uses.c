// Every log macro used as documented. Only compiled when the C33 harness does not build (see check.py).
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_ALL
#include "embc.h"
#include "embc/log.h"
// uses
void u0(int x) { EMBC_LOG_EMERGENCY("text"); EMBC_LOG_EMERGENCY("%d", x); }
void u1(int x) { EMBC_LOG_ALERT("text"); EMBC_LOG_ALERT("%d", x); }
void u2(int x) { EMBC_LOG_CRITICAL("text"); EMBC_LOG_CRITICAL("%d", x); }
void u3(int x) { EMBC_LOG_ERROR("text"); EMBC_LOG_ERROR("%d", x); }
void u4(int x) { EMBC_LOG_ERR("text"); EMBC_LOG_ERR("%d", x); }
void u5(int x) { EMBC_LOG_WARNING("text"); EMBC_LOG_WARNING("%d", x); }
void u6(int x) { EMBC_LOG_WARN("text"); EMBC_LOG_WARN("%d", x); }
void u7(int x) { EMBC_LOG_NOTICE("text"); EMBC_LOG_NOTICE("%d", x); }
void u8(int x) { EMBC_LOG_INFO("text"); EMBC_LOG_INFO("%d", x); }
void u9(int x) { EMBC_LOG_DEBUG1("text"); EMBC_LOG_DEBUG1("%d", x); }
void u10(int x) { EMBC_LOG_DEBUG("text"); EMBC_LOG_DEBUG("%d", x); }
void u11(int x) { EMBC_LOG_DBG("text"); EMBC_LOG_DBG("%d", x); }
void u12(int x) { EMBC_LOG_DEBUG2("text"); EMBC_LOG_DEBUG2("%d", x); }
void u13(int x) { EMBC_LOG_DEBUG3("text"); EMBC_LOG_DEBUG3("%d", x); }
void s0(int x) { EMBC_LOGE("text"); EMBC_LOGE("%d", x); }
void s1(int x) { EMBC_LOGW("text"); EMBC_LOGW("%d", x); }
void s2(int x) { EMBC_LOGN("text"); EMBC_LOGN("%d", x); }
void s3(int x) { EMBC_LOGI("text"); EMBC_LOGI("%d", x); }
void s4(int x) { EMBC_LOGD("text"); EMBC_LOGD("%d", x); }
void s5(int x) { EMBC_LOGD1("text"); EMBC_LOGD1("%d", x); }
void s6(int x) { EMBC_LOGD2("text"); EMBC_LOGD2("%d", x); }
void s7(int x) { EMBC_LOGD3("text"); EMBC_LOGD3("%d", x); }
