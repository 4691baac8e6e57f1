#include "embc/memory/buffer.h"
// the static buffer macros are C only
struct static_holder_s { EMBC_BUFFER_STATIC_DECLARE(b, 48); uint8_t guard[16]; };
struct static_holder_s holder_;
struct embc_buffer_s * static_init(int garbage) {
    embc_memset(&holder_, garbage, sizeof(holder_));
    if (garbage & 1)
        EMBC_BUFFER_STATIC_INITIALIZE(holder_.b);
    else
        EMBC_BUFFER_STATIC_INITIALIZE(holder_.b);
    return &holder_.b;
}
// as the branch not taken: nothing happens
void static_skip(int again) {
    if (again)
        EMBC_BUFFER_STATIC_INITIALIZE(holder_.b);
}
unsigned char * static_guard(void) { return holder_.guard; }
EMBC_BUFFER_STATIC_DEFINE(defined_, 40);
struct embc_buffer_s * static_defined(void) { return &defined_; }
EMBC_BUFFER_STATIC_DEFINE(huge_, 65528);
struct embc_buffer_s * static_huge(void) { return &huge_; }
