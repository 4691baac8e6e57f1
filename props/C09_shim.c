// The optional floating-point parser, enabled as the documentation says.
#include "embc/config.h"
#undef EMBC_CSTR_FLOAT_ENABLE
#define EMBC_CSTR_FLOAT_ENABLE 1
#define embc_cstr_copy x9_copy
#define embc_cstr_join x9_join
#define embc_cstr_casecmp x9_casecmp
#define embc_cstr_starts_with x9_starts_with
#define embc_cstr_to_u32 x9_to_u32
#define embc_cstr_to_i32 x9_to_i32
#define embc_cstr_to_i32s x9_to_i32s
#define embc_cstr_to_f32 x9_to_f32
#define embc_cstr_toupper x9_toupper
#define embc_cstr_to_index x9_to_index
#define embc_cstr_to_bool x9_to_bool
#define embc_cstr_hex_to_u4 x9_hex_to_u4
#define embc_cstr_u4_to_hex x9_u4_to_hex
#include "../src/cstr.c"
