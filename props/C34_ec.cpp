// C34: every error code has its own name and description; anything else is reported as unknown.
#include "pbt.hpp"
#include <cctype>
extern "C" {
#include "embc/ec.h"
}
using pbt::Tape;
static const struct { int v; const char *name; } list[] = {
    {EMBC_ERROR_SUCCESS, "SUCCESS"}, {EMBC_ERROR_UNSPECIFIED, "UNSPECIFIED"}, {EMBC_ERROR_NOT_ENOUGH_MEMORY, "NOT_ENOUGH_MEMORY"}, {EMBC_ERROR_NOT_SUPPORTED, "NOT_SUPPORTED"},
    {EMBC_ERROR_IO, "IO"}, {EMBC_ERROR_PARAMETER_INVALID, "PARAMETER_INVALID"}, {EMBC_ERROR_INVALID_RETURN_CONDITION, "INVALID_RETURN_CONDITION"},
    {EMBC_ERROR_INVALID_CONTEXT, "INVALID_CONTEXT"}, {EMBC_ERROR_INVALID_MESSAGE_LENGTH, "INVALID_MESSAGE_LENGTH"}, {EMBC_ERROR_MESSAGE_INTEGRITY, "MESSAGE_INTEGRITY"},
    {EMBC_ERROR_SYNTAX_ERROR, "SYNTAX_ERROR"}, {EMBC_ERROR_TIMED_OUT, "TIMED_OUT"}, {EMBC_ERROR_FULL, "FULL"}, {EMBC_ERROR_EMPTY, "EMPTY"}, {EMBC_ERROR_TOO_SMALL, "TOO_SMALL"},
    {EMBC_ERROR_TOO_BIG, "TOO_BIG"}, {EMBC_ERROR_NOT_FOUND, "NOT_FOUND"}, {EMBC_ERROR_ALREADY_EXISTS, "ALREADY_EXISTS"}, {EMBC_ERROR_PERMISSIONS, "PERMISSIONS"},
    {EMBC_ERROR_BUSY, "BUSY"}, {EMBC_ERROR_UNAVAILABLE, "UNAVAILABLE"}, {EMBC_ERROR_IN_USE, "IN_USE"}, {EMBC_ERROR_CLOSED, "CLOSED"}, {EMBC_ERROR_SEQUENCE, "SEQUENCE"},
    {EMBC_ERROR_ABORTED, "ABORTED"}, {EMBC_ERROR_SYNCHRONIZATION, "SYNCHRONIZATION"}};
static const char *table(int v) { // the text the header lists for a code
    switch (v) {
#ifdef EMBC_ERROR_CODES
#define TEXT_OF(NAME, TEXT) case EMBC_ERROR_ ## NAME: return TEXT;
        EMBC_ERROR_CODES(TEXT_OF)
#endif
        default: return 0;
    }
}
static const int N = sizeof(list) / sizeof(list[0]);
PBT_PROP("C34", 1000000, 5000000,
         "error code values drawn from the listed codes, their neighbours, powers of two, multiples of 256 added to listed codes and arbitrary 32-bit integers; listed codes must give "
         "their own name (equal to the identifier) and a distinct description, all others the unknown texts, on every call in any order; non-trivial: at least one listed and one "
         "unlisted code in the sequence") {
    unsigned listed = 0, other = 0, steps = 0;
    while (steps++ < 12) {
        int v;
        switch (t.pick(4)) {
            case 0: v = list[t.pick((uint64_t) N)].v; break;
            case 1: v = (int) t.pick(2 * (uint64_t) N) - N / 2; break;
            case 2: v = (int) (list[t.pick((uint64_t) N)].v + (uint32_t) t.pick(1u << 24) * 256u); break;
            default: v = (int) (uint32_t) t.u(32);
        }
        const char *n = embc_error_code_name(v), *d = embc_error_code_description(v);
        NOTE(t, "code %d", v);
        PBT_CHECK(n && d && *n && *d, "code %d has no text", v);
        int i = 0; while (i < N && list[i].v != v) ++i;
        if (i < N) {
            ++listed;
            PBT_CHECK(!strcmp(n, list[i].name), "code %d is named %s, expected %s", v, n, list[i].name);
            PBT_CHECK(strcasecmp(d, "Unknown error"), "code %d (%s) is described as unknown", v, n);
            PBT_CHECK(strcmp(d, n), "the description of code %d is its name %s", v, n);
            if (table(v)) PBT_CHECK(!strcmp(d, table(v)), "code %d (%s) is described as \"%s\", the header lists \"%s\"", v, n, d, table(v));
            int j = (int) t.pick((uint64_t) N);
            if (list[j].v != v) PBT_CHECK(strcmp(embc_error_code_description(list[j].v), d) && strcmp(embc_error_code_name(list[j].v), n), "codes %d and %d share a text: %s", v, list[j].v, d);
        } else if (v < 0 || v >= EMBC_ERROR_CODE_COUNT) {
            ++other;
            PBT_CHECK(!strcmp(n, "UNKNOWN") && !strcmp(d, "Unknown error"), "unlisted code %d is reported as %s: %s", v, n, d);
        }
    }
    PBT_EQ((int) EMBC_SUCCESS, 0, "success"); PBT_EQ((int) EMBC_ERROR_UNSPECIFIED, 1, "unspecified error");
    if (listed && other) t.nontrivial();
}
