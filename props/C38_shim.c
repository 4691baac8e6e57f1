// The shared library support module, whose embc_fatal replaces the engine's in this check.
#include "../src/lib.c"
void c38_assert(int ok) { EMBC_ASSERT(ok); }
