// Buffer histories whose log goes to a text buffer.
#include "embc/memory/buffer.h"
#include "embc/log.h"
#include "embc/platform.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
static char text[1 << 16];
static size_t len;
static int fatals;
static void handler(const char *format, ...) {
    va_list a;
    va_start(a, format);
    if (len < sizeof(text) - 1000) len += (size_t) vsnprintf(text + len, 1000, format, a);
    va_end(a);
}
static void *alloc_(embc_size_t n) { return malloc((size_t) n); }
void embc_fatal(char const *file, int line, char const *msg) { (void) file; (void) line; (void) msg; ++fatals; }
void c41_start(void) { len = 0; text[0] = 0; fatals = 0; embc_allocator_set(alloc_, free); embc_log_initialize(handler); }
void c41_stop(void) { embc_log_initialize(0); }
const char *c41_text(void) { return text; }
int c41_fatals(void) { return fatals; }
void c41_say(const char *s) { EMBC_LOGI("%s", s); }
void *c41_new(const long long *sizes, int n) { embc_size_t s[16]; for (int i = 0; i < n; ++i) s[i] = (embc_size_t) sizes[i]; return embc_buffer_allocator_new(s, n); }
void c41_delete(void *a) { embc_buffer_allocator_finalize((struct embc_buffer_allocator_s *) a); free(a); }
void *c41_alloc(void *a, int n) { return embc_buffer_alloc((struct embc_buffer_allocator_s *) a, n); }
void *c41_alloc_unsafe(void *a, int n) { return embc_buffer_alloc_unsafe((struct embc_buffer_allocator_s *) a, n); }
void c41_free(void *b) { embc_buffer_free((struct embc_buffer_s *) b); }
