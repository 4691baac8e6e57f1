// C43: the bundled printf formats what it supports exactly as C does and never writes beyond its buffer.
#include "pbt.hpp"
#include <string>
#include <vector>
#include <climits>
extern "C" {
typedef void (*putcf)(void *, char);
void tfp_format(void *putp, putcf putf, const char *fmt, va_list va);
int tfp_vsnprintf(char *str, size_t size, const char *fmt, va_list ap);
int tfp_snprintf(char *str, size_t size, const char *fmt, ...);
int tfp_vsprintf(char *str, const char *fmt, va_list ap);
int tfp_sprintf(char *str, const char *fmt, ...);
void init_printf(void *putp, putcf putf);
void tfp_printf(char *fmt, ...);
}
using pbt::Tape;
using std::string;

// Every argument is passed as one 64-bit word (as the host's calling convention passes it);
// the conversion reads as much of it as its type has.
#define ARGS(a) a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]
static const int MAXARG = 8;

struct Sink { string out; void *self; bool stray; };
static void sink_put(void *p, char c) { Sink *s = (Sink *) p; if (s->self != p) s->stray = true; s->out += c; }
static void via_format(Sink *s, const char *fmt, ...) { va_list v; va_start(v, fmt); tfp_format(s, sink_put, fmt, v); va_end(v); }
static int via_vsnprintf(char *b, size_t n, const char *fmt, ...) { va_list v; va_start(v, fmt); int r = tfp_vsnprintf(b, n, fmt, v); va_end(v); return r; }
static int via_vsprintf(char *b, const char *fmt, ...) { va_list v; va_start(v, fmt); int r = tfp_vsprintf(b, fmt, v); va_end(v); return r; }

static void literal(Tape &t, string &fmt) {
    static const char set[] = "a:% 0-#xdl.\n\t\x7f\xff";
    unsigned n = (unsigned) t.pick(5);
    while (n--) { char c = set[t.pick(sizeof(set) - 1)]; fmt += c; if (c == '%') fmt += '%'; }
}

PBT_PROP("C43", 2500000, 60000000,
         "formats of up to 8 conversions (c d i u o x X p s %, lengths none, l, ll, z, widths 0 to 40, flags 0, - and # where C defines their effect) between literal text, with "
         "arguments at and around the limits of their types; every entry point (tfp_format, tfp_printf, the four sprintf variants, buffers from 0 bytes to longer than the text) is "
         "compared with the C library's text and length; non-trivial: two or more conversions, at least one of them padded to its width, 64 bits wide or cut by the buffer") {
    string fmt; unsigned nconv = 0, interesting = 0;
    uint64_t a[MAXARG] = {0};
    std::vector<string> strs; strs.reserve(MAXARG);
    literal(t, fmt);
    while (nconv < (unsigned) MAXARG && t.more(3)) {
        char conv = t.oneof({'d', 'u', 'x', 's', 'c', 'i', 'X', 'o', 'p'});
        unsigned len = 0, width = 0, flag;
        uint64_t v = 0;
        if (!strchr("scp", conv)) len = (unsigned) t.pick(4);
        unsigned bits = len ? 64 : 32;
        switch (conv) {
            case 's': { string s; size_t n = t.pick(t.chance(1, 6) ? 60 : 9); while (n--) s += (char) (1 + t.pick(255)); strs.push_back(s); v = (uint64_t) (uintptr_t) strs.back().c_str(); break; }
            case 'c': v = t.pick(256); break;
            case 'p': v = t.u(64); if (!v) v = 1; break;
            default:
                switch (t.pick(4)) {
                    case 0: v = t.pick(12); break;
                    case 1: v = t.u(bits); break;
                    case 2: { unsigned base = conv == 'o' ? 8 : (conv == 'x' || conv == 'X') ? 16 : 10; uint64_t p = 1; unsigned k = (unsigned) t.pick(bits == 64 ? 22 : 11); // around powers of the base
                              while (k-- && p <= ~0ull / base) p *= base; v = p + t.pick(3) - 1; if (conv == 'd' && t.flip()) v = 0 - v; break; }
                    default: v = (bits == 64 ? 1ull << 63 : 1ull << 31) + t.pick(5) - 2; break;
                }
                // what lies above the argument's own type must not matter
                if (bits == 32) v = (v & 0xffffffffu) | (t.flip() ? (t.u(32) << 32) : 0);
        }
        uint64_t seen = bits == 32 && !strchr("scp", conv) ? (v & 0xffffffffu) : v;
        string spec = "%";
        flag = (unsigned) t.pick(3);
        if (strchr("oxX", conv) && seen != 0 && t.chance(1, 4)) spec += '#';
        if (flag == 1) spec += '-';
        if (flag == 2 && !strchr("scp", conv)) spec += '0';
        if (flag == 1 && t.chance(1, 8)) spec += '-';
        if (t.flip()) width = 1 + (unsigned) t.pick(t.chance(1, 8) ? 40 : 12);
        if (width) spec += std::to_string(width);
        if (len == 1) spec += 'l'; else if (len == 2) spec += "ll"; else if (len == 3) spec += 'z';
        spec += conv;
        fmt += spec;
        a[nconv++] = v;
        if (width || len) ++interesting;
        literal(t, fmt);
    }
    string shown = pbt::quote(fmt); for (unsigned i = 0; i < nconv; ++i) { char b[32]; snprintf(b, sizeof b, " %#llx", (unsigned long long) a[i]); shown += b; }
    NOTE(t, "format %s", shown.c_str());
    char want[2048];
    memset(want, 0x5a, sizeof want);
    int full = snprintf(want, sizeof want, fmt.c_str(), ARGS(a));
    PBT_CHECK(full >= 0 && full < (int) sizeof want, "harness: the reference text is too long");
    string text(want, (size_t) full);
    pbt::Exact f(fmt.c_str(), fmt.size() + 1);   // exact: reading past the end is seen
    unsigned how = (unsigned) t.pick(6);
    NOTE(t, "entry point %u, expected %s", how, pbt::quote(text).c_str());
    if (how < 2) {
        size_t n;
        switch (t.pick(3)) {
            case 0: n = text.size() + 2 - t.pick(4 < text.size() + 2 ? 4 : text.size() + 2); break;
            case 1: n = t.pick(text.size() + 3); break;
            default: n = text.size() + 1 + t.pick(40);
        }
        pbt::Exact b(n + 8);
        memset(b.p, 0xa5, n + 8);
        int r = how == 0 ? tfp_snprintf(b.c(), n, f.c(), ARGS(a)) : via_vsnprintf(b.c(), n, f.c(), ARGS(a));
        size_t put = n == 0 ? 0 : (n - 1 < text.size() ? n - 1 : text.size());
        NOTE(t, "buffer of %zu bytes, returned %d: %s", n, r, pbt::quote(string(b.c(), put)).c_str());
        for (size_t i = n; i < n + 8; ++i) PBT_CHECK(b.p[i] == 0xa5, "%s: byte %zu of a %zu byte buffer was written", shown.c_str(), i, n);
        if (n) {
            PBT_CHECK(!memcmp(b.p, text.data(), put), "%s gives %s, expected %s", shown.c_str(), pbt::quote(string(b.c(), put)).c_str(), pbt::quote(text.substr(0, put)).c_str());
            PBT_CHECK(b.p[put] == 0, "%s: the text in a %zu byte buffer is not terminated after %zu characters", shown.c_str(), n, put);
            PBT_CHECK(r == full, "%s returned %d for a %zu byte buffer, the text has %d characters", shown.c_str(), r, n, full);
            if (put < text.size()) ++interesting;
        }
    } else if (how < 4) {
        pbt::Exact b(text.size() + 1);
        memset(b.p, 0xa5, text.size() + 1);
        int r = how == 2 ? tfp_sprintf(b.c(), f.c(), ARGS(a)) : via_vsprintf(b.c(), f.c(), ARGS(a));
        PBT_CHECK(!memcmp(b.p, text.c_str(), text.size() + 1), "%s gives %s, expected %s", shown.c_str(), pbt::quote(string(b.c(), text.size())).c_str(), pbt::quote(text).c_str());
        PBT_CHECK(r == full, "%s returned %d, the text has %d characters", shown.c_str(), r, full);
    } else {
        Sink s, other; s.self = &s; s.stray = false; other.self = &other; other.stray = false;
        if (how == 4) via_format(&s, f.c(), ARGS(a));
        else {
            init_printf(&other, sink_put); tfp_printf(f.c(), ARGS(a));
            PBT_CHECK(other.out == text, "%s prints %s, expected %s", shown.c_str(), pbt::quote(other.out).c_str(), pbt::quote(text).c_str());
            init_printf(&s, sink_put); tfp_printf(f.c(), ARGS(a));
        }
        PBT_CHECK(s.out == text, "%s prints %s, expected %s", shown.c_str(), pbt::quote(s.out).c_str(), pbt::quote(text).c_str());
        PBT_CHECK(!s.stray, "a character went to something else than the output it was given");
        if (how == 5) PBT_CHECK(other.out == text, "output went to an earlier destination");
    }
    if (nconv >= 2 && interesting) t.nontrivial();
}
