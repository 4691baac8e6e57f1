// C32: platform helpers, the allocator front end and the general macros.
#include "pbt.hpp"
#include <algorithm>
#include <string>
#include <unistd.h>
extern "C" {
#include "embc/platform.h"
uint32_t c32_clz(uint32_t); uint32_t c32_pow2(uint32_t);
int c32_arm(void); uint32_t c32_arm_clz(uint32_t); uint32_t c32_arm_pow2(uint32_t); void c32_arm_memset(void *, int, embc_size_t); void c32_arm_memcpy(void *, const void *, embc_size_t);
void c32_memset(void *, int, embc_size_t); void c32_memcpy(void *, const void *, embc_size_t); void *c32_alloc_clr(embc_size_t);
long long c32_range(long long, long long, long long); long long c32_range_e(long long, long long, long long, long long); double c32_range_d(double, double, double);
int c32_signum(long long); int c32_signum_e(long long, long long); long long c32_round(long long, long long); long long c32_round_e(long long, long long, long long, long long);
void *c32_container(void *, int, int); int c32_struct_init(int, unsigned char); int c32_calls(void);
int32_t c32_return_on_error(int32_t), c32_return_on_error_msg(int32_t), c32_exit_on_error(int32_t), c32_exit_with_error(int32_t);
int c32_sizes(void); int c32_format(char *, size_t, int, embc_size_t);
}
using pbt::Tape;
using std::string;
typedef long long ll;
static std::vector<std::pair<int, ll>> calls;  // (allocator, size or pointer)
static char arena[2][64];
static void *alloc_n(int k, embc_size_t n) { calls.push_back({k, n}); return arena[k]; }
static void free_n(int k, void *p) { calls.push_back({k + 10, (ll) (intptr_t) p}); }
static void *alloc0(embc_size_t n) { return alloc_n(0, n); }
static void *alloc1(embc_size_t n) { return alloc_n(1, n); }
static void *alloc_none(embc_size_t n) { calls.push_back({2, n}); return 0; }
static void free0(void *p) { free_n(0, p); }
static void free1(void *p) { free_n(1, p); }
static ll sval(Tape &t) { ll v = (ll) t.u(40); return t.flip() ? -v : v; }

// A constant expression of C with a known value.
static string expression(Tape &t, int depth, ll &v) {
    if (!depth || t.chance(1, 4)) { v = (ll) t.pick(5); if (t.chance(1, 5)) v = -v; return v < 0 ? "(" + std::to_string(v) + ")" : std::to_string(v); }
    ll a, b, c; string x = expression(t, depth - 1, a), y = expression(t, depth - 1, b);
    switch (t.pick(9)) {
        case 0: v = a == b; return "(" + x + ") == (" + y + ")";
        case 1: v = a < b; return "(" + x + ") < (" + y + ")";
        case 2: v = a && b; return "(" + x + ") && (" + y + ")";
        case 3: v = a || b; return "(" + x + ") || (" + y + ")";
        case 4: { string z = expression(t, depth - 1, c); v = a ? b : c; return "(" + x + ") ? (" + y + ") : (" + z + ")"; }
        case 5: v = !a; return "!(" + x + ")";
        case 6: v = a - b; return "(" + x + ") - (" + y + ")";
        case 7: v = a & b; return "(" + x + ") & (" + y + ")";
        default: v = 4 == a + b; return "sizeof(uint32_t) == (" + x + ") + (" + y + ")";
    }
}
static void static_assertion(Tape &t) {
    const char *work = getenv("PBT_WORK"), *inc = getenv("PBT_INC");
    if (!work || !inc) return;
    string text = "#include \"embc/cdef.h\"\n#include <stdint.h>\n", shown; bool hold = true; int n = 1 + (int) t.pick(3);
    while (n--) {
        ll v; string e = expression(t, 2, v); bool local = t.chance(1, 4); char num[16]; snprintf(num, sizeof num, "check_%d", n);
        if (n == 0 && hold && v && t.flip()) { e = "!(" + e + ")"; v = 0; }
        hold &= v != 0; shown += e + (v ? " holds; " : " does not; ");
        string a = "EMBC_STATIC_ASSERT(" + e + ", " + num + ");\n";
        text += local ? string("void f_") + num + "(void);\nvoid f_" + num + "(void) {\n    " + a + "}\n" : a;
    }
    char file[600], cmd[2000]; snprintf(file, sizeof file, "%s/assert_%d.c", work, (int) getpid());
    FILE *o = fopen(file, "w"); if (!o) return; fputs(text.c_str(), o); fclose(o);
    snprintf(cmd, sizeof cmd, "gcc -std=gnu99 -w -fsyntax-only %s %s >/dev/null 2>&1", inc, file);
    int rc = system(cmd); unlink(file);
    NOTE(t, "static assertions: %s compiler %s", shown.c_str(), rc ? "refuses" : "accepts");
    PBT_CHECK((rc == 0) == hold, "static assertions %sthe compiler %s them", shown.c_str(), rc ? "refuses" : "accepts");
    t.heavy(); t.nontrivial(); t.label("static assertion");
}
PBT_PROP("C32", 3000000, 30000000,
         "random 32-bit words through count-leading-zeros and upper-power-of-two, random sizes and fills through memset, memcpy and cleared allocation, random histories of "
         "allocator replacement with alloc, free, exhausted and missing allocators, and random arguments (plain and as expressions) through the range, sign, multiple, "
         "container, clear, print-format and error-return macros, each against its definition, and now and then the compiler's verdict on static assertions of generated conditions; non-trivial: arguments other than 0, or an allocator history of 3 or more steps") {
    if (t.pick(50000) == 49999) return static_assertion(t);
    switch (t.pick(9)) {
        case 0: {
            uint32_t x = (uint32_t) t.u(32), n = 0;
            for (int b = 31; b >= 0 && !((x >> b) & 1); --b) ++n;
            NOTE(t, "clz(0x%x)", x);
            PBT_EQ(c32_clz(x), n, "leading zeros of 0x%x", x);
            PBT_EQ(c32_arm_clz(x), n, "leading zeros of 0x%x on the ARM platform", x);
            if (c32_arm()) t.label("ARM platform helpers");
            if (x > 1) t.nontrivial();
            t.label("clz"); break;
        }
        case 1: {
            uint32_t x = (uint32_t) t.u(32);
            if (x > 0x80000000u) x &= 0x7fffffff;
            if (!x) x = 1;
            uint64_t p = 1; while (p < x) p *= 2;
            NOTE(t, "upper_power_of_two(0x%x)", x);
            PBT_EQ(c32_pow2(x), p, "power of two at or above 0x%x", x);
            PBT_EQ(c32_arm_pow2(x), p, "power of two at or above 0x%x on the ARM platform", x);
            if (x > 2) t.nontrivial();
            t.label("power of two"); break;
        }
        case 2: {
            size_t n = t.pick(t.chance(1, 500) ? 5000 : 80); if (t.chance(1, 5000)) { n = t.oneof<size_t>({65530, 0xffff8, 0x1fffff0}) + t.pick(30); t.heavy(); t.label("large block"); }
            size_t off = t.pick(8), tail = t.pick(8); int v = (int) t.pick(600) - 100;
            pbt::Exact e(off + n + tail), s(n); std::vector<uint8_t> src = n > 5000 ? std::vector<uint8_t>(n) : t.blob(n);
            if (n > 5000) for (size_t i = 0; i < n; ++i) src[i] = (uint8_t) (i * 2654435761u >> 24);
            memset(e.p, 0xA5, e.n); if (n) memcpy(s.p, src.data(), n);
            bool cpy = t.flip(), arm = t.chance(1, n > 5000 ? 2 : 4);
            NOTE(t, "%s of %zu bytes at offset %zu%s", cpy ? "memcpy" : "memset", n, off, arm ? " (ARM platform)" : "");
            if (cpy) (arm ? c32_arm_memcpy : c32_memcpy)(e.p + off, s.p, (embc_size_t) n); else (arm ? c32_arm_memset : c32_memset)(e.p + off, v, (embc_size_t) n);
            for (size_t i = 0; i < e.n; ++i) {
                uint8_t want = i < off || i >= off + n ? 0xA5 : cpy ? src[i - off] : (uint8_t) v;
                PBT_CHECK(e.p[i] == want, "%s of %zu bytes at offset %zu: byte %zu is 0x%02x, expected 0x%02x", cpy ? "memcpy" : "memset", n, off, i, e.p[i], want);
            }
            if (n) t.nontrivial();
            t.label(cpy ? "memcpy" : "memset"); break;
        }
        case 3: {  // cleared allocation comes from the allocator with the size asked for, zeroed
            size_t n = t.pick(65);
            calls.clear(); memset(arena, 0xEE, sizeof(arena));
            embc_allocator_set(alloc1, free1);
            char *p = (char *) c32_alloc_clr((embc_size_t) n);
            NOTE(t, "alloc_clr(%zu)", n);
            PBT_CHECK(p == arena[1] && calls.size() == 1 && calls[0].second == (ll) n, "cleared allocation of %zu bytes made %zu allocator calls", n, calls.size());
            for (size_t i = 0; i < 64; ++i) PBT_CHECK((uint8_t) p[i] == (i < n ? 0 : 0xEE), "cleared allocation of %zu bytes: byte %zu is 0x%02x", n, i, (uint8_t) p[i]);
            if (n) t.nontrivial();
            t.label("alloc_clr"); break;
        }
        case 4: {  // allocator replacement
            int a = -1, f = -1, steps = 0;
            embc_allocator_set(0, 0);
            while (t.more(8) && steps++ < 60) {
                calls.clear();
                switch (t.pick(3)) {
                    case 0: {
                        a = (int) t.pick(4) - 1; f = (int) t.pick(3) - 1;
                        NOTE(t, "allocator_set(%d, %d)", a, f);
                        embc_allocator_set(a == 0 ? alloc0 : a == 1 ? alloc1 : a == 2 ? alloc_none : (embc_alloc_fn) 0, f == 0 ? free0 : f == 1 ? free1 : (embc_free_fn) 0);
                        break;
                    }
                    case 1: {
                        embc_size_t n = (embc_size_t) t.u(31); void *p = 0;
                        bool fatal = FATALS(p = embc_alloc(n));
                        NOTE(t, "alloc(%lld)%s", (ll) n, fatal ? " fatal" : "");
                        if (a < 0 || a == 2) PBT_CHECK(fatal, "allocation with %s allocator did not fail", a < 0 ? "no" : "an exhausted");
                        else PBT_CHECK(!fatal && p == arena[a] && calls.size() == 1 && calls[0] == std::make_pair(a, (ll) n), "allocation of %lld bytes did not reach the current allocator", (ll) n);
                        break;
                    }
                    default: {
                        void *p = t.chance(1, 4) ? 0 : arena[t.pick(2)];
                        bool fatal = FATALS(embc_free(p));
                        NOTE(t, "free(%s)%s", p ? "block" : "null", fatal ? " fatal" : "");
                        if (!p || f < 0) PBT_CHECK(fatal && calls.empty(), "free of %s did not fail", p ? "a block without an allocator" : "null");
                        else PBT_CHECK(!fatal && calls.size() == 1 && calls[0] == std::make_pair(f + 10, (ll) (intptr_t) p), "free did not reach the current allocator");
                    }
                }
            }
            if (steps >= 3) t.nontrivial();
            t.label("allocator history"); break;
        }
        case 5: {
            ll v = sval(t), a = (ll) t.u(20), lo = sval(t), hi = sval(t);
            if (lo > hi) std::swap(lo, hi);
            ll want = std::min(std::max(v, lo), hi);
            NOTE(t, "restrict(%lld, %lld, %lld)", v, lo, hi);
            PBT_EQ(c32_range(v, lo, hi), want, "%lld restricted to [%lld, %lld]", v, lo, hi);
            PBT_EQ(c32_range_e(v ^ a, a, lo ^ a, hi ^ a), want, "%lld restricted to [%lld, %lld] given as expressions", v, lo, hi);
            PBT_CHECK(c32_range_d((double) v / 8, (double) lo / 8, (double) hi / 8) == (double) want / 8, "%g restricted to [%g, %g]", (double) v / 8, (double) lo / 8, (double) hi / 8);
            PBT_EQ(c32_signum(v), (v > 0) - (v < 0), "sign of %lld", v);
            PBT_EQ(c32_signum_e(v ^ a, a), (v > 0) - (v < 0), "sign of %lld given as expression", v);
            {
                static const char *fmt[] = {"<%lld>", "<%llx>", "<%llu>", "<%llX>", "<%llo>"};
                int which = (int) t.pick(5); char got[64], exp[64];
                snprintf(exp, sizeof(exp), fmt[which], v); c32_format(got, sizeof(got), which, (embc_size_t) v);
                PBT_CHECK(!strcmp(got, exp), "size %lld printed with format %d of inttypes.h is %s", v, which, got);
            }
            if (v && lo) t.nontrivial();
            t.label("range and sign"); break;
        }
        case 6: {
            ll x = sval(t), m = (ll) t.u(24) + 1, a = (ll) t.pick(1000), b = (ll) t.pick((uint64_t) m);
            ll q = (x < 0 ? -x : x), up = (q + m - 1) / m * m, want = x < 0 ? -up : up;
            NOTE(t, "round_up_to_multiple(%lld, %lld)", x, m);
            PBT_EQ(c32_round(x, m), want, "%lld rounded away from zero to a multiple of %lld", x, m);
            PBT_EQ(c32_round_e(x - a, a, m - b, b), want, "%lld rounded away from zero to a multiple of %lld given as expressions", x, m);
            if (x % m) t.nontrivial();
            t.label("multiple"); break;
        }
        case 7: {
            alignas(16) char base[128]; int which = (int) t.pick(5), expr = (int) t.pick(2);
            NOTE(t, "container_of member %d", which);
            PBT_CHECK(c32_container(base, which, expr) == base, "container of member %d is off by %lld bytes", which, (ll) ((char *) c32_container(base, which, expr) - base));
            PBT_EQ(c32_struct_init(expr, (unsigned char) t.pick(256)), 0, "bytes wrong after clearing a structure");
            PBT_CHECK(c32_sizes(), "array or type size wrong");
            t.nontrivial(); t.label("container"); break;
        }
        default: {
            int32_t v = (int32_t) t.u(32);
            NOTE(t, "error macros with %d", v);
            c32_calls();
            PBT_EQ(c32_return_on_error(v), v ? v : -77, "return on error of %d", v); PBT_EQ(c32_calls(), 1, "evaluations");
            PBT_EQ(c32_return_on_error_msg(v), v ? v : -77, "return on error with message of %d", v); PBT_EQ(c32_calls(), 1, "evaluations");
            PBT_EQ(c32_exit_on_error(v), v ? -78 : -77, "exit on error of %d", v); PBT_EQ(c32_calls(), 1, "evaluations");
            PBT_EQ(c32_exit_with_error(v), v ? v : -76, "exit with error of %d", v); PBT_EQ(c32_calls(), 1, "evaluations");
            if (v) t.nontrivial();
            t.label("error return");
        }
    }
}
