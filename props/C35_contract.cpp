// C35: contract and argument checks fire exactly when their condition is broken.
#include "pbt.hpp"
extern "C" {
#include "embc/log.h"
extern int c35_line;
int c35_dbc_i64(int, int64_t, int64_t), c35_dbc_u32(int, uint32_t, uint32_t), c35_dbc_u64(int, uint64_t, uint64_t), c35_dbc_f64(int, double, double);
int c35_argchk_i64(int, int64_t), c35_argchk_u32(int, uint32_t), c35_argchk_u64(int, uint64_t), c35_argchk_f64(int, double);
int c35_evals(void); int c35_dbc(int, int, int, int, void *); int c35_argchk(int, int, int, int, void *);
}
using pbt::Tape;
static unsigned logged;
static void onlog(const char *, ...) { ++logged; }
static bool holds(int w, int a, int b, int c, void *p) {
    switch (w) {
        case 0: case 1: case 16: case 17: return a != 0;
        case 2: return a == 0;
        case 3: case 18: return p != 0;
        case 4: return a == b; case 5: return a > b; case 6: return a >= b; case 7: return a != b; case 8: return a < b; case 9: return a <= b;
        case 10: return a > 0; case 11: return a >= 0; case 12: return a != 0; case 13: return a < 0; case 14: return a <= 0;
        case 15: return a >= b && a <= c;
        case 19: return (a & 255) == (b & 255); case 20: return (a & 255) > (b & 255); case 21: return (b ? a : b) <= (c ? c : b);
        case 22: return !(a && b); case 23: return a || b; case 24: return false;
        case 25: return (b ? a : c) >= 0;
    }
    return true;
}
static int val(Tape &t, int near) {
    switch (t.pick(4)) { case 0: return (int) t.pick(5) - 2; case 1: return (int) ((int64_t) near + (int64_t) t.pick(3) - 1); default: return (int) (uint32_t) t.u(32); }
}
template <class T> static bool holds_t(int w, T a, T b) {
    switch (w) {
        case 2: return a == 0;
        case 4: return a == b; case 5: return a > b; case 6: return a >= b; case 7: return a != b; case 8: return a < b; case 9: return a <= b;
        case 10: return a > 0; case 11: return a >= 0; case 13: return a < 0; case 14: return a <= 0;
        default: return a != 0;
    }
}
template <class T> static void typed(Tape &t, const char *type, int (*dbc)(int, T, T), int (*argchk)(int, T), T a, T b) {
    static const int kd[] = {0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17}, ka[] = {0, 1, 2, 10, 11, 12, 13, 14, 16};
    bool is_dbc = t.flip(); int w = is_dbc ? kd[t.pick(16)] : ka[t.pick(9)];
    bool ok = holds_t(w, a, b);
    std::string va = std::to_string(a), vb = std::to_string(b);
    NOTE(t, "%s macro %d with %s operands %s, %s", is_dbc ? "contract" : "argument", w, type, va.c_str(), vb.c_str());
    c35_evals(); embc_log_initialize(onlog);
    bool fatal = false; int rc = 0;
    if (is_dbc) { try { dbc(w, a, b); } catch (pbt::Fatal &) { fatal = true; } } else { rc = argchk(w, a); fatal = rc != 0; if (fatal) PBT_EQ(rc, 5, "result of a failed argument check"); }
    PBT_CHECK(fatal == !ok, "%s macro %d with %s operands %s, %s %s", is_dbc ? "contract" : "argument", w, type, va.c_str(), vb.c_str(), fatal ? "failed although its condition holds" : "did not fail");
    PBT_EQ(c35_evals(), 1, "evaluations of the operand of macro %d", w);
    if (a != 0 && a != 1) t.nontrivial();
    t.label(type);
}
static int64_t wide(Tape &t, int64_t near) {
    switch (t.pick(5)) { case 0: return (int64_t) t.pick(5) - 2; case 1: return (int64_t) ((uint64_t) near + t.pick(3) - 1); case 2: return (int64_t) ((uint64_t) t.u(32) << 32); case 3: return (int64_t) ((uint64_t) near + ((uint64_t) (t.pick(3) - 1) << 32)); default: return (int64_t) t.u(64); }
}
static double real(Tape &t, double near) {
    switch (t.pick(5)) { case 0: return (double) t.pick(9) / 4 - 1; case 1: return near + ((double) t.pick(3) - 1) / 1024; case 2: return t.oneof({1e-300, -1e-300, 1e300, -1e300, 4294967296.0, -4294967296.0}); default: return (double) (int64_t) t.u(40) / 1000 - 5e8; }
}
PBT_PROP("C35", 3000000, 20000000,
         "every design-by-contract, assert and argument-check macro with operands near zero, near each other and arbitrary, as int, 64-bit, unsigned and floating-point operands, given as calls and as compound expressions; a contract check must "
         "report a fatal error at its own file and line, an argument check must return the parameter error code, exactly when the condition is false, evaluating the operand once; "
         "non-trivial: operands neither 0 nor 1") {
    switch (t.weighted({6, 1, 1, 1, 1})) {
        case 1: { int64_t a = wide(t, 0), b = wide(t, a); typed<int64_t>(t, "int64_t", c35_dbc_i64, c35_argchk_i64, a, b); return; }
        case 2: { uint32_t a = (uint32_t) wide(t, 0), b = (uint32_t) wide(t, a); typed<uint32_t>(t, "uint32_t", c35_dbc_u32, c35_argchk_u32, a, b); return; }
        case 3: { uint64_t a = (uint64_t) wide(t, 0), b = (uint64_t) wide(t, (int64_t) a); typed<uint64_t>(t, "uint64_t", c35_dbc_u64, c35_argchk_u64, a, b); return; }
        case 4: { double a = real(t, 0), b = real(t, a); typed<double>(t, "double", c35_dbc_f64, c35_argchk_f64, a, b); return; }
    }
    int a = val(t, 0), b = val(t, a), c = val(t, b);
    void *p = t.pick(3) ? t.flip() ? (void *) &logged : (void *) (uintptr_t) ((uint64_t) t.range(0, 2) << (8 * t.pick(8))) : 0;
    bool dbc = t.flip();
    int w;
    if (dbc) w = (int) t.pick(25); else { static const int k[] = {0, 1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 22, 25}; w = k[t.pick(13)]; }
    bool ok = holds(w, a, b, c, p);
    c35_evals(); logged = 0;
    embc_log_initialize(onlog);
    NOTE(t, "%s macro %d with %d, %d, %d, %s", dbc ? "contract" : "argument", w, a, b, c, p ? "pointer" : "null");
    if (dbc) {
        bool fatal = false; pbt::Fatal f; int rc = -1;
        try { rc = c35_dbc(w, a, b, c, p); } catch (pbt::Fatal &x) { fatal = true; f = x; }
        PBT_CHECK(fatal == !ok, "contract macro %d with %d, %d, %d, %s %s", w, a, b, c, p ? "pointer" : "null", fatal ? "failed although its condition holds" : "did not fail");
        if (fatal) {
            PBT_CHECK(f.file.find("shim.c") != std::string::npos && f.line == c35_line, "contract failure reported at %s:%d, expected line %d", f.file.c_str(), f.line, c35_line);
            PBT_CHECK(!f.msg.empty(), "contract failure without a message");
        } else PBT_EQ(rc, 0, "result after a contract that holds");
    } else {
        int rc = c35_argchk(w, a, b, c, p);
        PBT_CHECK(rc == (ok ? 0 : 5), "argument check %d with %d, %d, %d, %s returned %d although its condition is %s", w, a, b, c, p ? "pointer" : "null", rc, ok ? "true" : "false");
        PBT_CHECK(!ok || !logged, "argument check %d logged although its condition holds", w);
    }
    if (w != 24) PBT_EQ(c35_evals(), 1, "evaluations of the operand of macro %d", w);
    if (a != 0 && a != 1) t.nontrivial();
    t.label(dbc ? (ok ? "contract holds" : "contract broken") : ok ? "argument valid" : "argument invalid");
}
