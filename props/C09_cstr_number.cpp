// C09: number parsing: the exact value, or an error and an untouched output.
// LDFLAGS: -Wl,-z,muldefs
#include "pbt.hpp"
#include <charconv>
#include <cmath>
extern "C" {
#include "embc/cstr.h"
int x9_to_f32(const char *, float *);   // embc_cstr_to_f32, see C09_shim.c
}
using pbt::Tape;
typedef __int128 I;
static const char WS[] = " \t\n\v\f\r";
static bool isws(char c) { return c && strchr(WS, c); }

struct R { int ok; I v; };   // ok: 1 valid, 0 must be rejected, -1 either way (not checked beyond "no change on error")

static R ref_u(const std::string &s0) {
    size_t a = 0, b = s0.size();
    while (a < b && isws(s0[a])) ++a;
    while (b > a && isws(s0[b - 1])) --b;
    std::string s = s0.substr(a, b - a);
    if (s.empty()) return {0, 0};
    I v = 0; bool big = false;
    if (s.size() >= 2 && s[0] == '0' && s[1] == 'x') {
        if (s.size() == 2) return {-1, 0};
        for (size_t i = 2; i < s.size(); ++i) {
            char c = s[i]; int n = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (n < 0) return {0, 0};
            v = v * 16 + n; if (v > ((I) 1 << 100)) big = true, v = (I) 1 << 90;
        }
    } else for (char c : s) {
        if (c < '0' || c > '9') return s.size() >= 2 && s[0] == '0' && s[1] == 'X' ? R{-1, 0} : R{0, 0};
        v = v * 10 + (c - '0'); if (v > ((I) 1 << 100)) big = true, v = (I) 1 << 90;
    }
    if (big) return {1, (I) 1 << 100};
    return {1, v};
}
static R ref_i(const std::string &s0) {
    size_t a = 0; while (a < s0.size() && isws(s0[a])) ++a;
    std::string s = s0.substr(a);
    bool neg = false, sign = false;
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; sign = true; s = s.substr(1); }
    R r = ref_u(s);
    if (sign && !s.empty() && isws(s[0]) && r.ok == 1) r.ok = -1;                 // "- 5": not settled
    bool hex = s.find('x') != std::string::npos;
    if (r.ok == 1 && hex && r.v > INT32_MAX && r.v <= UINT32_MAX) r.ok = -1;     // 32-bit patterns in hex: not settled
    if (neg) r.v = -r.v;
    return r;
}
// scaled decimal, truncating excess digits
static R ref_s(const std::string &s0, int ex) {
    size_t a = 0, b = s0.size();
    while (a < b && isws(s0[a])) ++a;
    while (b > a && isws(s0[b - 1])) --b;
    std::string s = s0.substr(a, b - a); bool neg = false;
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s = s.substr(1); }
    std::string ip, fp; size_t i = 0; bool dot = false;
    while (i < s.size() && isdigit((unsigned char) s[i])) ip += s[i++];
    if (i < s.size() && s[i] == '.') { dot = true; ++i; while (i < s.size() && isdigit((unsigned char) s[i])) fp += s[i++]; }
    if (i < s.size()) return {0, 0};
    if (ip.empty() && fp.empty()) return {s0.size() == 0 ? -1 : 0, 0};
    fp = fp.substr(0, ex); 
    std::string digits = ip + fp + std::string(ex - fp.size(), '0');
    I v = 0; bool big = false;
    for (char c : digits) { v = v * 10 + (c - '0'); if (v > ((I) 1 << 100)) big = true, v = (I) 1 << 90; }
    if (big) v = (I) 1 << 100;
    int ok = 1;
    if (ip.empty() || (dot && s.back() == '.')) ok = -1;   // ".5" and "5.": accepted today, not documented
    return {ok, neg ? -v : v};
}

static std::string digits(Tape &t, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char) ('0' + (t.chance(1, 4) ? t.oneof({0, 9}) : (int) t.pick(10))); return s; }
static std::string ws(Tape &t) { std::string s; if (t.chance(1, 2)) { size_t n = t.pick(4); for (size_t i = 0; i < n; ++i) s += WS[t.pick(6)]; } return s; }
static std::string number(Tape &t) {
    static const int64_t edge[] = {0, 1, 9, 10, 255, 65535, 2147483646, 2147483647, 2147483648ll, 2147483649ll, 4294967294ll, 4294967295ll, 4294967296ll, 4294967297ll, 42949672950ll, 42949672960ll, 6442450944ll, 10000000000ll, 99999999999ll};
    char b[64];
    switch (t.pick(5)) {
        case 0: return std::to_string(edge[t.pick(sizeof(edge) / 8)] + t.irange(0, 3));
        case 1: return digits(t, t.range(1, 12));
        case 2: snprintf(b, 64, t.flip() ? "0x%llx" : "0x%llX", (unsigned long long) t.u(t.oneof({8u, 32u, 33u, 36u}))); return b;
        case 3: return std::to_string(t.u(32));
        default: return std::string(t.pick(12), '0') + std::to_string(t.pick(1000));
    }
}
// to_f32: [ws][sign]digits[.digits][e[sign]digits][ws]
static void real(Tape &t) {
    std::string core = t.flip() ? number(t) : digits(t, t.range(1, t.pick(4) ? 8 : 50));
    if (core.size() > 1 && (core[1] == 'x')) core = digits(t, 3);
    if (t.chance(2, 3)) core += "." + digits(t, t.range(1, t.pick(4) ? 8 : 40));
    if (t.chance(1, 3)) core += std::string(t.flip() ? "e" : "E") + t.oneof<const char *>({"", "-", "+"}) + digits(t, t.range(1, 2));
    std::string sign = t.oneof<const char *>({"", "", "-", "+"}), s = ws(t) + sign + core + ws(t); bool shape = true;
    if (t.chance(1, 3)) { shape = false; size_t at = t.pick(s.size() + 1); if (t.flip()) s.insert(at, t.oneof<const char *>({".", " ", "-", ",", "+", "e", "z", "/", ":", "1 2", "_"})); else if (at < s.size()) s[at] = ".,-+ 09eE:/"[t.pick(11)]; }
    // the grammar, again, for the string as it is now
    size_t a = 0, b = s.size(); while (a < b && isws(s[a])) ++a; while (b > a && isws(s[b - 1])) --b;
    std::string c = s.substr(a, b - a), u = c; int ok = 1; if (!u.empty() && (u[0] == '-' || u[0] == '+')) u = u.substr(1);
    size_t i = 0, d0 = 0, d1 = 0; while (i < u.size() && isdigit((unsigned char) u[i])) ++i, ++d0;
    if (i < u.size() && u[i] == '.') { ++i; while (i < u.size() && isdigit((unsigned char) u[i])) ++i, ++d1; if (!d1 || !d0) ok = -1; }
    if (!d0 && !d1) ok = 0;
    if (ok && i < u.size() && (u[i] == 'e' || u[i] == 'E')) { size_t j = i + 1; if (j < u.size() && (u[j] == '-' || u[j] == '+')) ++j; size_t k = j; while (k < u.size() && isdigit((unsigned char) u[k])) ++k; if (k > j) i = k; else ok = 0; }
    if (i < u.size()) ok = 0;
    pbt::Exact x(s.c_str(), s.size() + 1); const float pre = 1234.5f; float out = pre;
    int rc = x9_to_f32(x.c(), &out);
    NOTE(t, "to_f32(%s) -> %d, %.9g", pbt::quote(s).c_str(), rc, (double) out);
    t.label("to_f32");
    if (rc) PBT_CHECK(out == pre, "to_f32(%s) failed and changed the output", pbt::quote(s).c_str());
    if (ok == 0) PBT_CHECK(rc != 0, "to_f32(%s) accepted a malformed number as %.9g", pbt::quote(s).c_str(), (double) out);
    if (ok == 1) {
        float want = 0; auto r = std::from_chars(u.data(), u.data() + u.size(), want);
        if (r.ec == std::errc() ) {
            if (c[0] == '-') want = -want;
            PBT_CHECK(rc == 0, "to_f32(%s) rejected a valid number (code %d)", pbt::quote(s).c_str(), rc);
            PBT_CHECK(out == want, "to_f32(%s) = %.9g, expected %.9g", pbt::quote(s).c_str(), (double) out, (double) want);
        }
    }
    PBT_CHECK(x9_to_f32(0, &out) != 0 && x9_to_f32(x.c(), 0) != 0, "to_f32 accepted null arguments");
    if (shape || s.size() >= 2) t.nontrivial();
}
PBT_PROP("C09", 8000000, 150000000,
         "number strings built from a grammar (white space, sign, decimal and hex digits around the 32-bit limits, fractions of any length) and "
         "mutations of them, through to_u32, to_i32, to_i32s (exponent 0 to 12) and the optional to_f32, against an exact 128-bit oracle (to_f32: std::from_chars): in-range numbers give that value, "
         "everything else an error with the output untouched; non-trivial: a valid number of 2 or more digits or a single mutation away from one") {
    if (t.pick(8) == 0) { real(t); return; }
    unsigned fn = (unsigned) t.pick(3);
    std::string s; bool valid_shape = true;
    std::string core;
    if (fn == 2) {
        core = t.chance(1, 3) ? number(t) : digits(t, t.pick(11));
        if (core.size() > 1 && core[1] == 'x') core = digits(t, 4);
        if (t.chance(2, 3)) core += "." + digits(t, t.pick(9));
    } else core = number(t);
    s = ws(t) + (fn ? t.oneof<const char *>({"", "-", "+", "", "-"}) : (t.chance(1, 12) ? "-" : "")) + core + ws(t);
    if (t.chance(1, 3)) {
        valid_shape = false;
        size_t at = t.pick(s.size() + 1);
        switch (t.pick(5)) {
            case 0: s.insert(at, 1, (char) t.range(1, 255)); break;
            case 1: if (at < s.size()) s.erase(at, 1); break;
            case 2: if (at < s.size()) s[at] = ".x,-+ 0aeE:/"[t.pick(12)]; break;
            case 3: s.insert(at, t.oneof<const char *>({".", " ", "-", "x", "0x", "1 2", ",", "+"})); break;
            default: s = s.substr(0, at);
        }
        if (s.find('\0') != std::string::npos) s = "1";
    }
    pbt::Exact x(s.c_str(), s.size() + 1);
    int32_t pre = (int32_t) 0xA5A5A5A5, out = pre; int rc; R r; I lo, hi;
    int ex = 0;
    if (fn == 0) { uint32_t o = (uint32_t) pre; rc = embc_cstr_to_u32(x.c(), &o); out = (int32_t) o; r = ref_u(s); lo = 0; hi = UINT32_MAX; NOTE(t, "to_u32(%s) -> %d, %u", pbt::quote(s).c_str(), rc, o); }
    else if (fn == 1) { rc = embc_cstr_to_i32(x.c(), &out); r = ref_i(s); lo = INT32_MIN; hi = INT32_MAX; NOTE(t, "to_i32(%s) -> %d, %d", pbt::quote(s).c_str(), rc, out); }
    else { ex = (int) t.pick(13); rc = embc_cstr_to_i32s(x.c(), ex, &out); r = ref_s(s, ex); lo = INT32_MIN; hi = INT32_MAX; NOTE(t, "to_i32s(%s, %d) -> %d, %d", pbt::quote(s).c_str(), ex, rc, out); }
    static const char *names[] = {"to_u32", "to_i32", "to_i32s"};
    bool fits = r.v >= lo && r.v <= hi;
    if (rc) PBT_CHECK(out == pre, "%s(%s) failed and changed the output", names[fn], pbt::quote(s).c_str());
    if (r.ok == 1 && fits) {
        PBT_CHECK(rc == 0, "%s(%s%s) rejected a valid number (code %d)", names[fn], pbt::quote(s).c_str(), fn == 2 ? (", " + std::to_string(ex)).c_str() : "", rc);
        I got = fn == 0 ? (I) (uint32_t) out : (I) out;
        PBT_CHECK(got == r.v, "%s(%s%s) = %lld, expected %lld", names[fn], pbt::quote(s).c_str(), fn == 2 ? (", " + std::to_string(ex)).c_str() : "", (long long) got, (long long) r.v);
    } else if (r.ok == 0 || (r.ok == 1 && !fits)) {
        PBT_CHECK(rc != 0, "%s(%s%s) accepted %s as %lld", names[fn], pbt::quote(s).c_str(), fn == 2 ? (", " + std::to_string(ex)).c_str() : "", r.ok ? "a value that does not fit" : "a malformed number", (long long) out);
        t.label(r.ok ? "out-of-range" : "malformed");
    } else if (rc == 0 && fn != 1 && r.ok == -1 && fits && (s.find('x') == std::string::npos)) {
        I got = fn == 0 ? (I) (uint32_t) out : (I) out;
        if (fn == 2 && !s.empty()) PBT_CHECK(got == r.v, "to_i32s(%s, %d) = %lld, expected %lld", pbt::quote(s).c_str(), ex, (long long) got, (long long) r.v);
    }
    if (fn < 2) PBT_CHECK((fn ? embc_cstr_to_i32(0, &out) : embc_cstr_to_u32(0, (uint32_t *) &out)) != 0 && (fn ? embc_cstr_to_i32(x.c(), 0) : embc_cstr_to_u32(x.c(), 0)) != 0, "null arguments accepted");
    if (fn == 2) {
        PBT_EQ(embc_cstr_to_i32s(x.c(), ex, 0) != 0, rc != 0, "to_i32s without an output is an error");
        if (t.pick(8) == 0) { int32_t o = pre; int neg = -1 - (int) t.pick(3); PBT_CHECK(embc_cstr_to_i32s(x.c(), neg, &o) != 0 && o == pre, "to_i32s accepted exponent %d", neg); embc_cstr_to_i32s(0, ex, &o); PBT_CHECK(o == pre, "to_i32s without a string changed the output"); }
    }
    if (r.ok == 1 && fits) t.label("valid");
    t.label(names[fn]);
    if ((r.ok == 1 && s.size() >= 2) || (!valid_shape && s.size() >= 2)) t.nontrivial();
}
