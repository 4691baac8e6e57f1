// C08: C-string helpers: copy, compare, prefix, upper-case, table and boolean
// lookup, hex digits.  Never outside the given buffers, documented results.
#include "pbt.hpp"
extern "C" {
#include "embc/cstr.h"
}
using pbt::Tape;
static std::string gen(Tape &t, size_t maxn, bool ascii) {
    size_t n = t.chance(1, 4) ? t.pick(4) : t.pick(maxn + 1);
    std::string s;
    if (maxn >= 12 && t.chance(1, 3000)) {  // long, from a few choices
        n = t.chance(1, 3) ? 65520 + t.pick(30) : 100 + t.pick(400); uint32_t x = (uint32_t) t.pick(1000) * 2 + 1; t.label(n > 60000 ? "very long" : "long"); if (n > 60000) t.heavy();
        while (s.size() < n) { x = x * 1664525u + 1013904223u; unsigned char c = (unsigned char) (x >> 24); c &= ascii ? 127 : 255; s += (char) (c ? c : 'z'); }
    }
    else for (size_t i = 0; i < n; ++i) {
        switch (t.pick(4)) {
            case 0: s += (char) ('a' + t.pick(4)); break;
            case 1: s += (char) ('A' + t.pick(4)); break;
            case 2: s += "@[`{AZaz_ ~!"[t.pick(12)]; break;
            default: s += (char) t.range(1, ascii ? 127 : 255);
        }
    }
    return s;
}
static char up(char c) { return c >= 'a' && c <= 'z' ? (char) (c - 32) : c; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
static std::string swapcase(Tape &t, std::string s) {
    if (s.size() > 90) { unsigned k = 1 + (unsigned) t.pick(7); for (size_t i = 0; i < s.size(); ++i) s[i] = i % k ? up(s[i]) : low(s[i]); return s; }
    for (auto &c : s) if (t.flip()) c = up(c); else c = low(c);
    return s;
}
static int ref_cmp(const std::string &a, const std::string &b, char (*f)(char)) {
    for (size_t i = 0; ; ++i) {
        if (i == a.size() || i == b.size()) return a.size() == b.size() ? 0 : (i == a.size() ? -1 : 1);
        char x = f(a[i]), y = f(b[i]);
        if (x != y) return x < y ? -1 : 1;
    }
}
struct Z : pbt::Exact { explicit Z(const std::string &s) : Exact(s.c_str(), s.size() + 1) {} };

PBT_PROP("C08", 8000000, 150000000,
         "random strings in exact-size heap buffers (so any over-read or over-write is seen) through copy, casecmp, starts_with, toupper, to_index, "
         "to_bool and the hex digit functions, compared with independent definitions; non-trivial: truncating or exactly filling copy, related strings "
         "(case-swapped, prefix, extended), or a table hit") {
    switch (t.pick(7)) {
        case 0: {
            std::string s = gen(t, 40, false);
            size_t cap = t.chance(2, 3) ? (size_t) std::max<int64_t>(0, (int64_t) s.size() + t.irange(-2, 3)) : t.pick(50);
            Z src(s); pbt::Exact dst(cap);
            memset(dst.p, 0x7e, cap ? cap : 1);
            NOTE(t, "copy(%s, size %zu)", pbt::quote(s).c_str(), cap);
            int rc = embc_cstr_copy(cap ? dst.c() : (t.flip() ? dst.c() : dst.c()), src.c(), (embc_size_t) cap);
            if (cap == 0) { PBT_EQ(rc, -1, "copy into no space"); if (t.flip()) PBT_EQ(embc_cstr_copy(dst.c(), src.c(), -(embc_size_t) t.range(1, 9)), -1, "copy with negative size"); break; }
            size_t n = std::min(s.size(), cap - 1);
            PBT_EQ(rc, s.size() > cap - 1 ? 1 : 0, "copy of %zu characters into %zu bytes", s.size(), cap);
            PBT_CHECK(memcmp(dst.p, s.data(), n) == 0 && dst.p[n] == 0, "copy of %s into %zu bytes gave %s", pbt::quote(s).c_str(), cap, pbt::hex(dst.p, cap).c_str());
            PBT_CHECK(memcmp(src.p, s.c_str(), s.size() + 1) == 0, "copy changed the source");
            if (s.size() + 2 >= cap) { t.nontrivial(); t.label("copy-boundary"); }
            PBT_EQ(embc_cstr_copy(dst.c(), 0, (embc_size_t) cap), 0, "copy of null");
            PBT_EQ(dst.p[0], 0, "copy of null: first byte");
            PBT_EQ(embc_cstr_copy(0, src.c(), 5), -1, "copy to null");
            char arr[8]; memset(arr, 1, 8);
            rc = embc_cstr_array_copy(arr, src.c());
            PBT_EQ(rc, s.size() > 7 ? 1 : 0, "array copy of %zu characters into 8 bytes", s.size());
            PBT_CHECK(std::string(arr) == s.substr(0, 7), "array copy content");
            break;
        }
        case 1: {
            std::string a = gen(t, 12, true), b;
            switch (t.pick(4)) {
                case 0: b = gen(t, 12, true); break;
                case 1: b = swapcase(t, a); break;
                case 2: b = swapcase(t, a) + gen(t, 3, true); break;
                default: b = swapcase(t, a); if (!b.empty()) b[t.pick(b.size())] = (char) t.range(1, 127);
            }
            Z x(a), y(b);
            NOTE(t, "casecmp(%s, %s)", pbt::quote(a).c_str(), pbt::quote(b).c_str());
            int r = embc_cstr_casecmp(x.c(), y.c()), q = embc_cstr_casecmp(y.c(), x.c());
            int u = ref_cmp(a, b, up), l = ref_cmp(a, b, low);
            PBT_CHECK(r == -1 || r == 0 || r == 1, "casecmp returned %d", r);
            if (u == l) PBT_EQ(r, u, "casecmp(%s, %s)", pbt::quote(a).c_str(), pbt::quote(b).c_str());
            else PBT_CHECK(r != 0, "casecmp(%s, %s) calls different strings equal", pbt::quote(a).c_str(), pbt::quote(b).c_str());
            PBT_CHECK(r == -q, "casecmp is not antisymmetric: %d and %d", r, q);
            PBT_CHECK(embc_cstr_casecmp(0, y.c()) == -1 && embc_cstr_casecmp(x.c(), 0) == 1, "casecmp with null");
            if (u == 0 && a != b) { t.label("case-equal"); t.nontrivial(); }
            if (u && a.size() != b.size()) t.nontrivial();
            break;
        }
        case 2: {
            std::string s = gen(t, 16, false), p;
            switch (t.pick(4)) {
                case 0: p = gen(t, 6, false); break;
                case 1: p = s.substr(0, t.pick(s.size() + 1)); break;
                case 2: p = s + gen(t, 3, false); break;
                default: p = s.substr(0, t.pick(s.size() + 1)); if (!p.empty()) p[t.pick(p.size())] ^= 1; if (p.find('\0') != std::string::npos) p.clear();
            }
            Z x(s), y(p);
            NOTE(t, "starts_with(%s, %s)", pbt::quote(s).c_str(), pbt::quote(p).c_str());
            const char *r = embc_cstr_starts_with(x.c(), y.c());
            bool is = s.compare(0, p.size(), p) == 0 && p.size() <= s.size();
            PBT_CHECK(r == (is ? x.c() + p.size() : 0), "starts_with(%s, %s) gave offset %ld", pbt::quote(s).c_str(), pbt::quote(p).c_str(), r ? (long) (r - x.c()) : -1L);
            PBT_CHECK(embc_cstr_starts_with(0, y.c()) == 0, "starts_with on null");
            if (is && !p.empty()) { t.nontrivial(); t.label("prefix"); }
            break;
        }
        case 3: {
            std::string s = gen(t, 60, true); Z x(s);
            NOTE(t, "toupper(%s)", pbt::quote(s).c_str());
            PBT_EQ(embc_cstr_toupper(x.c()), 0, "toupper");
            for (size_t i = 0; i <= s.size(); ++i) PBT_EQ((int) x.c()[i], (int) up(i < s.size() ? s[i] : 0), "toupper(%s) at %zu", pbt::quote(s).c_str(), i);
            PBT_CHECK(embc_cstr_toupper(0) != 0, "toupper(null) succeeded");
            if (s.size() > 2) t.nontrivial();
            break;
        }
        case 4: {
            size_t n = t.pick(9); std::vector<std::string> tab;
            for (size_t i = 0; i < n; ++i) tab.push_back(i && t.chance(1, 3) ? t.elem(tab) + (t.flip() ? "x" : "") : gen(t, 6, true));
            if (t.chance(1, 3000)) {
                unsigned extra = t.oneof({120u, 250u, 250u, 300u, 120u, 65530u}) + (unsigned) t.pick(10), at = t.flip() ? 0 : (unsigned) tab.size();
                t.label("long table"); if (extra > 60000) t.heavy();
                std::vector<std::string> more; for (unsigned i = 0; i < extra; ++i) more.push_back("e" + std::to_string(i * 7919u % 65600));
                tab.insert(at ? tab.end() : tab.begin(), more.begin(), more.end());
                n = tab.size();
            }
            std::vector<const char *> ptr; for (auto &s : tab) ptr.push_back(s.c_str()); ptr.push_back(0);
            std::string s = n && t.chance(3, 4) ? t.elem(tab) : gen(t, 6, true);
            if (t.chance(1, 5)) s = swapcase(t, s);
            int want = -1; for (size_t i = 0; i < n; ++i) if (tab[i] == s) { want = (int) i; break; }
            Z x(s); int idx = -77;
            NOTE(t, "to_index(%s, table of %zu)", pbt::quote(s).c_str(), n);
            int rc = embc_cstr_to_index(x.c(), ptr.data(), &idx);
            PBT_CHECK((rc == 0) == (want >= 0), "to_index(%s) returned %d", pbt::quote(s).c_str(), rc);
            PBT_EQ(idx, want >= 0 ? want : -77, "to_index(%s): index", pbt::quote(s).c_str());
            idx = 5;
            PBT_CHECK(embc_cstr_to_index(0, ptr.data(), &idx) != 0 && embc_cstr_to_index(x.c(), 0, &idx) != 0 && embc_cstr_to_index(x.c(), ptr.data(), 0) != 0 && idx == 5, "to_index with null");
            if (want > 0) { t.nontrivial(); t.label("table-hit"); }
            break;
        }
        case 5: {
            static const char *T[] = {"TRUE", "ON", "1", "ENABLE"}, *F[] = {"FALSE", "OFF", "0", "DISABLE"};
            std::string s; int want = -1;
            switch (t.pick(4)) {
                case 0: s = T[t.pick(4)]; break;
                case 1: s = F[t.pick(4)]; break;
                case 2: s = gen(t, 30, true); break;
                default: s = t.flip() ? T[t.pick(4)] : F[t.pick(4)];
                    switch (t.pick(4)) { case 0: s += gen(t, 3, true); break; case 1: s.pop_back(); break; case 2: s = gen(t, 2, true) + s; break; default: s += std::string(t.pick(20), ' ') + "x"; }
            }
            s = swapcase(t, s);
            std::string u = s; for (auto &c : u) c = up(c);
            for (int i = 0; i < 4; ++i) { if (u == T[i]) want = 1; if (u == F[i]) want = 0; }
            Z x(s); bool pre = t.flip(), v = pre;
            NOTE(t, "to_bool(%s)", pbt::quote(s).c_str());
            int rc = embc_cstr_to_bool(x.c(), &v);
            PBT_CHECK((rc == 0) == (want >= 0), "to_bool(%s) returned %d", pbt::quote(s).c_str(), rc);
            PBT_EQ((int) v, want >= 0 ? want : (int) pre, "to_bool(%s): value", pbt::quote(s).c_str());
            PBT_CHECK(memcmp(x.p, s.c_str(), s.size() + 1) == 0, "to_bool changed its input");
            PBT_CHECK(embc_cstr_to_bool(0, &v) != 0 && embc_cstr_to_bool(x.c(), 0) != 0, "to_bool with null");
            if (want >= 0) { t.nontrivial(); t.label("bool-hit"); }
            break;
        }
        default: {
            unsigned v = (unsigned) t.pick(256);
            NOTE(t, "hex digit %u", v);
            char h = embc_cstr_u4_to_hex((uint8_t) v);
            if (v < 16) { PBT_EQ((int) h, (int) "0123456789ABCDEF"[v], "u4_to_hex(%u)", v); PBT_EQ((unsigned) embc_cstr_hex_to_u4(h), v, "hex digit round trip of %u", v); PBT_EQ((unsigned) embc_cstr_hex_to_u4(low(h)), v, "lower-case hex digit of %u", v); t.nontrivial(); }
            else PBT_EQ((int) h, (int) '0', "u4_to_hex(%u)", v);
            unsigned want = v >= '0' && v <= '9' ? v - '0' : v >= 'a' && v <= 'f' ? v - 'a' + 10 : v >= 'A' && v <= 'F' ? v - 'A' + 10 : 0;
            PBT_EQ((unsigned) embc_cstr_hex_to_u4((char) v), want, "hex_to_u4(%u)", v);
        }
    }
}
