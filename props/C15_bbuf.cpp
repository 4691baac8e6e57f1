// C15: binary encoders and decoders: byte order, round trip, exact bytes touched.
#include "pbt.hpp"
extern "C" {
#include "embc/bbuf.h"
}
using pbt::Tape; using pbt::Exact;
struct F { int sz; bool be; uint64_t v; };
static void ref(uint8_t *p, const F &f) { for (int i = 0; i < f.sz; ++i) p[i] = (uint8_t) (f.v >> (8 * (f.be ? f.sz - 1 - i : i))); }

// The macros used the way callers use macros: operands that are expressions, values of other integer types, as the body of an if
// without braces, inside a larger expression.
static uint8_t *pick_ptr(uint8_t *p) { return p; }
#define ENC(M, T, NARROW) do { \
    T v_ = (T) f.v; T lo_ = (T) (v_ & (T) 0x0f0f0f0f0f0f0f0full), hi_ = (T) (v_ ^ lo_); \
    switch (form) { \
        case 0: M(q, v_); break; \
        case 1: M(yes ? q : other, v_); break; \
        case 2: M(no ? other : q, hi_ | lo_); break; \
        case 3: M(base + off, yes ? v_ : lo_); break; \
        case 4: if (no) M(other, v_); else M(q, v_); break; \
        case 5: if (no) M(other, v_); \
                if (yes) M(q, v_); break; \
        case 6: for (int i_ = 0; i_ < 0; ++i_) M(other, v_); \
                M(pick_ptr(q), hi_ + lo_); break; \
        default: { NARROW n_ = (NARROW) f.v; M(q, n_); wide = (uint64_t) (T) n_; narrow = true; break; } \
    } } while (0)
#define DEC(M, T) do { \
    switch (form) { \
        case 0: m = (T) M(r0); break; \
        case 1: m = (T) M(yes ? r0 : cother); break; \
        case 2: m = (T) M(no ? cother : r0); break; \
        case 3: m = (T) (M(r0) + 1); m = (T) (m - 1); break; \
        case 4: m = (T) (1 + M(r0)); m = (T) (m - 1); break; \
        case 5: m = (T) ~(T) ~M(r0); break; \
        case 6: m = (T) M(cbase + off); break; \
        default: { T arr_[2] = { (T) M(r0), (T) (M(r0) ^ 1) }; m = arr_[1] == (T) (arr_[0] ^ 1) ? arr_[0] : (T) ~arr_[0]; break; } \
    } } while (0)

PBT_PROP("C15", 2000000, 60000000,
         "sequences of 1..40 fields (8/16/32/64 bits, big and little endian, values biased to byte boundaries) encoded into an exactly sized area with the "
         "functions and the macros (plain, with expressions as operands, with values of narrower and signed types, under an if without braces, inside larger expressions) and decoded again; oracle: byte arithmetic per field; non-trivial: at least two widths and both byte orders") {
    std::vector<F> fs; int total = 0; unsigned widths = 0, orders = 0;
    unsigned n = (unsigned) (t.flip() ? t.range(1, 4) : t.range(1, 40));
    for (unsigned i = 0; i < n; ++i) {
        F f; unsigned k = (unsigned) t.pick(4); f.sz = 1 << k; f.be = t.flip(); f.v = t.u(8 * (unsigned) f.sz);
        widths |= 1u << k; if (k) orders |= 1u << f.be;
        NOTE(t, "u%d_%s 0x%llx", f.sz * 8, f.be ? "be" : "le", (unsigned long long) f.v);
        fs.push_back(f); total += f.sz;
    }
    Exact want((size_t) total), a((size_t) total), b((size_t) total);
    memset(a.p, 0xa5, a.n); memset(b.p, 0x5a, b.n);
    { uint8_t *p = want.p; for (auto &f : fs) { ref(p, f); p += f.sz; } }
    uint8_t *p = a.p, *q = b.p; bool yes = true, no = false; uint8_t other[8]; memset(other, 0x77, 8); uint8_t *base = b.p; uint8_t const *cother = other, *cbase = want.p;
    if (t.pick(1000) == 1000) { yes = false; no = true; }  // not constants
    for (auto &f : fs) {
        uint8_t *p0 = p; int form = (int) t.pick(8); uint64_t wide = 0; bool narrow = false; size_t off = (size_t) (q - b.p);
        switch (f.sz * 2 + f.be) {
            case 2: case 3: embc_bbuf_unsafe_encode_u8(&p, (uint8_t) f.v); if (form == 3) EMBC_BBUF_ENCODE_U8(base + off, (uint8_t) f.v); else EMBC_BBUF_ENCODE_U8(q, (uint8_t) f.v); break;
            case 4: embc_bbuf_unsafe_encode_u16_le(&p, (uint16_t) f.v); ENC(EMBC_BBUF_ENCODE_U16_LE, uint16_t, int8_t); break;
            case 5: embc_bbuf_unsafe_encode_u16_be(&p, (uint16_t) f.v); ENC(EMBC_BBUF_ENCODE_U16_BE, uint16_t, int16_t); break;
            case 8: embc_bbuf_unsafe_encode_u32_le(&p, (uint32_t) f.v); ENC(EMBC_BBUF_ENCODE_U32_LE, uint32_t, uint8_t); break;
            case 9: embc_bbuf_unsafe_encode_u32_be(&p, (uint32_t) f.v); ENC(EMBC_BBUF_ENCODE_U32_BE, uint32_t, int32_t); break;
            case 16: embc_bbuf_unsafe_encode_u64_le(&p, f.v); ENC(EMBC_BBUF_ENCODE_U64_LE, uint64_t, uint32_t); break;
            default: embc_bbuf_unsafe_encode_u64_be(&p, f.v); ENC(EMBC_BBUF_ENCODE_U64_BE, uint64_t, int32_t); break;
        }
        for (int i = 0; i < 8; ++i) PBT_CHECK(other[i] == 0x77, "the %d-bit encode macro wrote although its if was false (form %d)", f.sz * 8, form);
        if (narrow) {  // check it here, then put the full value
            uint8_t e[8]; F g{f.sz, f.be, wide}; ref(e, g); PBT_CHECK(!memcmp(q, e, (size_t) f.sz), "macro encoded 0x%llx of a narrower type as %s", (unsigned long long) wide, pbt::hex(q, (size_t) f.sz).c_str());
            ref(q, f);
        }
        PBT_EQ((int) (p - p0), f.sz, "bytes the %d-bit encoder advanced", f.sz * 8);
        q += f.sz;
        // nothing behind the field was touched
        for (uint8_t *r = p; r < a.p + a.n && r < p + 9; ++r) PBT_CHECK(*r == 0xa5, "the %d-bit encoder wrote beyond its field", f.sz * 8);
        for (uint8_t *r = q; r < b.p + b.n && r < q + 9; ++r) PBT_CHECK(*r == 0x5a, "the %d-bit encode macro wrote beyond its field", f.sz * 8);
    }
    PBT_CHECK(!memcmp(a.p, want.p, a.n), "encoded %s, expected %s", pbt::hex(a.p, a.n).c_str(), pbt::hex(want.p, a.n).c_str());
    PBT_CHECK(!memcmp(b.p, want.p, a.n), "macros encoded %s, expected %s", pbt::hex(b.p, a.n).c_str(), pbt::hex(want.p, a.n).c_str());
    uint8_t const *r = want.p;
    for (auto &f : fs) {
        uint8_t const *r0 = r; uint64_t g = 0, m = 0; int form = (int) t.pick(8); size_t off = (size_t) (r - want.p);
        switch (f.sz * 2 + f.be) {
            case 2: case 3: g = embc_bbuf_unsafe_decode_u8(&r); DEC(EMBC_BBUF_DECODE_U8, uint8_t); break;
            case 4: g = embc_bbuf_unsafe_decode_u16_le(&r); DEC(EMBC_BBUF_DECODE_U16_LE, uint16_t); break;
            case 5: g = embc_bbuf_unsafe_decode_u16_be(&r); DEC(EMBC_BBUF_DECODE_U16_BE, uint16_t); break;
            case 8: g = embc_bbuf_unsafe_decode_u32_le(&r); DEC(EMBC_BBUF_DECODE_U32_LE, uint32_t); break;
            case 9: g = embc_bbuf_unsafe_decode_u32_be(&r); DEC(EMBC_BBUF_DECODE_U32_BE, uint32_t); break;
            case 16: g = embc_bbuf_unsafe_decode_u64_le(&r); DEC(EMBC_BBUF_DECODE_U64_LE, uint64_t); break;
            default: g = embc_bbuf_unsafe_decode_u64_be(&r); DEC(EMBC_BBUF_DECODE_U64_BE, uint64_t); break;
        }
        PBT_EQ((int) (r - r0), f.sz, "bytes the %d-bit decoder advanced", f.sz * 8);
        PBT_CHECK(g == f.v, "decoded 0x%llx, expected 0x%llx", (unsigned long long) g, (unsigned long long) f.v);
        PBT_CHECK(m == f.v, "macro decoded 0x%llx, expected 0x%llx (form %d)", (unsigned long long) m, (unsigned long long) f.v, form);
    }
    if ((widths & (widths - 1)) && orders == 3) t.nontrivial();
}
