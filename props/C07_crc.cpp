// C07: the CRC functions are the documented codes, chainable at every split,
// and detect what those codes guarantee to detect.
#include "pbt.hpp"
extern "C" {
#include "embc/crc.h"
}
using pbt::Tape;
typedef std::vector<uint8_t> V;
// bit-at-a-time references, straight from the polynomial
static uint8_t ref8(uint8_t crc, const V &d) {  // x^8+x^2+x+1 (0x83 in Koopman form), reflected
    crc = (uint8_t) ~crc;
    for (uint8_t b : d) for (int i = 0; i < 8; ++i) { int bit = (crc ^ (b >> i)) & 1; crc >>= 1; if (bit) crc ^= 0xE0; }
    return (uint8_t) ~crc;
}
static uint16_t ref16(uint16_t crc, const V &d) {  // x^16+x^12+x^5+1, not reflected
    crc = (uint16_t) ~crc;
    for (uint8_t b : d) for (int i = 7; i >= 0; --i) { int bit = ((crc >> 15) ^ (b >> i)) & 1; crc = (uint16_t) (crc << 1); if (bit) crc ^= 0x1021; }
    return (uint16_t) ~crc;
}
static uint32_t ref32(uint32_t crc, const V &d) {  // 0x04C11DB7 reflected
    crc = ~crc;
    for (uint8_t b : d) for (int i = 0; i < 8; ++i) { int bit = (crc ^ (b >> i)) & 1; crc >>= 1; if (bit) crc ^= 0xEDB88320u; }
    return ~crc;
}
static uint32_t run(int w, uint32_t init, const uint8_t *p, size_t n) {
    return w == 8 ? embc_crc_ccitt_8((uint8_t) init, p, (uint32_t) n) : w == 16 ? embc_crc_ccitt_16((uint16_t) init, p, (uint32_t) n) : embc_crc32(init, p, (uint32_t) n);
}
static uint32_t ref(int w, uint32_t init, const V &d) { return w == 8 ? ref8((uint8_t) init, d) : w == 16 ? ref16((uint16_t) init, d) : ref32(init, d); }

PBT_PROP("C07", 3000000, 20000000,
         "random messages (0 to 2000 bytes, some up to 140000, unaligned starts, random initial value) for the 8, 16 and 32 bit codes: equality with a bit-at-a-time "
         "reference, equality over random multi-way splits, and detection of generated single-bit, odd-weight, two-bit and burst errors inside each "
         "code's guarantee; non-trivial: message of 2 or more bytes with a split strictly inside or an error applied") {
    int w = t.oneof({8, 16, 32});
    size_t n;
    switch (t.pick(4)) { case 0: n = t.pick(9); break; case 1: n = t.pick(65); break; case 2: n = t.pick(300); break; default: n = t.pick(2001) / (t.pick(4) + 1); }
    if (t.chance(1, 1500)) { n = t.flip() ? 65530 + t.pick(12) : t.pick(140000); t.label("long"); }
    V d = n <= 32 ? t.vec(n) : t.blob(n);
    uint32_t mask = w == 32 ? 0xffffffffu : (1u << w) - 1;
    uint32_t init = t.chance(1, 2) ? (uint32_t) t.u(32) & mask : 0;
    size_t off = t.pick(8);
    pbt::Exact e(n + off);
    memcpy(e.p + off, d.data(), n);
    NOTE(t, "crc%d(init 0x%x, %zu bytes at offset %zu: %s)", w, init, n, off, pbt::hex(d.data(), n, 40).c_str());
    uint32_t c = run(w, init, e.p + off, n);
    uint32_t r = n ? ref(w, init, d) : init;
    PBT_CHECK(c == r, "crc%d of %zu bytes with initial 0x%x is 0x%x, the polynomial gives 0x%x", w, n, init, c, r);
    PBT_CHECK(memcmp(e.p + off, d.data(), n) == 0, "crc%d modified its input", w);
    // chained over a random split
    uint32_t k = init; size_t at = 0; int parts = 0; bool inner = false;
    while (at < n) {
        size_t len = t.chance(1, 5) ? 0 : t.range(1, n - at);
        if (parts > 40) len = n - at;
        k = run(w, k, e.p + off + at, len);
        at += len; ++parts;
        if (at < n && at > 0) inner = true;
    }
    PBT_CHECK(k == c, "crc%d over %d consecutive blocks is 0x%x, over the whole 0x%x", w, parts, k, c);
    PBT_EQ(run(w, init, 0, t.pick(5)), init, "crc%d of no data", w);
    PBT_EQ(run(w, init, e.p, 0), init, "crc%d of length 0", w);
    // error detection
    size_t bits = n * 8; bool err = false;
    if (bits) {
        V m = d;
        auto flipbit = [&](size_t b) {  // in transmission order of the code
            if (w == 16) m[b / 8] ^= (uint8_t) (0x80 >> (b % 8)); else m[b / 8] ^= (uint8_t) (1 << (b % 8));
        };
        switch (t.pick(4)) {
            case 0: flipbit(t.pick(bits)); t.label("single-bit"); break;
            case 1: {  // two bits within the period of the code
                size_t period = w == 8 ? 127 : w == 16 ? 32767 : bits;
                size_t a = t.pick(bits), b = t.pick(std::min(bits - a, period));
                if (b) { flipbit(a); flipbit(a + b); t.label("two-bit"); }
                break;
            }
            case 2: {  // burst no longer than the code
                size_t a = t.pick(bits), len = std::min<size_t>((size_t) w, bits - a);
                flipbit(a);
                for (size_t i = 1; i < len; ++i) if (t.flip()) flipbit(a + i);
                t.label("burst");
                break;
            }
            default: {  // odd number of bits (8 and 16 bit codes divide x+1)
                if (w == 32) break;
                size_t cnt = 1 + 2 * t.pick(5); 
                for (size_t i = 0; i < cnt; ++i) flipbit(t.pick(bits));
                t.label("odd");
            }
        }
        if (m != d) {
            err = true;
            PBT_CHECK(run(w, init, m.data(), n) != c, "crc%d misses an error it must detect in %zu bytes", w, n);
        }
    }
    if (n >= 2 && (inner || err)) t.nontrivial();
    t.label(w == 8 ? "crc8" : w == 16 ? "crc16" : "crc32");
}
