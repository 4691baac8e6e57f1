// C18: LFSR generator and follower against the recurrence b[n] = b[n-16]^b[n-14]^b[n-13]^b[n-11].
#include "pbt.hpp"
#include <deque>
extern "C" {
#include "embc/lfsr.h"
}
using pbt::Tape;
struct Bits {   // the last 16 bits, oldest first
    std::deque<int> b;
    explicit Bits(uint16_t v) { for (int i = 0; i < 16; ++i) b.push_back((v >> i) & 1); }
    int next() { int x = b[0] ^ b[2] ^ b[3] ^ b[5]; b.pop_front(); b.push_back(x); return x; }
    uint16_t value() { unsigned v = 0; for (int i = 0; i < 16; ++i) v |= (unsigned) b[(size_t) i] << i; return (uint16_t) v; }
    uint8_t u8() { unsigned v = 0; for (int i = 0; i < 8; ++i) v |= (unsigned) next() << i; return (uint8_t) v; }
};
PBT_PROP("C18", 500000, 15000000,
         "mixed sequences of 1, 8, 16 and 32 bit draws from every kind of seed, and followers fed streams with corrupted, lost and repeated bytes, initialized again now and then; oracle: the "
         "bit recurrence and a two-byte-history follower; some cases run the whole period of 65535; non-trivial: 20 or more values and (draws of 3 widths or a stream error)") {
    embc_lfsr_s s; unsigned kind = t.chance(1, 400) ? 2 : (unsigned) t.pick(2);
    memset(&s, 0x77, sizeof(s));
    embc_lfsr_initialize(&s);
    uint16_t seed = LFSR16_INITIAL_VALUE; PBT_EQ((int) s.value, 0xACE1, "initial value"); PBT_EQ(s.error_count, 0, "initial error count");
    if (t.flip()) { seed = (uint16_t) t.u(16); embc_lfsr_seed_u16(&s, seed); if (!seed) seed = 1; NOTE(t, "seed %u", seed); }
    Bits r(seed); unsigned mean = t.oneof({10u, 60u, 300u}), n = 0;
    if (kind == 0) {
        unsigned widths = 0;
        while (t.more(mean) && n++ < 2000) {
            switch (t.pick(5)) {
                case 0: { int x = r.next(); PBT_EQ(embc_lfsr_next_u1(&s), x, "next_u1 number %u", n); widths |= 1; NOTE(t, "u1 %d", x); break; }
                case 1: { int x = r.u8(); PBT_EQ((int) embc_lfsr_next_u8(&s), x, "next_u8 number %u", n); widths |= 2; NOTE(t, "u8 %d", x); break; }
                case 2: { int x = r.u8(); x |= r.u8() << 8; PBT_EQ((int) embc_lfsr_next_u16(&s), x, "next_u16 number %u", n); widths |= 4; NOTE(t, "u16 %d", x); break; }
                case 3: { uint32_t x = r.u8(); x |= (uint32_t) r.u8() << 8; uint32_t y = r.u8(); y |= (uint32_t) r.u8() << 8; x = x << 16 | y; PBT_EQ(embc_lfsr_next_u32(&s), x, "next_u32 number %u", n); widths |= 8; NOTE(t, "u32 %u", x); break; }
                default: if (t.chance(1, 6)) { uint16_t v = (uint16_t) t.u(16); embc_lfsr_seed_u16(&s, v); r = Bits(v ? v : 1); NOTE(t, "seed %u", v); }
                         else if (t.chance(1, 6)) { s.value = 0; r = Bits(1); NOTE(t, "state overwritten with 0"); }
            }
            if (s.value) PBT_EQ((int) s.value, (int) r.value(), "state after %u draws", n);
        }
        if (n >= 20 && __builtin_popcount(widths) >= 3) t.nontrivial();
    } else if (kind == 2) {
        t.label("whole period"); NOTE(t, "whole period from seed %u", seed);
        embc_lfsr_s a = s; bool w = t.flip(); int i = 0;
        do { if (w) embc_lfsr_next_u16(&s); else embc_lfsr_next_u1(&s); ++i; PBT_CHECK(s.value, "the state became 0"); } while (s.value != a.value && i < 70000);
        PBT_EQ(i, LFSR16_LENGTH, "period"); t.nontrivial();
    } else {
        embc_lfsr_s f; memset(&f, 0x77, sizeof(f)); embc_lfsr_initialize(&f);
        uint8_t h0 = 0, h1 = 0; int need = 2, errors = 0, bad = 0;
        std::vector<uint8_t> recent;
        unsigned least = 0, rare = 60;   // some streams with hundreds, now and then 70000, errors
        if (t.chance(1, 250)) { rare = 4; least = t.chance(1, 20) ? 400000 : 300 + (unsigned) t.pick(2000); t.heavy(); t.label("hundreds of errors"); }
        while ((least ? n < least : t.more(mean) && n < 1500) && ++n) {
            uint8_t d = embc_lfsr_next_u8(&s);
            switch (t.weighted({rare, 2, 1, 1})) {
                case 1: d = (uint8_t) t.u(8); ++bad; break;
                case 2: for (uint64_t k = t.range(1, 3); k--; ) d = embc_lfsr_next_u8(&s); ++bad; break;
                case 3: if (!recent.empty()) d = t.elem(recent); ++bad; break;
                default: break;
            }
            if (recent.size() < 8) recent.push_back(d);
            if (!least && t.chance(1, 50)) { embc_lfsr_initialize(&f); need = 2; errors = 0; PBT_EQ(f.error_count, 0, "error count after initializing again"); NOTE(t, "initialize again"); }
            int want = 0;
            if (need) --need;
            else {
                uint16_t v = (uint16_t) (h0 | h1 << 8); Bits p(v ? v : 1);
                if (p.u8() != d) { want = -1; need = 1; ++errors; }
            }
            h0 = h1; h1 = d;
            int got = embc_lfsr_follow_u8(&f, d);
            if (n < 3000) NOTE(t, "follow(0x%02x) -> %d", d, got);
            PBT_EQ(got, want, "follow of byte %u", n);
            PBT_EQ(f.error_count, errors, "error count after byte %u", n);
        }
        if (!bad) PBT_EQ(errors, 0, "model");
        if (n >= 20 && errors) t.nontrivial();
    }
}
