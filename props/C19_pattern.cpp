// C19: 32-bit test pattern: generator in closed form, receiver accounting for skips, repeats and damage.
#include "pbt.hpp"
extern "C" {
#include "embc/pattern_32a.h"
}
using pbt::Tape; using pbt::Exact;
static uint32_t word(uint64_t i) {
    uint64_t k = i / 2;
    if (i & 1) { uint32_t c = (uint32_t) (k % 65536); return (~c << 16) | c; }
    unsigned p = (unsigned) (k % 33); return p ? 1u << (p - 1) : 0;
}
static bool plausible(uint32_t v) { return !(v & (v - 1)) || ((~v >> 16) == (v & 0xffff)); }
static const uint64_t P = EMBC_PATTERN_32A_PERIOD;
static uint32_t junk(Tape &t, uint32_t good) {
    uint32_t v; unsigned k = (unsigned) t.pick(3);
    v = k == 0 ? good ^ (1u << t.pick(32)) : k == 1 ? good ^ (3u << t.pick(31)) ^ (1u << t.pick(32)) : (uint32_t) t.u(32);
    return v;
}

PBT_PROP("C19", 1500000, 10000000,
         "generator drawn word by word and in blocks of any length from a random position, and receivers fed streams built of segments of 4 or more correct "
         "words separated by skips and repeats of up to just under half the period, damaged words or arbitrary garbage; oracle: closed form of the pattern and "
         "exact counts of missing / repeated / received words; non-trivial: a block draw with odd position, or two or more disturbances") {
    if (t.pick(4) == 0) {
        embc_pattern_32a_tx_s a; memset(&a, 0x55, sizeof(a)); embc_pattern_32a_tx_initialize(&a);
        uint64_t i = 0; unsigned mean = t.oneof({6u, 30u}), n = 0; bool odd = false;
        if (t.chance(1, 1500)) { // run once around
            t.label("whole period"); embc_pattern_32a_tx_s z = a; std::vector<uint32_t> b(1 << 15);
            for (uint64_t left = P; left; ) { uint64_t k = std::min<uint64_t>(left, b.size()); embc_pattern_32a_tx_buffer(&a, b.data(), (uint32_t) k * 4); left -= k; i += k; }
            PBT_CHECK(a.shift32 == z.shift32 && a.counter == z.counter && a.toggle == z.toggle, "the pattern does not repeat after its period"); i = 0;
        }
        if (t.chance(1, 6000)) { // more than 64 Ki words at once
            t.label("large block"); uint64_t k = 65530 + t.pick(5000); std::vector<uint32_t> b(k, 0x12345);
            NOTE(t, "buffer of %d words", (int) k);
            embc_pattern_32a_rx_s r; embc_pattern_32a_rx_initialize(&r);
            embc_pattern_32a_tx_buffer(&a, b.data(), (uint32_t) k * 4);
            for (uint64_t j = 0; j < k; ++j) if (b[j] != word(i + j)) pbt::fail("word %llu of a block of %llu words is %08x, expected %08x", (unsigned long long) j, (unsigned long long) k, b[j], word(i + j));
            embc_pattern_32a_rx_buffer(&r, b.data(), (uint32_t) k * 4);
            PBT_EQ((uint64_t) r.receive_count, k, "words received in one block"); PBT_CHECK(!r.error_count && !r.missing_count && !r.duplicate_count && !r.resync_count, "errors counted in an undisturbed block");
            i += k;
        }
        while (t.more(mean) && n++ < 200) {
            if (t.flip()) { uint32_t v = embc_pattern_32a_tx_next(&a); PBT_EQ(v, word(i), "word %llu", (unsigned long long) i); ++i; NOTE(t, "next -> %08x", v); }
            else {
                uint64_t k = t.flip() ? t.pick(9) : t.pick(300); Exact b(k * 4); NOTE(t, "buffer of %d words at %d", (int) k, (int) i);
                if ((i & 1) && k > 1) odd = true;
                embc_pattern_32a_tx_buffer(&a, (uint32_t *) b.p, (uint32_t) k * 4);
                for (uint64_t j = 0; j < k; ++j) { uint32_t v; memcpy(&v, b.p + 4 * j, 4); PBT_EQ(v, word(i + j), "word %llu of a block at %llu", (unsigned long long) j, (unsigned long long) i); }
                i += k;
            }
        }
        if (odd) t.nontrivial();
        return;
    }
    embc_pattern_32a_rx_s r; memset(&r, 0x55, sizeof(r)); embc_pattern_32a_rx_initialize(&r);
    PBT_CHECK(!r.receive_count && !r.missing_count && !r.duplicate_count && !r.error_count && !r.resync_count, "counters are not zero after initialisation");
    std::vector<uint32_t> q;  // pending words, fed at once with rx_buffer or singly
    uint64_t fed = 0, missing = 0, dup = 0, jumps = 0, i = t.weighted({3, 2, 2}) == 0 ? t.pick(70) : t.pick(P);
    unsigned disturb = 0; bool exact = true;
    auto feed = [&](const std::vector<uint32_t> &v) {
        for (size_t k = 0; k < v.size(); ) {
            size_t m = t.pick(3) == 0 ? 1 : std::min<size_t>(v.size() - k, 1 + t.pick(40));
            if (m == 1 && t.flip()) embc_pattern_32a_rx_next(&r, v[k]);
            else { Exact b(&v[k], m * 4); embc_pattern_32a_rx_buffer(&r, (uint32_t *) b.p, (uint32_t) m * 4); }
            k += m; fed += m;
        }
        PBT_EQ((uint64_t) r.receive_count, fed, "words received");
    };
    auto clean = [&](unsigned least) {
        std::vector<uint32_t> v; uint64_t k = least + t.pick(t.flip() ? 4 : 80); for (uint64_t j = 0; j < k; ++j) v.push_back(word(i++));
        NOTE(t, "%d correct words", (int) k); return v;
    };
    auto check = [&] {
        if (!exact) return;
        PBT_EQ((uint64_t) r.missing_count, missing, "missing words"); PBT_EQ((uint64_t) r.duplicate_count, dup, "repeated words");
        PBT_EQ((uint64_t) r.resync_count, jumps, "resynchronisations");
    };
    NOTE(t, "start at word %llu", (unsigned long long) i);
    uint64_t first = 0;   // words damaged before the first correct run: errors, but neither missing nor repeated
    if (t.pick(5) == 0) {
        std::vector<uint32_t> v; first = t.range(1, 5); t.label("damaged from the start");
        for (uint64_t j = 0; j < first; ++j) { uint32_t x = junk(t, word(i)); for (int tries = 0; plausible(x); ++tries) x = tries > 20 ? 5 : x * 2654435761u + 3; v.push_back(x); ++i; NOTE(t, "  %08x", x); }
        feed(v);
    }
    feed(clean(4)); check();
    PBT_CHECK(r.error_count >= (first ? first - 1 : 0) && r.error_count <= first, "%llu errors after %llu damaged words at the start of the stream", (unsigned long long) r.error_count, (unsigned long long) first);
    unsigned mean = t.oneof({2u, 6u}), n = 0;
    while (t.more(mean) && n++ < 30) {
        ++disturb; uint64_t e0 = r.error_count;
        switch (t.weighted({5, 5, 3, 2})) {
            case 0: { uint64_t k = t.flip() ? t.range(1, 140) : t.range(1, P / 2 - 2); if (t.chance(1, 8)) k = t.oneof<uint64_t>({66, 132, 131072, 131072 * 2, 65536, 33, 65, 67, P / 2 - 2}); NOTE(t, "%llu words skipped", (unsigned long long) k); i += k; missing += k; ++jumps;
                feed(clean(4)); check(); if (exact) PBT_EQ((uint64_t) r.error_count, e0 + 1, "error count after a skip"); break; }
            case 1: { uint64_t k = t.flip() ? t.range(1, 140) : t.range(1, P / 2 - 2); if (t.chance(1, 8)) k = t.oneof<uint64_t>({66, 132, 131072, 131072 * 2, 65536, 33, 65, 67}); NOTE(t, "%llu words repeated", (unsigned long long) k); i += P - k; dup += k; ++jumps;
                feed(clean(4)); check(); if (exact) PBT_EQ((uint64_t) r.error_count, e0 + 1, "error count after a repeat"); break; }
            case 2: { uint64_t k = t.range(1, 8); std::vector<uint32_t> v; bool prev = false; NOTE(t, "%llu words, damaged but for single ones between", (unsigned long long) k);
                for (uint64_t j = 0; j < k; ++j) {
                    if (prev && j + 1 < k && t.pick(3) == 0) { v.push_back(word(i++)); prev = false; NOTE(t, "  %08x (intact)", v.back()); t.label("single intact word between damaged ones"); continue; }
                    uint32_t x = junk(t, word(i)); for (int tries = 0; plausible(x); ++tries) x = tries > 20 ? 5 : x * 2654435761u + 3; v.push_back(x); ++i; prev = true; NOTE(t, "  %08x", x);
                }
                missing += k; ++jumps; feed(v); PBT_CHECK(r.error_count > e0, "damaged words were not counted as errors"); feed(clean(4)); check();
                if (exact) PBT_CHECK(r.error_count >= e0 + k && r.error_count <= e0 + k + 1, "%llu errors counted for %llu words that cannot be synchronized", (unsigned long long) r.error_count - e0, (unsigned long long) k); break; }
            default: { uint64_t k = t.range(1, 8); std::vector<uint32_t> v; NOTE(t, "%llu arbitrary words", (unsigned long long) k);
                for (uint64_t j = 0; j < k; ++j) v.push_back(t.flip() ? junk(t, word(i + j)) : word(t.pick(P)));
                i += t.pick(20); exact = false; feed(v); feed(clean(4)); uint64_t e1 = r.error_count, r1 = r.resync_count;
                feed(clean(4)); PBT_EQ((uint64_t) r.error_count, e1, "errors after 4 correct words"); PBT_EQ((uint64_t) r.resync_count, r1, "resynchronisations after 4 correct words"); break; }
        }
    }
    if (disturb >= 2) t.nontrivial();
}
