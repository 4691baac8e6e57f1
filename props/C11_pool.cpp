// C11: fixed-size pool against a model of live blocks.
#include "pbt.hpp"
#include <memory>
#include <set>
extern "C" {
#include "embc/memory/pool.h"
}
using pbt::Tape; using pbt::Exact;
struct Inst {
    int32_t count, bs; std::unique_ptr<Exact> mem;
    struct A { uint8_t *p; uint8_t fill; };
    std::vector<A> live; std::set<uint8_t *> seen;
    embc_pool_s *s() { return (embc_pool_s *) mem->p; }
    void verify(const A &a) { for (int32_t i = 0; i < bs; ++i) PBT_CHECK(a.p[i] == (uint8_t) (a.fill + i), "byte %d of a live block changed", i); }
};
PBT_PROP("C11", 700000, 20000000,
         "one or two pools of 1..40 (now and then up to 73500) blocks of 1..64 (70000) bytes (instance memory exactly the reported size), histories of alloc, alloc_unsafe, free and "
         "is_empty, every live block filled; oracle: number and contents of live blocks; non-trivial: exhausted at least once and reused after a free") {
    std::vector<Inst> v(1 + t.pick(2));
    for (auto &x : v) {
        x.count = (int32_t) (t.flip() ? t.range(1, 6) : t.range(1, 40)); x.bs = (int32_t) (t.flip() ? t.range(1, 17) : t.range(1, 64));
        if (t.chance(1, 600)) { x.count = t.chance(1, 30) ? 65500 + (int32_t) t.pick(8000) : 200 + (int32_t) t.pick(2000); x.bs = 1 + (int32_t) t.pick(16); t.heavy(); t.label("thousands of blocks"); }
        else if (t.chance(1, 300)) { x.bs = (int32_t) t.oneof({127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 70000}); x.count = 1 + (int32_t) t.pick(8); t.label("large blocks"); }
        int32_t sz = embc_pool_instance_size(x.count, x.bs);
        PBT_CHECK(sz >= x.count * x.bs && sz < x.count * (x.bs + 64) + 200, "instance size %d for %d blocks of %d", sz, x.count, x.bs);
        x.mem.reset(new Exact((size_t) sz)); memset(x.mem->p, 0xa5, (size_t) sz);
        NOTE(t, "pool %d: %d blocks of %d bytes", (int) (&x - &v[0]), x.count, x.bs);
        PBT_EQ(embc_pool_initialize(x.s(), x.count, x.bs), 0, "initialize");
    }
    unsigned mean = t.oneof({10u, 40u, 200u}), ops = 0; bool exhausted = false, reused = false;
    unsigned bias = (unsigned) t.range(2, 7);
    // take most of a large pool at once and give part of it back, so that the operations below work near the limit
    for (auto &x : v) if (x.count > 100) {
        int32_t left = (int32_t) t.pick(6), keep = (int32_t) t.range(1, 9);
        NOTE(t, "pool %d: alloc %d blocks, free all but each %dth", (int) (&x - &v[0]), x.count - left, keep);
        std::vector<Inst::A> all;
        for (int32_t i = 0; i < x.count - left; ++i) {
            uint8_t *p = (uint8_t *) embc_pool_alloc_unsafe(x.s());
            PBT_CHECK(p && !embc_pool_is_empty(x.s()) == (i + 1 < x.count), "alloc of block %d of %d", i, x.count);
            PBT_CHECK(p >= x.mem->p && p + x.bs <= x.mem->p + x.mem->n, "block at offset %ld is outside the instance", (long) (p - x.mem->p));
            PBT_CHECK(x.seen.insert(p).second, "a block was handed out twice");
            memset(p, i, (size_t) x.bs);
            for (int32_t k = 0; k < x.bs; ++k) p[k] = (uint8_t) (i + k);
            all.push_back({p, (uint8_t) i});
        }
        uint8_t *prev = 0; for (auto *p : x.seen) { PBT_CHECK(!prev || p - prev >= x.bs, "blocks overlap"); prev = p; }
        for (auto &a : all) x.verify(a);
        for (size_t i = 0; i < all.size(); ++i) if (i % (size_t) keep) embc_pool_free(x.s(), all[i].p); else x.live.push_back(all[i]);
        for (size_t i = 0; i < all.size(); ++i) if (i % (size_t) keep && x.live.size() + 3 < (size_t) x.count && keep < 7) {
            uint8_t *p = (uint8_t *) embc_pool_alloc_unsafe(x.s()); PBT_CHECK(p, "alloc failed with %zu of %d blocks in use", x.live.size(), x.count);
            Inst::A a = {p, (uint8_t) (i * 3)}; for (int32_t k = 0; k < x.bs; ++k) p[k] = (uint8_t) (a.fill + k);
            x.live.push_back(a); x.seen.insert(p);
        }
    }
    while (t.more(mean) && ops++ < 1000) {
        Inst &x = t.elem(v); int which = (int) (&x - &v[0]);
        PBT_EQ(embc_pool_is_empty(x.s()), (int) (x.live.size() == (size_t) x.count), "is_empty with %zu of %d blocks in use", x.live.size(), x.count);
        if (t.pick(bias + 3) < bias) {
            bool unsafe = t.flip(), fatal = false, full = x.live.size() == (size_t) x.count; uint8_t *p = 0;
            try { p = (uint8_t *) (unsafe ? embc_pool_alloc_unsafe(x.s()) : embc_pool_alloc(x.s())); } catch (pbt::Fatal &) { fatal = true; }
            NOTE(t, "[%d] alloc%s -> %s %ld", which, unsafe ? "_unsafe" : "", fatal ? "fatal" : p ? "offset" : "null", p ? (long) (p - x.mem->p) : 0L);
            if (full) {
                exhausted = true;
                PBT_CHECK(!p, "a block was returned from an exhausted pool");
                PBT_CHECK(fatal == !unsafe, unsafe ? "alloc_unsafe of an exhausted pool was fatal" : "alloc of an exhausted pool returned");
                continue;
            }
            PBT_CHECK(!fatal && p, "alloc failed with %zu of %d blocks in use", x.live.size(), x.count);
            PBT_CHECK(p >= x.mem->p && p + x.bs <= x.mem->p + x.mem->n, "block at offset %ld is outside the instance", (long) (p - x.mem->p));
            PBT_CHECK(((uintptr_t) p & (sizeof(int *) - 1)) == 0, "block at offset %ld is not aligned for pointers", (long) (p - x.mem->p));
            for (auto &a : x.live) PBT_CHECK(p + x.bs <= a.p || a.p + x.bs <= p, "a new block overlaps a live one");
            if (!x.seen.insert(p).second) reused = true;
            Inst::A a = {p, (uint8_t) (ops * 7 + 1)};
            for (int32_t i = 0; i < x.bs; ++i) p[i] = (uint8_t) (a.fill + i);
            x.live.push_back(a);
        } else if (!x.live.empty()) {
            size_t i = t.pick(x.live.size()); Inst::A a = x.live[i]; x.live.erase(x.live.begin() + (long) i);
            NOTE(t, "[%d] free(offset %ld)", which, (long) (a.p - x.mem->p));
            x.verify(a); embc_pool_free(x.s(), a.p);
        } else PBT_CHECK(FATALS(embc_pool_free(x.s(), 0)), "free(NULL) was accepted");
    }
    for (auto &x : v) {
        for (auto &a : x.live) x.verify(a);
        size_t n = x.live.size(); while (embc_pool_alloc_unsafe(x.s())) { ++n; PBT_CHECK(n <= (size_t) x.count, "more than %d blocks came out of the pool", x.count); }
        PBT_EQ((int) n, x.count, "total number of blocks obtainable");
        embc_pool_finalize(x.s());
    }
    if (exhausted && reused) t.nontrivial();
}
