// C10: block allocator against a model of free blocks.
#include "pbt.hpp"
#include <memory>
extern "C" {
#include "embc/memory/block.h"
}
using pbt::Tape; using pbt::Exact;

struct Inst {
    int32_t bs, mem_size, count;
    std::unique_ptr<Exact> self, mem;
    struct A { int32_t start, blocks, size; uint8_t fill; };
    std::vector<char> used; std::vector<A> live;
    embc_mblock_s *s() { return (embc_mblock_s *) self->p; }
    int32_t need(int32_t size) { return (int32_t) (((int64_t) size + bs - 1) / bs); }
    bool fits(int64_t blocks) {
        int64_t run = 0;
        for (char u : used) { run = u ? 0 : run + 1; if (run >= blocks) return true; }
        return false;
    }
    void verify(const A &a) {
        for (int32_t i = 0; i < a.size; ++i)
            PBT_CHECK(mem->p[a.start * bs + i] == a.fill, "the memory of a live allocation (block %d, %d bytes) changed at byte %d", a.start, a.size, i);
    }
};

PBT_PROP("C10", 700000, 20000000,
         "one or two block allocators with 0..300 (now and then up to 73500) blocks of 1..64 (70000) bytes, histories of alloc / alloc_unsafe / free with sizes from 1 byte to INT32_MAX; "
         "oracle: array of used blocks (an allocation succeeds iff a long enough free run exists, is block aligned, in range, disjoint from every live "
         "one, and keeps its bytes); non-trivial: at least one allocation after a free and one refused or multi-block allocation") {
    std::vector<Inst> v(1 + t.pick(2));
    for (auto &x : v) {
        x.bs = (int32_t) t.oneof({1, 2, 4, 7, 8, 16, 32, 64});
        int32_t cnt = (int32_t) t.oneof({1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 256, 300});
        if (t.chance(1, 4)) cnt = (int32_t) t.pick(120);
        if (t.chance(1, 600)) { cnt = t.chance(1, 30) ? 65500 + (int32_t) t.pick(8000) : 300 + (int32_t) t.pick(3000); t.heavy(); t.label("thousands of blocks"); }
        if (t.chance(1, 300)) { x.bs = (int32_t) t.oneof({128, 255, 256, 257, 1000, 4096, 65535, 65536, 70000}); cnt = 1 + (int32_t) t.pick(20); t.label("large blocks"); }
        x.mem_size = std::max(1, cnt * x.bs + (int32_t) t.pick((uint64_t) x.bs));
        x.count = x.mem_size / x.bs;
        x.used.assign((size_t) x.count, 0);
        int32_t sz = embc_mblock_instance_size(x.mem_size, x.bs);
        PBT_CHECK(sz > 0 && sz < x.count + 400, "instance size %d for %d blocks", sz, x.count);
        x.self.reset(new Exact((size_t) sz)); x.mem.reset(new Exact((size_t) x.mem_size));
        memset(x.self->p, 0xa5, (size_t) sz);
        PBT_EQ(embc_mblock_initialize(x.s(), x.mem->p, x.mem_size, x.bs), 0, "initialize");
        NOTE(t, "allocator %d: %d blocks of %d bytes in %d bytes", (int) (&x - &v[0]), x.count, x.bs, x.mem_size);
    }
    unsigned mean = t.oneof({8u, 40u, 150u}), ops = 0; bool freed = false, again = false, hard = false;
    unsigned bias = (unsigned) t.range(2, 6);
    while (t.more(mean) && ops++ < 800) {
        Inst &x = t.elem(v); int which = (int) (&x - &v[0]);
        switch (t.weighted({bias, 4, 1})) {
            case 0: {
                int32_t size;
                switch (t.weighted({6, 4, 2, 1, 1})) {
                    case 0: size = (int32_t) t.range(1, (uint64_t) x.bs); break;
                    case 1: size = (int32_t) (t.range(1, 5) * x.bs + t.pick(3)) - 1; break;
                    case 2: size = (int32_t) t.range(1, (uint64_t) x.mem_size); break;
                    case 3: size = x.mem_size + (int32_t) t.pick(40) - 20; break;
                    default: size = t.flip() ? INT32_MAX - (int32_t) t.pick(70) : (int32_t) (1u << t.pick(31));
                }
                if (size < 1) size = 1;
                int64_t need = x.need(size); bool ok = x.fits(need); bool unsafe = t.flip();
                void *p = 0; bool fatal = false;
                try { p = unsafe ? embc_mblock_alloc_unsafe(x.s(), size) : embc_mblock_alloc(x.s(), size); } catch (pbt::Fatal &) { fatal = true; }
                NOTE(t, "[%d] alloc%s(%d) -> %s %ld", which, unsafe ? "_unsafe" : "", size, fatal ? "fatal" : p ? "offset" : "null", p ? (long) ((uint8_t *) p - x.mem->p) : 0L);
                if (!ok) {
                    hard = true;
                    PBT_CHECK(!p, "alloc(%d) returned memory though no %lld adjacent blocks are free", size, (long long) need);
                    PBT_CHECK(fatal == !unsafe, unsafe ? "alloc_unsafe out of memory was fatal" : "alloc out of memory returned instead of being fatal");
                    break;
                }
                PBT_CHECK(!fatal && p, "alloc(%d) failed though %lld adjacent blocks are free", size, (long long) need);
                long off = (long) ((uint8_t *) p - x.mem->p);
                PBT_CHECK(off >= 0 && off + size <= (long) x.count * x.bs, "alloc(%d) returned offset %ld outside the %d managed bytes", size, off, x.mem_size);
                PBT_CHECK(off % x.bs == 0, "alloc(%d) returned offset %ld which is not a block boundary", size, off);
                Inst::A a = {(int32_t) (off / x.bs), (int32_t) need, size, (uint8_t) (ops + 17 * which)};
                for (int32_t i = 0; i < a.blocks; ++i) {
                    PBT_CHECK(!x.used[(size_t) (a.start + i)], "alloc(%d) returned block %d which is still allocated", size, a.start + i);
                    x.used[(size_t) (a.start + i)] = 1;
                }
                memset(p, a.fill, (size_t) size);
                x.live.push_back(a);
                if (freed) again = true;
                if (need > 1) hard = true;
                break;
            }
            case 1: {
                if (x.live.empty()) break;
                size_t i = t.pick(x.live.size()); Inst::A a = x.live[i];
                x.live.erase(x.live.begin() + (long) i);
                NOTE(t, "[%d] free(offset %d, %d)", which, a.start * x.bs, a.size);
                x.verify(a);
                PBT_CHECK(!FATALS(embc_mblock_free(x.s(), x.mem->p + a.start * x.bs, a.size)), "freeing a live allocation was fatal");
                for (int32_t k = 0; k < a.blocks; ++k) x.used[(size_t) (a.start + k)] = 0;
                freed = true;
                break;
            }
            default: {
                unsigned k = (unsigned) t.pick(6);
                if (k == 3) {
                    if (!x.count) break;
                    int32_t i = (int32_t) t.pick((uint64_t) x.count); if (x.used[(size_t) i]) break;
                    NOTE(t, "[%d] free of block %d, which is free", which, i); t.label("free of a free block");
                    PBT_CHECK(FATALS(embc_mblock_free(x.s(), x.mem->p + i * x.bs, (int32_t) t.range(1, (uint64_t) x.bs))), "freeing block %d, which is not allocated, was accepted", i);
                }
                else if (k == 4) { // bytes behind the last whole block are never handed out
                    int32_t rest = x.mem_size - x.count * x.bs; if (!rest) break;
                    int32_t off = x.count * x.bs + (int32_t) t.pick((uint64_t) rest);
                    NOTE(t, "[%d] free of offset %d, behind the last block", which, off); t.label("free behind the last block");
                    PBT_CHECK(FATALS(embc_mblock_free(x.s(), x.mem->p + off, (int32_t) t.range(1, (uint64_t) x.bs))), "freeing offset %d, behind the last of %d blocks, was accepted", off, x.count);
                }
                else if (k == 5) { // a size that covers more than what is allocated, up to the largest integer
                    if (x.live.empty() || !t.chance(1, 12)) break;
                    const Inst::A &a = t.elem(x.live);
                    int32_t size = t.chance(1, 3) ? INT32_MAX - (int32_t) t.pick(70) : (int32_t) std::min<int64_t>(INT32_MAX, ((int64_t) a.blocks + 1 + (int64_t) t.pick((uint64_t) x.count + 2)) * x.bs - (int64_t) t.pick((uint64_t) x.bs));
                    int64_t need = x.need(size); bool bad = a.start + need > x.count;
                    for (int64_t i = a.start; i < std::min<int64_t>(x.count, a.start + need); ++i) bad |= !x.used[(size_t) i];
                    if (!bad) break;
                    NOTE(t, "[%d] free(offset %d, %d) although only %d blocks are allocated", which, a.start * x.bs, size, a.blocks); t.label("free of more than was allocated");
                    PBT_CHECK(FATALS(embc_mblock_free(x.s(), x.mem->p + a.start * x.bs, size)), "freeing %lld blocks from block %d was accepted though not all of them are allocated", (long long) need, a.start);
                    return; // the state after a fatal error is not specified
                }
                else if (k == 0) { NOTE(t, "[%d] free of foreign memory", which); PBT_CHECK(FATALS(embc_mblock_free(x.s(), x.mem->p + x.mem_size, 1)), "freeing memory beyond the region was accepted"); }
                else if (k == 1) { NOTE(t, "[%d] free of foreign memory", which); PBT_CHECK(FATALS(embc_mblock_free(x.s(), x.mem->p - 1, 1)), "freeing memory before the region was accepted"); }
                else { int32_t bad = -(int32_t) t.pick(5); NOTE(t, "[%d] alloc(%d)", which, bad);
                    PBT_CHECK(FATALS(embc_mblock_alloc_unsafe(x.s(), bad)), "alloc_unsafe(%d) was accepted", bad);
                    PBT_CHECK(FATALS(embc_mblock_alloc(x.s(), bad)), "alloc(%d) was accepted", bad); }
            }
        }
    }
    for (auto &x : v) {
        for (auto &a : x.live) x.verify(a);
        NOTE(t, "free all, then take the whole region at once");
        while (!x.live.empty()) {
            size_t i = t.pick(x.live.size()); Inst::A a = x.live[i]; x.live.erase(x.live.begin() + (long) i);
            embc_mblock_free(x.s(), x.mem->p + a.start * x.bs, a.size);
        }
        if (x.count) PBT_CHECK(embc_mblock_alloc_unsafe(x.s(), x.count * x.bs) == x.mem->p, "after freeing everything the whole region cannot be allocated");
        PBT_CHECK(!embc_mblock_alloc_unsafe(x.s(), 1), "memory left after the whole region was allocated");
        embc_mblock_finalize(x.s());
    }
    if (again && hard) t.nontrivial();
}
