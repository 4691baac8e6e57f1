// C13: size-classed buffer allocator against per-class counts.
#include "pbt.hpp"
#include <memory>
#include <set>
extern "C" {
#include "embc/memory/buffer.h"
}
using pbt::Tape; using pbt::Exact;
struct Inst {
    std::vector<embc_size_t> sizes; std::unique_ptr<Exact> mem; embc_buffer_allocator_s *a; uint8_t *lo, *hi;
    std::vector<int> used;
};
struct Live { embc_buffer_s *b; unsigned inst, cls; uint8_t fill; };
struct Wrap { embc_buffer_manager_s m; embc_buffer_manager_s const *orig; unsigned calls; embc_buffer_s *last; };
static Wrap wrap_;
static void wrap_free(embc_buffer_manager_s const *self, embc_buffer_s *b) {
    PBT_CHECK(self == &wrap_.m, "free called with another manager");
    ++wrap_.calls; wrap_.last = b; b->manager = wrap_.orig; embc_buffer_free(b);
}
static int cls_of(embc_size_t size) { int c = 0; while ((32 << c) < size) ++c; return c; }

PBT_PROP("C13", 450000, 12000000,
         "one or two buffer allocators with 1..8 (up to 11) size classes of 0..4 buffers each (caller memory of exactly the reported size, or _new), "
         "histories of alloc / alloc_unsafe / free (also through a wrapped manager and from lists) with sizes around the class limits; oracle: per-class "
         "counts, capacity, address disjointness, contents and fresh state; non-trivial: a class was exhausted and reused") {
    pbt::Heap::install();
    std::vector<Inst> v(1 + t.pick(2));
    for (auto &x : v) {
        unsigned n = t.chance(1, 12) ? (unsigned) t.range(9, 11) : (unsigned) t.range(1, 8);
        for (unsigned i = 0; i < n; ++i) x.sizes.push_back((embc_size_t) (t.chance(1, 5) ? 0 : t.range(1, i > 5 ? 2 : 4)));
        if (t.chance(1, 300)) { x.sizes[0] = t.chance(1, 30) ? 65530 + (embc_size_t) t.pick(20) : 200 + (embc_size_t) t.pick(200); t.heavy(); t.label("many buffers"); }
        x.used.assign(n, 0);
        Exact sz(x.sizes.data(), n * sizeof(embc_size_t));
        embc_size_t total = embc_buffer_allocator_instance_size((embc_size_t *) sz.p, (embc_size_t) n), want = 0;
        for (unsigned i = 0; i < n; ++i) want += x.sizes[i] * (embc_size_t) ((32 << i) + sizeof(embc_buffer_s));
        PBT_CHECK(total >= want && total < want + 64 + (embc_size_t) n * 200, "instance size %d", (int) total);
        if (t.chance(1, 3)) { x.a = embc_buffer_allocator_new((embc_size_t *) sz.p, (embc_size_t) n); x.lo = (uint8_t *) x.a; }
        else { x.mem.reset(new Exact((size_t) total)); memset(x.mem->p, 0xa5, (size_t) total); x.lo = x.mem->p; x.a = (embc_buffer_allocator_s *) x.lo;
               embc_buffer_allocator_initialize(x.a, (embc_size_t *) sz.p, (embc_size_t) n); }
        x.hi = x.lo + total;
        if (t.tracing) { std::string s; for (auto k : x.sizes) s += " " + std::to_string((int) k); t.note("allocator %d: counts per class%s", (int) (&x - &v[0]), s.c_str()); }
    }
    std::vector<Live> live; unsigned mean = t.oneof({10u, 40u, 150u}), ops = 0; bool exhausted = false, reused = false;
    std::set<embc_buffer_s *> seen; unsigned bias = (unsigned) t.range(3, 7);
    for (auto &x : v) if (x.sizes[0] > 100) {   // take many buffers of one class and give them back
        std::vector<embc_buffer_s *> all; std::set<uint8_t *> at; int left = (int) t.pick(4);
        NOTE(t, "[%d] alloc and free %d buffers of the first class", (int) (&x - &v[0]), (int) x.sizes[0] - left);
        for (int i = 0; i < x.sizes[0] - left; ++i) {
            embc_buffer_s *b = embc_buffer_alloc_unsafe(x.a, 1 + i % 32);
            PBT_CHECK(b, "alloc failed with %d of %d buffers of the class in use", i, (int) x.sizes[0]);
            PBT_CHECK((uint8_t *) b >= x.lo && b->data + 32 <= x.hi && b->data >= x.lo, "buffer outside the allocator's memory");
            PBT_EQ((int) b->capacity, 32, "capacity");
            PBT_CHECK(at.insert(b->data).second, "a buffer was handed out twice");
            memset(b->data, i, 32); all.push_back(b);
        }
        for (size_t i = 0; i < all.size(); ++i) for (int k = 0; k < 32; ++k) PBT_CHECK(all[i]->data[k] == (uint8_t) i, "byte %d of a live buffer changed", k);
        if (!left) PBT_CHECK(!embc_buffer_alloc_unsafe(x.a, 32), "a buffer came from an exhausted class");
        for (auto *b : all) embc_buffer_free(b);
    }
    while (t.more(mean) && ops++ < 700) {
        if (t.pick(bias + 3) < bias) {
            unsigned w = (unsigned) t.pick(v.size()); Inst &x = v[w]; int n = (int) x.sizes.size();
            embc_size_t size;
            switch (t.weighted({5, 5, 2, 1})) {
                case 0: size = (embc_size_t) t.range(1, 40); break;
                case 1: size = (embc_size_t) (32 << t.pick((uint64_t) n)) + (embc_size_t) t.pick(4) - 2; break;
                case 2: size = (embc_size_t) t.range(1, (uint64_t) (32 << (n - 1))); break;
                default: size = t.oneof<embc_size_t>({0, -1, (embc_size_t) (32 << (n - 1)) + 1, (embc_size_t) (32 << n), (embc_size_t) (32 << n) + 1, 65536, 1 << 20, INT32_MAX, INT32_MIN});
            }
            bool unsafe = t.flip(), fatal = false; embc_buffer_s *b = 0;
            try { b = unsafe ? embc_buffer_alloc_unsafe(x.a, size) : embc_buffer_alloc(x.a, size); } catch (pbt::Fatal &) { fatal = true; }
            NOTE(t, "[%u] alloc%s(%lld) -> %s", w, unsafe ? "_unsafe" : "", (long long) size, fatal ? "fatal" : b ? "buffer" : "null");
            if (size <= 0 || size > (32 << (n - 1))) {
                PBT_CHECK(!b, "alloc(%lld) returned a buffer though the classes hold 1 to %d bytes", (long long) size, 32 << (n - 1));
                PBT_CHECK(unsafe || fatal, "alloc(%lld) returned instead of being fatal", (long long) size);
                t.label("size out of range"); continue;
            }
            int c = cls_of(size); Inst *px = &x;
            if (x.used[(size_t) c] == x.sizes[(size_t) c]) {
                if (x.sizes[(size_t) c]) exhausted = true;
                PBT_CHECK(!b && fatal == !unsafe, "alloc%s(%lld) from an exhausted class: %s", unsafe ? "_unsafe" : "", (long long) size, b ? "returned a buffer" : fatal ? "was fatal" : "returned");
                continue;
            }
            PBT_CHECK(b && !fatal, "alloc(%lld) failed with %d of %d buffers of the class in use", (long long) size, x.used[(size_t) c], (int) x.sizes[(size_t) c]);
            PBT_EQ((int) b->capacity, 32 << c, "capacity for size %lld", (long long) size);
            PBT_CHECK(embc_buffer_capacity(b) >= size, "capacity below the requested size");
            PBT_CHECK((uint8_t *) b >= px->lo && (uint8_t *) (b + 1) <= px->hi && b->data >= px->lo && b->data + b->capacity <= px->hi, "buffer outside the allocator's memory");
            PBT_EQ((int) b->length, 0, "length of a new buffer"); PBT_EQ((int) b->cursor, 0, "cursor of a new buffer"); PBT_EQ((int) b->reserve, 0, "reserve of a new buffer");
            PBT_EQ((int) b->buffer_id, 0, "buffer_id of a new buffer"); PBT_EQ((int) b->flags, 0, "flags of a new buffer");
            PBT_CHECK(embc_list_is_empty(&b->item), "a new buffer is still linked in a list");
            uint8_t *s1 = (uint8_t *) b, *e1 = (uint8_t *) (b + 1), *s2 = b->data, *e2 = s2 + b->capacity;
            for (auto &l : live) {
                uint8_t *r[2][2] = {{(uint8_t *) l.b, (uint8_t *) (l.b + 1)}, {l.b->data, l.b->data + l.b->capacity}};
                for (auto &k : r) PBT_CHECK((e1 <= k[0] || k[1] <= s1) && (e2 <= k[0] || k[1] <= s2), "a new buffer overlaps a live one");
            }
            PBT_CHECK(e1 <= s2 || e2 <= s1, "buffer data overlaps its header");
            if (!seen.insert(b).second) reused = true;
            ++x.used[(size_t) c];
            Live l = {b, w, (unsigned) c, (uint8_t) (ops * 3 + 1)};
            memset(b->data, l.fill, b->capacity);
            if (t.flip()) { b->length = b->capacity; b->cursor = (uint16_t) t.pick(b->capacity); b->flags = 0xffff; b->buffer_id = 77; b->reserve = 3; }
            live.push_back(l);
        } else if (!live.empty()) {
            size_t i = t.pick(live.size()); Live l = live[i]; live.erase(live.begin() + (long) i);
            for (int k = 0; k < l.b->capacity; ++k) PBT_CHECK(l.b->data[k] == l.fill, "byte %d of a live buffer changed", k);
            PBT_EQ((int) l.b->capacity, 32 << l.cls, "capacity of a live buffer");
            unsigned how = (unsigned) t.pick(3);
            NOTE(t, "[%u] free(class %u)%s", l.inst, l.cls, how == 1 ? " through a wrapped manager" : how == 2 ? " from a list" : "");
            if (how == 1) {
                wrap_ = {{wrap_free}, l.b->manager, 0, 0}; l.b->manager = &wrap_.m;
                embc_buffer_free(l.b);
                PBT_CHECK(wrap_.calls == 1 && wrap_.last == l.b, "the wrapped manager was called %u times", wrap_.calls);
            } else if (how == 2) {
                embc_list_s head; embc_list_initialize(&head); embc_list_add_tail(&head, &l.b->item);
                embc_list_s *it = embc_list_remove_head(&head);
                PBT_CHECK(embc_list_entry(it, embc_buffer_s, item) == l.b, "list"); embc_buffer_free(l.b);
            } else embc_buffer_free(l.b);
            --v[l.inst].used[l.cls];
        }
    }
    for (auto &l : live) for (int k = 0; k < l.b->capacity; ++k) PBT_CHECK(l.b->data[k] == l.fill, "byte %d of a live buffer changed", k);
    for (auto &x : v) {
        for (unsigned c = 0; c < x.sizes.size(); ++c) {
            int n = x.used[c]; while (embc_buffer_alloc_unsafe(x.a, 32 << c)) PBT_CHECK(++n <= x.sizes[c], "more buffers of class %u than configured", c);
            PBT_EQ(n, (int) x.sizes[c], "buffers obtainable of class %u", c);
        }
        embc_buffer_allocator_finalize(x.a);
    }
    if (exhausted && reused) t.nontrivial();
}
