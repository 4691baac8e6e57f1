// C02: intmap is a map from integers to pointers, at every size.
#include "pbt.hpp"
#include <map>
extern "C" {
#include "embc/collections/intmap.h"
#include "embc/ec.h"
// typed wrapper, instantiated in C02_shim.c
struct tmap_s;
struct tmap_s *tmap_new(void);
void tmap_free(struct tmap_s *);
embc_size_t tmap_length(struct tmap_s *);
int tmap_put(struct tmap_s *, embc_size_t key, embc_size_t value, embc_size_t *old_value);
int tmap_get(struct tmap_s *, embc_size_t key, embc_size_t *value);
int tmap_remove(struct tmap_s *, embc_size_t key, embc_size_t *old_value);
}
using pbt::Tape;

namespace {
struct Map {  // plain or typed
    bool typed; embc_intmap_s *p = 0; tmap_s *q = 0;
    explicit Map(bool ty) : typed(ty) { if (typed) q = tmap_new(); else p = embc_intmap_new(); }
    void release() { if (typed) tmap_free(q); else embc_intmap_free(p); }
    embc_size_t length() { return typed ? tmap_length(q) : embc_intmap_length(p); }
    int put(embc_size_t k, embc_size_t v, embc_size_t *o) { return typed ? tmap_put(q, k, v, o) : embc_intmap_put(p, k, (void *) v, (void **) o); }
    int get(embc_size_t k, embc_size_t *o) { return typed ? tmap_get(q, k, o) : embc_intmap_get(p, k, (void **) o); }
    int remove(embc_size_t k, embc_size_t *o) { return typed ? tmap_remove(q, k, o) : embc_intmap_remove(p, k, (void **) o); }
};
}

PBT_PROP("C02", 500000, 4000000,
         "random put/get/remove histories (plain and typed map, null out-pointers, colliding, negative and boundary keys, up to 700 keys so that "
         "the table grows up to three times, now and then up to 146000) compared with std::map after every operation and over the whole key pool at the end; "
         "non-trivial: at least 15 distinct keys were live at once, or a remove of a present key happened with 3 or more keys live") {
    Map m(t.chance(1, 4));
    std::map<embc_size_t, embc_size_t> ref;
    std::vector<embc_size_t> pool;
    // key generator: stride makes bin collisions
    embc_size_t base = t.oneof<embc_size_t>({0, 1, -5, 1000000007, (embc_size_t) 1 << 40, INTPTR_MIN, INTPTR_MAX - 70000});
    embc_size_t stride = t.oneof<embc_size_t>({1, 8, 32, 128, 512, 7, 9, 3, 16, 2048});
    unsigned span = t.oneof({6u, 20u, 40u, 90u, 300u, 700u});
    if (base == INTPTR_MAX - 70000) { if (stride > 64) stride = 64; }
    unsigned mean = t.oneof({10u, 40u, 150u, 600u});
    if (span < 40 && mean > 150) mean = 150;
    unsigned wput = t.oneof({4u, 8u, 20u}), wget = 3, wrem = t.oneof({1u, 3u});
    unsigned ops = 0; size_t peak = 0; bool removed = false;
    embc_size_t vnext = 1;
    auto key = [&]() -> embc_size_t {
        if (!pool.empty() && t.chance(1, 6)) return t.elem(pool);
        if (t.chance(1, 24)) return (embc_size_t) t.u(64);
        return (embc_size_t)((uint64_t) base + (uint64_t) stride * t.pick(span));
    };
    // now and then thousands of keys, so that the table grows further
    if (t.chance(1, 600)) {
        unsigned n = t.chance(1, 40) ? 66000 + (unsigned) t.pick(80000) : 700 + (unsigned) t.pick(4000); embc_size_t st = t.oneof<embc_size_t>({1, 3, 8, 2048}); if (n > 60000) st = st & 3 ? st : 1;
        t.heavy(); NOTE(t, "put %u keys from %lld by %lld", n, (long long) (base / 2), (long long) st);
        for (unsigned i = 0; i < n; ++i) {
            embc_size_t k = base / 2 + st * i, o = 9; auto it = ref.find(k);
            PBT_EQ(m.put(k, vnext, &o), 0, "put(%lld)", (long long) k);
            PBT_EQ(o, it == ref.end() ? 0 : it->second, "put(%lld): old value", (long long) k);
            ref[k] = vnext++;
        }
        PBT_EQ(m.length(), (embc_size_t) ref.size(), "length");
        unsigned keep = (unsigned) t.range(1, 9);
        NOTE(t, "remove all but each %uth", keep);
        for (unsigned i = 0; i < n; ++i) if (i % keep) {
            embc_size_t k = base / 2 + st * i, o = 9; auto it = ref.find(k);
            PBT_EQ(m.remove(k, &o), 0, "remove(%lld)", (long long) k);
            PBT_EQ(o, it->second, "remove(%lld): old value", (long long) k);
            ref.erase(it);
        }
        PBT_EQ(m.length(), (embc_size_t) ref.size(), "length");
        peak = n; removed = keep > 1; t.label(n > 60000 ? "more than 65000 keys" : "thousands of keys");
    }
    while (t.more(mean) && ops < 3000) {
        ++ops;
        unsigned op = t.weighted({wput, wget, wrem});
        embc_size_t k = key();
        bool out = !t.chance(1, 5);
        embc_size_t o = 0x5a5a5a5a;
        auto it = ref.find(k);
        if (op == 0) {
            embc_size_t v = t.chance(1, 10) ? 0 : vnext++;
            NOTE(t, "put(%lld, %lld)", (long long) k, (long long) v);
            PBT_EQ(m.put(k, v, out ? &o : 0), 0, "put(%lld)", (long long) k);
            if (out) PBT_EQ(o, it == ref.end() ? 0 : it->second, "put(%lld): old value", (long long) k);
            ref[k] = v; pool.push_back(k);
        } else if (op == 1) {
            NOTE(t, "get(%lld)", (long long) k);
            int rc = m.get(k, out ? &o : 0);
            PBT_EQ(rc, it == ref.end() ? (int) EMBC_ERROR_NOT_FOUND : 0, "get(%lld)", (long long) k);
            if (out) PBT_EQ(o, it == ref.end() ? 0 : it->second, "get(%lld): value", (long long) k);
        } else {
            NOTE(t, "remove(%lld)", (long long) k);
            if (it != ref.end() && ref.size() >= 3) removed = true;
            int rc = m.remove(k, out ? &o : 0);
            PBT_EQ(rc, it == ref.end() ? (int) EMBC_ERROR_NOT_FOUND : 0, "remove(%lld)", (long long) k);
            if (it != ref.end()) { if (out) PBT_EQ(o, it->second, "remove(%lld): old value", (long long) k); ref.erase(it); }
        }
        if (ref.size() > peak) peak = ref.size();
        PBT_EQ(m.length(), (embc_size_t) ref.size(), "length");
    }
    for (auto &e : ref) {
        embc_size_t o = 77;
        PBT_EQ(m.get(e.first, &o), 0, "final get(%lld)", (long long) e.first);
        PBT_EQ(o, e.second, "final value of %lld", (long long) e.first);
    }
    for (auto k : pool) if (!ref.count(k)) { embc_size_t o = 77; PBT_EQ(m.get(k, &o), (int) EMBC_ERROR_NOT_FOUND, "final get of removed %lld", (long long) k); }
    PBT_EQ(embc_intmap_length(0), 0, "length of no map");
    m.release();
    if (peak > 14) t.label("grown-once");
    if (peak > 62) t.label("grown-twice");
    if (peak > 254) t.label("grown-three-times");
    if (removed) t.label("removed");
    if (peak >= 15 || removed) t.nontrivial();
}
