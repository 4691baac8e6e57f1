// C05: hashmap maps keys to values under caller-supplied hash and equivalence.
#include "pbt.hpp"
#include <map>
extern "C" {
#include "embc/collections/hashmap.h"
#include "embc/ec.h"
}
using pbt::Tape;
namespace {
struct Key { int ident; unsigned tag; };
unsigned hmode;
int nhash, nequiv;
embc_size_t khash(void *p) {
    Key *k = (Key *) p; ++nhash;
    switch (hmode) {
        case 0: return k->ident;                       // spread
        case 1: return 42;                             // all equal
        case 2: return k->ident % 3;                   // many equal
        case 3: return (embc_size_t) k->ident * 8;     // same bin, different hash
        case 4: return -1 - (embc_size_t) k->ident;    // negative
        default: return (embc_size_t) (0x9e3779b97f4a7c15ull * (k->ident + 1));
    }
}
bool kequiv(void *a, void *b) { ++nequiv; return ((Key *) a)->ident == ((Key *) b)->ident; }
}
PBT_PROP("C05", 600000, 12000000,
         "random put/get histories with equivalent-but-distinct key objects and six hash functions (spread, constant, few values, one bin, negative, "
         "mixed), compared with std::map on the key identity; non-trivial: 3 or more keys live and an overwrite or a lookup through a second key object") {
    hmode = (unsigned) t.pick(6);
    static Key keys[2][128], many[70000];
    for (int c = 0; c < 2; ++c) for (int i = 0; i < 128; ++i) keys[c][i] = {i, (unsigned) c};
    PBT_CHECK(embc_hashmap_new(0, kequiv) == 0 && embc_hashmap_new(khash, 0) == 0, "a hashmap without hash or equivalence was created");
    embc_hashmap_s *m = embc_hashmap_new(khash, kequiv);
    PBT_CHECK(m != 0, "new returned null");
    std::map<int, void *> ref;
    unsigned span = t.oneof({4u, 12u, 40u, 128u}), mean = t.oneof({8u, 40u, 120u}), ops = 0; uintptr_t vn = 1; bool over = false;
    if (t.chance(1, 600)) {   // thousands of keys
        int n = t.chance(1, 40) && (hmode == 0 || hmode >= 4) ? t.oneof({20000, 70000}) : 200 + (int) t.pick(2000);
        t.heavy(); NOTE(t, "put keys 128 to %d", 128 + n); t.label("thousands of keys");
        for (int i = 0; i < n; ++i) {
            many[i] = {128 + i, 0}; void *o = (void *) 5;
            PBT_EQ(embc_hashmap_put(m, &many[i], (void *) vn, &o), 0, "put"); PBT_CHECK(o == 0, "put(%d): old value %p", 128 + i, o); ref[128 + i] = (void *) vn++;
        }
        PBT_EQ(embc_hashmap_length(m), (embc_size_t) ref.size(), "length");
        for (int i = 0; i < n; i += 1 + n / 2000) {
            Key k = {128 + i, 1}; void *o = (void *) 5;
            PBT_EQ(embc_hashmap_get(m, &k, &o), 0, "get(%d)", 128 + i); PBT_CHECK(o == ref[128 + i], "get(%d): value %p", 128 + i, o);
        }
    }
    while (t.more(mean) && ops++ < 600) {
        int id = (int) t.pick(span); void *k = &keys[t.pick(2)][id];
        bool out = !t.chance(1, 5);
        void *o = (void *) 0x77;
        auto it = ref.find(id);
        if (t.pick(5) < 3) {
            void *v = t.chance(1, 10) ? 0 : (void *) vn++;
            NOTE(t, "put(%d, %p)", id, v);
            PBT_EQ(embc_hashmap_put(m, k, v, out ? &o : 0), 0, "put(%d)", id);
            if (out) PBT_CHECK(o == (it == ref.end() ? 0 : it->second), "put(%d): old value %p", id, o);
            if (it != ref.end()) over = true;
            ref[id] = v;
        } else {
            NOTE(t, "get(%d)", id);
            PBT_EQ(embc_hashmap_get(m, k, out ? &o : 0), it == ref.end() ? (int) EMBC_ERROR_NOT_FOUND : 0, "get(%d)", id);
            if (out) PBT_CHECK(o == (it == ref.end() ? 0 : it->second), "get(%d): value %p", id, o);
        }
        PBT_EQ(embc_hashmap_length(m), (embc_size_t) ref.size(), "length");
    }
    for (int id = 0; id < 128; ++id) {
        void *o = (void *) 3; auto it = ref.find(id);
        PBT_EQ(embc_hashmap_get(m, &keys[1][id], &o), it == ref.end() ? (int) EMBC_ERROR_NOT_FOUND : 0, "final get(%d)", id);
        PBT_CHECK(o == (it == ref.end() ? 0 : it->second), "final get(%d): value %p", id, o);
    }
    PBT_EQ(embc_hashmap_length(0), 0, "length of no map");
    embc_hashmap_free(m);
    if (ref.size() >= 3 && over) t.nontrivial();
    if (ref.size() > 16) t.label("deep-bins");
}
