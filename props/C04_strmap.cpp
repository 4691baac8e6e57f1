// C04: strmap is a map from strings to pointers; keys are copied.
#include "pbt.hpp"
#include <map>
extern "C" {
#include "embc/collections/strmap.h"
}
using pbt::Tape;

static std::string gen_key(Tape &t, std::vector<std::string> &pool) {
    if (!pool.empty() && t.chance(1, 3)) {
        std::string s = t.elem(pool);
        switch (t.pick(4)) {
            case 0: return s;
            case 1: if (!s.empty()) s.pop_back(); return s;
            case 2: return s + (char) ('a' + t.pick(26));
            default: if (!s.empty()) { size_t i = t.pick(s.size()); s[i] = (char) (s[i] ^ 1); if (!s[i]) s[i] = 'x'; } return s;
        }
    }
    std::string s;
    if (t.chance(1, 150)) {   // long keys that differ at one place only
        size_t n = t.chance(1, 20) ? 65530 + t.pick(20) : t.oneof<size_t>({254, 255, 256, 257, 1000}); s.assign(n, 'k'); s[t.flip() ? t.pick(n) : n - 1] = (char) ('a' + t.pick(3)); return s;
    }
    switch (t.pick(4)) {
        case 0: {  // equal djb2 hashes: "Az" and "BY" blocks
            if (t.chance(1, 12)) s.assign(t.oneof<size_t>({3, 16, 31, 62, 64, 127, 253, 255, 256, 1000}), 'p');   // long common prefix
            size_t n = t.range(1, 4);
            for (size_t i = 0; i < n; ++i) s += t.flip() ? "Az" : "BY";
            return s;
        }
        case 1: { size_t n = t.pick(4); for (size_t i = 0; i < n; ++i) s += (char) ('a' + t.pick(3)); return s; }
        case 2: { size_t n = t.oneof<size_t>({0, 1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 40, 200}); for (size_t i = 0; i < n; ++i) s += (char) t.range(1, 255); return s; }
        default: { char b[16]; snprintf(b, 16, "key%u", (unsigned) t.pick(400)); return b; }
    }
}

PBT_PROP("C04", 400000, 10000000,
         "random put/get/remove histories over strings (empty, long, prefix-related, one-bit-apart, equal-hash, bytes above 127), every key passed in "
         "an exact-size buffer that is overwritten and freed after the call, compared with std::map; non-trivial: 3 or more keys live at once and "
         "a remove of a present key or an overwrite happened") {
    embc_strmap_s *m = embc_strmap_new();
    std::map<std::string, void *> ref;
    std::vector<std::string> pool;
    unsigned mean = t.oneof({8u, 30u, 150u}), ops = 0; size_t peak = 0; bool changed = false;
    uintptr_t vn = 1;
    if (t.chance(1, 500)) {   // thousands of keys
        unsigned n = t.chance(1, 40) ? t.oneof({20000u, 70000u}) : 200 + (unsigned) t.pick(3000), keep = (unsigned) t.range(1, 9);
        t.heavy(); NOTE(t, "put %u keys, remove all but each %uth", n, keep); t.label("thousands of keys");
        for (unsigned i = 0; i < n; ++i) {
            std::string k = "key" + std::to_string(i); void *o = (void *) 5;
            PBT_EQ(embc_strmap_put(m, k.c_str(), (void *) vn, &o), 0, "put"); PBT_CHECK(o == 0, "put(%s): old value %p", k.c_str(), o); ref[k] = (void *) vn++;
        }
        for (unsigned i = 0; i < n; ++i) if (i % keep) {
            std::string k = "key" + std::to_string(i); void *o = (void *) 5;
            PBT_EQ(embc_strmap_remove(m, k.c_str(), &o), 0, "remove"); PBT_CHECK(o == ref[k], "remove(%s): value %p", k.c_str(), o); ref.erase(k);
        }
        PBT_EQ(embc_strmap_length(m), (embc_size_t) ref.size(), "length");
        for (unsigned i = 0; i < n; i += 1 + n / 2000) {
            std::string k = "key" + std::to_string(i); void *o = (void *) 5; bool in = ref.count(k);
            PBT_CHECK((embc_strmap_get(m, k.c_str(), &o) == 0) == in && o == (in ? ref[k] : 0), "get(%s) after the bulk: %p", k.c_str(), o);
        }
        peak = n; changed = keep > 1;
    }
    while (t.more(mean) && ops++ < 1000) {
        std::string k = gen_key(t, pool);
        auto *buf = new pbt::Exact(k.c_str(), k.size() + 1);
        bool out = !t.chance(1, 5);
        void *o = (void *) 0x5a5a;
        auto it = ref.find(k);
        switch (t.weighted({4, 3, 2})) {
            case 0: {
                void *v = t.chance(1, 10) ? 0 : (void *) vn++;
                NOTE(t, "put(%s, %p)", pbt::quote(k).c_str(), v);
                PBT_EQ(embc_strmap_put(m, buf->c(), v, out ? &o : 0), 0, "put");
                if (out) PBT_CHECK(o == (it == ref.end() ? 0 : it->second), "put(%s): old value %p", pbt::quote(k).c_str(), o);
                if (it != ref.end()) changed = true;
                ref[k] = v; pool.push_back(k);
                break;
            }
            case 1: {
                NOTE(t, "get(%s)", pbt::quote(k).c_str());
                int rc = embc_strmap_get(m, buf->c(), out ? &o : 0);
                PBT_CHECK((rc == 0) == (it != ref.end()), "get(%s) returned %d", pbt::quote(k).c_str(), rc);
                if (out) PBT_CHECK(o == (it == ref.end() ? 0 : it->second), "get(%s): value %p", pbt::quote(k).c_str(), o);
                break;
            }
            default: {
                NOTE(t, "remove(%s)", pbt::quote(k).c_str());
                int rc = embc_strmap_remove(m, buf->c(), out ? &o : 0);
                PBT_CHECK((rc == 0) == (it != ref.end()), "remove(%s) returned %d", pbt::quote(k).c_str(), rc);
                if (it != ref.end()) {
                    if (out) PBT_CHECK(o == it->second, "remove(%s): value %p", pbt::quote(k).c_str(), o);
                    if (ref.size() >= 3) changed = true;
                    ref.erase(it);
                }
            }
        }
        memset(buf->p, 'Z', buf->n);  // the map must hold its own copy of the key
        delete buf;
        peak = std::max(peak, ref.size());
        PBT_EQ(embc_strmap_length(m), (embc_size_t) ref.size(), "length");
    }
    for (auto &k : pool) {
        void *o = (void *) 1; auto it = ref.find(k);
        pbt::Exact b(k.c_str(), k.size() + 1);
        int rc = embc_strmap_get(m, b.c(), &o);
        PBT_CHECK((rc == 0) == (it != ref.end()), "final get(%s) returned %d", pbt::quote(k).c_str(), rc);
        PBT_CHECK(o == (it == ref.end() ? 0 : it->second), "final get(%s): value %p", pbt::quote(k).c_str(), o);
    }
    PBT_EQ(embc_strmap_length(0), 0, "length of no map");
    embc_strmap_free(m);
    if (peak > 64) t.label("more-keys-than-bins");
    if (changed) t.label("overwrite-or-remove");
    if (peak >= 3 && changed) t.nontrivial();
}
