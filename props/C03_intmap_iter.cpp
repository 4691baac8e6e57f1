// C03: intmap iterators: every key that stays is visited exactly once, removed
// keys are not visited, iteration ends, also under concurrent put and remove.
#include "pbt.hpp"
#include <map>
#include <memory>
#include <set>
extern "C" {
#include "embc/collections/intmap.h"
#include "embc/ec.h"
struct tmap_s; struct tmap_iterator_s;
struct tmap_s *tmap_new(void);
void tmap_free(struct tmap_s *);
int tmap_put(struct tmap_s *, embc_size_t key, embc_size_t value, embc_size_t *old_value);
int tmap_get(struct tmap_s *, embc_size_t key, embc_size_t *value);
int tmap_remove(struct tmap_s *, embc_size_t key, embc_size_t *old_value);
struct tmap_iterator_s *tmap_iterator_new(struct tmap_s *);
int tmap_iterator_next(struct tmap_iterator_s *, embc_size_t *key, embc_size_t *value);
void tmap_iterator_free(struct tmap_iterator_s *);
}
using pbt::Tape;
namespace {
struct Map {
    bool typed; embc_intmap_s *p = 0; tmap_s *q = 0;
    explicit Map(bool ty) : typed(ty) { if (typed) q = tmap_new(); else p = embc_intmap_new(); }
    void release() { if (typed) tmap_free(q); else embc_intmap_free(p); }
    int put(embc_size_t k, embc_size_t v) { return typed ? tmap_put(q, k, v, 0) : embc_intmap_put(p, k, (void *) v, 0); }
    int get(embc_size_t k, embc_size_t *o) { return typed ? tmap_get(q, k, o) : embc_intmap_get(p, k, (void **) o); }
    int remove(embc_size_t k) { return typed ? tmap_remove(q, k, 0) : embc_intmap_remove(p, k, 0); }
    void *iter() { return typed ? (void *) tmap_iterator_new(q) : (void *) embc_intmap_iterator_new(p); }
    int next(void *i, embc_size_t *k, embc_size_t *v) { return typed ? tmap_iterator_next((tmap_iterator_s *) i, k, v) : embc_intmap_iterator_next((embc_intmap_iterator_s *) i, k, (void **) v); }
    void iter_free(void *i) { if (typed) tmap_iterator_free((tmap_iterator_s *) i); else embc_intmap_iterator_free((embc_intmap_iterator_s *) i); }
};
struct It { void *p; std::map<embc_size_t, int> visits; std::set<embc_size_t> start, touched, all; bool ended = false; size_t yields = 0; size_t bound = 0; };
}

PBT_PROP("C03", 400000, 10000000,
         "random interleavings of up to three live iterators with put, remove and get on one intmap (colliding keys, keys in the last bin, growth "
         "before and after the iterators live); oracle per iterator: yields only present keys with their present value, never twice unless the "
         "key was removed and re-added, all keys present throughout are yielded before the end, and the end comes; non-trivial: at least 2 keys and "
         "a remove or put happened while an iterator was part-way") {
    Map m(t.chance(1, 4));
    std::map<embc_size_t, embc_size_t> ref;
    embc_size_t stride = t.oneof<embc_size_t>({1, 8, 7, 32, 128});
    unsigned span = t.oneof({5u, 9u, 16u, 40u, 100u});
    embc_size_t off = t.oneof<embc_size_t>({0, 7, 31, -3});
    auto key = [&]() -> embc_size_t { return off + stride * (embc_size_t) t.pick(span); };
    embc_size_t v = 1;
    unsigned pre = (unsigned) t.pick(span + 1);
    for (unsigned i = 0; i < pre; ++i) { embc_size_t k = key(); NOTE(t, "put(%lld)", (long long) k); m.put(k, v); ref[k] = v++; }
    if (t.chance(1, 2000)) {
        unsigned n = t.chance(1, 40) ? t.oneof({30000u, 70000u}) : 300 + (unsigned) t.pick(3000); embc_size_t st = n > 60000 ? 1 : stride;
        t.heavy(); NOTE(t, "put %u keys", n); t.label("thousands of keys");
        for (unsigned i = 0; i < n; ++i) { embc_size_t k = off + st * (embc_size_t) i; m.put(k, v); ref[k] = v++; }
    }
    std::vector<std::unique_ptr<It>> its;
    bool interleaved = false;
    auto do_next = [&](It &it) {
        embc_size_t k = -99, val = -99;
        int rc = m.next(it.p, &k, &val);
        if (rc) {
            PBT_EQ(rc, (int) EMBC_ERROR_NOT_FOUND, "iterator end code");
            NOTE(t, "next -> end");
            if (!it.ended) {
                it.ended = true;
                for (auto s : it.start)
                    if (!it.touched.count(s)) PBT_CHECK(it.visits[s] == 1, "key %lld was present throughout and was visited %d times", (long long) s, it.visits[s]);
            }
            return false;
        }
        NOTE(t, "next -> %lld", (long long) k);
        auto f = ref.find(k);
        PBT_CHECK(f != ref.end(), "iterator yielded %lld, which is not in the map", (long long) k);
        PBT_CHECK(f->second == val, "iterator yielded %lld with value %lld, the map holds %lld", (long long) k, (long long) val, (long long) f->second);
        int n = ++it.visits[k];
        if (!it.touched.count(k)) PBT_CHECK(n == 1, "iterator yielded %lld %d times", (long long) k, n);
        PBT_CHECK(++it.yields <= it.bound + 1, "iterator yielded %zu items, only %zu could exist: it does not end", it.yields, it.bound);
        return true;
    };
    unsigned ops = 0;
    unsigned mean = t.oneof({8u, 25u, 80u});
    while (t.more(mean) && ops++ < 400) {
        switch (t.weighted({5, 2, 2, 2, 1, 1})) {
            case 0:
                if (!its.empty()) do_next(*t.elem(its));
                break;
            case 1: {
                embc_size_t k = key();
                NOTE(t, "put(%lld)", (long long) k);
                PBT_EQ(m.put(k, v), 0, "put");
                bool fresh = !ref.count(k);
                ref[k] = v++;
                for (auto &i : its) { if (fresh) { i->touched.insert(k); i->bound++; } if (!i->ended && i->yields) interleaved = true; }
                break;
            }
            case 2: {
                embc_size_t k = key();
                // often take a present key
                if (!ref.empty() && t.flip()) { auto it = ref.begin(); std::advance(it, t.pick(ref.size())); k = it->first; }
                NOTE(t, "remove(%lld)", (long long) k);
                bool had = ref.erase(k) > 0;
                PBT_EQ(m.remove(k), had ? 0 : (int) EMBC_ERROR_NOT_FOUND, "remove(%lld)", (long long) k);
                if (had) for (auto &i : its) { i->touched.insert(k); if (!i->ended && i->yields) interleaved = true; }
                break;
            }
            case 3:
                if (its.size() < 3) {
                    its.emplace_back(new It); its.back()->p = m.iter(); its.back()->bound = ref.size();
                    for (auto &e : ref) its.back()->start.insert(e.first);
                    NOTE(t, "iterator %zu", its.size());
                }
                break;
            case 4:
                if (!its.empty()) { size_t j = t.pick(its.size()); NOTE(t, "free iterator"); m.iter_free(its[j]->p); its.erase(its.begin() + j); }
                break;
            default: {
                embc_size_t k = key(), o = 5;
                int rc = m.get(k, &o);
                PBT_EQ(rc, ref.count(k) ? 0 : (int) EMBC_ERROR_NOT_FOUND, "get(%lld)", (long long) k);
                if (ref.count(k)) PBT_EQ(o, ref[k], "value of %lld", (long long) k);
            }
        }
    }
    // drive every iterator to its end, and once more
    for (auto &i : its) { while (do_next(*i)) {} do_next(*i); m.iter_free(i->p); }
    // a fresh iterator over the final contents
    It last; last.p = m.iter(); last.bound = ref.size();
    for (auto &e : ref) last.start.insert(e.first);
    while (do_next(last)) {}
    m.iter_free(last.p);
    m.release();
    if (ref.size() > 14) t.label("grown");
    if (interleaved) t.label("interleaved");
    if (pre >= 2 && interleaved) t.nontrivial();
}
