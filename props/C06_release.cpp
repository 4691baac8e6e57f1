// C06: containers and the event manager give back every block they took.
#include "pbt.hpp"
#include <map>
#include <set>
extern "C" {
#include "embc/collections/intmap.h"
#include "embc/collections/strmap.h"
#include "embc/collections/hashmap.h"
#include "embc/event_manager.h"
struct tmap_s; struct tmap_iterator_s;
struct tmap_s *tmap_new(void);
void tmap_free(struct tmap_s *);
int tmap_put(struct tmap_s *, embc_size_t key, embc_size_t value, embc_size_t *old_value);
int tmap_remove(struct tmap_s *, embc_size_t key, embc_size_t *old_value);
struct tmap_iterator_s *tmap_iterator_new(struct tmap_s *);
int tmap_iterator_next(struct tmap_iterator_s *, embc_size_t *key, embc_size_t *value);
void tmap_iterator_free(struct tmap_iterator_s *);
}
using pbt::Tape; using pbt::Watch; using pbt::Unwatch;
static bool spread;
static embc_size_t khash(void *p) { return (embc_size_t) (uintptr_t) p % (spread ? 1000003 : 11); }
static bool kequiv(void *a, void *b) { return a == b; }
static void evcbk(void *, int32_t) {}
#define LIB(x) ([&] { Watch w_; return (x); }())

PBT_PROP("C06", 300000, 8000000,
         "random histories on intmap (plain and typed, with iterators), strmap, hashmap or the event manager, counting every heap block the library "
         "takes (embc_alloc and malloc); after the matching free no block may remain, and while alive the blocks held stay within a constant factor "
         "of the peak of live elements; non-trivial: 10 or more operations that took blocks and at least one removal or growth") {
    pbt::watched_reset();
    unsigned kind = (unsigned) t.pick(5);
    unsigned mean = t.oneof({10u, 40u, 200u}), ops = 0, span = t.oneof({5u, 30u, 200u}), took = 0, gave = 0;
    size_t n = 0, peak_iters = 0, peak_n = 0;
    auto bound = [&](const char *what) {
        size_t lim = 4 * (peak_n + peak_iters) + 16;
        PBT_CHECK(pbt::watched_live() <= lim, "%s with at most %zu elements and %zu iterators alive at once holds %zu blocks: removed elements are not released",
                  what, peak_n, peak_iters, pbt::watched_live());
    };
    // now and then thousands of elements
    unsigned many = t.chance(1, 3000) ? t.chance(1, 4) ? 66000 + (unsigned) t.pick(3000) : 300 + (unsigned) t.pick(4000) : 0;
    spread = many != 0;
    if (many) { t.heavy(); NOTE(t, "%u elements", many); t.label("thousands of elements"); }
    if (kind <= 1) {
        embc_intmap_s *p = 0; tmap_s *q = 0;
        if (kind) q = LIB(tmap_new()); else p = LIB(embc_intmap_new());
        std::set<embc_size_t> ref; std::vector<void *> its;
        embc_size_t stride = t.oneof<embc_size_t>({1, 8, 32});
        for (unsigned i = 0; i < many; ++i) { LIB(kind ? tmap_put(q, i, i, 0) : embc_intmap_put(p, i, (void *) (uintptr_t) i, 0)); ref.insert(i); ++took; }
        if (many && t.flip()) for (unsigned i = 0; i < many; i += 2) { LIB(kind ? tmap_remove(q, i, 0) : embc_intmap_remove(p, i, 0)); ref.erase(i); ++gave; }
        peak_n = std::max<size_t>(ref.size(), many);
        while (t.more(mean) && ops++ < 1200) {
            embc_size_t k = (embc_size_t) t.pick(span) * stride, v;
            switch (t.weighted({6, 3, 1, 2, 1})) {
                case 0: NOTE(t, "put(%lld)", (long long) k); LIB(kind ? tmap_put(q, k, k, 0) : embc_intmap_put(p, k, (void *) k, 0)); ref.insert(k); ++took; break;
                case 1: NOTE(t, "remove(%lld)", (long long) k); LIB(kind ? tmap_remove(q, k, 0) : embc_intmap_remove(p, k, 0)); gave += (unsigned) ref.erase(k); break;
                case 2: if (its.size() < 4) { NOTE(t, "iterator"); its.push_back(LIB(kind ? (void *) tmap_iterator_new(q) : (void *) embc_intmap_iterator_new(p))); } break;
                case 3: if (!its.empty()) { NOTE(t, "next"); void *i = t.elem(its); kind ? tmap_iterator_next((tmap_iterator_s *) i, &k, &v) : embc_intmap_iterator_next((embc_intmap_iterator_s *) i, &k, (void **) &v); } break;
                default: if (!its.empty()) { NOTE(t, "iterator free"); void *i = its.back(); its.pop_back(); kind ? tmap_iterator_free((tmap_iterator_s *) i) : embc_intmap_iterator_free((embc_intmap_iterator_s *) i); ++gave; }
            }
            peak_iters = std::max(peak_iters, its.size()); peak_n = std::max(peak_n, ref.size());
            bound("an intmap");
        }
        for (void *i : its) kind ? tmap_iterator_free((tmap_iterator_s *) i) : embc_intmap_iterator_free((embc_intmap_iterator_s *) i);
        if (ref.size() > 14) { ++gave; t.label("grown"); }
        NOTE(t, "free with %zu keys", ref.size());
        if (kind) tmap_free(q); else embc_intmap_free(p);
    } else if (kind == 2) {
        embc_strmap_s *m = LIB(embc_strmap_new()); std::set<std::string> ref;
        for (unsigned i = 0; i < many; ++i) { std::string k = "m" + std::to_string(i); LIB(embc_strmap_put(m, k.c_str(), m, 0)); ref.insert(k); ++took; }
        peak_n = many;
        while (t.more(mean) && ops++ < 600) {
            std::string k = "k" + std::to_string(t.pick(span)) + std::string(t.pick(2) * t.pick(40), 'x');
            if (t.pick(3) < 2) { NOTE(t, "put(%s)", k.c_str()); LIB(embc_strmap_put(m, k.c_str(), m, 0)); ref.insert(k); ++took; }
            else { NOTE(t, "remove(%s)", k.c_str()); LIB(embc_strmap_remove(m, k.c_str(), 0)); gave += (unsigned) ref.erase(k); }
            peak_n = std::max(peak_n, ref.size()); bound("a strmap");
        }
        embc_strmap_free(m);
    } else if (kind == 3) {
        embc_hashmap_s *m = LIB(embc_hashmap_new(khash, kequiv)); std::set<uintptr_t> ref;
        for (unsigned i = 0; i < many; ++i) { uintptr_t k = 1000 + i; LIB(embc_hashmap_put(m, (void *) k, m, 0)); ref.insert(k); ++took; }
        peak_n = many;
        while (t.more(mean) && ops++ < 600) {
            uintptr_t k = t.pick(span) + 1;
            NOTE(t, "put(%d)", (int) k); LIB(embc_hashmap_put(m, (void *) k, m, 0)); gave += !ref.insert(k).second; ++took;
            peak_n = std::max(peak_n, ref.size()); bound("a hashmap");
        }
        embc_hashmap_free(m);
    } else {
        embc_evm_s *e = LIB(embc_evm_allocate()); std::map<int, int64_t> ref; int64_t now = 1;
        for (unsigned i = 0; i < many; ++i) { ref[LIB(embc_evm_schedule(e, many + 5 - i, evcbk, 0))] = many + 5 - i; ++took; }
        peak_n = many;
        while (t.more(mean) && ops++ < 600) {
            switch (t.weighted({4, 2, 2})) {
                case 0: { int64_t ts = now + (int64_t) t.pick(50); int id = LIB(embc_evm_schedule(e, ts, evcbk, 0)); NOTE(t, "schedule -> %d", id); ref[id] = ts; ++took; break; }
                case 1: if (!ref.empty()) { auto it = ref.begin(); std::advance(it, t.pick(ref.size())); NOTE(t, "cancel(%d)", it->first); embc_evm_cancel(e, it->first); ref.erase(it); ++gave; } break;
                default: now += (int64_t) t.pick(40); NOTE(t, "process(%d)", (int) now); { Watch w; embc_evm_process(e, now); }
                    for (auto it = ref.begin(); it != ref.end();) if (it->second <= now) { it = ref.erase(it); ++gave; } else ++it;
            }
            peak_n = std::max(peak_n, ref.size()); bound("an event manager");
        }
        embc_evm_free(e);
    }
    (void) n;
    static const char *names[] = {"intmap", "typed intmap", "strmap", "hashmap", "event manager"};
    PBT_CHECK(pbt::watched_live() == 0, "%zu blocks remain after the %s was freed", pbt::watched_live(), names[kind]);
    PBT_CHECK(pbt::Heap::live() == 0, "%zu embc blocks remain after the %s was freed", pbt::Heap::live(), names[kind]);
    // freeing nothing is allowed
    embc_intmap_free(0); embc_strmap_free(0); embc_hashmap_free(0); embc_intmap_iterator_free(0); embc_evm_free(0);
    t.label(names[kind]);
    if (took >= 10 && gave) t.nontrivial();
}
