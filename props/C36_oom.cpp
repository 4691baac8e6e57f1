// C36: running out of memory is always reported, at the operation that ran out.
// LDFLAGS: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc
#include "pbt.hpp"
#include <map>
#include <set>
extern "C" {
#include "embc/collections/intmap.h"
#include "embc/collections/strmap.h"
#include "embc/collections/hashmap.h"
#include "embc/event_manager.h"
#include "embc/platform.h"
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
}
using pbt::Tape;
static bool armed; static long budget; static unsigned refused;
static bool refuse() { if (!armed) return false; if (budget > 0) { --budget; return false; } ++refused; return true; }
extern "C" void *__wrap_malloc(size_t n) { return refuse() ? 0 : __real_malloc(n); }
extern "C" void *__wrap_calloc(size_t a, size_t b) { return refuse() ? 0 : __real_calloc(a, b); }
extern "C" void *__wrap_realloc(void *p, size_t n) { return refuse() ? 0 : __real_realloc(p, n); }
static std::set<void *> mine;
static void *al(embc_size_t n) {
    if (refuse()) return 0;
    bool a = armed; armed = false;
    void *p = __real_malloc(n ? (size_t) n : 1); mine.insert(p); memset(p, 0xEE, n ? (size_t) n : 1);
    armed = a; return p;
}
static void fr(void *p) { bool a = armed; armed = false; if (!mine.erase(p)) { armed = a; pbt::fail("free of a foreign block"); } free(p); armed = a; }
struct Arm { Arm() { armed = true; } ~Arm() { armed = false; } };
static embc_size_t khash(void *p) { return (embc_size_t) (uintptr_t) p % 5; }
static bool kequiv(void *a, void *b) { return a == b; }
static std::vector<int32_t> fired;
static void onev(void *, int32_t id) { bool a = armed; armed = false; fired.push_back(id); armed = a; }
enum { OK, ERR, FATAL };
template <class F> static int lib(F f) { refused = 0; Arm a; try { return f() ? ERR : OK; } catch (pbt::Fatal &) { return FATAL; } }

PBT_PROP("C36", 400000, 6000000,
         "random histories on the integer, string and pointer maps and the event manager with the heap (embc allocator, malloc, calloc) refusing every request after a random budget; the "
         "operation whose request is refused must report a fatal error or its documented error value, nothing may fail without a refusal, and an event manager that was refused keeps every "
         "pending event and goes on working; non-trivial: a request was refused after 3 or more successful operations") {
    for (void *p : mine) free(p);
    mine.clear(); fired.clear(); armed = false;
    embc_allocator_set(al, fr);
    unsigned kind = (unsigned) t.pick(4), ops = 0; int r; bool hit = false;
    budget = (long) t.pick(t.oneof({3u, 12u, 60u}));
    auto verdict = [&](const char *op, int rc) {
        NOTE(t, "%s -> %s%s", op, rc == OK ? "ok" : rc == ERR ? "error" : "fatal", refused ? " (request refused)" : "");
        PBT_CHECK(rc != OK || !refused, "%s was refused memory and reported success", op);
        PBT_CHECK(rc == OK || refused, "%s failed although memory was available", op);
        if (refused) hit = true;
        return rc == OK;
    };
    if (kind == 3) {
        embc_evm_s *e = 0; if (!t.chance(1, 8)) budget++;
        r = lib([&] { return !(e = embc_evm_allocate()); });
        verdict("event manager allocate", r);
        std::map<int32_t, int64_t> ref; int64_t now = 1;
        while (e && t.more(25) && ops++ < 300) {
            switch (t.weighted({4, 1, 2, 1})) {
                case 0: {
                    int64_t ts = now + (int64_t) t.pick(30); int32_t id = 0; char b[48]; snprintf(b, sizeof(b), "schedule at %lld", (long long) ts);
                    r = lib([&] { return !(id = embc_evm_schedule(e, ts, onev, 0)); });
                    if (verdict(b, r)) { PBT_CHECK(!ref.count(id), "event id %d given out twice", id); ref[id] = ts; }
                    break;
                }
                case 1: if (!ref.empty()) { auto it = ref.begin(); std::advance(it, (long) t.pick(ref.size())); int32_t id = it->first;
                    verdict("cancel", lib([&] { return embc_evm_cancel(e, id); })); ref.erase(it); } break;
                case 2: {
                    now += (int64_t) t.pick(20); fired.clear(); int n = 0;
                    verdict("process", lib([&] { n = embc_evm_process(e, now); return 0; }));
                    std::set<int32_t> want; for (auto &x : ref) if (x.second <= now) want.insert(x.first);
                    PBT_CHECK(std::set<int32_t>(fired.begin(), fired.end()) == want && fired.size() == want.size(), "process to %lld fired %zu events, %zu were due", (long long) now, fired.size(), want.size());
                    for (int32_t id : want) ref.erase(id);
                    break;
                }
                default: budget += (long) t.pick(3);
            }
        }
        armed = false; embc_evm_free(e);
    } else {
        embc_intmap_s *im = 0; embc_strmap_s *sm = 0; embc_hashmap_s *hm = 0;
        r = lib([&] { if (kind == 0) return !(im = embc_intmap_new()); if (kind == 1) return !(sm = embc_strmap_new()); return !(hm = embc_hashmap_new(khash, kequiv)); });
        bool live = verdict("new map", r);
        std::map<uintptr_t, uintptr_t> ref;
        while (live && t.more(40) && ops++ < 300) {
            uintptr_t k = t.pick(200) + 1, v = ops + 1; void *old = 0; std::string s = "key" + std::to_string(k);
            char b[48];
            switch (t.weighted({4, 2, 1})) {
                case 0:
                    snprintf(b, sizeof(b), "put(%d)", (int) k);
                    r = lib([&] { return kind == 0 ? embc_intmap_put(im, (embc_size_t) k, (void *) v, &old) : kind == 1 ? embc_strmap_put(sm, s.c_str(), (void *) v, &old) : embc_hashmap_put(hm, (void *) k, (void *) v, &old); });
                    live = verdict(b, r);
                    if (live) ref[k] = v;
                    break;
                case 1: {
                    snprintf(b, sizeof(b), "get(%d)", (int) k); int rc = 0;
                    r = lib([&] { rc = kind == 0 ? embc_intmap_get(im, (embc_size_t) k, &old) : kind == 1 ? embc_strmap_get(sm, s.c_str(), &old) : embc_hashmap_get(hm, (void *) k, &old); return 0; });
                    live = verdict(b, r);
                    PBT_CHECK(!rc == !!ref.count(k) && (rc || (uintptr_t) old == ref[k]), "get(%d) disagrees with the puts so far", (int) k);
                    break;
                }
                default:
                    if (kind == 0 && t.flip()) {
                        embc_intmap_iterator_s *it = 0;
                        r = lib([&] { return !(it = embc_intmap_iterator_new(im)); });
                        live = verdict("iterator", r);
                        if (it) embc_intmap_iterator_free(it);
                    } else if (kind < 2) {
                        snprintf(b, sizeof(b), "remove(%d)", (int) k);
                        r = lib([&] { if (kind == 0) embc_intmap_remove(im, (embc_size_t) k, &old); else embc_strmap_remove(sm, s.c_str(), &old); return 0; });
                        live = verdict(b, r); ref.erase(k);
                    }
            }
        }
        armed = false;
        if (live) { embc_intmap_free(im); embc_strmap_free(sm); embc_hashmap_free(hm); }
    }
    if (hit && ops > 3) t.nontrivial();
    t.label(hit ? "refused" : "enough memory");
    static const char *nm[] = {"intmap", "strmap", "hashmap", "event manager"};
    t.label(nm[kind]);
}
