// C12: reference counted object pool against a model of reference counts.
#include "pbt.hpp"
#include <map>
#include <memory>
#include <functional>
extern "C" {
#include "embc/memory/object_pool.h"
}
using pbt::Tape; using pbt::Exact;
// An object holds its tag and up to two references to other objects, which its
// destructor gives back (nested decr).
struct Obj { uint32_t tag; uint32_t pad; void *ref[2]; uint8_t tail[8]; };
struct Model { uint32_t tag; unsigned count; void *ref[2]; unsigned inst; unsigned linked = 0; };
static std::map<void *, Model> live;
static std::vector<void *> destroyed; static unsigned constructed; static bool nested;
static int32_t osize[2]; static bool has_d[2];
static void *raw; static int32_t raw_size;
static std::function<void(unsigned)> do_alloc; static unsigned spawn; static bool spawned;

static void ctor_(void *o) {
    ++constructed; raw = o;
    PBT_CHECK(!live.count(o), "constructor called on an object that is still alive");
    memset(o, 0x5c, (size_t) raw_size);
}
static void dtor_(void *o) {
    auto it = live.find(o);
    PBT_CHECK(it != live.end(), "destructor called for an object that is not alive");
    Model m = it->second;
    PBT_EQ(m.count, 0u, "destructor called while the model still counts references on object %u", m.tag);
    destroyed.push_back(o);
    Obj *b = (Obj *) o;
    PBT_EQ(b->tag, m.tag, "object contents in the destructor");
    for (int k = 0; k < 2; ++k) PBT_CHECK(b->ref[k] == m.ref[k], "object contents changed before the destructor ran");
    for (int k = 0; k < 2; ++k) if (b->ref[k]) {
        nested = true;
        auto r = live.find(b->ref[k]);
        PBT_CHECK(r != live.end(), "a referenced object died early");
        --r->second.linked; unsigned r_inst = r->second.inst; bool dies = --r->second.count == 0; void *ref = b->ref[k];
        size_t before = destroyed.size();
        bool got = embc_object_pool_decr(ref);
        PBT_EQ(got, dies, "decr inside a destructor");
        PBT_CHECK(!has_d[r_inst] || dies == (destroyed.size() > before), "destructor %s for the referenced object", dies ? "not called" : "called early");
        if (dies) live.erase(ref);
    }
    // o is not returned to anyone before the destructor ends
    if (spawn) { --spawn; spawned = true; do_alloc(m.inst); }
    for (int k = 0; k < 2; ++k) PBT_CHECK(b->ref[k] == m.ref[k], "object memory changed during its destructor");
}

PBT_PROP("C12", 300000, 15000000,
         "one or two object pools of 1..12 (now and then 65550) objects of up to 40 (70000) bytes (with or without constructor / destructor), histories of alloc, incr, decr and linking objects whose "
         "destructors release and allocate further objects; oracle: reference count model; contract violations (exhausted pool, use after return, count limit) must "
         "be fatal; non-trivial: an object with more than one reference was released and its slot reused, or a destructor released or allocated objects") {
    live.clear(); destroyed.clear(); nested = spawned = false; spawn = 0;
    unsigned ninst = 1 + (unsigned) t.pick(2);
    std::unique_ptr<Exact> mem[2]; int32_t cap[2]; bool has_c[2]; unsigned used[2] = {0, 0};
    auto pool = [&](unsigned i) { return (embc_object_pool_s *) mem[i]->p; };
    for (unsigned i = 0; i < ninst; ++i) {
        cap[i] = (int32_t) t.range(1, 12); if (t.chance(1, 600)) { cap[i] = t.chance(1, 30) ? 65530 + (int32_t) t.pick(20) : 200 + (int32_t) t.pick(300); t.heavy(); t.label("many objects"); } has_c[i] = t.flip(); has_d[i] = t.chance(3, 4);
        osize[i] = has_d[i] ? (int32_t) (sizeof(Obj) + t.pick(20)) : (int32_t) t.range(1, 40);
        if (t.chance(1, 300)) { osize[i] = (int32_t) t.oneof({127, 128, 255, 256, 257, 1000, 65535, 65536, 70000}); cap[i] = std::min(cap[i], 12); t.label("large objects"); }
        int32_t sz = embc_object_pool_instance_size(cap[i], osize[i]);
        PBT_CHECK(sz >= cap[i] * osize[i] && sz < cap[i] * (osize[i] + 64) + 200, "instance size %d", sz);
        mem[i].reset(new Exact((size_t) sz)); memset(mem[i]->p, 0xa5, (size_t) sz);
        NOTE(t, "pool %u: %d objects of %d bytes%s%s", i, cap[i], osize[i], has_c[i] ? ", constructor" : "", has_d[i] ? ", destructor" : "");
        PBT_CHECK(embc_object_pool_initialize(pool(i), 0, osize[i], 0, 0) != 0, "zero objects accepted");
        PBT_CHECK(embc_object_pool_initialize(pool(i), cap[i], 0, 0, 0) != 0, "zero size accepted");
        PBT_CHECK(embc_object_pool_initialize(0, cap[i], osize[i], 0, 0) != 0, "null pool accepted");
        PBT_EQ(embc_object_pool_initialize(pool(i), cap[i], osize[i], has_c[i] ? ctor_ : 0, has_d[i] ? dtor_ : 0), 0, "initialize");
    }
    uint32_t next_tag = 1; unsigned mean = t.oneof({10u, 40u, 150u}), ops = 0; bool multi = false, reuse = false, died = false;
    std::map<void *, std::vector<uint8_t>> plain;   // contents of objects without links
    std::vector<void *> gone;
    auto choose = [&]() -> void * { if (live.empty()) return 0; auto it = live.begin(); std::advance(it, (long) t.pick(live.size())); return it->first; };
    auto check_plain = [&](void *o) {
        auto it = plain.find(o); if (it == plain.end()) return;
        PBT_CHECK(!memcmp(o, it->second.data(), it->second.size()), "the contents of a live object changed");
    };
    auto recount = [&] { used[0] = used[1] = 0; for (auto &kv : live) ++used[kv.second.inst]; };
    do_alloc = [&](unsigned i) {
                recount(); constructed = 0; raw_size = osize[i];
                bool full = used[i] == (unsigned) cap[i]; bool fatal = false; void *o = 0;
                try { o = embc_object_pool_alloc(pool(i)); } catch (pbt::Fatal &) { fatal = true; }
                NOTE(t, "[%u] alloc -> %s %ld", i, fatal ? "fatal" : "offset", fatal ? 0L : (long) ((uint8_t *) o - mem[i]->p));
                PBT_EQ(fatal, full, "alloc with %u of %d objects in use", used[i], cap[i]);
                if (full) return;
                uint8_t *p = (uint8_t *) o;
                PBT_CHECK(p >= mem[i]->p && p + osize[i] <= mem[i]->p + mem[i]->n, "object outside the instance memory");
                PBT_CHECK(((uintptr_t) p & 7) == 0, "object is not 8 byte aligned");
                for (auto &kv : live) { uint8_t *q = (uint8_t *) kv.first; int32_t qs = osize[kv.second.inst];
                    PBT_CHECK(p + osize[i] <= q || q + qs <= p, "a new object overlaps a live one"); }
                if (has_c[i]) { PBT_EQ(constructed, 1u, "constructor calls"); PBT_CHECK(raw == o, "constructor called with another pointer");
                    for (int32_t k = 0; k < osize[i]; ++k) PBT_CHECK(p[k] == 0x5c, "memory changed after the constructor"); }
                else { PBT_EQ(constructed, 0u, "constructor calls"); for (int32_t k = 0; k < osize[i]; ++k) PBT_CHECK(p[k] == 0, "byte %d of a new object is not zero", k); }
                for (void *g : gone) if (g == o) reuse = true;
                Model m = {next_tag++, 1, {0, 0}, i, 0};
                if (has_d[i]) { Obj *b = (Obj *) o; memset(o, 0, (size_t) osize[i]); b->tag = m.tag; }
                else { memset(o, (int) (m.tag & 0xff), (size_t) osize[i]); }
                if (!has_d[i]) plain[o] = std::vector<uint8_t>(p, p + osize[i]);
                live[o] = m;
    };
    for (unsigned i = 0; i < ninst; ++i) if (cap[i] > 100) { unsigned k = (unsigned) cap[i] - (unsigned) t.pick(5); if (k < 1000) while (k--) do_alloc(i); }
    while (t.more(mean) && ops++ < 600) {
        switch (t.weighted({6, 3, 6, 3, 1, 1})) {
            case 0: do_alloc((unsigned) t.pick(ninst)); break;
            case 1: {
                void *o = choose(); if (!o) break;
                unsigned k = t.chance(1, 40) ? 65535 - live[o].count : (unsigned) t.range(1, 3);
                if (k > 100) { t.label("reference limit"); }
                NOTE(t, "incr(object %u) x %u", live[o].tag, k);
                for (unsigned j = 0; j < k; ++j) embc_object_pool_incr(o);
                live[o].count += k; multi = true;
                if (live[o].count >= 65535) {
                    PBT_CHECK(FATALS(embc_object_pool_incr(o)), "the reference count wrapped at its limit");
                    unsigned back = 65535 - 3 - live[o].linked; for (unsigned j = 0; j < back; ++j) PBT_CHECK(!embc_object_pool_decr(o), "an object with references left was returned");
                    live[o].count -= back;
                }
                break;
            }
            case 2: {
                void *o = choose(); if (!o) break;
                if (live[o].count == live[o].linked) break;   // every reference belongs to another object
                Model m = live[o]; bool dies = m.count == 1; live[o].count--;
                check_plain(o); size_t before = destroyed.size(); spawn = t.chance(1, 4) ? 1 + (unsigned) t.pick(2) : 0;
                bool got = embc_object_pool_decr(o);
                NOTE(t, "decr(object %u with %u references) -> %d", m.tag, m.count, got);
                spawn = 0;
                PBT_EQ(got, dies, "decr of an object with %u references", m.count);
                if (!dies) { PBT_CHECK(destroyed.size() == before, "destructor called while references remain"); break; }
                PBT_CHECK(!has_d[m.inst] || (destroyed.size() > before), "destructor was not called");
                died = true; live.erase(o); plain.erase(o); gone.push_back(o);
                for (size_t a = before; a < destroyed.size(); ++a) for (size_t b = a + 1; b < destroyed.size(); ++b)
                    PBT_CHECK(destroyed[a] != destroyed[b], "destructor called twice for one object");
                break;
            }
            case 3: { // link: o holds a reference to r (always an older object: no cycles)
                void *o = choose(), *r = choose(); if (!o || !r) break;
                Model &mo = live[o]; if (!has_d[mo.inst] || live[r].tag >= mo.tag) break;
                int slot = !mo.ref[0] ? 0 : !mo.ref[1] ? 1 : -1; if (slot < 0) break;
                if (live[r].count >= 60000) break;
                NOTE(t, "object %u references object %u", mo.tag, live[r].tag);
                embc_object_pool_incr(r); live[r].count++; live[r].linked++; mo.ref[slot] = r; ((Obj *) o)->ref[slot] = r;
                break;
            }
            case 4: { // use of an object that went back to its pool
                if (gone.empty()) break;
                void *o = t.elem(gone); if (live.count(o)) break;
                NOTE(t, "use of a returned object");
                PBT_CHECK(FATALS(embc_object_pool_decr(o)), "decr of a returned object was accepted");
                PBT_CHECK(FATALS(embc_object_pool_incr(o)), "incr of a returned object was accepted");
                break;
            }
            default: for (auto &kv : live) check_plain(kv.first);
        }
    }
    for (auto &kv : live) check_plain(kv.first);
    recount(); unsigned left[2] = {0, 0};
    for (unsigned i = 0; i < ninst; ++i) { raw_size = osize[i]; while (!FATALS(embc_object_pool_alloc(pool(i)))) { PBT_CHECK(++left[i] <= (unsigned) cap[i], "too many objects"); }
        PBT_EQ(left[i] + used[i], (unsigned) cap[i], "objects obtainable from pool %u", i);
        embc_object_pool_finalize(pool(i)); }
    if (nested || spawned || (multi && died && reuse)) t.nontrivial();
}
