// Property-based testing engine used by every check in /verif/props.
//
// A property is a function  void prop(pbt::Tape &t).  Every choice it makes is
// drawn from the tape.  In generation mode the tape is backed by a PRNG seeded
// from VERIF_SEED and the case index; in replay / shrink mode it is backed by
// a recorded list of numbers, with 0 (always the simplest choice) past the end.
// A failing case is therefore completely described by its tape, which is what
// is shrunk and what the replay file holds.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
// thrown by embc_fatal(): the library reported a contract violation
struct Fatal { std::string file; int line; std::string msg; };

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {  // splitmix64
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

struct Shared;  // record in shared memory: tape, notes, labels

class Tape {
public:
    // uniform choice in [0, n); n == 0 means any 64-bit value
    uint64_t pick(uint64_t n);
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + pick(hi - lo + 1); }  // inclusive
    int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t) pick((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; the simplest choice is false
    bool chance(unsigned num, unsigned den) { return pick(den) >= den - num; }
    bool flip() { return pick(2) != 0; }
    // another step of a sequence with the given mean length?
    bool more(unsigned mean) { return pick(mean + 1) != 0; }
    // weighted alternative
    unsigned weighted(std::initializer_list<unsigned> w) {
        unsigned tot = 0; for (unsigned x : w) tot += x;
        unsigned v = (unsigned) pick(tot), i = 0;
        for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
        return 0;
    }
    template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + pick(l.size())); }
    template <class V> auto &elem(V &v) { return v[pick(v.size())]; }
    // integer of up to `bits` bits, biased to small values and boundaries
    uint64_t u(unsigned bits) {
        uint64_t mask = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
        switch (pick(5)) {
            case 0: return pick(16) & mask;
            case 1: { uint64_t k = pick(bits + 1); uint64_t b = k >= 64 ? 0 : (1ull << k);
                      return (b + pick(5) - 2) & mask; }
            case 2: return pick(256) & mask;
            case 3: return (mask - pick(16)) & mask;
            default: return pick(bits >= 64 ? 0 : mask + 1) & mask;
        }
    }
    void bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (uint8_t) pick(256); }
    std::vector<uint8_t> vec(size_t n) { std::vector<uint8_t> v(n); bytes(v.data(), n); return v; }
    // payload bytes from few choices: pattern selected by a seed (cheap to shrink)
    std::vector<uint8_t> blob(size_t n);

    bool tracing = false;
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // case classification
    void label(const char *name);
    void nontrivial() { nontrivial_ = true; }
    void excluded() { excluded_ = true; }
    void heavy() { heavy_ = true; }   // an expensive case: not a starting point for mutation

    // ---- engine side ----
    std::vector<uint64_t> src;   // recorded prefix
    size_t pos = 0;
    bool random_tail = false;
    Rng rng;
    uint64_t hash = 0;
    bool nontrivial_ = false, excluded_ = false, heavy_ = false;
    std::vector<const char *> labels;
    Shared *sh = nullptr;
};

typedef void (*prop_fn)(Tape &);
struct Prop {
    const char *id;
    const char *rule;      // how cases are made and what makes one non-trivial
    prop_fn fn;
    uint64_t quick_cases;
    uint64_t thorough_cases;
};
extern const Prop *the_prop;
struct Register { explicit Register(const Prop *p) { the_prop = p; } };

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// A failure that is one of the listed findings (known_findings.txt); if the
// key is not listed it is an ordinary violation.
[[noreturn]] void known(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// Heap behind embc_alloc / embc_free: counts, detects foreign frees.
struct Heap {
    static void install();        // set as the embc allocator (per case: reset())
    static void reset();          // release everything left from the last case
    static size_t live();         // number of live blocks
    static size_t live_bytes();
    static size_t total();        // number of allocations so far in this case
};

// Count every heap block the library takes while a Watch is alive (malloc and
// calloc included); Unwatch pauses inside callbacks into the harness.
struct Watch { Watch(); ~Watch(); };
struct Unwatch { int prev; Unwatch(); ~Unwatch(); };
size_t watched_live();    // blocks taken under a Watch and not yet freed
void watched_reset();

// Guarded byte area: an exact-size heap block so ASan sees over-reads.
struct Exact {
    uint8_t *p; size_t n;
    explicit Exact(size_t n_) : p((uint8_t *) malloc(n_ ? n_ : 1)), n(n_) {}
    Exact(const void *d, size_t n_) : Exact(n_) { if (n_) memcpy(p, d, n_); }
    ~Exact() { free(p); }
    Exact(const Exact &) = delete;
    Exact &operator=(const Exact &) = delete;
    char *c() { return (char *) p; }
};

std::string hex(const void *p, size_t n, size_t maxn = 64);
std::string quote(const std::string &s);
}  // namespace pbt

#define PBT_CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)
#define PBT_EQ(a, b, ...) do { auto a_ = (a); auto b_ = (b); if (!(a_ == b_)) { \
    char m_[400]; snprintf(m_, sizeof(m_), __VA_ARGS__); \
    pbt::fail("%s: %s = %lld, expected %lld", m_, #a, (long long) a_, (long long) b_); } } while (0)
#define NOTE(t, ...) do { if ((t).tracing) (t).note(__VA_ARGS__); } while (0)
#define PBT_PROP(ID, QUICK, THOROUGH, RULE) \
    static void prop_body(pbt::Tape &t); \
    static const pbt::Prop prop_desc = {ID, RULE, prop_body, QUICK, THOROUGH}; \
    static pbt::Register prop_reg(&prop_desc); \
    static void prop_body(pbt::Tape &t)

// Run expr; yields true iff the library reported a contract violation.
#define FATALS(expr) ([&]() -> bool { try { expr; return false; } catch (pbt::Fatal &) { return true; } }())
