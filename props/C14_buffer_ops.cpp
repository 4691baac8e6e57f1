// C14: buffer operations against a byte-vector model; violations assert and leave the buffer alone.
#include "pbt.hpp"
#include <memory>
extern "C" {
#include "embc/memory/buffer.h"
struct embc_buffer_s *static_init(int); void static_skip(int); unsigned char *static_guard(void); struct embc_buffer_s *static_defined(void), *static_huge(void);
}
using pbt::Tape; using pbt::Exact;
struct M { embc_buffer_s *b; std::vector<uint8_t> d; int cap, cur, len, res; };   // d: whole capacity
static std::vector<uint8_t> filler(Tape &t, size_t n) { std::vector<uint8_t> d(n); uint32_t x = (uint32_t) t.u(16) | 1; for (auto &c : d) { x = x * 1664525u + 1013904223u; c = (uint8_t) (x >> 24); } return d; }
static int wr(const M &m) { return m.cap - m.cur - m.res; }
static int rd(const M &m) { return m.len - m.cur; }
static void same(const M &m, const char *what) {
    PBT_EQ((int) embc_buffer_length(m.b), m.len, "length after %s", what);
    PBT_EQ((int) embc_buffer_cursor_get(m.b), m.cur, "cursor after %s", what);
    PBT_EQ((int) embc_buffer_capacity(m.b), m.cap, "capacity after %s", what);
    PBT_EQ((int) m.b->reserve, m.res, "reserve after %s", what);
    if (m.cur + m.res <= m.cap) PBT_EQ((int) embc_buffer_write_remaining(m.b), wr(m), "write_remaining after %s", what);
    PBT_EQ((int) embc_buffer_read_remaining(m.b), rd(m), "read_remaining after %s", what);
    if (m.len) if (memcmp(m.b->data, m.d.data(), (size_t) m.len)) for (int i = 0; i < m.len; ++i) PBT_CHECK(m.b->data[i] == m.d[(size_t) i], "content byte %d of %d after %s is 0x%02x, expected 0x%02x", i, m.len, what, m.b->data[i], m.d[(size_t) i]);
}
static void put(M &m, const void *p, int n) { memcpy(m.d.data() + m.cur, p, (size_t) n); m.cur += n; m.len = std::max(m.len, m.cur); }

PBT_PROP("C14", 260000, 12000000,
         "two or three buffers (allocator or static), random histories of every write / read / copy / string / erase / seek / reset / clear / reserve "
         "operation with arguments around the limits, compared with a byte vector model after each step; an operation that does not fit must be fatal and "
         "leave the buffer unchanged; non-trivial: at least 8 operations changed data and one limit was hit") {
    pbt::Heap::install();
    bool large = t.pick(8) == 0;   // also buffers of more than 255 bytes
    bool huge = t.chance(1, 3000); if (huge) { large = false; t.heavy(); t.label("buffers beyond 32 KiB"); }
    embc_size_t sizes[11] = {2, 2, 0, 0, large, 2 * large, 0, 0, 0, 0, huge}; embc_size_t classes = huge ? 11 : large ? 6 : 2;
    Exact mem((size_t) embc_buffer_allocator_instance_size(sizes, classes));
    embc_buffer_allocator_s *al = (embc_buffer_allocator_s *) mem.p;
    embc_buffer_allocator_initialize(al, sizes, classes);
    std::vector<M> v; unsigned n = 2 + (unsigned) t.pick(2);
    for (unsigned i = 0; i < n; ++i) {
        M m; unsigned k = (unsigned) t.pick(3);
        if (i == 0 && k == 1) { m.b = static_init((int) t.pick(256)); m.cap = 48; NOTE(t, "buffer 0: static, reinitialised"); memset(static_guard(), 0x77, 16); }
        else if (i == 0 && k == 2) { m.b = static_defined(); m.cap = 40; m.b->cursor = m.b->length = m.b->reserve = 0; NOTE(t, "buffer 0: static definition"); }
        else if (huge && i == 0) { m.b = static_huge(); m.b->cursor = m.b->length = m.b->reserve = 0; m.cap = 65528; NOTE(t, "buffer 0: static, %d bytes", m.cap); }
        else if (huge && i == 1) { m.b = embc_buffer_alloc(al, 32768); m.cap = 32768; NOTE(t, "buffer 1: %d bytes", m.cap); }
        else if (large && i < 3) { m.b = embc_buffer_alloc(al, i ? 1000 : 500); m.cap = m.b->capacity; NOTE(t, "buffer %u: %d bytes", i, m.cap); t.label("large buffer"); }
        else { bool big = t.flip(); try { m.b = embc_buffer_alloc(al, big ? 64 : 32); } catch (pbt::Fatal &) { m.b = embc_buffer_alloc(al, big ? 32 : 64); } m.cap = m.b->capacity; NOTE(t, "buffer %u: %d bytes", i, m.cap); }
        m.d.assign((size_t) m.cap, 0); m.cur = m.len = m.res = 0;
        same(m, "initialisation");
        if (i == 0 && k) {
            PBT_CHECK(m.b->item.next == &m.b->item && m.b->item.prev == &m.b->item, "a new static buffer is not a list of its own");
            PBT_CHECK(m.b->buffer_id == 0 && m.b->flags == 0, "a new static buffer has id %d and flags %d", m.b->buffer_id, m.b->flags);
            PBT_CHECK(m.b->manager == &embc_buffer_manager_static, "a new static buffer is not managed as static");
        }
        v.push_back(m);
    }
    unsigned mean = t.oneof({8u, 30u, 100u}), ops = 0, changed = 0, limit = 0;
    while (t.more(mean) && ops++ < 500) {
        unsigned w = (unsigned) t.pick(v.size()); M &m = v[w]; embc_buffer_s *b = m.b; const char *what = ""; bool over = m.cur + m.res > m.cap;
        unsigned op = t.weighted({5, 3, 4, 3, 2, 6, 6, 4, 5, 3, 1, 1, 2, 3});
        M before = m; bool modified = true;
        auto near = [&](int lim) { int x = t.flip() ? (int) t.pick(t.pick(8) ? 12 : 300) : lim - 2 + (int) t.pick(5); if (huge && t.flip()) x = lim > 0 ? (int) t.pick((uint64_t) lim) : 0; return x < 0 ? 0 : x; };
        switch (op) {
            case 0: { int k = near(wr(m)); auto d = k > 1000 ? filler(t, (size_t) k) : t.vec((size_t) k); Exact e(d.data(), d.size()); what = "write"; NOTE(t, "[%u] write %d bytes", w, k);
                bool f = FATALS(embc_buffer_write(b, e.p, k)); PBT_EQ(f, k > 0 && k > wr(m), "fatal: write of %d bytes with %d remaining", k, wr(m));
                if (!f) put(m, d.data(), k); else ++limit; break; }
            case 1: { M &s = t.elem(v); int k = t.flip() ? near(rd(s)) : near(wr(m)); what = "copy"; NOTE(t, "[%u] copy %d bytes from [%d]", w, k, (int) (&s - &v[0]));
                bool bad = k > rd(s) || k > wr(m); bool f = FATALS(embc_buffer_copy(b, s.b, k));
                if (k == 0 && over) { if (f) break; }
                else PBT_EQ(f, bad, "fatal: copy of %d bytes, %d readable, %d writable", k, rd(s), wr(m));
                if (!f && k) { std::vector<uint8_t> d(s.d.begin() + s.cur, s.d.begin() + s.cur + k); put(m, d.data(), k); } else ++limit;
                same(s, "being copied from"); break; }
            case 2: case 3: { int k = near(wr(m)); std::string s; if (k > 1000) s = std::string((size_t) k, (char) t.range(1, 255)) + ""; else for (int i = 0; i < k; ++i) s.push_back((char) t.range(1, 255)); Exact e(s.c_str(), s.size() + 1);
                bool trunc = op == 2; what = trunc ? "write_str_truncate" : "write_str"; NOTE(t, "[%u] %s %d characters", w, what, k);
                bool fits = k <= std::max(0, wr(m)), f = false, r = true;
                if (trunc) r = embc_buffer_write_str_truncate(b, e.c()); else f = FATALS(embc_buffer_write_str(b, e.c()));
                if (trunc) PBT_EQ(r, fits, "write_str_truncate of %d characters with %d bytes remaining", k, wr(m));
                else PBT_EQ(f, !fits, "fatal: write_str of %d characters with %d bytes remaining", k, wr(m));
                if (!fits) ++limit;
                put(m, s.data(), std::min(k, std::max(0, wr(m))));
                if (f) { // the documentation leaves open whether a part was written
                    if (b->cursor == before.cur && b->length == before.len) m = before;
                }
                break; }
            case 4: { auto x = t.u(8); what = "write_u8"; NOTE(t, "[%u] write_u8 0x%02x", w, (int) x); bool f = FATALS(embc_buffer_write_u8(b, (uint8_t) x));
                PBT_EQ(f, wr(m) < 1, "fatal: write_u8 with %d remaining", wr(m)); uint8_t y = (uint8_t) x; if (!f) put(m, &y, 1); else ++limit; break; }
            case 5: { uint64_t x = t.u(64); unsigned k = (unsigned) t.pick(6); int sz = 2 << (k % 3); bool be = k >= 3; what = "write integer";
                NOTE(t, "[%u] write_u%d_%s 0x%llx", w, sz * 8, be ? "be" : "le", (unsigned long long) x);
                bool f = FATALS(k == 0 ? embc_buffer_write_u16_le(b, (uint16_t) x) : k == 1 ? embc_buffer_write_u32_le(b, (uint32_t) x) : k == 2 ? embc_buffer_write_u64_le(b, x)
                              : k == 3 ? embc_buffer_write_u16_be(b, (uint16_t) x) : k == 4 ? embc_buffer_write_u32_be(b, (uint32_t) x) : embc_buffer_write_u64_be(b, x));
                PBT_EQ(f, wr(m) < sz, "fatal: write of %d bytes with %d remaining", sz, wr(m));
                uint8_t d[8]; for (int i = 0; i < sz; ++i) d[i] = (uint8_t) (x >> (8 * (be ? sz - 1 - i : i)));
                if (!f) put(m, d, sz); else ++limit; break; }
            case 6: { unsigned k = (unsigned) t.pick(7); int sz = k == 6 ? 1 : 2 << (k % 3); bool be = k >= 3; uint64_t got = 0, want = 0; what = "read integer"; modified = false;
                NOTE(t, "[%u] read_u%d_%s", w, sz * 8, be ? "be" : "le");
                bool f = FATALS(got = k == 0 ? embc_buffer_read_u16_le(b) : k == 1 ? embc_buffer_read_u32_le(b) : k == 2 ? embc_buffer_read_u64_le(b)
                              : k == 3 ? embc_buffer_read_u16_be(b) : k == 4 ? embc_buffer_read_u32_be(b) : k == 5 ? embc_buffer_read_u64_be(b) : embc_buffer_read_u8(b));
                PBT_EQ(f, rd(m) < sz, "fatal: read of %d bytes with %d remaining", sz, rd(m));
                if (f) { ++limit; break; }
                for (int i = 0; i < sz; ++i) want |= (uint64_t) m.d[(size_t) (m.cur + i)] << (8 * (be ? sz - 1 - i : i));
                PBT_CHECK(got == want, "read 0x%llx, expected 0x%llx", (unsigned long long) got, (unsigned long long) want);
                m.cur += sz; break; }
            case 7: { int k = near(rd(m)); Exact e((size_t) k); what = "read"; modified = false; NOTE(t, "[%u] read %d bytes", w, k);
                bool f = FATALS(embc_buffer_read(b, e.p, k)); PBT_EQ(f, k > rd(m), "fatal: read of %d bytes with %d remaining", k, rd(m));
                if (f) { ++limit; break; }
                PBT_CHECK(!memcmp(e.p, m.d.data() + m.cur, (size_t) k), "read returned other bytes"); m.cur += k; break; }
            case 8: { int k = t.chance(1, 8) ? (int) t.pick(3) - 1 + (t.flip() ? m.len + 1 : 0) : (int) t.pick((uint64_t) m.len + 1); what = "cursor_set"; modified = false; NOTE(t, "[%u] cursor_set %d", w, k);
                bool f = FATALS(embc_buffer_cursor_set(b, k)); PBT_EQ(f, k < 0 || k > m.len, "fatal: cursor_set(%d) with length %d", k, m.len);
                if (!f) m.cur = k; else ++limit; break; }
            case 9: { int s = (int) t.irange(-1, m.len + 1), e = t.flip() ? (int) t.irange(-1, m.len + 1) : s + (int) t.pick(6); what = "erase"; NOTE(t, "[%u] erase [%d, %d) of %d", w, s, e, m.len);
                bool bad = s < 0 || s >= m.len || e < 0 || e > m.len; bool f = FATALS(embc_buffer_erase(b, s, e));
                PBT_EQ(f, bad, "fatal: erase [%d, %d) of %d bytes", s, e, m.len);
                if (f) { ++limit; break; }
                if (e > s) { m.d.erase(m.d.begin() + s, m.d.begin() + e); m.d.resize((size_t) m.cap); m.len -= e - s; if (m.cur >= e) m.cur -= e - s; else if (m.cur > s) m.cur = s; }
                break; }
            case 10: NOTE(t, "[%u] reset", w); what = "reset"; embc_buffer_reset(b); m.cur = m.len = 0; for (int i = 0; i < m.cap; ++i) if (i < before.len) PBT_CHECK(b->data[i] == before.d[(size_t) i], "reset changed the data"); break;
            case 11: NOTE(t, "[%u] clear", w); what = "clear"; embc_buffer_clear(b); m.cur = m.len = 0; std::fill(m.d.begin(), m.d.end(), 0); for (int i = 0; i < m.cap; ++i) PBT_CHECK(b->data[i] == 0, "clear left byte %d", i); break;
            case 12: if (w || (m.cap != 48 && m.cap != 40)) { modified = false; break; }
                what = "free of a static buffer"; modified = false;
                if (m.cap == 48 && t.flip()) { NOTE(t, "[%u] initialisation not executed", w); what = "an initialisation that is not executed"; static_skip(0); }
                else { NOTE(t, "[%u] free", w); embc_buffer_free(b); t.label("static buffer freed"); }
                break;
            default: { int r = t.flip() ? 0 : (int) t.pick((uint64_t) m.cap + 1); what = "reserve"; modified = false; NOTE(t, "[%u] reserve = %d", w, r); b->reserve = (uint16_t) r; m.res = r; }
        }
        if (over) t.label("cursor beyond capacity - reserve");
        same(m, what);
        if (modified && (m.len != before.len || m.d != before.d)) ++changed;
        for (auto &o : v) if (&o != &m) same(o, "an operation on another buffer");
    }
    if (v[0].cap == 48) for (int i = 0; i < 16; ++i) PBT_CHECK(static_guard()[i] == 0x77, "the memory behind a static buffer changed");
    if (changed >= 8 && limit) t.nontrivial();
}
