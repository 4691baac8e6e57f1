// Independent reference of the framer's wire format and receiver, and a buffer
// allocator whose buffers are separate heap blocks (so AddressSanitizer sees
// every use after free, double free and overrun).  Needs
//   -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#pragma once
#include "pbt.hpp"
#include <map>
#include <new>
#include <set>
extern "C" {
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
#include "embc/collections/list.h"
#include "embc/ec.h"
#include "embc/time.h"
}
typedef std::vector<uint8_t> Bytes;
namespace fr {
// the link commands on the wire
enum { PORT0_RESYNC = 2, PORT0_PING_REQ = 4, PORT0_PING_RSP = 5, PORT0_STATUS_REQ = 6, PORT0_STATUS_RSP = 7 };
struct Table { uint8_t t8[256]; uint32_t t32[256];
    Table() { for (unsigned b = 0; b < 256; ++b) { uint8_t c = (uint8_t) b; uint32_t d = b;
        for (int i = 0; i < 8; ++i) { c = (uint8_t) ((c >> 1) ^ ((c & 1) ? 0xE0 : 0)); d = (d >> 1) ^ ((d & 1) ? 0xEDB88320u : 0); }
        t8[b] = c; t32[b] = d; } } };
inline const Table &tab() { static const Table t; return t; }
inline uint8_t crc8(const uint8_t *p, size_t n) { uint8_t c = 0xff; while (n--) c = tab().t8[c ^ *p++]; return (uint8_t) ~c; }
inline uint32_t crc32(const uint8_t *p, size_t n) { uint32_t c = ~0u; while (n--) c = (c >> 8) ^ tab().t32[(c ^ *p++) & 255]; return ~c; }

inline Bytes encode_raw(uint8_t id_byte, uint8_t port, uint8_t mid, uint8_t len, uint16_t pdef, const Bytes &payload) {
    Bytes f = {0xAA, id_byte, port, mid, len, (uint8_t) pdef, (uint8_t) (pdef >> 8)};
    f.push_back(crc8(f.data(), 7));
    f.insert(f.end(), payload.begin(), payload.end());
    uint32_t c = crc32(f.data(), f.size());
    for (int i = 0; i < 4; ++i) f.push_back((uint8_t) (c >> (8 * i)));
    f.push_back(0xAA);
    return f;
}
inline Bytes data(uint8_t id, uint8_t port, uint8_t mid, uint16_t pdef, const Bytes &p) { return encode_raw(id & 15, port, mid, (uint8_t) p.size(), pdef, p); }
inline Bytes ack(uint8_t id, uint8_t port, uint8_t mid, uint16_t mask, uint8_t status) { return encode_raw(0x80 | (id & 15), port, mid, 1, mask, Bytes{status}); }

// what a buffer is, read from its start: documented result of embc_framer_validate
inline int validate(const uint8_t *p, size_t n, size_t *len) {
    if (n < 8) return EMBC_ERROR_EMPTY;
    if (p[0] != 0xAA || crc8(p, 7) != p[7]) return EMBC_ERROR_IO;
    if (p[4] > 240) return EMBC_ERROR_TOO_BIG;
    *len = p[4] + 13u;
    if (n < *len) return EMBC_ERROR_TOO_SMALL;
    uint32_t c = 0; for (int i = 3; i >= 0; --i) c = (c << 8) | p[*len - 5 + i];
    return c == crc32(p, *len - 5) ? 0 : EMBC_ERROR_MESSAGE_INTEGRITY;
}
// Reference receiver: the frames of a byte stream, each reported as soon as
// every byte before its end is accounted for.
struct Scanner {
    Bytes pend; unsigned suspects = 0;  // suspects: places with a valid header but damage behind it
    template <class F> void feed(const uint8_t *p, size_t n, F emit) {
        pend.insert(pend.end(), p, p + n);
        size_t i = 0;
        while (i < pend.size()) {
            if (pend[i] != 0xAA || (i + 1 < pend.size() && pend[i + 1] == 0xAA)) { ++i; continue; }  // of repeated SOF bytes the last counts
            size_t len = 0; int rc = validate(&pend[i], pend.size() - i, &len);
            if (rc == EMBC_ERROR_EMPTY) { break; }
            if (rc == EMBC_ERROR_TOO_SMALL) break;
            if (rc == 0) { emit(Bytes(pend.begin() + (long) i, pend.begin() + (long) (i + len))); i += len; }
            else { if (rc == EMBC_ERROR_MESSAGE_INTEGRITY) ++suspects; ++i; }
        }
        pend.erase(pend.begin(), pend.begin() + (long) i);
    }
    // waiting for the rest of what looks like a frame
    bool waiting() const { return pend.size() >= 8; }
};

// ---- buffers ----
struct Pool {
    std::map<embc_buffer_s *, size_t> live; size_t total = 0; unsigned foreign = 0; long budget = -1;
    ~Pool() { for (auto &e : live) { ::free(e.first->data); ::free(e.first); } }
};
static Pool *pools[4];  // index is carried in the allocator pointer
static char pool_tag[4];
inline embc_buffer_allocator_s *pool_handle(int i) { return (embc_buffer_allocator_s *) &pool_tag[i]; }
struct Mgr { embc_buffer_manager_s m; int i; };
static void pool_free(embc_buffer_manager_s const *m, embc_buffer_s *b);
static Mgr mgrs[4] = {{{pool_free}, 0}, {{pool_free}, 1}, {{pool_free}, 2}, {{pool_free}, 3}};
static void pool_free(embc_buffer_manager_s const *m, embc_buffer_s *b) {
    Pool &p = *pools[((const Mgr *) m)->i];
    auto it = p.live.find(b);
    if (it == p.live.end()) pbt::fail("a buffer was freed twice, or one that was never allocated");
    embc_list_remove(&b->item);
    p.live.erase(it); ::free(b->data); ::free(b);
}
inline embc_buffer_s *pool_alloc(embc_buffer_allocator_s *a, embc_size_t size) {
    int i = (int) ((char *) a - pool_tag);
    if (size <= 0 || size > 256) throw pbt::Fatal{"pool", 0, "buffer size out of range"};
    size_t cap = 32; while (cap < (size_t) size) cap *= 2;
    embc_buffer_s *b = (embc_buffer_s *) ::calloc(1, sizeof(embc_buffer_s));
    uint8_t *d = (uint8_t *) ::malloc(cap); memset(d, 0xA5, cap);
    *(uint8_t **) &b->data = d; *(uint16_t *) &b->capacity = (uint16_t) cap;
    b->manager = &mgrs[i].m; embc_list_initialize(&b->item);
    pools[i]->live[b] = pools[i]->total++;
    return b;
}
}  // namespace fr
extern "C" embc_buffer_s *__wrap_embc_buffer_alloc(embc_buffer_allocator_s *a, embc_size_t size) { return fr::pool_alloc(a, size); }
extern "C" embc_buffer_s *__wrap_embc_buffer_alloc_unsafe(embc_buffer_allocator_s *a, embc_size_t size) { return fr::pool_alloc(a, size); }
