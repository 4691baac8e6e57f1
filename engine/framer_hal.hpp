// A passive HAL for one framer: records what it transmits, holds the timer.
#pragma once
#include "framer_ref.hpp"
#include <deque>
#include <memory>
namespace fr {
struct Hal {
    struct Tx { embc_buffer_s *b; Bytes bytes; };
    std::deque<Tx> q; std::vector<Bytes> log;  // log: every frame ever handed over
    int64_t now = 0; bool armed = false; int64_t at = 0; uint32_t tid = 100; void (*fn)(void *, uint32_t) = 0; void *ud = 0;
    embc_framer_s *f = 0; Pool pool; int idx; void *mem = 0;
    static void tx(void *h, embc_buffer_s *b) {
        Hal *s = (Hal *) h;
        PBT_CHECK(b && s->pool.live.count(b), "the HAL was given a buffer that is not allocated");
        for (auto &x : s->q) PBT_CHECK(x.b != b, "the HAL was given a buffer it already owns");
        PBT_CHECK(b->length <= b->capacity, "buffer length");
        s->q.push_back({b, Bytes(b->data, b->data + b->length)}); s->log.push_back(s->q.back().bytes);
        embc_list_add_tail(&s->list, &b->item);  // the HAL may use the item
    }
    static int64_t time(void *h) { return ((Hal *) h)->now; }
    static int32_t set(void *h, int64_t t, void (*fn)(void *, uint32_t), void *ud, uint32_t *id) {
        Hal *s = (Hal *) h; PBT_CHECK(fn && id, "timer_set arguments"); PBT_CHECK(!s->armed, "a second timer was set while one is pending");
        s->armed = true; s->at = t; s->fn = fn; s->ud = ud; *id = ++s->tid; return 0;
    }
    static int32_t cancel(void *h, uint32_t id) { Hal *s = (Hal *) h; if (!s->armed || id != s->tid) return 1; s->armed = false; return 0; }
    embc_list_s list;
    explicit Hal(int i = 0) : idx(i) {
        embc_list_initialize(&list); pools[i] = &pool;
        mem = ::malloc((size_t) embc_framer_instance_size()); memset(mem, 0x5a, (size_t) embc_framer_instance_size());
        f = (embc_framer_s *) mem;
        embc_framer_hal_callbacks_s cb = {this, tx, time, set, cancel};
        embc_framer_initialize(f, pool_handle(i), &cb);
    }
    Hal(const Hal &) = delete;
    ~Hal() { ::free(mem); }
    // the oldest frame leaves the HAL
    Bytes pop() {
        PBT_CHECK(!q.empty(), "no frame to transmit"); Tx x = q.front(); q.pop_front();
        PBT_CHECK(pool.live.count(x.b), "a buffer was freed while the HAL owned it");
        PBT_CHECK(x.b->length == x.bytes.size() && !memcmp(x.b->data, x.bytes.data(), x.bytes.size()), "a frame was changed while the HAL owned it");
        PBT_CHECK(embc_list_peek_head(&list) == &x.b->item, "the HAL's list of frames was changed");
        embc_list_remove(&x.b->item); done = x.b; return x.bytes;
    }
    embc_buffer_s *done = 0;
    void tx_done() { embc_buffer_s *b = done; done = 0; embc_framer_hal_tx_done(f, b); }
    Bytes take() { Bytes x = pop(); tx_done(); return x; }
    void rx(const uint8_t *p, size_t n) { pbt::Exact e(p, n); embc_framer_hal_rx_buffer(f, e.p, (embc_size_t) n); }
    void rx(const Bytes &b) { rx(b.data(), b.size()); }
    bool fire() { if (!armed) return false; armed = false; if (now < at) now = at; fn(ud, tid); return true; }
    void finish() { embc_framer_finalize(f); while (!q.empty()) { pop(); embc_buffer_free(done); } PBT_CHECK(!armed, "a timer is still set after finalize"); PBT_EQ(pool.live.size(), (size_t) 0, "buffers not returned after finalize"); }
};
}  // namespace fr
