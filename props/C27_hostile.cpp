// C27: whatever arrives and however HAL, timer and application interleave, the
// framer survives and every buffer has exactly one owner.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_ref.hpp"
#include <deque>
#include <memory>
using namespace fr; using pbt::Tape; using pbt::Exact;
namespace {
struct Held { embc_buffer_s *b; Bytes bytes; };
struct World {
    Tape &t; Pool pool; embc_framer_s *f; void *mem; int64_t now;
    struct Tx { embc_buffer_s *b; Bytes bytes; bool is_ack; }; std::vector<Tx> q; embc_list_s list;
    bool armed = false; int64_t at = 0; uint32_t tid = 7; void (*fn)(void *, uint32_t) = 0; void *ud = 0;
    bool sync_done, sync_timer, use_item; unsigned react, depth = 0;
    std::vector<Held> held; unsigned sends = 0, completions = 0, received = 0, data_arrived = 0; std::set<int> open; unsigned next_seq = 0;
    std::map<std::pair<int, int>, unsigned> pending;  // (message id, port_def) in progress -> count
    bool resynced = false, closing = false, has_rx[16], has_done[16];
    explicit World(Tape &t_) : t(t_) {}
    // every owner's view must still be intact
    void check_owner(embc_buffer_s *b, const Bytes &v, const char *who) {
        PBT_CHECK(pool.live.count(b), "a buffer was freed while %s owned it", who);
        PBT_CHECK(b->length == v.size() && !memcmp(b->data, v.data(), v.size()), "a buffer was changed while %s owned it", who);
    }
    void check_all() { for (auto &x : q) check_owner(x.b, x.bytes, "the HAL"); for (auto &h : held) check_owner(h.b, h.bytes, "the application"); }
    static void tx(void *h, embc_buffer_s *b) {
        World &w = *(World *) h;
        PBT_CHECK(b && w.pool.live.count(b), "the HAL was given a buffer that is not allocated");
        for (auto &x : w.q) PBT_CHECK(x.b != b, "the HAL was given a buffer it already owns");
        for (auto &x : w.held) PBT_CHECK(x.b != b, "the HAL was given a buffer the application owns");
        Bytes by(b->data, b->data + b->length); size_t len = 0;
        PBT_CHECK(validate(by.data(), by.size(), &len) == 0 && len == by.size() && by.back() == 0xAA, "transmitted %s, not a frame", pbt::hex(by.data(), by.size(), 40).c_str());
        NOTE(w.t, "  transmit %s id %d port %d mid %d", by[1] & 0x80 ? "ack" : "data", by[1] & 15, by[2], by[3]);
        bool ack = by[1] & 0x80;
        if (w.sync_done && w.t.flip()) { w.t.label("tx_done within transmit"); embc_framer_hal_tx_done(w.f, b); return; }
        if (w.use_item) embc_list_add_tail(&w.list, &b->item);
        w.q.push_back({b, by, ack});
        unsigned outstanding = 0; for (auto &x : w.q) if (!x.is_ack) ++outstanding;
        if (!w.resynced) PBT_CHECK(outstanding <= 2 * EMBC_FRAMER_OUTSTANDING_FRAMES_MAX + w.completions, "%u data frames at the HAL", outstanding);
    }
    static int64_t time(void *h) { return ((World *) h)->now; }
    static int32_t tset(void *h, int64_t at, void (*fn)(void *, uint32_t), void *ud, uint32_t *id) {
        World &w = *(World *) h; PBT_CHECK(!w.armed, "a second timer was set while one is pending"); PBT_CHECK(fn && id, "timer arguments");
        *id = ++w.tid; if (at <= w.now && w.sync_timer) { NOTE(w.t, "  timer expires at once"); w.t.label("timer within timer_set"); fn(ud, w.tid); return 0; }
        w.armed = true; w.at = at; w.fn = fn; w.ud = ud; return 0;
    }
    static int32_t tcancel(void *h, uint32_t id) { World &w = *(World *) h; if (!w.armed || id != w.tid) return 1; w.armed = false; return 0; }
    static void rx(void *h, uint8_t port, uint8_t mid, uint16_t pd, embc_buffer_s *b) {
        World &w = *(World *) h; (void) pd; ++w.received;
        PBT_CHECK(port < 16 && w.has_rx[port], "receive callback of port %d, which has none", port);
        PBT_CHECK(b && w.pool.live.count(b), "a received buffer is not allocated");
        for (auto &x : w.q) PBT_CHECK(x.b != b, "the application was given a buffer the HAL owns");
        for (auto &x : w.held) PBT_CHECK(x.b != b, "the application was given a buffer it already owns");
        PBT_CHECK(b->cursor == 8 && b->length >= 8 && b->length <= 248 && port < 16, "received buffer: cursor %d length %d port %d", b->cursor, b->length, port);
        NOTE(w.t, "  received port %d mid %d, %d bytes", port, mid, b->length - b->cursor);
        memset(b->data, 0xEE, b->length);  // it is ours
        switch (w.t.pick(4)) {
            case 0: w.held.push_back({b, Bytes(b->data, b->data + b->length)}); break;
            case 1: if (w.sends < 200) { w.send_buffer(b); break; } // fall through
            default: embc_buffer_free(b);
        }
        w.reaction();
    }
    static void hook(void *, embc_buffer_s *) { pbt::fail("a removed receive hook was called"); }
    static void done(void *h, uint8_t port, uint8_t mid, uint16_t pd, int32_t st) {
        World &w = *(World *) h; ++w.completions;
        PBT_CHECK(port < 16 && w.has_done[port], "completion callback of port %d, which has none", port);
        NOTE(w.t, "  completed port %d mid %d status %d", port, mid, st);
        auto it = w.pending.find({mid + 256 * port, pd});
        PBT_CHECK(it != w.pending.end() && it->second, "completion of a message that is not in progress: port %d mid %d port_def %04x status %d", port, mid, pd, st);
        if (!--it->second) w.pending.erase(it);
        w.reaction();
    }
    void reaction() {
        if (!react || depth > 2 || closing || !t.chance(1, react)) return;
        ++depth;
        switch (t.weighted({4, 2, 1})) {
            case 0: t.label("send from callback"); send(); break;
            case 1: if (!held.empty()) { embc_buffer_s *b = take_held(); if (t.flip()) send_buffer(b); else embc_buffer_free(b); } break;
            default: t.label("resync from callback"); resync(); break;
        }
        --depth;
    }
    embc_buffer_s *take_held() { size_t i = t.pick(held.size()); Held h = held[i]; held.erase(held.begin() + (long) i); check_owner(h.b, h.bytes, "the application"); return h.b; }
    struct Id { uint8_t port, mid; uint16_t pd; };
    Id ident() { Id i; i.port = (uint8_t) t.pick(16); i.mid = (uint8_t) next_seq++; i.pd = (uint16_t) t.u(16); if (i.port == 0 && (i.pd & 255) >= 2 && (i.pd & 255) <= 7) i.pd |= 0x10; if (has_done[i.port]) ++pending[{i.mid + 256 * i.port, i.pd}]; ++sends; return i; }
    void send_buffer(embc_buffer_s *b) { if (embc_buffer_length(b) < 8 || b->reserve != 5) { embc_buffer_free(b); return; } Id i = ident(); NOTE(t, "  send received buffer back as mid %d port %d", i.mid, i.port); embc_framer_send(f, i.port, i.mid, i.pd, b); }
    void send() {
        if (sends >= 200) return;
        Bytes p = t.blob(t.oneof<size_t>({0, 1, 240, t.pick(241), t.pick(20)})); unsigned how = (unsigned) t.pick(3); Id i = ident(); Exact e(p.data(), p.size());
        NOTE(t, "  send mid %d port %d port_def %04x, %d bytes", i.mid, i.port, i.pd, (int) p.size());
        if (how == 0) embc_framer_send_payload(f, i.port, i.mid, i.pd, e.p, (uint8_t) p.size());
        else { embc_buffer_s *b = how == 1 ? embc_framer_alloc(f) : embc_buffer_alloc(pool_handle(0), (embc_size_t) (p.size() ? p.size() : 1)); embc_buffer_write(b, e.p, (embc_size_t) p.size()); embc_framer_send(f, i.port, i.mid, i.pd, b); }
    }
    void resync() { if (sends >= 200) return; resynced = true; ++sends; if (has_done[0]) ++pending[{0, fr::PORT0_RESYNC}]; NOTE(t, "  resync"); embc_framer_resync(f); }
    void feed(const Bytes &b) {
        size_t i = 0; unsigned c = (unsigned) t.pick(3);
        while (i < b.size()) { size_t k = c == 0 ? b.size() - i : c == 1 ? 1 : 1 + t.pick(b.size() - i); Exact e(&b[i], k); if (k == 1) embc_framer_hal_rx_byte(f, *e.p); else embc_framer_hal_rx_buffer(f, e.p, (embc_size_t) k); i += k; }
    }
    void finish_tx(size_t k) {
        Tx x = q[k]; check_owner(x.b, x.bytes, "the HAL"); q.erase(q.begin() + (long) k);
        if (use_item) embc_list_remove(&x.b->item);
        NOTE(t, "tx_done %s id %d", x.is_ack ? "ack" : "data", x.bytes[1] & 15); embc_framer_hal_tx_done(f, x.b);
    }
};
}  // namespace
PBT_PROP("C27", 150000, 6000000,
         "one framer receives up to 250 events: frames with valid checksums and arbitrary identity (acknowledgements of any id, mask, status and length; data of any id; resync, ping and status requests; invalid "
         "ports), damaged frames, noise, ports without receive or completion callback, tx_done at any time and in any order, the timer early or late, sends from every kind of buffer, resync, and callbacks that hold, free or send back buffers, send or resync; "
         "no crash, no assertion, no buffer touched while HAL or application own it, at most one timer, no completion without a send, none lost after finalize; non-trivial: 10 or more events incl. 3 crafted frames") {
    World w(t); pools[0] = &w.pool; embc_list_initialize(&w.list); w.now = t.oneof<int64_t>({0, 1, (int64_t) 1 << 40});
    w.sync_done = t.chance(1, 4); w.sync_timer = t.chance(1, 4); w.use_item = t.flip(); w.react = t.oneof({0u, 3u, 10u});
    w.mem = ::malloc((size_t) embc_framer_instance_size()); memset(w.mem, 0x5a, (size_t) embc_framer_instance_size()); w.f = (embc_framer_s *) w.mem;
    std::unique_ptr<void, void (*)(void *)> guard(w.mem, ::free);
    embc_framer_hal_callbacks_s cb = {&w, World::tx, World::time, World::tset, World::tcancel}; embc_framer_initialize(w.f, pool_handle(0), &cb);
    bool partial = t.chance(1, 4); if (partial) t.label("ports without callbacks");
    for (int p = 0; p < 16; ++p) {
        w.has_rx[p] = !partial || t.flip(); w.has_done[p] = !partial || t.flip();
        if (partial) NOTE(t, "port %d: %s %s", p, w.has_rx[p] ? "rx" : "-", w.has_done[p] ? "tx_done" : "-");
        if (partial && t.chance(1, 4)) { embc_framer_port_callbacks_s c = {&w, World::rx, World::done}; embc_framer_register_port_callbacks(w.f, (uint8_t) p, &c); }  // replaced below
        else if (!w.has_rx[p] && !w.has_done[p] && t.flip()) continue;  // nothing is ever registered
        embc_framer_port_callbacks_s c = {&w, w.has_rx[p] ? World::rx : 0, w.has_done[p] ? World::done : 0}; embc_framer_register_port_callbacks(w.f, (uint8_t) p, &c);
    }
    if (t.chance(1, 8)) { NOTE(t, "receive hook set and removed"); embc_framer_register_rx_hook(w.f, World::hook, &w); embc_framer_register_rx_hook(w.f, 0, t.flip() ? &w : 0); }
    unsigned mean = t.oneof({8u, 40u, 120u}), ops = 0, crafted = 0; uint8_t id = (uint8_t) (t.pick(3) ? 0 : t.pick(16));
    auto any_id = [&]() -> uint8_t { return (uint8_t) (t.pick(3) ? t.pick(6) + w.sends - 4 : t.pick(16)) & 15; };
    while (t.more(mean) && ops++ < 250) {
        switch (t.weighted({5, 4, 6, 2, 5, 3, 1, 1, 1})) {
            case 0: NOTE(t, "send"); w.send(); break;
            case 1: { // acknowledgement
                uint16_t mask = t.oneof<uint16_t>({0x100, 0x1ff, 0x180, 0, (uint16_t) t.u(16)}); uint8_t st = t.oneof<uint8_t>({0, 0, 0, EMBC_ERROR_MESSAGE_INTEGRITY, (uint8_t) t.u(8)}); uint8_t i = any_id();
                Bytes f = ack(i, (uint8_t) t.pick(16), (uint8_t) t.u(8), mask, st);
                if (t.chance(1, 8)) f = encode_raw(0x80 | i, (uint8_t) t.u(8), (uint8_t) t.u(8), 0, mask, Bytes());
                else if (t.chance(1, 8)) { Bytes p = t.vec(2 + t.pick(30)); f = encode_raw((uint8_t) (0x80 | t.u(7)), (uint8_t) t.u(8), 0, (uint8_t) p.size(), mask, p); }
                NOTE(t, "ack arrives: %s", pbt::hex(f.data(), f.size(), 40).c_str()); ++crafted; w.feed(f); break; }
            case 2: { // data
                uint8_t i; switch (t.pick(5)) { case 0: i = (uint8_t) (id - 1 - t.pick(4)); break; case 1: i = (uint8_t) (id + 1 + t.pick(3)); break; case 2: i = (uint8_t) t.pick(16); break; default: i = id; } i &= 15;
                uint8_t port = (uint8_t) (t.chance(1, 12) ? t.range(16, 255) : t.pick(16)); uint16_t pd = port == 0 ? t.oneof<uint16_t>({fr::PORT0_RESYNC, fr::PORT0_PING_REQ, fr::PORT0_STATUS_REQ, fr::PORT0_PING_RSP, 0x102, (uint16_t) t.u(16)}) : (uint16_t) t.u(16);
                Bytes p = t.blob(t.oneof<size_t>({0, 1, 240, t.pick(241), t.pick(20)}));
                uint8_t mid = (uint8_t) t.u(8);
                uint8_t hi = t.chance(1, 8) ? (uint8_t) (t.pick(8) << 4) : 0;
                Bytes f = encode_raw((uint8_t) (hi | i), port, mid, (uint8_t) p.size(), pd, p);
                NOTE(t, "data arrives: id %d port %d mid %d port_def %04x, %d bytes", i, port, mid, pd, (int) p.size());
                if (port == 0 && ((pd & 255) == fr::PORT0_PING_REQ || (pd & 255) == fr::PORT0_STATUS_REQ)) t.label("port 0 request");
                if (i == id) id = (id + 1) & 15; else if (t.flip()) id = (i + 1) & 15;
                ++crafted; w.feed(f); break; }
            case 3: { Bytes b; if (t.flip()) { b = t.vec(1 + t.pick(40)); } else { b = data(id, (uint8_t) t.pick(16), 0, 0, t.blob(t.pick(60))); unsigned k = 1 + (unsigned) t.pick(3); while (k--) b[t.pick(b.size())] ^= (uint8_t) (1u << t.pick(8)); if (t.chance(1, 3)) b.resize(t.pick(b.size())); }
                NOTE(t, "noise arrives: %s", pbt::hex(b.data(), b.size(), 60).c_str()); w.feed(b); break; }
            case 4: if (!w.q.empty()) w.finish_tx(t.pick(3) ? 0 : t.pick(w.q.size())); break;
            case 5: if (w.armed) { if (t.pick(8)) { if (w.now < w.at) w.now = w.at; w.now += t.oneof<int64_t>({0, 0, 1 << 20, (int64_t) 1 << 31}); } NOTE(t, "timer"); w.armed = false; w.fn(w.ud, w.tid); } break;
            case 6: if (!w.held.empty()) { embc_buffer_s *b = w.take_held(); if (t.flip()) embc_buffer_free(b); else w.send_buffer(b); } break;
            case 7: NOTE(t, "resync requested"); w.resync(); break;
            default: w.now += t.oneof<int64_t>({1 << 20, (int64_t) 1 << 28, (int64_t) 1 << 31}); break;
        }
        w.check_all();
    }
    if (ops >= 10 && crafted >= 3) t.nontrivial();
    w.closing = true; embc_framer_finalize(w.f); w.check_all();
    PBT_CHECK(!w.armed, "a timer is still set after finalize");
    for (auto &x : w.q) embc_buffer_free(x.b);
    for (auto &h : w.held) embc_buffer_free(h.b);
    PBT_EQ(w.pool.live.size(), (size_t) 0, "buffers not returned after finalize");
}
