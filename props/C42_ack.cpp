// C42: acknowledgements name exactly what was received, and are believed for exactly that.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_link.hpp"
#include "framer_hal.hpp"
#include <climits>
using namespace fr;
static const int WIN = EMBC_FRAMER_OUTSTANDING_FRAMES_MAX;
// ---------------------------------------------------------------- receiver
struct Rx {
    struct F { uint8_t port, mid; uint16_t pd; Bytes p; bool delivered = false; };
    Hal h; pbt::Tape &t; unsigned epoch = 0;
    std::map<int, F> got;           // received since the last restart or resync, by sequence number
    int next = 0, base = 0, floor_ = INT_MIN; // floor_: everything before it counts as received (after a resync)
    std::deque<F> flush;            // of earlier epochs, still to be delivered, in order
    bool timed = false; int last = INT_MIN; unsigned delivered = 0, accepted = 0, purged = 0;
    explicit Rx(pbt::Tape &t_) : t(t_) { for (uint8_t p = 0; p < 16; ++p) { embc_framer_port_callbacks_s c = {this, rx, 0}; embc_framer_register_port_callbacks(h.f, p, &c); } }
    bool has(int s) const { return s < floor_ || got.count(s); }
    static bool same(const F &f, uint8_t port, uint8_t mid, uint16_t pd, const Bytes &p) { return f.port == port && f.mid == mid && f.pd == pd && f.p == p; }
    static void rx(void *u, uint8_t port, uint8_t mid, uint16_t pd, embc_buffer_s *b) {
        Rx &r = *(Rx *) u; Bytes p(b->data + b->cursor, b->data + b->length); embc_buffer_free(b); ++r.delivered;
        NOTE(r.t, "  delivered port %d mid %d", port, mid);
        if (!r.flush.empty()) { PBT_CHECK(same(r.flush.front(), port, mid, pd, p), "port %d mid %d was delivered; the oldest acknowledged frame is port %d mid %d", port, mid, r.flush.front().port, r.flush.front().mid); r.flush.pop_front(); return; }
        for (auto &e : r.got) if (!e.second.delivered) {
            PBT_CHECK(same(e.second, port, mid, pd, p), "port %d mid %d was delivered; the oldest acknowledged frame is port %d mid %d", port, mid, e.second.port, e.second.mid);
            e.second.delivered = true;
            return;
        }
        pbt::fail("port %d mid %d was delivered, but every acknowledged frame had been", port, mid);
    }
    size_t pending() const { size_t n = flush.size(); for (auto &e : got) n += !e.second.delivered; return n; }
    // the one acknowledgement sent for a frame
    Bytes only_ack(const char *what) {
        PBT_EQ(h.q.size(), (size_t) 1, "frames transmitted after %s", what); Bytes a = h.pop(); size_t n = 0;
        PBT_CHECK(validate(a.data(), a.size(), &n) == 0 && n == a.size() && n == 14 && (a[1] & 0x80), "%s was answered with %s, not an acknowledgement", what, pbt::hex(a.data(), a.size(), 30).c_str());
        h.tx_done(); return a;
    }
    void good(uint8_t id, uint8_t port, uint16_t pd, const Bytes &p) {
        F f{port, (uint8_t) (accepted & 255), pd, p}; bool resync = port == 0 && pd == PORT0_RESYNC;
        int d = (id - next) & 15; if (d > 8) d -= 16;
        int seq = next + d; bool was = false;
        if (resync) { for (auto &e : got) purged += !e.second.delivered; got.clear(); flush.clear(); floor_ = base = seq + 1; next = seq + 1; t.label("resync received"); }
        else if (d >= -WIN && d < WIN) {
            was = has(seq);
            if (was) t.label("duplicate"); else if (d < 0) t.label("missing frame received later"); else if (d > 0) t.label("frames skipped");
            if (!was) { got[seq] = f; ++accepted; if (seq < base) base = seq; }
            if (d >= 0) next = seq + 1;
        } else {
            for (auto &e : got) if (!e.second.delivered) flush.push_back(e.second);
            got.clear(); floor_ = INT_MIN; got[seq] = f; ++accepted; base = seq; next = seq + 1; t.label("restart far out of order");
        }
        NOTE(t, "data id %d port %d mid %d%s%s", id, port, f.mid, resync ? " (resync)" : "", was ? " (duplicate)" : "");
        Bytes by = data(id, port, f.mid, pd, p);
        if (t.flip()) h.rx(by); else for (uint8_t c : by) embc_framer_hal_rx_byte(h.f, c);
        Bytes a = only_ack("a data frame"); uint16_t mask = (uint16_t) (a[5] | a[6] << 8);
        PBT_EQ((int) (a[1] & 15), (int) id, "id in the acknowledgement"); PBT_EQ((int) a[2], (int) port, "port in the acknowledgement of id %d", id); PBT_EQ((int) a[3], (int) f.mid, "message id in the acknowledgement of id %d", id); PBT_EQ((int) a[8], 0, "status in the acknowledgement of id %d", id);
        PBT_CHECK(mask & 0x100, "the acknowledgement of id %d has mask %04x: it does not name that frame", id, mask);
        if (!resync) for (int b = 0; b < 16; ++b) {
            int s = seq + b - 8; if (s == seq) continue;
            if (mask & (1 << b)) PBT_CHECK(has(s), "the acknowledgement of id %d has mask %04x: it names id %d, which was not received", id, mask, s & 15);
            else if (b < 8 && b >= 8 - WIN && s >= next - 8) PBT_CHECK(!has(s), "the acknowledgement of id %d has mask %04x: it does not name id %d, which was received", id, mask, s & 15);
        }
        if (resync) return;
        bool full = true; for (int k = 1; k <= WIN; ++k) full &= has(next - k);
        if (full) PBT_EQ(pending(), (size_t) 0, "frames held back although the last %d were received", WIN);
        if (pending()) PBT_CHECK(h.armed && h.at <= h.now + 801 * MS, "frames are held back and no timer is set within 800 ms");
        for (int k = 1; k <= WIN && !timed; ++k) if (!has(next - k)) for (auto &e : got) if (e.first > next - k) PBT_CHECK(!e.second.delivered || early.count(e.first), "id %d was delivered while id %d is missing and may still be sent again", e.first & 15, (next - k) & 15);
        early.clear(); for (auto &e : got) if (e.second.delivered) early.insert(e.first);
        timed = false; while (got.size() > 64) got.erase(got.begin());
    }
    std::set<int> early;
    void fire() { size_t n = pending(); NOTE(t, "timer (%zu frames held back)", n); if (!h.armed) return; h.now = h.at > h.now ? h.at : h.now; bool due = n != 0; h.fire(); if (due) { PBT_EQ(pending(), (size_t) 0, "frames held back after the receive timeout"); t.label("receive timeout"); } early.clear(); for (auto &e : got) if (e.second.delivered) early.insert(e.first); }
};
static void receiver(pbt::Tape &t) {
    Rx r(t); unsigned mean = t.oneof({8u, 20u, 60u}), ops = 0, kinds = 0; unsigned far = t.oneof({40u, 12u, 3u}); bool gap = false, dup = false;
    if (t.flip()) { r.next = 0; }
    while (t.more(mean) && ops++ < 300) {
        Bytes p = t.blob(t.pick(4) ? t.pick(6) : t.pick(241)); uint8_t port = (uint8_t) (t.pick(6) ? t.range(1, 15) : 0); uint16_t pd = (uint16_t) t.u(16); if (!port) pd |= 0x80;
        int d;
        switch (t.weighted({10, 4, 4, 1, 2, 2, 2, 1})) {
            case 0: d = 0; break;
            case 1: d = (int) t.pick(WIN); break;
            case 2: d = -1 - (int) t.pick(WIN); break;
            case 3: d = t.chance(1, far) ? (int) t.pick(16) : 0; break;
            case 4: { // damaged: the header intact
                uint8_t id = (uint8_t) t.pick(16), mid = (uint8_t) t.u(8); Bytes b = data(id, port, mid, pd, p); b[8 + t.pick(b.size() - 9)] ^= (uint8_t) (1 << t.pick(8));
                for (size_t k = 1; k < b.size(); ++k) if (b[k] == 0xAA && k + 1 != b.size()) b.clear();  // looks like another start: not here
                if (b.empty()) continue;
                unsigned before = r.delivered; NOTE(t, "damaged data id %d", id); r.h.rx(b); Bytes a = r.only_ack("a damaged frame");
                PBT_CHECK(a == ack(id, port, mid, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY), "a damaged frame with id %d was answered with %s", id, pbt::hex(a.data(), a.size(), 30).c_str());
                PBT_EQ(r.delivered, before, "frames delivered by a damaged one"); t.label("damaged");
                // the receiver lost synchronization: it finds the next frame by its start
                continue; }
            case 5: r.fire(); continue;
            case 6: r.h.now += t.oneof<int64_t>({1 * MS, 100 * MS, 500 * MS}); if (r.h.armed && r.h.now > r.h.at) r.h.now = r.h.at; continue;
            default: if (t.chance(1, 3)) { r.good((uint8_t) (t.flip() ? r.next & 15 : t.pick(16)), 0, PORT0_RESYNC, Bytes()); } continue;
        }
        if (d > 0) gap = true;
        if (d < 0) dup = true;
        // a peer sends a frame only when all but the last few are confirmed or given up, which takes longer than the receive timeout
        if (d >= -WIN && d < WIN) for (int k = r.next + d - WIN; k > r.next + d - 16 && k >= r.base; --k) if (!r.has(k)) { if (r.pending()) r.fire(); break; }
        ++kinds; r.good((uint8_t) ((r.next + d) & 15), port, pd, p);
    }
    while (r.pending()) { PBT_CHECK(r.h.armed, "%zu frames held back and no timer is set", r.pending()); r.fire(); }
    PBT_EQ(r.delivered, r.accepted - r.purged, "frames delivered");
    if (kinds >= 4 && gap && dup) t.nontrivial();
    t.label("receiver"); r.h.finish();
}
// ---------------------------------------------------------------- transmitter
struct Tx {
    struct F { uint8_t mid; Bytes by; unsigned handed = 0; bool in_hal = false, must = false, may = false, done = false; unsigned tries = 0; int64_t last = 0; };
    Hal h; pbt::Tape &t; std::vector<F> f; size_t logged = 0; unsigned ok = 0, bad = 0, next0 = 0;
    // what may happen in the current event
    std::set<size_t> cause; int want = -1; unsigned want_handed = 0; bool timer = false; int refused = -1;
    static void done(void *u, uint8_t port, uint8_t mid, uint16_t, int32_t st) {
        Tx &x = *(Tx *) u; NOTE(x.t, "  completed mid %d, status %d", mid, st); x.see();
        size_t i = 0; while (i < x.f.size() && (x.f[i].done || x.f[i].mid != mid || x.f[i].by[2] != port)) ++i;
        PBT_CHECK(i < x.f.size(), "completion of port %d mid %d, which is not in progress", port, mid); F &m = x.f[i];
        m.done = true;
        if (!st) {
            ++x.ok; PBT_CHECK(m.must || m.may, "mid %d was completed with status 0, but no acknowledgement named it", mid);
            for (size_t k = 0; k < i; ++k) PBT_CHECK(x.f[k].done, "mid %d was completed with status 0 before mid %d", mid, x.f[k].mid);
        } else {
            ++x.bad; PBT_CHECK(st == EMBC_ERROR_TIMED_OUT || st == EMBC_ERROR_MESSAGE_INTEGRITY, "status %d of mid %d", st, mid);
            PBT_CHECK(m.tries >= EMBC_FRAMER_MAX_RETRIES + 2u, "mid %d was given up after %u reasons to transmit it", mid, m.tries);
            PBT_EQ(st, x.timer ? (int) EMBC_ERROR_TIMED_OUT : (int) EMBC_ERROR_MESSAGE_INTEGRITY, "status of mid %d, given up %s", mid, x.timer ? "after a timeout" : "after a refusal"); x.t.label("given up");
        }
    }
    explicit Tx(pbt::Tape &t_) : t(t_) { for (uint8_t p = 0; p < 16; ++p) { embc_framer_port_callbacks_s c = {this, 0, done}; embc_framer_register_port_callbacks(h.f, p, &c); } }
    // frames handed to the HAL since the last look
    void see() {
        for (; logged < h.log.size(); ++logged) {
            const Bytes &b = h.log[logged]; size_t i = 0; while (i < f.size() && (f[i].done || f[i].by != b)) ++i;
            PBT_CHECK(i < f.size(), "transmitted %s, which is not in progress", pbt::hex(b.data(), b.size(), 30).c_str()); F &m = f[i];
            PBT_CHECK(!m.in_hal, "mid %d was transmitted again while the HAL owns it", m.mid);
            if (m.handed) {
                PBT_CHECK(cause.count(i) || (timer && h.now - m.last >= 250 * MS), "mid %d was transmitted again without a reason", m.mid); cause.erase(i);
                PBT_CHECK(!m.must || (int) i == refused, "mid %d was transmitted again although it was acknowledged", m.mid);
            } else {
                m.tries = 1;
                size_t a = 0; while (a < i && f[a].done) ++a;
                PBT_CHECK(i - a < (size_t) WIN, "mid %d was transmitted while mid %d is not confirmed", m.mid, f[a].mid);
                PBT_CHECK(i == 0 || f[i - 1].handed, "mid %d was transmitted before mid %d", m.mid, f[i ? i - 1 : 0].mid);
            }
            ++m.handed; m.in_hal = true; m.last = h.now;
        }
    }
    void after() {
        see();
        if (want >= 0) { F &m = f[(size_t) want]; PBT_CHECK(m.done || m.handed > want_handed, "mid %d was %s and not transmitted again", m.mid, want == refused ? "refused" : "passed over"); }
        cause.clear(); want = refused = -1; timer = false;
        size_t a = 0; while (a < f.size() && f[a].done) ++a;
        if (a < f.size()) PBT_CHECK(!f[a].must, "mid %d was not completed, although it is the oldest and was acknowledged", f[a].mid);
        for (size_t i = a; i < f.size() && i < a + WIN; ++i) PBT_CHECK(f[i].handed, "mid %d was not transmitted although fewer than %d frames are in progress", f[i].mid, WIN);
        bool wait = false; int64_t due = INT64_MAX; for (auto &m : f) if (m.handed && !m.done && !m.must) { wait = true; if (m.last < due) due = m.last; }
        if (wait) PBT_CHECK(h.armed, "frames wait for their acknowledgement and no timer is set");
    }
    void send() {
        F m; m.mid = (uint8_t) f.size(); uint8_t port = (uint8_t) t.range(1, 15); uint16_t pd = (uint16_t) t.u(16); Bytes p = t.blob(t.pick(8)); m.by = data((uint8_t) (f.size() & 15), port, m.mid, pd, p); f.push_back(m);
        NOTE(t, "send mid %d port %d", m.mid, port); pbt::Exact e(p.data(), p.size()); embc_framer_send_payload(h.f, port, m.mid, pd, e.p, (uint8_t) p.size()); after();
    }
    void hal() { if (h.q.empty()) return; Bytes b = h.pop(); NOTE(t, "HAL done with mid %d", b[3]); for (auto &m : f) if (m.in_hal && m.by == b) m.in_hal = false; h.tx_done(); after(); }
    void fire() {
        if (!h.armed) return;
        NOTE(t, "timer"); timer = true; if (h.at > h.now) h.now = h.at;
        for (auto &m : f) if (m.handed && !m.done && !m.must && h.now - m.last >= 250 * MS) ++m.tries;
        h.fire(); after();
    }
    std::vector<size_t> out() { std::vector<size_t> o; for (size_t i = 0; i < f.size(); ++i) if (f[i].handed && !f[i].done) o.push_back(i); return o; }
    void ack_in(uint8_t id, uint16_t mask, uint8_t status, size_t len) {
        auto o = out(); int hit = -1; for (size_t i : o) if ((i & 15) == id) hit = (int) i;
        NOTE(t, "acknowledgement of id %d (%s), mask %04x, status %d%s", id, hit < 0 ? "nothing" : "in progress", mask, status, len == 1 ? "" : ", wrong length");
        uint8_t port = hit < 0 ? (uint8_t) t.pick(16) : f[(size_t) hit].by[2], mid = hit < 0 ? (uint8_t) t.u(8) : f[(size_t) hit].mid;
        if (len == 1 && hit >= 0 && !status) {
            F &m = f[(size_t) hit]; m.must = true;
            for (size_t i : o) if ((int) i < hit) {
                F &e = f[i]; unsigned d = (unsigned) hit - (unsigned) i;
                if (d <= 8 && (mask & (0x100u >> d))) { if (e.in_hal) e.may = true; else e.must = true; t.label("named by the mask"); }
                else if (!e.must) cause.insert(i);
            }
            for (size_t i : o) if (!f[i].must) { if ((int) i < hit && !f[i].in_hal && !f[i].may) { want = (int) i; want_handed = f[i].handed; t.label("passed over"); } break; }
        } else if (len == 1 && hit >= 0 && mask) { F &m = f[(size_t) hit]; if (m.must) m.may = true; refused = hit; m.must = false; ++m.tries; cause.insert((size_t) hit); if (!m.in_hal) { want = hit; want_handed = m.handed; } t.label("refused"); }
        Bytes p = t.blob(len); if (len) p[0] = status;
        h.rx(encode_raw(0x80 | id, port, mid, (uint8_t) len, mask, p)); after();
    }
};
static void transmitter(pbt::Tape &t) {
    Tx x(t); unsigned mean = t.oneof({10u, 30u, 100u}), ops = 0; bool named = false; unsigned lazy = t.oneof({1u, 1u, 4u});
    while (t.more(mean) && ops++ < 400) switch (t.weighted({5, 6, 6, 2, 1})) {
        case 0: if (x.f.size() < 120) { unsigned k = t.pick(3) ? 1 : 1 + (unsigned) t.pick(6); while (k--) x.send(); } break;
        case 1: if (t.chance(1, lazy)) x.hal(); break;
        case 2: {
            auto o = x.out(); uint8_t id = (uint8_t) (o.empty() || !t.pick(6) ? t.pick(16) : o[t.pick(o.size())] & 15); uint16_t mask = t.pick(3) ? (uint16_t) (0x100 | t.pick(0x100)) : t.pick(4) ? 0x1ff : (uint16_t) t.u(16); uint8_t st = t.pick(4) ? 0 : t.pick(4) ? (uint8_t) EMBC_ERROR_MESSAGE_INTEGRITY : (uint8_t) (1 + t.pick(255));
            if (o.size() >= 2 && !st && (o[1] & 15) == id) named = true;
            unsigned times = st && !t.pick(6) ? 20 : 1;  // until it runs out of retries
            size_t len = t.pick(12) ? 1 : t.pick(4);
            while (times--) { x.ack_in(id, mask, st, len); if (times && t.pick(8)) x.hal(); }
            break; }
        case 3: { unsigned k = t.pick(8) ? 1 : 1 + (unsigned) t.pick(20); while (k--) { x.fire(); if (k && t.pick(8)) while (!x.h.q.empty()) x.hal(); } break; }
        default: x.h.now += t.oneof<int64_t>({1 * MS, 100 * MS, 240 * MS}); if (x.h.armed && x.h.now > x.h.at) x.h.now = x.h.at; break;
    }
    for (unsigned k = 0; k < 4000; ++k) { while (!x.h.q.empty()) x.hal(); auto o = x.out(); if (o.empty()) break; x.ack_in((uint8_t) (o[0] & 15), 0x100, 0, 1); }
    for (auto &m : x.f) PBT_CHECK(m.done, "mid %d was never completed", m.mid);
    if (named && x.ok >= 3) t.nontrivial();
    t.label("transmitter"); x.h.finish();
}
PBT_PROP("C42", 60000, 4000000,
         "one framer with a generated peer; as receiver it gets up to 300 data frames with the expected id, ids skipped, repeated, late or far away, damaged frames, resyncs and timeouts: each gets one acknowledgement with its identity whose mask names only frames received and all of those in the "
         "window, and what is acknowledged is delivered once, in order, at the latest by the timeout; as transmitter it sends up to 120 messages and gets acknowledgements with any id, mask and status: it completes exactly the frames named, in order, and transmits again only what was refused, timed out or not "
         "named; non-trivial: skipped and late frames, or an acknowledgement of a later frame, and 3 or more completions") {
    if (t.flip()) receiver(t); else transmitter(t);
}
