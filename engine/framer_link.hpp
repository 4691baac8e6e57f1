// Two framers joined by a simulated serial line in virtual time.
#pragma once
#include "framer_ref.hpp"
#include <deque>
#include <functional>
#include <memory>
namespace fr {
static const int64_t US = EMBC_TIME_SECOND / 1000000, MS = EMBC_TIME_SECOND / 1000, SEC = EMBC_TIME_SECOND;
struct Msg {
    uint8_t port, mid; uint16_t pd; Bytes p;
    unsigned slot = 0;         // position in the sequence of frames of its sender (frame id modulo 16)
    bool sent = false;         // handed to the HAL at least once
    unsigned handed = 0;       // times handed to the HAL
    unsigned damaged = 0, ack_damaged = 0;  // faults spent on it
    unsigned unseen = 0;       // retries that could not reach the HAL, since it still owned the frame (at most)
    unsigned arrived = 0;      // intact arrivals at the peer
    uint64_t arrived_step = 0, first_step = 0; // last and first arrival, see Sim::lockstep
    unsigned done = 0; int status = 0; int64_t t_sent = 0, t_done = 0;
    unsigned delivered = 0;
    bool purged = false, may_abort = false, resync = false;       // a resync by either side may have dropped it
};
enum Fault { CLEAN, DROP, DAMAGE_PAYLOAD, DAMAGE_HEAD, TRUNCATE, NOISE_BEFORE, NOISE_AFTER, DUPLICATE, DAMAGE_ANY };
struct Sim;
struct Node {
    Sim *sim; int idx; Node *peer = 0; embc_framer_s *f = 0; void *mem = 0; Pool pool;
    // HAL
    struct Tx { embc_buffer_s *b; Bytes bytes; int msg; };
    std::deque<Tx> q; embc_list_s list; bool busy = false; int64_t tx_end = 0;
    struct Done { int64_t at; embc_buffer_s *b; Bytes bytes; }; std::deque<Done> dones;
    bool armed = false; int64_t at = 0, fire_at = 0; uint32_t tid = 0; void (*fn)(void *, uint32_t) = 0; void *ud = 0; bool in_timer = false;
    // application
    std::deque<Msg> msgs; std::vector<unsigned> order;  // delivered messages of the PEER, by number
    unsigned next_rx = 0, next_done = 0, frames_sent = 0, completions = 0, given_up = 0;
    struct Held { int64_t at; embc_buffer_s *b; Bytes bytes; }; std::vector<Held> held;
    Scanner scan;               // what arrives here
    int64_t last_data = INT64_MIN; unsigned acks_rx = 0, data_rx = 0;
    unsigned absorbed = 0;     // refusals that may have found the HAL still busy with the frame
    unsigned given_up_run = 0, bad_port = 0; bool reply_budget = false;
};
struct Sim {
    pbt::Tape &t; Node n[2]; int64_t now;
    int64_t tick = 1, byte_time = 10 * US, timer_slack = 0, done_delay = 0, hold_max = 0; unsigned done_mode = 0, fault_den = 0; bool clean = false, sync_timer = false;
    bool in_order_done = true; unsigned msg_cap = 200, react = 0;
    std::function<Fault(Node &from, Msg *m, bool is_ack, Msg *acked)> fault = [](Node &, Msg *, bool, Msg *) { return CLEAN; };
    std::function<void(Node &to, unsigned i)> on_deliver; std::function<void(Node &from, unsigned i, int status)> on_done;
    std::function<bool(Node &to, uint8_t, uint8_t, uint16_t, const Bytes &)> other_rx; std::function<bool(Node &from, uint8_t, uint8_t, uint16_t, int)> other_done;
    std::function<void(Node &, const Bytes &)> on_frame_sent; std::function<void(Node &to, Msg &m)> on_arrive; std::function<void(Node &from, unsigned i)> excuse;
    bool check_window = true; unsigned faults = 0; bool lenient_data = false; bool lockstep = false; uint64_t step_no = 0;  // lockstep: reference scanner and framer get each byte together

    explicit Sim(pbt::Tape &t_) : t(t_), now(0) {
        now = t.oneof<int64_t>({0, 1, 5 * SEC, (int64_t) 1 << 50}); tick = t.oneof<int64_t>({1, 1, 1 * MS, 10 * MS});
        for (int i = 0; i < 2; ++i) {
            Node &x = n[i]; x.sim = this; x.idx = i; x.peer = &n[1 - i]; pools[i] = &x.pool; embc_list_initialize(&x.list);
            x.mem = ::malloc((size_t) embc_framer_instance_size()); memset(x.mem, 0x5a, (size_t) embc_framer_instance_size()); x.f = (embc_framer_s *) x.mem;
            embc_framer_hal_callbacks_s cb = {&x, tx, time, tset, tcancel};
            embc_framer_initialize(x.f, pool_handle(i), &cb);
            for (int p = 0; p < 16; ++p) { embc_framer_port_callbacks_s c = {&x, rx, txdone}; embc_framer_register_port_callbacks(x.f, (uint8_t) p, &c); }
        }
    }
    ~Sim() { for (auto &x : n) ::free(x.mem); }
    // --- HAL callbacks ---
    static Msg *find_slot(Node &x, unsigned id) { // latest message of that id handed to the HAL
        for (size_t i = x.msgs.size(); i-- > 0; ) if (x.msgs[i].sent && (x.msgs[i].slot & 15) == id) return &x.msgs[i];
        return 0;
    }
    static void tx(void *h, embc_buffer_s *b) {
        Node &x = *(Node *) h; Sim &s = *x.sim;
        PBT_CHECK(b && x.pool.live.count(b), "the HAL was given a buffer that is not allocated");
        for (auto &q : x.q) PBT_CHECK(q.b != b, "the HAL was given a frame it already owns");
        for (auto &d : x.dones) PBT_CHECK(d.b != b, "the HAL was given a frame it already owns");
        Bytes by(b->data, b->data + b->length); size_t len = 0;
        PBT_CHECK(validate(by.data(), by.size(), &len) == 0 && len == by.size() && by.back() == 0xAA, "transmitted %s, not a frame", pbt::hex(by.data(), by.size(), 40).c_str());
        int mi = -1;
        if (!(by[1] & 0x80)) {
            // which message is it?
            for (size_t i = x.msgs.size(); i-- > 0; ) { Msg &m = x.msgs[i]; if (m.mid == by[3] && m.port == by[2] && !m.done && by == data((uint8_t) m.slot, m.port, m.mid, m.pd, m.p)) { mi = (int) i; break; } }
            if (mi < 0 && !s.lenient_data) {
                for (auto &m : x.msgs) if (!m.done && m.port == by[2] && m.mid == by[3]) pbt::fail("message %d was transmitted as %s, expected %s", m.mid, pbt::hex(by.data(), by.size(), 40).c_str(), pbt::hex(data((uint8_t) m.slot, m.port, m.mid, m.pd, m.p).data(), m.p.size() + 13, 40).c_str());
                pbt::fail("transmitted %s, which is not a message in progress", pbt::hex(by.data(), by.size(), 40).c_str());
            }
            if (mi >= 0) {
                Msg &m = x.msgs[(size_t) mi]; m.sent = true; ++m.handed;
                PBT_CHECK(m.handed <= 60, "message transmitted %u times", m.handed);
                if (s.check_window) { unsigned first = (unsigned) mi; for (size_t i = 0; i < x.msgs.size(); ++i) if (!x.msgs[i].done) { first = x.msgs[i].slot; break; }
                    PBT_CHECK(m.slot < first + EMBC_FRAMER_OUTSTANDING_FRAMES_MAX, "frame %u transmitted while frame %u is not confirmed: more than %d outstanding", m.slot, first, EMBC_FRAMER_OUTSTANDING_FRAMES_MAX); }
            }
        } else PBT_EQ(by.size(), (size_t) 14, "size of an acknowledgement");
        if (s.on_frame_sent) s.on_frame_sent(x, by);
        x.q.push_back({b, by, mi}); embc_list_add_tail(&x.list, &b->item);
        if (!x.busy) { x.busy = true; x.tx_end = s.now + s.byte_time * (int64_t) by.size(); }
    }
    int64_t clock() const { return now - now % tick; }  // what the HAL's clock shows
    static int64_t time(void *h) { return ((Node *) h)->sim->clock(); }
    static int32_t tset(void *h, int64_t at, void (*fn)(void *, uint32_t), void *ud, uint32_t *id) {
        Node &x = *(Node *) h; PBT_CHECK(!x.armed, "a second timer was set while one is pending");
        *id = ++x.tid; 
        if (at <= x.sim->clock() && x.sim->sync_timer) { x.sim->unseen_timer(x); fn(ud, *id); return 0; }
        x.armed = true; x.at = at; x.fire_at = (at + x.sim->tick - 1) / x.sim->tick * x.sim->tick + (x.sim->timer_slack ? (int64_t) x.sim->t.pick(4) * x.sim->timer_slack / 3 : 0); x.fn = fn; x.ud = ud; return 0;
    }
    static int32_t tcancel(void *h, uint32_t id) { Node &x = *(Node *) h; if (!x.armed || id != x.tid) return 1; x.armed = false; return 0; }
    // --- application callbacks ---
    static void rx(void *h, uint8_t port, uint8_t mid, uint16_t pd, embc_buffer_s *b) {
        Node &x = *(Node *) h; Sim &s = *x.sim; Node &from = *x.peer;
        PBT_CHECK(b && x.pool.live.count(b), "a received buffer is not allocated");
        Bytes p(b->data + b->cursor, b->data + b->length); PBT_EQ((size_t) embc_buffer_read_remaining(b), p.size(), "payload length");
        NOTE(s.t, "  [%lld us] %c received port %d mid %d, %d bytes", (long long) (s.now / US), 'A' + x.idx, port, mid, (int) p.size());
        bool dispose = true;
        if (!(s.other_rx && s.other_rx(x, port, mid, pd, p))) {
            int mi = -1;
            for (size_t i = 0; i < from.msgs.size(); ++i) { Msg &m = from.msgs[i]; if (!m.resync && m.mid == mid && m.port == port && m.pd == pd && m.p == p) { mi = (int) i; if (!m.delivered) break; } }
            PBT_CHECK(mi >= 0, "received a message that was never sent: port %d mid %d port_def %04x payload %s", port, mid, pd, pbt::hex(p.data(), p.size(), 40).c_str());
            Msg &m = from.msgs[(size_t) mi];
            PBT_CHECK(m.arrived, "message %d was delivered before it arrived", mid);
            if (m.delivered && s.excuse) s.excuse(from, (unsigned) mi);
            PBT_CHECK(!m.delivered, "message %d was delivered twice", mid);
            ++m.delivered; x.order.push_back((unsigned) mi);
            if (s.on_deliver) s.on_deliver(x, (unsigned) mi);
            if (s.react && !s.quiet && s.t.chance(1, s.react)) {
                if (x.msgs.size() < s.msg_cap && s.t.flip()) { s.send_buffer(x, b, p); dispose = false; s.t.label("received buffer sent back"); } else s.send(x);
            }
        }
        if (dispose) { if (s.hold_max && s.t.flip()) x.held.push_back({s.now + (int64_t) s.t.pick(8) * s.hold_max / 8, b, Bytes(b->data, b->data + b->length)}); else embc_buffer_free(b); }
    }
    static void txdone(void *h, uint8_t port, uint8_t mid, uint16_t pd, int32_t st) {
        Node &x = *(Node *) h; Sim &s = *x.sim; ++x.completions;
        NOTE(s.t, "  [%lld us] %c completed port %d mid %d, status %d", (long long) (s.now / US), 'A' + x.idx, port, mid, st);
        if (s.other_done && s.other_done(x, port, mid, pd, st)) return;
        int mi = -1;
        for (size_t i = 0; i < x.msgs.size(); ++i) { Msg &m = x.msgs[i]; if (m.mid == mid && m.port == port && m.pd == pd) { mi = (int) i; if (!m.done) break; } }
        PBT_CHECK(mi >= 0, "completion of a message that was never sent: port %d mid %d port_def %04x", port, mid, pd);
        Msg &m = x.msgs[(size_t) mi];
        PBT_CHECK(!m.done, "message %d was completed twice", mid);
        ++m.done; m.status = st; m.t_done = s.now;
        if (st) { ++x.given_up; ++x.given_up_run; } else { if (!m.arrived && s.excuse) s.excuse(x, (unsigned) mi); PBT_CHECK(m.arrived, "message %d was reported as delivered but never arrived intact", mid); x.given_up_run = 0; }
        if (s.on_done) s.on_done(x, (unsigned) mi, st);
        if (s.react && !s.quiet && s.t.chance(1, s.react)) { s.t.label("send from tx_done"); s.send(x); }
    }
    // --- actions ---
    Msg &make(Node &x, const Bytes &p) {
        Msg m; m.port = (uint8_t) (t.pick(3) ? t.range(1, 15) : t.pick(16)); m.mid = (uint8_t) x.msgs.size(); m.pd = (uint16_t) t.u(16); m.p = p;
        if (m.port == 0) {
            if (t.chance(1, 4)) m.pd = (uint16_t) ((m.pd & 0xff00) | fr::PORT0_RESYNC);  // only the bare value is the command
            if (m.pd == fr::PORT0_RESYNC || ((m.pd & 0xff) >= fr::PORT0_PING_REQ && (m.pd & 0xff) <= fr::PORT0_STATUS_RSP)) m.pd |= 0x10;
        }
        m.slot = x.frames_sent++; m.t_sent = now; x.msgs.push_back(m); return x.msgs.back();
    }
    Bytes payload() { switch (t.pick(5)) { case 0: return Bytes(); case 1: return t.blob(240 - t.pick(3)); case 2: return t.blob(t.pick(241)); default: return t.blob(t.pick(24)); } }
    void send_buffer(Node &x, embc_buffer_s *b, const Bytes &p) {
        Msg m = make(x, p); NOTE(t, "  [%lld us] %c sends the buffer back as mid %d port %d", (long long) (now / US), 'A' + x.idx, m.mid, m.port);
        embc_framer_send(x.f, m.port, m.mid, m.pd, b);
    }
    void send(Node &x) {
        if (x.msgs.size() >= msg_cap) return;
        Bytes p = payload(); unsigned how = (unsigned) t.pick(3); Msg m = make(x, p);
        NOTE(t, "[%lld us] %c sends mid %d port %d port_def %04x, %d bytes", (long long) (now / US), 'A' + x.idx, m.mid, m.port, m.pd, (int) p.size());
        pbt::Exact e(p.data(), p.size());
        if (how < 2) embc_framer_send_payload(x.f, m.port, m.mid, m.pd, e.p, (uint8_t) p.size());
        else { embc_buffer_s *b = t.flip() ? embc_framer_alloc(x.f) : embc_buffer_alloc(pool_handle(x.idx), (embc_size_t) (p.size() ? p.size() : 1)); embc_buffer_write(b, e.p, (embc_size_t) p.size()); embc_framer_send(x.f, m.port, m.mid, m.pd, b); }
    }
    // Any frames in flight, in both directions, may be dropped.
    unsigned quiet = 0;
    void resync(Node &x) {
        if (x.msgs.size() >= msg_cap) return;
        for (auto &y : n) for (auto &m : y.msgs) { if (!m.done || !m.delivered) m.purged = true; }
        for (auto &m : x.msgs) if (!m.done) m.may_abort = true;
        for (auto &o : x.msgs) if (o.may_abort && !o.sent) { x.frames_sent = o.slot; break; }  // ids never transmitted are used again
        Msg m; m.port = 0; m.mid = 0; m.pd = fr::PORT0_RESYNC; m.slot = x.frames_sent++; m.t_sent = now; m.resync = true; x.msgs.push_back(m);
        NOTE(t, "[%lld us] %c resync", (long long) (now / US), 'A' + x.idx);
        ++quiet; embc_framer_resync(x.f); --quiet;
        for (auto &o : x.msgs) if (o.may_abort) { PBT_CHECK(o.done, "message %d of %c, in progress at resync, was not completed by it", o.mid, 'A' + x.idx); o.may_abort = false; }
    }
    bool owned(Node &x, Msg &m) {  // by the HAL
        for (auto &q : x.q) if (q.msg >= 0 && &x.msgs[(size_t) q.msg] == &m) return true;
        for (auto &d : x.dones) if (d.bytes[1] == (m.slot & 15)) return true;
        return false;
    }
    void unseen_timer(Node &x) { for (auto &m : x.msgs) if (!m.done && m.sent && owned(x, m)) ++m.unseen; }
    void arrive(Node &to, const Bytes &b) {
        Node &from = *to.peer; unsigned acks = 0;
        auto found = [&](Bytes fb) {
            fb.back() = 0xAA;  // not checked by the receiver
            if (fb[2] >= 16) { ++to.bad_port; return; }
            if (fb[1] & 0x80) {
                ++to.acks_rx; Msg *m = find_slot(to, fb[1] & 15);
                if (fb.size() == 14 && fb[8] && (fb[5] || fb[6]) && m && !m->done && (acks || owned(to, *m))) ++m->unseen;
                if (fb.size() == 14 && fb[8] && (fb[5] || fb[6])) { bool own = acks > 0; for (auto &q : to.q) own |= q.bytes[1] == (fb[1] & 15); for (auto &d : to.dones) own |= d.bytes[1] == (fb[1] & 15); to.absorbed += own; }
                ++acks; return;
            }
            ++to.data_rx; to.last_data = now;
            for (size_t i = from.msgs.size(); i-- > 0; ) { Msg &m = from.msgs[i]; if (m.sent && m.mid == fb[3] && m.port == fb[2] && fb == data((uint8_t) m.slot, m.port, m.mid, m.pd, m.p)) { if (!m.arrived++) m.first_step = step_no; m.arrived_step = step_no; if (on_arrive) on_arrive(to, m); break; } }
        };
        if (lockstep) for (size_t k = 0; k < b.size(); ++k) { ++step_no; to.scan.feed(&b[k], 1, found); embc_framer_hal_rx_byte(to.f, b[k]); }
        else {
        ++step_no; to.scan.feed(b.data(), b.size(), found);
        size_t i = 0; unsigned c = (unsigned) t.pick(3);
        while (i < b.size()) { size_t k = c == 0 ? b.size() - i : c == 1 ? 1 : 1 + t.pick(b.size() - i); pbt::Exact e(&b[i], k); if (k == 1) embc_framer_hal_rx_byte(to.f, *e.p); else embc_framer_hal_rx_buffer(to.f, e.p, (embc_size_t) k); i += k; }
        }
        PBT_EQ((size_t) embc_framer_status_get(to.f).rx_count, (size_t) to.acks_rx + to.data_rx + to.bad_port, "frames received by %c after %s", 'A' + to.idx, pbt::hex(b.data(), b.size(), 300).c_str());
    }
    Bytes noise() { Bytes b = t.vec(1 + t.pick(20)); if (t.flip()) b[t.pick(b.size())] = 0xAA; return b; }
    void finish_done(Node &x, const Node::Done &d) {
        PBT_CHECK(x.pool.live.count(d.b), "a frame was freed while the HAL owned it");
        PBT_CHECK(d.b->length == d.bytes.size() && !memcmp(d.b->data, d.bytes.data(), d.bytes.size()), "a frame was changed while the HAL owned it");
        embc_framer_hal_tx_done(x.f, d.b);
    }
    void tx_complete(Node &x) {
        Node::Tx q = x.q.front(); x.q.pop_front();
        PBT_CHECK(x.pool.live.count(q.b), "a frame was freed while the HAL owned it");
        PBT_CHECK(q.b->length == q.bytes.size() && !memcmp(q.b->data, q.bytes.data(), q.bytes.size()), "a frame was changed while the HAL owned it");
        PBT_CHECK(embc_list_peek_head(&x.list) == &q.b->item, "the HAL's list of frames was changed");
        embc_list_remove(&q.b->item);
        x.busy = !x.q.empty(); if (x.busy) x.tx_end = now + byte_time * (int64_t) x.q.front().bytes.size();
        Msg *m = q.msg >= 0 ? &x.msgs[(size_t) q.msg] : 0, *acked = 0; bool is_ack = q.bytes[1] & 0x80;
        if (is_ack) acked = find_slot(*x.peer, q.bytes[1] & 15);
        current_id = q.bytes[1] & 15;
        Fault fk = clean ? CLEAN : fault(x, m, is_ack, acked);
        Bytes b = q.bytes; static const char *names[] = {"", " lost", " payload damaged", " header damaged", " truncated", " with noise before", " with noise after", " duplicated", " damaged"};
        if (fk != CLEAN) ++faults;
        switch (fk) {
            case DROP: b.clear(); break;
            case DAMAGE_PAYLOAD: { unsigned k = 1 + (unsigned) t.pick(3); while (k--) b[8 + t.pick(b.size() - 9)] ^= (uint8_t) (1u << t.pick(8)); if (b == q.bytes) b[8] ^= 1; break; }
            case DAMAGE_HEAD: { unsigned k = 1 + (unsigned) t.pick(3); while (k--) b[t.pick(8)] ^= (uint8_t) (1u << t.pick(8)); if (b == q.bytes) b[1] ^= 1; break; }
            case DAMAGE_ANY: { unsigned k = 1 + (unsigned) t.pick(6); while (k--) b[t.pick(b.size())] ^= (uint8_t) (1u << t.pick(8)); break; }
            case TRUNCATE: b.resize(t.pick(b.size() - 5)); break;
            case NOISE_BEFORE: { Bytes z = noise(); b.insert(b.begin(), z.begin(), z.end()); break; }
            case NOISE_AFTER: { Bytes z = noise(); b.insert(b.end(), z.begin(), z.end()); break; }
            case DUPLICATE: b.insert(b.end(), q.bytes.begin(), q.bytes.end()); break;
            default: break;
        }
        if (t.tracing) { if (is_ack) t.note("  [%lld us] %c -> ack of %d mask %02x%02x status %d%s", (long long) (now / US), 'A' + x.idx, q.bytes[1] & 15, q.bytes[6], q.bytes[5], q.bytes[8], names[fk]);
            else t.note("  [%lld us] %c -> frame id %d port %d mid %d%s", (long long) (now / US), 'A' + x.idx, q.bytes[1], q.bytes[2], q.bytes[3], names[fk]); }
        Node::Done d = {now, q.b, q.bytes};
        unsigned mode = done_mode == 3 ? (unsigned) t.pick(3) : done_mode;
        if (mode == 0) finish_done(x, d);
        if (mode == 2) { d.at = now + (int64_t) t.pick(8) * done_delay / 8; if (!x.dones.empty() && d.at < x.dones.back().at) d.at = x.dones.back().at; x.dones.push_back(d); }
        if (!b.empty()) { arrive(*x.peer, b); }
        if (mode == 1) finish_done(x, d);
        if (flush_stuck && x.peer->scan.waiting()) stuck(*x.peer);
    }
    bool flush_stuck = true; uint8_t current_id = 0;
    // A damaged header can make the receiver wait for the rest of a frame nobody sends; the next bytes on the line resolve that.
    void stuck(Node &to) { if (to.scan.waiting()) { t.label("false header flushed"); NOTE(t, "  %c: line noise", 'A' + to.idx); Bytes z(16, 0); unsigned k = 0; while (to.scan.waiting() && k++ < 20) arrive(to, z); } }
    // run the next event not later than limit
    bool step(int64_t limit) {
        int64_t best = INT64_MAX; int kind = -1; Node *who = 0;
        auto cand = [&](int64_t at, int k, Node &x) { if (at < best || (at == best && (kind < 0 || t.flip()))) { best = at; kind = k; who = &x; } };
        for (auto &x : n) {
            if (x.busy) cand(x.tx_end, 0, x);
            if (x.armed) cand(x.fire_at, 1, x);
            if (!x.dones.empty()) cand(x.dones.front().at, 2, x);
            for (auto &h : x.held) cand(h.at, 3, x);
        }
        if (kind < 0 || best > limit) { if (limit > now) now = limit; return false; }
        if (best > now) now = best;
        Node &x = *who;
        if (kind == 0) tx_complete(x);
        else if (kind == 1) { x.armed = false; NOTE(t, "  [%lld us] %c timer", (long long) (now / US), 'A' + x.idx); x.in_timer = true; unseen_timer(x); x.fn(x.ud, x.tid); x.in_timer = false; }
        else if (kind == 2) { Node::Done d = x.dones.front(); x.dones.pop_front(); finish_done(x, d); }
        else { size_t bi = 0; for (size_t i = 0; i < x.held.size(); ++i) if (x.held[i].at < x.held[bi].at) bi = i; Node::Held h = x.held[bi]; x.held.erase(x.held.begin() + (long) bi);
               PBT_CHECK(x.pool.live.count(h.b) && h.b->length == h.bytes.size() && !memcmp(h.b->data, h.bytes.data(), h.bytes.size()), "a received buffer changed while the application held it"); embc_buffer_free(h.b); }
        return true;
    }
    unsigned steps = 0;
    void run(int64_t until) { while (step(until)) { if (++steps > 200000) pbt::fail("the link never becomes quiet"); } }
    bool idle() { for (auto &x : n) { if (x.busy || !x.dones.empty()) return false; for (auto &m : x.msgs) if (!m.done) return false; } return true; }
    // let everything settle on a clean line
    void settle(int64_t bound) {
        clean = true; int64_t end = now + bound;
        if (flush_stuck) for (auto &x : n) stuck(x);
        while (!idle() && now < end) if (!step(end)) break;
        for (auto &x : n) for (auto &m : x.msgs) PBT_CHECK(m.done, "message %d of %c is not completed %lld ms after the line became clean", m.mid, 'A' + x.idx, (long long) (bound / MS));
        run(now + 1000 * MS);  // receive timeout
    }
    void finish() {
        for (auto &x : n) {
            embc_framer_status_s st = embc_framer_status_get(x.f);
            PBT_EQ((size_t) st.rx_ack_count, (size_t) x.acks_rx, "rx_ack_count of %c", 'A' + x.idx); PBT_EQ((size_t) st.tx_count, (size_t) x.completions + other_completions[x.idx], "tx_count of %c", 'A' + x.idx);
            PBT_EQ((size_t) st.rx_count, (size_t) x.acks_rx + x.data_rx + x.bad_port, "rx_count of %c", 'A' + x.idx);
        }
        release();
    }
    unsigned other_completions[2] = {0, 0};
    void release() {
        for (auto &x : n) {
            embc_framer_finalize(x.f);
            PBT_CHECK(!x.armed, "a timer is still set after finalize");
            for (auto &d : x.dones) { PBT_CHECK(x.pool.live.count(d.b), "a frame was freed while the HAL owned it"); embc_buffer_free(d.b); }
            while (!x.q.empty()) { PBT_CHECK(x.pool.live.count(x.q.front().b), "a frame was freed while the HAL owned it"); embc_buffer_free(x.q.front().b); x.q.pop_front(); }
            for (auto &h : x.held) embc_buffer_free(h.b);
            PBT_EQ(x.pool.live.size(), (size_t) 0, "buffers of %c not returned", 'A' + x.idx);
        }
    }
};
}  // namespace fr
