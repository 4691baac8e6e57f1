// C25: the link delivers every message exactly once, in order and intact.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_link.hpp"
using namespace fr;
PBT_PROP("C25", 60000, 2500000,
         "two framers exchange up to 60 messages over a simulated line in virtual time; up to 2 transmissions of each message and up to 4 of its acknowledgements are lost, damaged or cut, frames may be "
         "doubled or surrounded by noise; every message must be delivered once, in the order sent, intact, and be completed with status 0; non-trivial: 3 or more messages and 1 or more faults") {
    Sim s(t);
    s.byte_time = t.oneof<int64_t>({1 * US, 10 * US, 40 * US}); s.timer_slack = t.oneof<int64_t>({0, 0, 20 * MS}); s.done_mode = (unsigned) t.pick(4); s.done_delay = t.oneof<int64_t>({100 * US, 5 * MS});
    s.hold_max = t.oneof<int64_t>({0, 0, 50 * MS}); s.react = t.oneof({0u, 0u, 4u}); s.msg_cap = 60;
    unsigned den = t.oneof({2u, 4u, 12u, 40u}); bool acks_too = t.flip(); unsigned most = 2; if (t.chance(1, 8)) { most = 5; den = 2; }
    s.fault = [&](Node &, Msg *m, bool is_ack, Msg *acked) -> Fault {
        if (!t.chance(1, den)) return CLEAN;
        if (is_ack) {
            if (!acks_too) return CLEAN;
            Fault k = t.oneof({DROP, DAMAGE_PAYLOAD, DAMAGE_HEAD, TRUNCATE, NOISE_BEFORE, NOISE_AFTER, DUPLICATE});
            if (k == NOISE_BEFORE || k == NOISE_AFTER || k == DUPLICATE) { t.label("noise or doubled frame"); return k; }
            if (!acked || acked->ack_damaged >= 4) return CLEAN;
            ++acked->ack_damaged; t.label("acknowledgement lost"); return k;
        }
        Fault k = t.oneof({DROP, DAMAGE_PAYLOAD, DAMAGE_HEAD, TRUNCATE, NOISE_BEFORE, NOISE_AFTER, DUPLICATE});
        if (k == NOISE_BEFORE || k == NOISE_AFTER || k == DUPLICATE) { t.label("noise or doubled frame"); return k; }
        if (!m || m->damaged >= most) return CLEAN;
        ++m->damaged; t.label(m->damaged == 2 ? "frame lost twice" : "frame lost"); return k;
    };
    s.on_deliver = [&](Node &to, unsigned i) {
        if (i != to.order.size() - 1 && most > 2 && to.in_timer && s.now - to.last_data >= 800 * MS - s.tick)
            pbt::known("rx-timeout-gap", "message %u was delivered to %c by the 800 ms receive timeout while message %u, lost %u times in a row, was still being retransmitted", i, 'A' + to.idx, (unsigned) to.order.size() - 1, to.peer->msgs[to.order.size() - 1].damaged);
         PBT_EQ((size_t) i, to.order.size() - 1, "message delivered to %c (0 is the first sent)", 'A' + to.idx); };
    s.on_done = [&](Node &from, unsigned i, int st) {
        PBT_EQ(st, 0, "status of message %u of %c", i, 'A' + from.idx); PBT_EQ(i, from.next_done, "message completed by %c", 'A' + from.idx); ++from.next_done;
    };
    unsigned mean = t.oneof({5u, 12u, 40u}), ops = 0, dir = (unsigned) t.pick(3);
    while (t.more(mean) && ops++ < 120) {
        if (t.pick(3)) { unsigned k = t.pick(4) ? 1 : 1 + (unsigned) t.pick(6); Node &x = s.n[dir < 2 ? dir : t.pick(2)]; while (k--) s.send(x); }
        else s.run(s.now + t.oneof<int64_t>({100 * US, 1 * MS, 5 * MS, 30 * MS, 260 * MS, 1 * SEC}));
    }
    s.react = 0; s.settle(20 * SEC);
    size_t total = 0;
    for (auto &x : s.n) { PBT_EQ(x.order.size(), x.peer->msgs.size(), "messages delivered to %c", 'A' + x.idx); total += x.order.size(); }
    if (total >= 3 && s.faults) t.nontrivial();
    if (total > 16) t.label("frame id wrapped");
    s.finish();
}
