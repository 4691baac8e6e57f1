// C37: resync aborts what is in progress and leaves a working link.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_link.hpp"
using namespace fr;
PBT_PROP("C37", 60000, 2500000,
         "two framers exchange up to 60 messages per side over a line that loses or damages up to 2 transmissions of each frame and up to 4 of its acknowledgements, and call embc_framer_resync up to 6 times at "
         "any moment; each resync completes every message its caller has in progress once, with status ABORTED; nothing sent before a resync is delivered after that resync has arrived; messages sent later by either side are delivered once, in order, intact, with status 0, and "
         "messages in flight are delivered at most once, in order; non-trivial: a resync with messages in flight and 3 or more messages after it") {
    Sim s(t); s.lockstep = t.pick(3) != 0;
    s.byte_time = t.oneof<int64_t>({1 * US, 10 * US, 40 * US}); s.timer_slack = t.oneof<int64_t>({0, 0, 20 * MS}); s.done_mode = (unsigned) t.pick(4); s.done_delay = t.oneof<int64_t>({100 * US, 5 * MS});
    s.react = t.oneof({0u, 0u, 4u}); s.msg_cap = 60;
    unsigned den = t.oneof({2u, 4u, 12u, 1000000u}); int last[2] = {-1, -1}; bool in_resync = false; unsigned aborted = 0, later = 0, resyncs = 0;
    s.fault = [&](Node &, Msg *m, bool is_ack, Msg *acked) -> Fault {
        if (!t.chance(1, den)) return CLEAN;
        Fault k = t.oneof({DROP, DAMAGE_PAYLOAD, DAMAGE_HEAD, TRUNCATE});
        if (is_ack) { if (!acked || acked->ack_damaged >= 4) return CLEAN; ++acked->ack_damaged; return k; }
        if (!m || m->damaged >= 2) return CLEAN;
        ++m->damaged; if (m->resync) t.label("resync frame lost"); return k;
    };
    s.on_deliver = [&](Node &to, unsigned i) {
        PBT_CHECK((int) i > last[to.idx], "message %u was delivered to %c after message %d", i, 'A' + to.idx, last[to.idx]); last[to.idx] = (int) i;
        for (size_t k = i + 1; k < to.peer->msgs.size(); ++k) { Msg &m = to.peer->msgs[k]; PBT_CHECK(!m.resync || !m.arrived || to.peer->msgs[i].arrived_step == m.first_step, "message %u was delivered to %c after the peer's later resync had arrived", i, 'A' + to.idx); }
        for (unsigned k = 0; k < i; ++k) { Msg &m = to.peer->msgs[k]; PBT_CHECK(m.delivered || m.purged || m.resync, "message %u was delivered to %c before message %u", i, 'A' + to.idx, k); }
    };
    s.on_done = [&](Node &from, unsigned i, int st) {
        Msg &m = from.msgs[i];
        if (m.may_abort) { PBT_EQ(st, EMBC_ERROR_ABORTED, "status of message %u of %c, aborted by resync", i, 'A' + from.idx); ++aborted; return; }
        PBT_EQ(st, 0, "status of message %u of %c", i, 'A' + from.idx);
    };
    unsigned mean = t.oneof({5u, 12u, 40u}), ops = 0, dir = (unsigned) t.pick(3);
    while (t.more(mean) && ops++ < 120) switch (t.weighted({6, 3, 2})) {
        case 0: { unsigned k = t.pick(4) ? 1 : 1 + (unsigned) t.pick(6); Node &x = s.n[dir < 2 ? dir : t.pick(2)]; if (resyncs) later += k; while (k--) s.send(x); break; }
        case 1: s.run(s.now + t.oneof<int64_t>({100 * US, 1 * MS, 5 * MS, 30 * MS, 260 * MS, 1 * SEC})); break;
        default: if (resyncs < 6) { ++resyncs; s.resync(s.n[t.pick(2)]); }
    }
    (void) in_resync;
    s.react = 0; s.settle(20 * SEC);
    for (auto &x : s.n) for (size_t i = 0; i < x.msgs.size(); ++i) { Msg &m = x.msgs[i]; PBT_CHECK(m.delivered || m.purged || m.resync, "message %zu of %c, sent after the last resync, was never delivered", i, 'A' + x.idx); }
    if (aborted && later >= 3) t.nontrivial();
    s.finish();
}
