// C28: once the line is clean the link recovers by itself.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_link.hpp"
using namespace fr;
PBT_PROP("C28", 30000, 550000,
         "two framers go through 1 to 4 rounds: a bad phase in which each side sends up to 12 messages over a line that loses, damages, cuts, doubles or silences traffic in either direction for up to 30 "
         "virtual seconds, then a clean line; everything in progress must be completed within 2 s plus its transmission time, and 1 s later messages must again be delivered in order, intact and once, "
         "each with one transmission, one acknowledgement and status 0, within 1.7 s (two receive timeouts, known issue 2.1); non-trivial: 3 or more faults and 3 or more messages after recovery") {
    Sim s(t); unsigned mode[2] = {0, 0}, den[2] = {4, 4}; size_t phase[2] = {0, 0}; bool good = false; unsigned after = 0;
    s.byte_time = t.oneof<int64_t>({1 * US, 10 * US, 40 * US}); s.timer_slack = t.oneof<int64_t>({0, 0, 20 * MS}); s.done_mode = (unsigned) t.pick(4); s.done_delay = t.oneof<int64_t>({100 * US, 5 * MS});
    s.sync_timer = t.flip(); s.msg_cap = 200; s.hold_max = t.oneof<int64_t>({0, 0, 50 * MS});
    s.fault = [&](Node &from, Msg *, bool is_ack, Msg *) -> Fault {
        switch (mode[from.idx]) {
            case 0: return CLEAN;
            case 1: return t.chance(1, den[from.idx]) ? t.oneof({DROP, DAMAGE_PAYLOAD, DAMAGE_HEAD, TRUNCATE, NOISE_BEFORE, NOISE_AFTER, DUPLICATE, DAMAGE_ANY}) : CLEAN;
            case 2: return DROP;
            case 3: return is_ack ? CLEAN : DAMAGE_PAYLOAD;
            case 4: return is_ack ? DROP : CLEAN;
            default: return is_ack ? DAMAGE_PAYLOAD : TRUNCATE;
        }
    };
    size_t next[2] = {0, 0};
    s.on_deliver = [&](Node &to, unsigned i) {
        if (i < phase[1 - to.idx] || !good) return;
        PBT_EQ((size_t) i, next[1 - to.idx], "message delivered to %c after recovery", 'A' + to.idx); ++next[1 - to.idx];
        PBT_CHECK(s.now - to.peer->msgs[i].t_sent <= 1700 * MS, "message %u reached %c only after %lld ms on a clean line", i, 'A' + to.idx, (long long) ((s.now - to.peer->msgs[i].t_sent) / MS));
    };
    s.on_done = [&](Node &from, unsigned i, int st) { if (good && i >= phase[from.idx]) PBT_EQ(st, 0, "status of message %u of %c on a clean line", i, 'A' + from.idx); };
    unsigned rounds = 1 + (unsigned) t.pick(4); unsigned faults = 0;
    for (unsigned r = 0; r < rounds; ++r) {
        s.clean = false; good = false; unsigned sent[2] = {0, 0}, ops = 0;
        NOTE(t, "[%lld us] bad phase", (long long) (s.now / US));
        while (t.more(8) && ops++ < 30) switch (t.pick(3)) {
            case 0: { unsigned k = t.pick(3) ? 1 : 1 + (unsigned) t.pick(8); int i = (int) t.pick(2); while (k-- && sent[i] < 12) { ++sent[i]; s.send(s.n[i]); } break; }
            case 1: s.run(s.now + t.oneof<int64_t>({100 * US, 1 * MS, 5 * MS, 30 * MS, 260 * MS, 1 * SEC, 5 * SEC, 30 * SEC})); break;
            default: { int i = (int) t.pick(2); mode[i] = (unsigned) t.pick(6); den[i] = t.oneof({2u, 4u, 12u}); NOTE(t, "[%lld us] line mode: %u and %u", (long long) (s.now / US), mode[0], mode[1]); }
        }
        faults = s.faults;
        NOTE(t, "[%lld us] clean line", (long long) (s.now / US));
        int64_t bytes = 0; for (auto &x : s.n) { for (auto &m : x.msgs) if (!m.done) bytes += (int64_t) m.p.size() + 27; for (auto &q : x.q) bytes += (int64_t) q.bytes.size(); }
        s.settle(2 * SEC + 2 * bytes * s.byte_time + 24 * s.done_delay);
        good = true; unsigned again[2];
        for (int i = 0; i < 2; ++i) { next[i] = phase[i] = s.n[i].msgs.size(); again[i] = embc_framer_status_get(s.n[i].f).tx_retransmit_count; }
        unsigned k = 2, dir = (unsigned) t.pick(3); s.send(s.n[0]); s.send(s.n[1]);
        while (t.more(6) && k < 20) { ++k; s.send(s.n[dir < 2 ? dir : t.pick(2)]); if (t.flip()) s.run(s.now + t.oneof<int64_t>({100 * US, 5 * MS, 300 * MS, 1 * SEC})); }
        after += k;
        s.settle(2 * SEC);
        for (auto &x : s.n) {
            PBT_EQ(next[x.idx], x.msgs.size(), "messages of %c delivered on a clean line", 'A' + x.idx);
            PBT_EQ((unsigned) embc_framer_status_get(x.f).tx_retransmit_count, again[x.idx], "retransmissions of %c on a clean line", 'A' + x.idx);
            for (size_t i = phase[x.idx]; i < x.msgs.size(); ++i) { PBT_EQ(x.msgs[i].handed, 1u, "transmissions of message %zu of %c on a clean line", i, 'A' + x.idx); }
        }
    }
    if (faults >= 3 && after >= 3) t.nontrivial();
    s.finish();
}
