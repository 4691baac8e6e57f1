// C26: every send is completed exactly once, truthfully, whatever the line does.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_link.hpp"
using namespace fr;
struct Line { unsigned mode = 0, den = 4; };  // of one direction
PBT_PROP("C26", 40000, 2000000,
         "two framers exchange up to 90 messages over a line whose two directions go through up to 30 phases: clean, random loss, dead, every data frame damaged, every acknowledgement lost; each phase "
         "lasts up to 30 virtual seconds, so frames run out of retries; at the end the line is clean; every send is completed exactly once, the successful ones in the order sent; status 0 only if an intact copy arrived, "
         "and then the message is delivered exactly once and intact; another status only after all retries; non-trivial: a frame ran out of retries and another was delivered") {
    Sim s(t); Line line[2]; int64_t expect[2] = {0, 0}; bool aliased[2] = {false, false};
    s.byte_time = t.oneof<int64_t>({1 * US, 10 * US, 40 * US, 87 * US}); s.timer_slack = t.oneof<int64_t>({0, 0, 20 * MS}); s.done_mode = (unsigned) t.pick(4); s.done_delay = t.oneof<int64_t>({100 * US, 5 * MS, 400 * MS});
    s.sync_timer = t.flip(); s.react = t.oneof({0u, 0u, 4u}); s.msg_cap = 90;
    s.fault = [&](Node &from, Msg *, bool is_ack, Msg *) -> Fault {
        Line &l = line[from.idx];
        switch (l.mode) {
            case 0: return CLEAN;
            case 1: return t.chance(1, l.den) ? t.oneof({DROP, DAMAGE_PAYLOAD, DAMAGE_HEAD, TRUNCATE, NOISE_BEFORE, NOISE_AFTER, DUPLICATE, DAMAGE_ANY}) : CLEAN;
            case 2: return DROP;
            case 3: return is_ack ? CLEAN : DAMAGE_PAYLOAD;  // a header within the payload may be refused too
            default: return is_ack ? DROP : CLEAN;
        }
    };
    // 4-bit frame ids: after 13 to 15 frames in a row were given up, the next look like old ones
    s.on_arrive = [&](Node &to, Msg &m) {
        int64_t d = (int64_t) m.slot - expect[to.idx];
        if (d < 0) return;
        unsigned a = (unsigned) (d & 15);
        if (d >= 13 && (a >= 13 || a <= 2)) { aliased[to.idx] = true; t.label("frame id aliases an old one"); }
        if (a < 13) expect[to.idx] = (int64_t) m.slot + 1;
    };
    auto after_wrap = [&](Node &from, unsigned i) { if (aliased[1 - from.idx]) pbt::known("wrap-after-outage", "message %u of %c was completed with status 0 but not delivered, or delivered twice: it follows 13 or more frames that were given up, so its frame id looks like an old one", i, 'A' + from.idx); };
    s.excuse = after_wrap;
    s.on_done = [&](Node &from, unsigned i, int st) {
        Msg &m = from.msgs[i];
        if (!st) { PBT_CHECK(i >= from.next_done, "message %u of %c was completed with status 0 after message %u", i, 'A' + from.idx, from.next_done - 1); from.next_done = i + 1; }
        else {
            PBT_CHECK(st == EMBC_ERROR_TIMED_OUT || st == EMBC_ERROR_MESSAGE_INTEGRITY, "status %d of message %u of %c", st, i, 'A' + from.idx);
            // a retry is not transmitted while the HAL still owns the frame
            PBT_CHECK(m.handed + m.unseen >= EMBC_FRAMER_MAX_RETRIES + 1u, "message %u of %c was given up after %u transmissions and at most %u retries that found the HAL still busy with it", i, 'A' + from.idx, m.handed, m.unseen);
            if (!m.unseen) t.label("all retries transmitted");
            t.label(st == EMBC_ERROR_TIMED_OUT ? "timed out" : "integrity errors");
        }
    };
    unsigned mean = t.oneof({5u, 12u, 40u}), ops = 0, dir = (unsigned) t.pick(3), phases = 0;
    while (t.more(mean) && ops++ < 100) {
        switch (t.weighted({4, 3, 3})) {
            case 0: { unsigned k = t.pick(4) ? 1 : 1 + (unsigned) t.pick(16); Node &x = s.n[dir < 2 ? dir : t.pick(2)]; while (k--) s.send(x); break; }
            case 1: s.run(s.now + t.oneof<int64_t>({100 * US, 1 * MS, 5 * MS, 30 * MS, 260 * MS, 1 * SEC, 5 * SEC, 30 * SEC})); break;
            default: if (phases++ < 30) { Line &l = line[t.pick(2)]; l.mode = (unsigned) t.pick(5); l.den = t.oneof({2u, 4u, 12u}); NOTE(t, "[%lld us] line mode: %u and %u", (long long) (s.now / US), line[0].mode, line[1].mode); }
        }
    }
    s.react = 0; s.settle(120 * SEC);
    unsigned ok = 0, bad = 0;
    for (auto &x : s.n) for (size_t i = 0; i < x.msgs.size(); ++i) {
        Msg &m = x.msgs[i];
        if (m.status) { ++bad; continue; }
        ++ok; if (m.delivered) continue;
        after_wrap(x, (unsigned) i);
        pbt::fail("message %zu of %c was completed with status 0 but never delivered", i, 'A' + x.idx);
    }
    if (ok && bad) t.nontrivial();
    s.finish();
}
