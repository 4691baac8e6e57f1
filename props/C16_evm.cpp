// C16: event manager against an ordered model; callbacks schedule and cancel.
#include "pbt.hpp"
#include <algorithm>
#include <set>
extern "C" {
#include "embc/event_manager.h"
#include "embc/time.h"
}
using pbt::Tape;
struct Ev { int64_t ts; uint64_t seq; int32_t id; };
struct World {
    Tape *t; embc_evm_s *e; std::vector<Ev> pend; uint64_t seq; int64_t now; bool processing; unsigned fired, budget, reentrant, cancelled; std::set<int32_t> dead; unsigned depth;
    int64_t limit; int32_t running;
};
static World w;
static uint64_t tags[4096]; static unsigned ntags;
static size_t head() { size_t b = 0; for (size_t i = 1; i < w.pend.size(); ++i) if (w.pend[i].ts < w.pend[b].ts || (w.pend[i].ts == w.pend[b].ts && w.pend[i].seq < w.pend[b].seq)) b = i; return b; }
static void act(int32_t self_id);
static void cbk(void *user, int32_t id) {
    PBT_CHECK(w.processing, "callback outside embc_evm_process");
    PBT_CHECK(!w.pend.empty(), "callback of event %d though nothing is pending", id);
    size_t i = head(); Ev ev = w.pend[i];
    PBT_CHECK(ev.ts <= w.limit, "event %d fired although nothing is due at %lld", id, (long long) w.limit);
    PBT_CHECK((uint64_t *) user >= tags && (uint64_t *) user < tags + ntags, "callback got another user data pointer");
    uint64_t got = *(uint64_t *) user;
    if (got != ev.seq) {
        bool pending = false; for (auto &p : w.pend) pending |= p.seq == got;
        pbt::fail("event number %llu fired, expected number %llu (time %lld)%s", (unsigned long long) got, (unsigned long long) ev.seq, (long long) ev.ts, pending ? "" : "; it is not pending");
    }
    PBT_EQ(id, ev.id, "event id given to the callback");
    w.pend.erase(w.pend.begin() + (long) i); w.dead.insert(ev.id); ++w.fired;
    NOTE(*w.t, "  fired id %d (time %lld)", id, (long long) ev.ts);
    w.running = id;
    while (w.budget && w.t->chance(1, 3)) { --w.budget; ++w.reentrant; act(id); }
    w.running = 0;
}
static void schedule(int64_t ts) {
    if (ntags >= 4096) return;
    uint64_t s = w.seq++; tags[ntags] = s;
    int32_t id = embc_evm_schedule(w.e, ts, cbk, &tags[ntags++]);
    NOTE(*w.t, "%sschedule(%lld) -> %d", w.processing ? "  " : "", (long long) ts, id);
    if (ts <= 0) { PBT_EQ(id, 0, "schedule with timestamp %lld", (long long) ts); return; }
    PBT_CHECK(id != 0, "schedule returned 0");
    for (auto &p : w.pend) PBT_CHECK(p.id != id, "schedule returned the id %d of an event that is still pending", id);
    w.pend.push_back({ts, s, id});
}
static int64_t time_near() {
    switch (w.t->weighted({8, 3, 2, 1, 1})) {
        case 0: return w.now + (int64_t) w.t->pick(20) - 3;
        case 1: return w.pend.empty() ? w.now : w.t->elem(w.pend).ts;
        case 2: return w.now + (int64_t) w.t->pick(100000);
        case 3: return w.t->oneof<int64_t>({INT64_MAX, INT64_MAX - 1, (int64_t) 1 << 32, ((int64_t) 1 << 32) + 5, 1, 2});
        default: return -(int64_t) w.t->pick(3);
    }
}
static void act(int32_t self_id) {
    if (w.t->pick(5) < 3) { schedule(time_near()); return; }
    int32_t id; unsigned k = w.t->weighted({6, 1, 2, 1});
    if (k == 0 && !w.pend.empty()) id = w.t->elem(w.pend).id;
    else if (k == 1 && !w.dead.empty()) { auto it = w.dead.begin(); std::advance(it, (long) w.t->pick(w.dead.size())); id = *it; }
    else if (k == 2) id = self_id;
    else id = w.t->oneof<int32_t>({0, -1, 1000000, INT32_MAX, INT32_MIN});
    NOTE(*w.t, "%scancel(%d)", w.processing ? "  " : "", id);
    int32_t r = embc_evm_cancel(w.e, id);
    if (w.running && id == w.running) return;  // its event is being processed: nothing left to cancel
    for (size_t i = 0; i < w.pend.size(); ++i) if (w.pend[i].id == id) { PBT_EQ(r, 0, "cancel of a pending event"); w.dead.insert(id); w.pend.erase(w.pend.begin() + (long) i); ++w.cancelled; break; }
}
// thousands of events at once, scheduled backwards in time
static std::vector<std::pair<uint32_t, int32_t>> many_fired;
static void many_cbk(void *user, int32_t id) { many_fired.push_back({(uint32_t) (uintptr_t) user, id}); }
static void many(Tape &t) {
    unsigned n = t.chance(1, 40) ? 66000 + (unsigned) t.pick(5000) : 200 + (unsigned) t.pick(2000), group = 1 + (unsigned) t.pick(4), cut = (unsigned) t.pick(n), each = 2 + (unsigned) t.pick(50);
    NOTE(t, "schedule %u events at times from %u down, %u per time, cancel each %uth of the last 500, process to %u and to the end", n, n, group, each, cut);
    t.heavy(); t.label("thousands of events");
    embc_evm_s *e = embc_evm_allocate();
    std::vector<int32_t> ids(n); std::set<int32_t> distinct; std::vector<std::pair<int64_t, uint32_t>> want;
    for (unsigned i = 0; i < n; ++i) {
        ids[i] = embc_evm_schedule(e, 1 + (n - i) / group, many_cbk, (void *) (uintptr_t) i);
        PBT_CHECK(ids[i] != 0 && distinct.insert(ids[i]).second, "event %u got the id %d, which is 0 or pending", i, ids[i]);
    }
    std::set<unsigned> gone;
    for (unsigned k = 0; k < 8; ++k) gone.insert(k < 4 ? (unsigned) t.pick(n < 5000 ? n : 5000) : (unsigned) t.pick(n));  // also the oldest of many
    for (unsigned i : gone) PBT_EQ(embc_evm_cancel(e, ids[i]), 0, "cancel of a pending event");
    for (unsigned i = 0; i < n; ++i) if (!gone.count(i) && (i + 500 < n || i % each)) want.push_back({1 + (n - i) / group, i});
    for (unsigned i = n; i-- > 0 && i + 500 >= n;) if (!(i % each)) PBT_EQ(embc_evm_cancel(e, ids[i]), 0, "cancel of a pending event");
    std::sort(want.begin(), want.end());
    many_fired.clear();
    unsigned first = 0; while (first < want.size() && want[first].first <= cut) ++first;
    PBT_EQ(embc_evm_process(e, cut), (int) first, "number of events processed up to %u", cut);
    if (first < want.size()) PBT_EQ(embc_evm_time_next(e), want[first].first, "time of the next event");
    PBT_EQ(embc_evm_process(e, n + 2), (int) (want.size() - first), "number of events processed to the end");
    PBT_EQ(many_fired.size(), want.size(), "callbacks");
    for (unsigned i = 0; i < want.size(); ++i) {
        PBT_EQ(many_fired[i].first, want[i].second, "event fired at position %u", i);
        PBT_EQ(many_fired[i].second, ids[want[i].second], "id of the event fired at position %u", i);
    }
    embc_evm_free(e);
}
PBT_PROP("C16", 2000000, 12000000,
         "histories of schedule / cancel / process on one event manager, callbacks that schedule (also for times already due) and cancel (others, themselves, "
         "stale ids), equal timestamps, timestamps from -2 to INT64_MAX; oracle: pending events ordered by time, then by scheduling order; next-time queries "
         "after each step; non-trivial: 3 or more events fired and a callback acted or something was cancelled") {
    if (w.e) { w.e = 0; }
    w.t = &t; w.e = embc_evm_allocate(); w.pend.clear(); w.seq = 0; w.now = 1 + (int64_t) t.pick(1000); w.processing = false; w.running = 0; w.fired = w.reentrant = w.cancelled = 0; w.dead.clear(); ntags = 0;
    if (t.chance(1, 3000)) many(t);
    unsigned mean = t.oneof({8u, 30u, 120u}), ops = 0;
    while (t.more(mean) && ops++ < 500) {
        if (t.pick(3) < 2) act(0);
        else {
            int64_t T;
            switch (t.weighted({6, 2, 1, 1})) {
                case 0: w.now += (int64_t) t.pick(12); T = w.now; break;
                case 1: T = w.pend.empty() ? w.now : w.pend[head()].ts - (int64_t) t.pick(2); w.now = std::max(w.now, T < (int64_t) 1 << 40 ? T : w.now); break;
                case 2: T = w.now - (int64_t) t.pick(20); break;
                default: T = t.oneof<int64_t>({0, -5, INT64_MIN, INT64_MAX});
            }
            NOTE(t, "process(%lld)", (long long) T);
            w.processing = true; w.limit = T; w.budget = (unsigned) t.pick(12); unsigned f0 = w.fired;
            int32_t c = embc_evm_process(w.e, T);
            w.processing = false;
            PBT_EQ(c, (int) (w.fired - f0), "number of events process reported");
            if (!w.pend.empty()) PBT_CHECK(w.pend[head()].ts > T, "process(%lld) left an event due at %lld", (long long) T, (long long) w.pend[head()].ts);
        }
        int64_t nx = embc_evm_time_next(w.e), q = t.oneof<int64_t>({0, 1, w.now, w.now + 7});
        int64_t iv = embc_evm_interval_next(w.e, q);
        if (w.pend.empty()) { PBT_CHECK(nx == EMBC_TIME_MIN, "time_next is %lld with nothing pending", (long long) nx); PBT_EQ(iv, (int64_t) -1, "interval_next with nothing pending"); }
        else { int64_t h = w.pend[head()].ts; PBT_EQ(nx, h, "time_next"); PBT_EQ(iv, h <= q ? 0 : h - q, "interval_next at %lld", (long long) q); }
    }
    NOTE(t, "process(INT64_MAX)");
    w.processing = true; w.limit = INT64_MAX; w.budget = 0; unsigned f0 = w.fired; size_t left = w.pend.size();
    PBT_EQ(embc_evm_process(w.e, INT64_MAX), (int) left, "events processed at the end of time"); PBT_EQ(w.fired - f0, (unsigned) left, "callbacks at the end of time");
    w.processing = false;
    PBT_CHECK(w.pend.empty(), "pending events never fired");
    embc_evm_free(w.e); w.e = 0;
    if (w.fired >= 3 && (w.reentrant || w.cancelled)) t.nontrivial();
}
