// C17: state machine engine against a direct interpretation of its tables.
#include "pbt.hpp"
#include <deque>
extern "C" {
#include "embc/fsm.h"
}
using pbt::Tape;
struct Script { int ret; std::vector<int> posts; unsigned guard; };  // guard: return SKIP / ret alternately when nonzero
struct Entry { int what, idx, state, event; };    // what: 0 handler, 1 exit, 2 enter
enum { NH = 10 };
static Script scr[NH]; static unsigned calls[NH]; static std::vector<Entry> got; static embc_fsm_s *cur; static unsigned budget;
static int ret_of(const Script &s, unsigned call) { return s.guard && (call % (s.guard + 1)) ? EMBC_STATE_SKIP : s.ret; }
static embc_fsm_state_t run(unsigned i, embc_fsm_s *self, embc_fsm_event_t ev) {
    PBT_CHECK(self == cur, "handler got another instance");
    PBT_CHECK(got.size() < 5000, "endless handler calls");
    got.push_back({0, (int) i, self->state, ev});
    unsigned c = calls[i]++;
    for (int p : scr[i].posts) if (budget) { --budget; if (p == EMBC_EVENT_RESET) embc_fsm_reset(self); else embc_fsm_event(self, (embc_fsm_event_t) p); }
    return (embc_fsm_state_t) ret_of(scr[i], c);
}
template <unsigned I> static embc_fsm_state_t h(embc_fsm_s *s, embc_fsm_event_t e) { return run(I, s, e); }
static embc_fsm_handler H[NH] = {h<0>, h<1>, h<2>, h<3>, h<4>, h<5>, h<6>, h<7>, h<8>, h<9>};
struct Overflow {};
struct Ref {
    int state; std::deque<int> q; std::vector<Entry> log; unsigned calls[NH]; unsigned budget; std::vector<embc_fsm_state_s> *st; std::vector<embc_fsm_transition_s> *tr; std::vector<int> enter, exit, hnd;
    unsigned skips, selfs, reentrant, nulls; bool busy;
    void post(int e) { if (q.size() >= EMBC_FSM_EVENT_FIFO_SIZE - 1) throw Overflow(); q.push_back(e); if (busy) ++reentrant; }
    int call(int i, int ev) { log.push_back({0, i, state, ev}); unsigned c = calls[i]++; for (int p : scr[i].posts) if (budget) { --budget; post(p); } return ret_of(scr[i], c); }
    void event(int e) {
        post(e); busy = true;
        while (!q.empty()) { int ev = q.front(); q.pop_front(); step(ev); }
        busy = false;
    }
    void step(int ev) {
        for (size_t i = 0; i < tr->size(); ++i) {
            auto &x = (*tr)[i];
            if (x.current != EMBC_STATE_ANY && x.current != state) continue;
            if (x.event != EMBC_EVENT_ANY && x.event != ev) continue;
            int next = x.next;
            if (hnd[i] >= 0) {
                int r = call(hnd[i], ev);
                if (r == EMBC_STATE_NULL) { ++nulls; return; }
                if (r == EMBC_STATE_SKIP) { ++skips; continue; }
                if (r != EMBC_STATE_ANY) next = r;
            }
            if (next == EMBC_STATE_NULL) { ++nulls; return; }
            if (state >= 0 && exit[(size_t) state] >= 0) call(exit[(size_t) state], EMBC_EVENT_EXIT);
            if (next == state) ++selfs;
            state = next;
            if (enter[(size_t) next] >= 0) call(enter[(size_t) next], EMBC_EVENT_ENTER);
            return;
        }
    }
};
PBT_PROP("C17", 900000, 25000000,
         "random machines (1..6 states with enter / exit handlers, 0..12 transitions with wildcards, guards that skip, handlers that veto or redirect, "
         "handlers that post up to 3 events) driven with random event histories; oracle: a reference interpreter of the documented table semantics, compared "
         "on every handler call and on the state after every event; tables with wrong ids must be rejected; non-trivial: at least 5 handler calls and a "
         "reentrant event or a skipped guard") {
    int n = (int) t.range(1, 6), nev = (int) t.range(1, 4);
    std::vector<embc_fsm_state_s> st((size_t) n); std::vector<embc_fsm_transition_s> tr; Ref r; r.st = &st; r.tr = &tr;
    r.skips = r.selfs = r.reentrant = r.nulls = 0; r.busy = false; memset(r.calls, 0, sizeof(r.calls)); memset(calls, 0, sizeof(calls)); got.clear();
    for (int i = 0; i < NH; ++i) {
        scr[i].posts.clear(); scr[i].guard = t.chance(1, 4) ? (unsigned) t.range(1, 2) : 0;
        switch (t.weighted({5, 2, 2, 2})) { case 0: scr[i].ret = EMBC_STATE_ANY; break; case 1: scr[i].ret = EMBC_STATE_SKIP; break; case 2: scr[i].ret = EMBC_STATE_NULL; break; default: scr[i].ret = (int) t.pick((uint64_t) n); }
        while (t.chance(1, 4) && scr[i].posts.size() < 3) scr[i].posts.push_back(t.chance(1, 6) ? EMBC_EVENT_RESET : (int) t.pick((uint64_t) nev));
        if (t.tracing) { std::string s; for (int p : scr[i].posts) s += " " + std::to_string(p); t.note("handler %d returns %d%s, posts%s", i, scr[i].ret, scr[i].guard ? " (or SKIP)" : "", s.c_str()); }
    }
    auto pickh = [&]() -> int { return t.flip() ? (int) t.pick(NH) : -1; };
    for (int i = 0; i < n; ++i) { int a = pickh(), b = pickh(); r.enter.push_back(a); r.exit.push_back(b); st[(size_t) i] = {(embc_fsm_state_t) i, i % 2 ? "s" : 0, a < 0 ? 0 : H[a], b < 0 ? 0 : H[b]};
        NOTE(t, "state %d: enter handler %d, exit handler %d", i, a, b); }
    unsigned nt = (unsigned) t.range(0, 12);
    auto add = [&](int c, int nx, int e, int hn) { tr.push_back({(embc_fsm_state_t) c, (embc_fsm_state_t) nx, (embc_fsm_event_t) e, hn < 0 ? 0 : H[hn]}); r.hnd.push_back(hn); NOTE(t, "transition %d --> %d on %d, handler %d", c, nx, e, hn); };
    for (unsigned i = 0; i < nt; ++i) {
        int c = t.chance(1, 5) ? t.oneof({(int) EMBC_STATE_ANY, (int) EMBC_STATE_NULL}) : (int) t.pick((uint64_t) n);
        int nx = t.chance(1, 8) ? (int) EMBC_STATE_NULL : (int) t.pick((uint64_t) n);
        int e = t.chance(1, 5) ? t.oneof({(int) EMBC_EVENT_ANY, (int) EMBC_EVENT_RESET, 127, -128}) : (int) t.pick((uint64_t) nev);
        add(c, nx, e, pickh());
    }
    if (t.chance(9, 10)) add(EMBC_STATE_ANY, (int) t.pick((uint64_t) n), EMBC_EVENT_RESET, -1);
    embc_fsm_s f; memset(&f, 0x5a, sizeof(f)); cur = &f;
    f.name = t.flip() ? "m" : 0; f.states = st.data(); f.states_count = (embc_fsm_state_t) n; f.transitions = tr.data(); f.transitions_count = (uint32_t) tr.size(); f.event_name_fn = 0;
    if (t.chance(1, 20)) {
        t.label("invalid table");
        if (tr.empty() || t.flip()) { size_t i = t.pick((uint64_t) n); st[i].state = (embc_fsm_state_t) (st[i].state + t.oneof({1, -1, 5})); NOTE(t, "state %zu declared as %d", i, st[i].state); }
        else { auto &x = t.elem(tr); int bad = t.oneof({n, n + 1, 100, 127, -4, -128}); if (t.flip()) x.current = (embc_fsm_state_t) bad; else x.next = (embc_fsm_state_t) bad; NOTE(t, "transition with invalid state %d", bad); }
        PBT_CHECK(FATALS(embc_fsm_initialize(&f)), "an invalid table was accepted");
        PBT_CHECK(got.empty(), "handlers ran on an invalid table");
        return;
    }
    auto compare = [&](const char *what) {
        for (size_t i = 0; i < std::max(got.size(), r.log.size()); ++i) {
            if (i >= got.size()) { auto &b = r.log[i]; pbt::fail("%s: handler %d on event %d in state %d was not called", what, b.idx, b.event, b.state); }
            auto &a = got[i];
            if (i >= r.log.size()) pbt::fail("%s: handler %d called on event %d in state %d, expected no call", what, a.idx, a.event, a.state);
            auto &b = r.log[i];
            PBT_CHECK(a.idx == b.idx && a.state == b.state && a.event == b.event, "%s: call %zu was handler %d on event %d in state %d, expected handler %d on event %d in state %d",
                      what, i, a.idx, a.event, a.state, b.idx, b.event, b.state);
        }
    };
    unsigned evs = (unsigned) (t.flip() ? t.range(0, 6) : t.range(0, 40));
    for (unsigned k = 0; k <= evs; ++k) {
        bool overflow = false, fatal = false; int ev = EMBC_EVENT_RESET;
        budget = r.budget = (unsigned) t.pick(t.chance(1, 8) ? 40 : 6);
        if (k == 0) { NOTE(t, "initialize"); r.state = EMBC_STATE_NULL; r.q.clear(); }
        else { ev = t.chance(1, 8) ? t.oneof({(int) EMBC_EVENT_RESET, (int) EMBC_EVENT_NULL, 127, -128}) : (int) t.pick((uint64_t) nev); NOTE(t, "event %d", ev); }
        try { r.event(ev); } catch (Overflow &) { overflow = true; }
        bool bad = overflow || (k == 0 && r.state < 0);
        bool viareset = k && ev == EMBC_EVENT_RESET && t.flip();
        fatal = FATALS(k == 0 ? embc_fsm_initialize(&f) : viareset ? embc_fsm_reset(&f) : embc_fsm_event(&f, (embc_fsm_event_t) ev));
        if (overflow) { t.label("event queue overflow"); PBT_CHECK(fatal, "an event was lost: more than %d events were queued without a fatal error", EMBC_FSM_EVENT_FIFO_SIZE - 1); break; }
        PBT_EQ(fatal, bad, k ? "fatal while processing an event" : "fatal in initialize (state after reset is %d)", r.state);
        compare(k ? "event" : "initialize");
        PBT_EQ((int) f.state, r.state, "state after event %d", ev);
        if (bad) break;
        got.clear(); 
        if (r.log.size() >= 5) t.label("many calls");
        r.log.clear();
    }
    unsigned total = 0; for (unsigned c : r.calls) total += c;
    if (total >= 5 && (r.reentrant || r.skips)) t.nontrivial();
}
