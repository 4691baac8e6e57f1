// C29: every ping is answered once with its payload, every status request with
// the peer's counters, and the counters are right.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_link.hpp"
#include "framer_hal.hpp"
using namespace fr;
struct Req { uint8_t mid; bool ping; Bytes p; embc_framer_status_s lo; };
struct Plain { uint8_t port, mid; uint16_t pd; Bytes p; };
static const size_t NCOUNT = sizeof(embc_framer_status_s) / 4;
// One framer with a long life: its counters pass 16 bits and still equal what happened.
static unsigned long_rx, long_done; static Bytes long_rsp;
static void long_rx_fn(void *, uint8_t, uint8_t, uint16_t, embc_buffer_s *b) { ++long_rx; embc_buffer_free(b); }
static void long_done_fn(void *, uint8_t, uint8_t, uint16_t, int32_t st) { PBT_EQ(st, 0, "status of a completed message"); ++long_done; }
static void long_link(pbt::Tape &t) {
    Hal h; long_rx = long_done = 0; uint8_t id = 0, txid = 0; embc_framer_status_s e; memset(&e, 0, sizeof e);
    uint64_t rx = 0, data = 0, acks = 0, dup = 0, sync = 0, mic = 0, jump = 0, tx = 0, again = 0;
    for (uint8_t p = 1; p < 16; ++p) { embc_framer_port_callbacks_s c = {&h, long_rx_fn, long_done_fn}; embc_framer_register_port_callbacks(h.f, p, &c); }
    auto drain = [&](unsigned want, const char *what) { PBT_EQ(h.q.size(), (size_t) want, "frames transmitted after %s", what); while (!h.q.empty()) { Bytes b = h.take(); if (!(b[1] & 0x80)) long_rsp = b; } };
    auto good = [&]() { h.rx(fr::data(id, 1 + id % 15, id, 0x1234, Bytes{1, 2, 3})); id = (id + 1) & 15; ++rx; ++data; };
    // the receiver's window fills
    for (int i = 0; i < 20; ++i) good();
    while (!h.q.empty()) h.take();
    t.heavy(); unsigned segs = 2 + (unsigned) t.pick(5), big = (unsigned) t.pick(segs);
    for (unsigned s = 0; s < segs; ++s) {
        unsigned kind = (unsigned) t.pick(8), n = s == big ? 65536 + (unsigned) t.pick(40) : (unsigned) t.pick(300);
        NOTE(t, "segment %u: %u times kind %u", s, n, kind);
        for (unsigned i = 0; i < n; ++i) switch (kind) {
            case 0: good(); drain(1, "a data frame"); break;
            case 1: { uint8_t o = (id - 1) & 15; h.rx(fr::data(o, 1, o, 0x1234, Bytes{1, 2, 3})); ++rx; ++dup; drain(1, "a duplicate"); break; }
            case 2: h.rx(fr::ack((uint8_t) i & 15, 1, (uint8_t) i, 0x100, 0)); ++rx; ++acks; drain(0, "an acknowledgement of nothing"); break;
            case 3: { Bytes b = fr::data(id, 1, 0, 0, Bytes{1, 2, 3}); b[9] ^= 0x10; h.rx(b); ++mic; drain(1, "a damaged frame"); break; }
            case 4: { good(); drain(1, "a data frame"); Bytes b = fr::data(id, 1, 0, 0, Bytes{1, 2, 3}); b[3] ^= 0x10; h.rx(b); ++sync; drain(1, "a damaged header"); break; }
            case 5: { id = (id + 7) & 15; h.rx(fr::data(id, 1, 0, 0, Bytes{1, 2, 3})); id = (id + 1) & 15; ++rx; ++jump; ++data; drain(1, "a frame with an id far ahead"); break; }
            default: {
                pbt::Exact x("hello", 5); embc_framer_send_payload(h.f, 3, (uint8_t) i, 0x4321, x.p, 5); drain(1, "a message");
                if (kind == 7) { h.rx(fr::ack(txid, 3, (uint8_t) i, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY)); ++rx; ++acks; ++again; drain(1, "a refusal"); }
                h.rx(fr::ack(txid, 3, (uint8_t) i, 0x100, 0)); ++rx; ++acks; ++tx; txid = (txid + 1) & 15; drain(0, "an acknowledgement");
            }
        }
    }
    // the receiver holds nothing back any more
    for (int i = 0; i < 20; ++i) { good(); drain(1, "a data frame"); }
    h.rx(fr::data(id, 0, 77, fr::PORT0_STATUS_REQ, Bytes())); ++rx; ++data;
    long_rsp.clear(); drain(2, "a status request");
    PBT_CHECK(long_rsp.size() == 13 + sizeof e && long_rsp[3] == 77 && long_rsp[5] == fr::PORT0_STATUS_RSP, "the status request was not answered"); memcpy(&e, &long_rsp[8], sizeof e);
    for (int k = 0; k < 2; ++k) {
        const char *w = k ? "at the end" : "in the status response"; if (k) e = embc_framer_status_get(h.f);
        PBT_EQ((uint64_t) e.rx_count, rx, "rx_count %s", w); PBT_EQ((uint64_t) e.rx_data_count, data, "rx_data_count %s", w); PBT_EQ((uint64_t) e.rx_ack_count, acks, "rx_ack_count %s", w);
        PBT_EQ((uint64_t) e.rx_deduplicate_count, dup, "rx_deduplicate_count %s", w); PBT_EQ((uint64_t) e.rx_synchronization_error, sync, "rx_synchronization_error %s", w); PBT_EQ((uint64_t) e.rx_mic_error, mic, "rx_mic_error %s", w);
        PBT_EQ((uint64_t) e.rx_frame_id_error, jump, "rx_frame_id_error %s", w); PBT_EQ((uint64_t) e.tx_count, tx, "tx_count %s", w); PBT_EQ((uint64_t) e.tx_retransmit_count, again, "tx_retransmit_count %s", w);
    }
    PBT_EQ((uint64_t) long_rx, data - 1, "messages delivered"); PBT_EQ((uint64_t) long_done, tx, "messages completed");
    t.label("counters beyond 16 bits"); t.nontrivial();
    h.rx(fr::ack(txid, 0, 77, 0x100, 0)); while (!h.q.empty()) h.take();
    h.finish();
}
PBT_PROP("C29", 80000, 3000000,
         "two framers send up to 60 ping requests, status requests and ordinary messages each (and what they answer with) over a line that loses or damages up to 2 transmissions and "
         "up to 4 acknowledgements of a frame; every request is answered exactly once, in order: pings with their message id and payload, status requests with the peer's counters at some moment between "
         "request and answer; ordinary messages are unaffected; at the end every counter equals what happened; once in 4000 cases a single framer instead lives through more than 65536 deliveries, duplicates, refusals, damaged frames or retransmissions and reports each exactly; non-trivial: 2 or more requests answered and 1 or more faults") {
    if (t.chance(1, 4000)) { long_link(t); return; }
    Sim s(t); s.lenient_data = true; s.check_window = false;
    s.byte_time = t.oneof<int64_t>({1 * US, 10 * US, 40 * US}); s.timer_slack = t.oneof<int64_t>({0, 0, 20 * MS}); s.done_mode = (unsigned) t.pick(4); s.done_delay = t.oneof<int64_t>({100 * US, 5 * MS});
    bool exact = s.done_mode == 0; unsigned den = t.oneof({2u, 4u, 12u, 1000000u}); uint8_t dam[2][2][16] = {}; Bytes last[2][16];
    std::deque<Req> waiting[2]; std::deque<Plain> plain[2]; unsigned sent[2] = {0, 0}, replies[2] = {0, 0}, data_tx[2] = {0, 0}, nack_mic[2] = {0, 0}, nack_other[2] = {0, 0}, answered = 0;
    std::vector<Plain> progress[2];
    s.fault = [&](Node &from, Msg *, bool is_ack, Msg *) -> Fault {
        uint8_t &d = dam[from.idx][is_ack][s.current_id]; unsigned most = is_ack ? 4 : 2;
        if (d < most && t.chance(1, den)) { ++d; Fault k = t.oneof({DROP, DAMAGE_PAYLOAD, DAMAGE_HEAD, TRUNCATE}); if (k == DAMAGE_HEAD || k == TRUNCATE) exact = false; return k; }
        return CLEAN;
    };
    s.on_frame_sent = [&](Node &x, const Bytes &b) {
        if (!(b[1] & 0x80)) { ++data_tx[x.idx]; if (last[x.idx][b[1]] != b) { last[x.idx][b[1]] = b; dam[x.idx][0][b[1]] = dam[1 - x.idx][1][b[1]] = 0; } } else if (b[8] == EMBC_ERROR_MESSAGE_INTEGRITY) ++nack_mic[x.idx]; else if (b[8]) ++nack_other[x.idx];
    };
    s.other_rx = [&](Node &to, uint8_t port, uint8_t mid, uint16_t pd, const Bytes &p) {
        int me = to.idx, peer = 1 - me;
        if (port == 0 && ((pd & 255) == fr::PORT0_PING_RSP || (pd & 255) == fr::PORT0_STATUS_RSP)) {
            bool ping = (pd & 255) == fr::PORT0_PING_RSP;
            PBT_CHECK(!waiting[me].empty(), "%c received a %s response it did not ask for", 'A' + me, ping ? "ping" : "status");
            Req r = waiting[me].front(); waiting[me].pop_front(); ++replies[peer]; ++answered;
            PBT_EQ(ping, r.ping, "the oldest request of %c is a ping, so is the response", 'A' + me); PBT_EQ((int) mid, (int) r.mid, "message id of the response"); PBT_EQ((int) pd, ping ? (int) fr::PORT0_PING_RSP : (int) fr::PORT0_STATUS_RSP, "port_def of the response");
            if (ping) PBT_CHECK(p == r.p, "ping payload %s came back as %s", pbt::hex(r.p.data(), r.p.size(), 60).c_str(), pbt::hex(p.data(), p.size(), 60).c_str());
            else {
                PBT_CHECK(p.size() >= sizeof(embc_framer_status_s), "status response of %zu bytes", p.size());
                embc_framer_status_s hi = embc_framer_status_get(to.peer->f); uint32_t lo_[NCOUNT], hi_[NCOUNT], v[NCOUNT]; memcpy(lo_, &r.lo, sizeof lo_); memcpy(hi_, &hi, sizeof hi_); memcpy(v, p.data(), sizeof v);
                for (size_t i = 0; i < NCOUNT; ++i) PBT_CHECK(v[i] >= lo_[i] && v[i] <= hi_[i], "counter %zu in the status response is %u; the peer's was %u at the request and is %u", i, v[i], lo_[i], hi_[i]);
            }
            return true;
        }
        PBT_CHECK(!plain[peer].empty(), "%c received a message that was never sent", 'A' + me);
        Plain m = plain[peer].front(); plain[peer].pop_front();
        PBT_CHECK(m.port == port && m.mid == mid && m.pd == pd && m.p == p, "%c received port %d mid %d port_def %04x, %d bytes; the next message sent is port %d mid %d port_def %04x, %d bytes", 'A' + me, port, mid, pd, (int) p.size(), m.port, m.mid, m.pd, (int) m.p.size());
        return true;
    };
    s.other_done = [&](Node &from, uint8_t port, uint8_t mid, uint16_t pd, int st) {
        auto &d = progress[from.idx]; PBT_CHECK(!d.empty(), "completion of a message that was never sent");
        PBT_CHECK(d[0].port == port && d[0].mid == mid && d[0].pd == pd, "completed port %d mid %d port_def %04x, expected port %d mid %d port_def %04x", port, mid, pd, d[0].port, d[0].mid, d[0].pd);
        PBT_EQ(st, 0, "status of mid %d", mid); d.erase(d.begin()); return true;
    };
    auto send = [&](int i) {
        if (sent[i] >= 60) return;
        Plain m; unsigned kind = t.weighted({3, 2, 3}); m.mid = (uint8_t) t.u(8); Node &x = s.n[i];
        if (kind == 0) { m.port = 0; m.pd = fr::PORT0_PING_REQ; m.p = s.payload(); waiting[i].push_back({m.mid, true, m.p, {}}); }
        else if (kind == 1) { m.port = 0; m.pd = fr::PORT0_STATUS_REQ; waiting[i].push_back({m.mid, false, Bytes(), embc_framer_status_get(x.peer->f)}); }
        else { m.port = (uint8_t) t.range(1, 15); m.pd = (uint16_t) t.u(16); m.p = s.payload(); plain[i].push_back(m); }
        if (kind < 2 && t.flip()) m.pd |= 0x100;  // only the lower byte is the command
        ++sent[i]; progress[i].push_back(m);
        NOTE(t, "[%lld us] %c sends port %d mid %d port_def %04x, %d bytes", (long long) (s.now / US), 'A' + i, m.port, m.mid, m.pd, (int) m.p.size());
        pbt::Exact e(m.p.data(), m.p.size()); embc_framer_send_payload(x.f, m.port, m.mid, m.pd, e.p, (uint8_t) m.p.size());
    };
    unsigned mean = t.oneof({5u, 12u, 40u}), ops = 0, dir = (unsigned) t.pick(3);
    while (t.more(mean) && ops++ < 120) {
        if (t.pick(3)) { unsigned k = t.pick(4) ? 1 : 1 + (unsigned) t.pick(6); while (k--) send((int) (dir < 2 ? dir : t.pick(2))); }
        else s.run(s.now + t.oneof<int64_t>({100 * US, 1 * MS, 5 * MS, 30 * MS, 260 * MS, 1 * SEC}));
    }
    s.clean = true; for (auto &x : s.n) s.stuck(x);
    s.run(s.now + 30 * SEC);
    for (auto &x : s.n) {
        int i = x.idx; PBT_CHECK(waiting[i].empty(), "%zu requests of %c were never answered", waiting[i].size(), 'A' + i); PBT_CHECK(plain[i].empty(), "%zu messages of %c were never delivered", plain[i].size(), 'A' + i); PBT_CHECK(progress[i].empty(), "%zu messages of %c were never completed", progress[i].size(), 'A' + i);
    }
    for (auto &x : s.n) {
        int i = x.idx; embc_framer_status_s st = embc_framer_status_get(x.f); unsigned want = sent[1 - i] + replies[1 - i];
        s.other_completions[i] = replies[i];
        PBT_EQ((unsigned) st.rx_data_count, want, "rx_data_count of %c", 'A' + i); PBT_EQ((unsigned) st.rx_deduplicate_count, x.data_rx - want, "rx_deduplicate_count of %c", 'A' + i);
        PBT_CHECK(st.rx_mic_error >= nack_mic[i] && st.rx_mic_error <= x.scan.suspects, "rx_mic_error of %c is %u; %u data frames were refused and %u things looking like a frame were damaged", 'A' + i, st.rx_mic_error, nack_mic[i], x.scan.suspects); PBT_EQ((unsigned) st.rx_synchronization_error, nack_other[i], "rx_synchronization_error of %c", 'A' + i); PBT_EQ((unsigned) st.rx_frame_id_error, 0u, "rx_frame_id_error of %c", 'A' + i);
        unsigned again = data_tx[i] - sent[i] - replies[i];
        if (exact) PBT_CHECK(st.tx_retransmit_count >= again && st.tx_retransmit_count <= again + x.absorbed, "tx_retransmit_count of %c is %u but %u frames were retransmitted (and %u refused ones were still with the HAL)", 'A' + i, st.tx_retransmit_count, again, x.absorbed); else PBT_CHECK(st.tx_retransmit_count >= again, "tx_retransmit_count of %c is %u but %u frames were retransmitted", 'A' + i, st.tx_retransmit_count, again);
    }
    if (answered >= 2 && s.faults) t.nontrivial();
    s.finish();
}
