// C30: the asynchronous stream source and sink: each against a model peer, and joined through queues.
#include "pbt.hpp"
#include <algorithm>
#include <deque>
#include <memory>
extern "C" {
#include "embc/stream/async.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
#include "embc/ec.h"
}
using pbt::Tape;
typedef embc_stream_transaction_s Tr;
typedef std::vector<uint8_t> Bytes;
struct Mem { uint8_t *p; explicit Mem(size_t n) : p(new uint8_t[n]) {} ~Mem() { delete[] p; } Mem(const Mem &) = delete; };
// a transaction is only valid during the call: hand it over in a block freed right afterwards
static void to_producer(embc_stream_producer_s *p, const Tr &tr) { std::unique_ptr<Tr> h(new Tr(tr)); p->send(p, h.get()); }
static void to_consumer(embc_stream_consumer_s *c, const Tr &tr) { std::unique_ptr<Tr> h(new Tr(tr)); c->send(c, h.get()); }
static Tr mk(uint8_t type) { Tr t; memset(&t, 0, sizeof(t)); t.type = type; return t; }
static Bytes fill(Tape &t, size_t n) { // n bytes; long ones from a small generator, else one choice each
    Bytes d(n); if (n <= 512) { for (auto &b : d) b = (uint8_t) t.u(8); return d; }
    uint32_t x = (uint32_t) t.u(32) | 1; for (auto &b : d) { x = x * 1664525u + 1013904223u; b = (uint8_t) (x >> 24); } return d;
}
static size_t big_size(Tape &t) { return t.flip() ? (size_t) t.oneof({65535, 65536, 65537, 131072, 65536 + 8, 32768}) : 30000 + t.pick(120000); }
static uint8_t *dup(const Bytes &b) { uint8_t *p = new uint8_t[b.size() ? b.size() : 1]; if (b.size()) memcpy(p, b.data(), b.size()); return p; }

// ---------------------------------------------------------------- source against a model consumer
struct Req { bool consumer; uint16_t len; uint8_t *ptr; uint8_t ctid, file; };
struct Pend { Tr tr; Bytes data; std::shared_ptr<uint8_t> hold; };
struct SrcWorld {
    embc_stream_consumer_s cons; embc_stream_source_s src; embc_stream_producer_s *prod; Tape *t;
    Bytes data; size_t got; uint8_t file; unsigned opens, closes, dones, writes, errors; bool donefn; int open; // 0 closed, 1 open, 2 closing
    bool expect_close, requesting; uint8_t close_status; std::vector<Req> req; std::deque<Pend> q; std::shared_ptr<uint8_t> hold; uint16_t txlen; unsigned depth;
    uint8_t responded_status; size_t acked; bool done_expected; void *ex_ptr; uint16_t ex_len; bool reopen_in_done; std::shared_ptr<uint8_t> buf; Bytes next; bool aborted, failed; bool finished; bool big;
};
static SrcWorld *S;
static int src_user;
static void src_open();
static void src_done(void *u, uint8_t status) {
    PBT_CHECK(u == &src_user, "done callback got another user data pointer");
    PBT_CHECK(S->done_expected, "source called done without a close response");
    S->done_expected = false; ++S->dones; S->open = 0; S->finished = true;
    NOTE(*S->t, "  done(%u)", status);
    PBT_EQ(status, S->responded_status, "status given to the source's done callback");
    if (S->reopen_in_done) { S->reopen_in_done = false; src_open(); }
}
static void respond(Pend p, uint8_t status) {
    if (p.tr.type == EMBC_STREAM_IOCTL_WRITE) {
        PBT_CHECK(!p.tr.length || !memcmp(p.tr.data.ioctl_write.ptr, p.data.data(), p.tr.length), "write buffer changed before its response");
        S->acked += p.tr.length;
        if (S->open == 1 && (status || S->acked >= S->data.size())) { S->expect_close = true; S->close_status = status; if (status) S->failed = true; }
    } else if (p.tr.type == EMBC_STREAM_IOCTL_CLOSE) { S->done_expected = true; S->responded_status = status; }
    p.tr.status = status;
    if (p.tr.type == EMBC_STREAM_IOCTL_OPEN) p.tr.file_id = S->file;
    NOTE(*S->t, "  respond type %u status %u", p.tr.type, status);
    unsigned d = S->dones;
    bool fn = S->donefn; to_producer(S->prod, p.tr);
    if (!fn && p.tr.type == EMBC_STREAM_IOCTL_CLOSE) { PBT_EQ(S->dones, d, "done callbacks without a function"); src_done(&src_user, status); }
    if (p.tr.type == EMBC_STREAM_IOCTL_WRITE) PBT_CHECK(!S->expect_close, "source did not close although %s", status ? "a write failed" : "all data was acknowledged");
    if (p.tr.type == EMBC_STREAM_IOCTL_CLOSE) PBT_CHECK(S->dones > d && !S->done_expected, "source did not call done on the close response");
}
static uint8_t close_resp(const Tr &tr) { return S->t->chance(1, 6) ? (uint8_t) (1 + S->t->pick(20)) : tr.status; }
static void request() {
    // a producer buffer holds one transaction: ask for the next one only when none is outstanding
    Tape &t = *S->t; Req r; r.consumer = t.flip(); r.ctid = (uint8_t) (1 + t.pick(255)); r.file = S->file;
    Tr tr = mk(EMBC_STREAM_EVENT_WRITE_REQUEST); tr.file_id = r.file; tr.consumer_transaction_id = r.ctid;
    std::shared_ptr<uint8_t> mem;
    if (!r.consumer) for (auto &p : S->q) if (p.tr.type == EMBC_STREAM_IOCTL_WRITE) r.consumer = true;
    if (r.consumer) {
        r.len = (uint16_t) (t.chance(1, 5) ? 1 + t.pick(2) : 1 + t.pick(80)); if (t.chance(1, 20)) r.len = (uint16_t) (65000 + t.pick(536)); if (S->big) r.len = (uint16_t) (2000 + t.pick(63536));
        mem.reset(new uint8_t[r.len], std::default_delete<uint8_t[]>()); r.ptr = mem.get();
        tr.length = r.len; tr.data.event_write_request_consumer_buffer.ptr = r.ptr;
    } else {
        r.len = S->big ? t.oneof<uint16_t>({0, 4096, 65535, 32768}) : t.oneof<uint16_t>({0, 1, 2, 5, 7, 8, 9, 16, 40, 65535}); r.ptr = 0;
        tr.data.event_write_request_producer_buffer.mtu = r.len; tr.data.event_write_request_producer_buffer.transactions_max = 1;
    }
    NOTE(t, " request %s %u ctid %u (open %d)", r.consumer ? "consumer buffer" : "mtu", r.len, r.ctid, S->open);
    bool was = S->open == 1; size_t g = S->got; unsigned w = S->writes, o = S->opens;
    auto old = S->hold; S->hold = mem; S->req.push_back(r); S->requesting = true;
    to_producer(S->prod, tr);
    S->requesting = false; S->hold = old; S->req.clear();
    if (was && g < S->data.size()) PBT_CHECK(S->writes > w || S->opens > o, "source ignored a write request while data remains");
    else PBT_CHECK(S->writes == w || S->opens > o, "source wrote %s", was ? "more than its data" : "although closed");
}
static void cons_send(embc_stream_consumer_s *self, Tr *tr) {
    PBT_CHECK(self == &S->cons, "source called another consumer");
    Tape &t = *S->t; Pend p; p.tr = *tr; bool now = t.flip() && S->depth < 40;
    for (auto &x : S->q) if (x.tr.type != EMBC_STREAM_IOCTL_WRITE || tr->type == EMBC_STREAM_IOCTL_OPEN) now = false; // responses in order
    if (!S->q.empty() && t.pick(4)) now = false;
    if (tr->type == EMBC_STREAM_IOCTL_OPEN) {
        PBT_EQ(S->open, 1, "open transaction outside embc_stream_source_open"); ++S->opens;
        PBT_EQ(tr->length, S->ex_len, "open length"); PBT_CHECK(tr->data.ptr == S->ex_ptr, "open data pointer"); PBT_EQ(tr->status, 0, "open status");
    } else if (tr->type == EMBC_STREAM_IOCTL_WRITE) {
        ++S->writes;
        PBT_CHECK(S->open == 1, "source wrote %s", S->open ? "after its close" : "while closed");
        PBT_CHECK(S->req.size() == 1, "source wrote without a write request"); Req r = S->req[0]; S->req.clear();
        PBT_EQ(tr->consumer_transaction_id, r.ctid, "consumer transaction id of the write");
        PBT_EQ(tr->status, 0, "write status");
        PBT_EQ(tr->file_id, r.file, "file id of the write");
        size_t rem = S->data.size() - S->got; const uint8_t *ptr = tr->data.ioctl_write.ptr; size_t len = tr->length;
        PBT_CHECK(len >= 1 && len <= rem, "write of %zu bytes, %zu remain", len, rem);
        if (r.consumer) { PBT_CHECK(ptr == r.ptr, "source did not use the buffer of the request"); PBT_EQ(len, std::min<size_t>(r.len, rem), "bytes written for a request of %u (%zu remain)", r.len, rem); }
        else { size_t lim = S->txlen ? S->txlen : 8; if (r.len) lim = std::min<size_t>(lim, r.len); PBT_CHECK(len <= lim, "write of %zu bytes with mtu %u and a producer buffer of %u", len, r.len, S->txlen); }
        PBT_CHECK(!memcmp(ptr, S->data.data() + S->got, len), "write at offset %zu carries other bytes: %s, expected %s", S->got, pbt::hex(ptr, len).c_str(), pbt::hex(S->data.data() + S->got, len).c_str());
        p.data.assign(ptr, ptr + len); p.hold = S->hold; S->got += len; NOTE(t, "  write %zu", len);
    } else if (tr->type == EMBC_STREAM_IOCTL_CLOSE) {
        PBT_CHECK(S->open == 1, "second close of the same file");
        PBT_CHECK(S->expect_close, "source closed before all data was acknowledged (%zu of %zu)", S->acked, S->data.size());
        PBT_EQ(tr->status, S->close_status, "status of the close");
        bool knows = true; for (auto &x : S->q) if (x.tr.type == EMBC_STREAM_IOCTL_OPEN) knows = false;
        if (knows) PBT_EQ(tr->file_id, S->file, "file id of the close");
        S->expect_close = false; S->open = 2; ++S->closes; NOTE(t, "  close %u", tr->status);
    } else pbt::fail("source sent a transaction of type %u", tr->type);
    if (!now) { S->q.push_back(p); return; }
    ++S->depth; uint8_t st = p.tr.type == EMBC_STREAM_IOCTL_CLOSE ? close_resp(p.tr) : p.tr.type == EMBC_STREAM_IOCTL_WRITE && t.chance(1, 40) ? (uint8_t) (1 + t.pick(25)) : 0;
    auto h = S->hold; auto rq = S->req; respond(p, st);
    if (p.tr.type != EMBC_STREAM_IOCTL_CLOSE && S->open && t.flip()) request();
    S->hold = h; S->req = rq; --S->depth;
}
static void src_open() {
    Tape &t = *S->t;
    if (t.chance(3, 4) || S->data.empty()) {
        Bytes d = fill(t, S->big ? big_size(t) : 1 + t.pick(t.chance(1, 4) ? 300 : 30));
        S->data = d; S->buf.reset(dup(d), std::default_delete<uint8_t[]>());
        embc_stream_source_configure(&S->src, S->buf.get(), (uint32_t) d.size(), (S->donefn = !t.chance(1, 6)) ? src_done : 0, &src_user);
    }
    S->got = S->acked = 0; S->open = 1; S->expect_close = false; S->aborted = S->failed = false; S->file = t.flip() ? 0 : (uint8_t) t.u(8); S->reopen_in_done = t.chance(1, 4);
    NOTE(t, "open, %zu bytes, file id %u", S->data.size(), S->file);
    S->ex_ptr = 0; S->ex_len = 0; unsigned o = S->opens;
    if (t.chance(1, 4)) { S->ex_ptr = &src_user; S->ex_len = (uint16_t) t.u(16); embc_stream_source_open_ex(&S->src, S->ex_ptr, S->ex_len); }
    else embc_stream_source_open(&S->src);
    PBT_CHECK(S->opens >= o + 1, "no open transaction sent");
}
static void run_source(Tape &t) {
    SrcWorld w; w.t = &t; S = &w; w.got = w.acked = 0; w.opens = w.closes = w.dones = w.writes = w.errors = 0; w.open = 0; w.expect_close = w.requesting = w.done_expected = w.reopen_in_done = w.aborted = w.failed = w.finished = false; w.depth = 0; w.file = 0; w.close_status = 0;
    w.cons.send = cons_send; w.big = t.chance(1, 60); if (w.big) t.label("file around or beyond 64 KiB");
    w.txlen = w.big ? (uint16_t) (4000 + t.pick(61536)) : t.flip() ? 0 : (uint16_t) (1 + t.pick(60));
    Mem tb(w.txlen ? w.txlen : 1);
    embc_stream_source_initialize(&w.src, w.txlen ? tb.p : 0, w.txlen);
    embc_stream_source_set_consumer(&w.src, &w.cons); w.prod = embc_stream_source_get_producer(&w.src);
    bool odd = false; unsigned ops = 0, aborts = 0;
    while (t.more(60) && ops++ < 300) {
        switch (t.weighted({3, 8, 6, 1, 1})) {
            case 0: if (!w.open && w.q.empty()) src_open(); break;
            case 1: request(); break;
            case 2: if (!w.q.empty()) { Pend p = w.q.front(); w.q.pop_front(); uint8_t st = p.tr.type == EMBC_STREAM_IOCTL_CLOSE ? close_resp(p.tr) : p.tr.type == EMBC_STREAM_IOCTL_WRITE && t.chance(1, 40) ? (uint8_t) (1 + t.pick(25)) : 0; odd |= st != 0; respond(p, st); } break;
            case 3: { Tr tr = mk(EMBC_STREAM_EVENT_ABORT); bool was = w.open == 1; if (was) { w.expect_close = true; w.close_status = EMBC_ERROR_ABORTED; w.aborted = true; ++aborts; } NOTE(t, " abort (open %d)", w.open);
                      to_producer(w.prod, tr); PBT_CHECK(!w.expect_close, "source did not close on abort"); break; }
            default: { uint8_t ty = t.oneof<uint8_t>({EMBC_STREAM_EVENT_NOOP, EMBC_STREAM_EVENT_CONNECT, EMBC_STREAM_EVENT_DISCONNECT, EMBC_STREAM_EVENT_CUSTOM, 255, 133, EMBC_STREAM_IOCTL_NOOP, EMBC_STREAM_IOCTL_FLUSH, EMBC_STREAM_IOCTL_CUSTOM});
                       NOTE(t, " event %u", ty); unsigned a = w.writes + w.closes + w.dones + w.opens; to_producer(w.prod, mk(ty)); PBT_EQ(w.writes + w.closes + w.dones + w.opens, a, "reactions to event %u", ty); }
        }
    }
    for (unsigned i = 0; i < 3000 && (w.open || !w.q.empty()); ++i) { // let the transfer finish
        if (!w.q.empty()) { Pend p = w.q.front(); w.q.pop_front(); respond(p, p.tr.type == EMBC_STREAM_IOCTL_CLOSE ? p.tr.status : 0); }
        else if (w.open == 1) request();
    }
    PBT_CHECK(!w.open && w.q.empty(), "transfer did not finish");
    PBT_EQ(w.dones, w.opens, "done callbacks for the files opened"); PBT_EQ(w.closes, w.opens, "closes for the files opened");
    t.label("source side"); if (aborts) t.label("abort"); if (odd) t.label("failed write or close");
    if (w.writes >= 3 && w.closes >= 1) t.nontrivial();
}

// ---------------------------------------------------------------- sink against a model producer
struct SinkWorld {
    embc_stream_producer_s prod; embc_stream_sink_s sink; embc_stream_consumer_s *cons; Tape *t; std::vector<Tr> log; uint8_t *tb; uint16_t tblen;
    unsigned writes, wfn, dones; Bytes last; const uint8_t *dst; size_t expect_len; const uint8_t *done_buf; uint32_t done_len; bool wset;
};
static SinkWorld *K;
static int k_user, k_wuser;
static void k_send(embc_stream_producer_s *self, Tr *tr) {
    PBT_CHECK(self == &K->prod, "sink called another producer"); K->log.push_back(*tr);
    tr->type = 77; tr->length = 12345; tr->data.ptr = 0; // the transaction may be reused by the producer
}
static void k_write(void *u, const uint8_t *b, uint32_t n) { PBT_CHECK(u == &k_wuser, "write callback got another user data pointer"); ++K->wfn; K->last.assign(b, b + n); }
static void k_done(void *u, const uint8_t *b, uint32_t n) { PBT_CHECK(u == &k_user, "done callback got another user data pointer"); ++K->dones; K->done_buf = b; K->done_len = n; }
static void check_request(const Tr &r) {
    if (K->tb) {
        PBT_EQ(r.length, K->tblen, "length of the write request"); PBT_CHECK(r.data.event_write_request_consumer_buffer.ptr == K->tb, "write request carries another buffer"); PBT_CHECK(r.consumer_transaction_id != 0, "write request with a buffer but no transaction id");
    } else {
        PBT_EQ(r.length, 0, "length of the write request"); PBT_CHECK(r.data.event_write_request_producer_buffer.mtu > 0, "write request with mtu 0"); PBT_CHECK(r.data.event_write_request_producer_buffer.transactions_max > 0, "write request allows no transaction");
    }
    PBT_EQ(r.status, 0, "write request status");
}
static void run_sink(Tape &t) {
    SinkWorld w; w.t = &t; K = &w; w.prod.send = k_send; w.writes = w.wfn = w.dones = 0; w.wset = false;
    bool big = t.chance(1, 40); if (big) t.label("destination around or beyond 64 KiB");
    w.tblen = big ? (uint16_t) (4000 + t.pick(61536)) : t.flip() ? 0 : (uint16_t) (1 + t.pick(40)); Mem tb(w.tblen ? w.tblen : 1); w.tb = w.tblen ? tb.p : 0;
    embc_stream_sink_initialize(&w.sink, w.tb, w.tblen);
    w.cons = embc_stream_sink_get_consumer(&w.sink); embc_stream_sink_set_producer(&w.sink, &w.prod);
    std::unique_ptr<Mem> dst; size_t dlen = 0; Bytes model; bool have = false, ever = false, open = false, credit = false, donefn = false; unsigned ops = 0, overflow = 0, files = 0, conn = 0;
    while (t.more(40) && ops++ < 250) {
        w.log.clear(); unsigned wf = w.wfn, dn = w.dones;
        uint8_t pid = (uint8_t) t.u(8);
        unsigned op = t.weighted({4, 10, 3, 1, 1, 2, 1});
        if (op == 0) {
            if (open) continue;
            Tr tr = mk(EMBC_STREAM_IOCTL_OPEN); tr.producer_transaction_id = pid; NOTE(t, "open");
            to_consumer(w.cons, tr); open = ever = true; model.clear(); credit = false;
            PBT_CHECK(w.log.size() == 2, "open gave %zu transactions", w.log.size());
            PBT_EQ(w.log[0].type, EMBC_STREAM_IOCTL_OPEN, "first reaction to open"); PBT_EQ(w.log[0].status, 0, "open response"); PBT_EQ(w.log[0].producer_transaction_id, pid, "transaction id of the response");
            if (have) { PBT_EQ(w.log[1].type, EMBC_STREAM_EVENT_WRITE_REQUEST, "second reaction to open"); check_request(w.log[1]); credit = true; }
            else PBT_EQ(w.log[1].type, EMBC_STREAM_EVENT_DISCONNECT, "second reaction to open without a destination");
        } else if (op == 1) {
            if (!open || !credit) continue;
            size_t n = t.chance(1, 8) ? 0 : 1 + t.pick(w.tb ? w.tblen : 16); if (big && n && t.flip()) n = w.tblen; if (have && t.chance(1, 3)) n = std::min(n, dlen - model.size());
            Bytes d = fill(t, n);
            std::unique_ptr<uint8_t[]> mine(dup(d)); const uint8_t *ptr = mine.get();
            if (w.tb && t.flip()) { if (n) memcpy(w.tb, d.data(), n); ptr = w.tb; }
            Tr tr = mk(EMBC_STREAM_IOCTL_WRITE); tr.length = (uint16_t) n; tr.producer_transaction_id = pid; tr.file_id = 1; tr.data.ioctl_write.ptr = ptr;
            NOTE(t, "write %zu (have %zu of %zu)", n, model.size(), dlen); ++w.writes;
            to_consumer(w.cons, tr);
            bool fits = model.size() + n <= dlen;
            PBT_CHECK(w.log.size() == 2, "write gave %zu transactions", w.log.size());
            PBT_EQ(w.log[0].type, EMBC_STREAM_IOCTL_WRITE, "first reaction to a write"); PBT_EQ(w.log[0].producer_transaction_id, pid, "transaction id of the response");
            PBT_EQ(w.log[0].length, n, "length in the write response"); PBT_CHECK(w.log[0].data.ioctl_write.ptr == ptr, "write response for another buffer");
            if (fits) { PBT_EQ(w.log[0].status, 0, "status of a write that fits"); model.insert(model.end(), d.begin(), d.end()); }
            else { ++overflow; PBT_CHECK(w.log[0].status != 0, "write of %zu bytes beyond the destination (%zu of %zu used) acknowledged as received", n, model.size(), dlen); }
            PBT_EQ(w.log[1].type, EMBC_STREAM_EVENT_WRITE_REQUEST, "second reaction to a write"); check_request(w.log[1]);
            PBT_EQ(w.wfn, wf + (w.wset ? 1 : 0), "write callbacks"); if (w.wset) PBT_CHECK(w.last == d, "write callback got other data");
            PBT_CHECK(model.empty() || !memcmp(dst->p, model.data(), model.size()), "destination holds %s, expected %s", pbt::hex(dst->p, model.size()).c_str(), pbt::hex(model.data(), model.size()).c_str());
        } else if (op == 2) {
            if (!open) continue;
            uint8_t st = t.flip() ? 0 : (uint8_t) t.pick(30), fid = (uint8_t) t.oneof({1u, 0u, 9u}); NOTE(t, "close %u", st);
            embc_stream_close(w.cons, fid, st);
            PBT_CHECK(w.log.size() == 1, "close gave %zu transactions", w.log.size());
            PBT_EQ(w.log[0].type, EMBC_STREAM_IOCTL_CLOSE, "reaction to close"); PBT_EQ(w.log[0].status, st, "status of the close response"); PBT_EQ(w.log[0].file_id, fid, "file id of the close response");
            PBT_EQ(w.dones, dn + (donefn ? 1 : 0), "done callbacks for a close");
            if (donefn) { PBT_CHECK(w.done_buf == (have ? dst->p : 0), "done callback got another buffer"); PBT_EQ(w.done_len, model.size(), "length given to the done callback"); if (have && !model.empty()) PBT_CHECK(!memcmp(w.done_buf, model.data(), model.size()), "done callback got other data"); }
            open = credit = false; ++files;
        } else if (op == 3 || op == 4) {
            uint8_t ty = op == 3 ? EMBC_STREAM_IOCTL_NOOP : EMBC_STREAM_IOCTL_FLUSH; Tr tr = mk(ty); tr.producer_transaction_id = pid; NOTE(t, "%s", op == 3 ? "noop" : "flush");
            to_consumer(w.cons, tr);
            PBT_CHECK(w.log.size() == 1, "%s gave %zu responses", op == 3 ? "noop" : "flush", w.log.size()); PBT_EQ(w.log[0].type, ty, "response type"); PBT_EQ(w.log[0].status, 0, "response status"); PBT_EQ(w.log[0].producer_transaction_id, pid, "transaction id of the response");
        } else if (op == 5) {
            bool was = have; have = t.chance(3, 4); donefn = t.chance(3, 4);
            std::unique_ptr<Mem> nd; if (have) { dlen = big ? big_size(t) : 1 + t.pick(t.flip() ? 30 : 400); nd.reset(new Mem(dlen)); } else dlen = 0;
            NOTE(t, "receive into %zu bytes", dlen);
            embc_stream_sink_receive(&w.sink, have ? nd->p : 0, (uint32_t) dlen, donefn ? k_done : 0, &k_user);
            dst = std::move(nd); model.clear();
            if (!ever) PBT_CHECK(w.log.empty(), "sink sent an event before the stream was opened");
            else if (open && was && !have) { PBT_CHECK(w.log.size() == 1 && w.log[0].type == EMBC_STREAM_EVENT_DISCONNECT, "removing the destination was not reported"); credit = false; }
            else if (open && !was && have) { PBT_CHECK(w.log.size() == 2 && w.log[0].type == EMBC_STREAM_EVENT_CONNECT && w.log[1].type == EMBC_STREAM_EVENT_WRITE_REQUEST, "a new destination was not reported and opened for data"); check_request(w.log[1]); credit = true; ++conn; }
            else if (open) PBT_CHECK(w.log.empty(), "replacing the destination sent %zu events", w.log.size());
        } else { w.wset = t.flip(); embc_stream_sink_set_write_fn(&w.sink, w.wset ? k_write : 0, &k_wuser); }
        PBT_CHECK(op == 2 || w.dones == dn, "done callback without a close"); PBT_CHECK(op == 1 || w.wfn == wf, "write callback without a write");
    }
    t.label("sink side"); if (overflow) t.label("overflow"); if (conn) t.label("connected later");
    if (w.writes >= 3 && files >= 1) t.nontrivial();
}

// ---------------------------------------------------------------- source and sink joined through queues
struct PairWorld {
    embc_stream_consumer_s ca; embc_stream_producer_s pa; embc_stream_source_s src; embc_stream_sink_s sink; embc_stream_consumer_s *cons; embc_stream_producer_s *prod;
    Tape *t; bool deferred; std::deque<Tr> c2s, s2c; Bytes data; std::shared_ptr<uint8_t> buf; std::unique_ptr<Mem> dst; size_t dlen; unsigned opens, sdone, kdone, left, writes; bool open, aborted; uint8_t status; Bytes received, seen; unsigned aborts, small; bool big;
};
static PairWorld *Q;
static void pair_open();
static void q_cons(embc_stream_consumer_s *, Tr *tr) { if (tr->type == EMBC_STREAM_IOCTL_WRITE) ++Q->writes; if (Q->deferred) Q->c2s.push_back(*tr); else Q->cons->send(Q->cons, tr); }
static void q_prod(embc_stream_producer_s *, Tr *tr) { if (Q->deferred) Q->s2c.push_back(*tr); else Q->prod->send(Q->prod, tr); }
static void q_write(void *, const uint8_t *b, uint32_t n) { Q->seen.insert(Q->seen.end(), b, b + n); }
static void q_kdone(void *u, const uint8_t *b, uint32_t n) { PBT_CHECK(u == &k_user && b == Q->dst->p, "sink done callback got other arguments"); ++Q->kdone; Q->received.assign(b, b + n); }
static void q_sdone(void *u, uint8_t st) {
    PBT_CHECK(u == &src_user, "source done callback got another user data pointer"); ++Q->sdone; NOTE(*Q->t, " source done %u, sink got %zu bytes", st, Q->received.size());
    PBT_EQ(Q->sdone, Q->opens, "source done callbacks"); PBT_EQ(Q->kdone, Q->opens, "sink done callbacks when the source is done");
    PBT_CHECK(Q->received.size() <= Q->data.size() && std::equal(Q->received.begin(), Q->received.end(), Q->data.begin()), "sink received %s, not a prefix of %s", pbt::hex(Q->received.data(), Q->received.size()).c_str(), pbt::hex(Q->data.data(), Q->data.size()).c_str());
    PBT_CHECK(Q->seen.size() >= Q->received.size() && std::equal(Q->received.begin(), Q->received.end(), Q->seen.begin()), "write callback saw other data than the destination");
    if (st == 0) PBT_CHECK(Q->received.size() == Q->data.size(), "transfer of %zu bytes reported success, but %zu arrived", Q->data.size(), Q->received.size());
    else PBT_CHECK(Q->aborted || Q->data.size() > Q->dlen, "transfer that fits failed with status %u", st);
    if (Q->aborted && st && Q->data.size() <= Q->dlen) PBT_EQ(st, EMBC_ERROR_ABORTED, "status of an aborted transfer");
    Q->open = false;
    if (Q->left && Q->t->flip()) pair_open();
}
static void pair_open() {
    Tape &t = *Q->t; --Q->left; ++Q->opens; Q->open = true; Q->aborted = false; Q->received.clear(); Q->seen.clear();
    Bytes d = fill(t, Q->big ? big_size(t) : 1 + t.pick(t.chance(1, 4) ? 400 : 40));
    Q->data = d; Q->buf.reset(dup(d), std::default_delete<uint8_t[]>());
    Q->dlen = t.chance(1, 4) ? 1 + t.pick(d.size()) : d.size() + t.pick(3); if (Q->dlen < d.size()) ++Q->small;
    Q->dst.reset(new Mem(Q->dlen)); NOTE(t, "transfer %zu bytes into %zu", d.size(), Q->dlen);
    embc_stream_sink_receive(&Q->sink, Q->dst->p, (uint32_t) Q->dlen, q_kdone, &k_user);
    embc_stream_source_configure(&Q->src, Q->buf.get(), (uint32_t) d.size(), q_sdone, &src_user);
    embc_stream_source_open(&Q->src);
}
static void run_pair(Tape &t) {
    PairWorld w; w.t = &t; Q = &w; w.deferred = t.chance(2, 3); w.opens = w.sdone = w.kdone = w.writes = w.aborts = w.small = 0; w.open = w.aborted = false; w.left = 1 + (unsigned) t.pick(3);
    w.big = t.chance(1, 60); if (w.big) t.label("file around or beyond 64 KiB");
    w.ca.send = q_cons; w.pa.send = q_prod; uint16_t sl = t.flip() ? 0 : (uint16_t) (1 + t.pick(40)), kl = t.flip() ? 0 : (uint16_t) (1 + t.pick(40));
    if (w.big) { sl = (uint16_t) (4000 + t.pick(61536)); kl = (uint16_t) (4000 + t.pick(61536)); }
    Mem sb(sl ? sl : 1), kb(kl ? kl : 1);
    embc_stream_source_initialize(&w.src, sl ? sb.p : 0, sl); embc_stream_sink_initialize(&w.sink, kl ? kb.p : 0, kl);
    NOTE(t, "source buffer %u, sink buffer %u, %s", sl, kl, w.deferred ? "queued" : "direct");
    w.cons = embc_stream_sink_get_consumer(&w.sink); w.prod = embc_stream_source_get_producer(&w.src);
    embc_stream_source_set_consumer(&w.src, &w.ca); embc_stream_sink_set_producer(&w.sink, &w.pa); embc_stream_sink_set_write_fn(&w.sink, q_write, 0);
    for (unsigned i = 0; w.left || w.open || !w.c2s.empty() || !w.s2c.empty(); ++i) {
        PBT_CHECK(i < 20000, "transfers did not end");
        bool a = !w.c2s.empty(), b = !w.s2c.empty();
        if (w.open && t.chance(1, 150)) { w.aborted = true; ++w.aborts; NOTE(t, " abort"); to_producer(w.prod, mk(EMBC_STREAM_EVENT_ABORT)); }
        else if (a && (!b || t.flip())) { Tr x = w.c2s.front(); w.c2s.pop_front(); to_consumer(w.cons, x); }
        else if (b) { Tr x = w.s2c.front(); w.s2c.pop_front(); to_producer(w.prod, x); }
        else { PBT_CHECK(!w.open, "transfer stalled"); if (w.left) pair_open(); }
    }
    PBT_EQ(w.sdone, w.opens, "source done callbacks"); PBT_EQ(w.kdone, w.opens, "sink done callbacks");
    t.label(w.deferred ? "queued pair" : "direct pair"); if (w.aborts) t.label("abort"); if (w.small) t.label("overflow");
    if (w.writes >= 3) t.nontrivial();
}
PBT_PROP("C30", 1200000, 10000000,
         "one of: a source driven by a model consumer (write requests with consumer or producer buffers, immediate or deferred responses, failing writes, aborts, other events, "
         "several files); a sink driven by a model producer (open, write, close, noop, flush, new or removed destinations); source and sink joined directly or through "
         "queues delivered in generated order, destinations that fit or not, aborts; non-trivial: 3 or more writes and a completed file") {
    switch (t.pick(3)) { case 0: run_source(t); break; case 1: run_sink(t); break; default: run_pair(t); }
}
