// C24: every frame in a byte stream is found, whatever surrounds it.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_hal.hpp"
using pbt::Tape; using pbt::Exact;
static std::vector<Bytes> got; static bool keep; static std::vector<embc_buffer_s *> kept;
static void hook(void *ud, embc_buffer_s *b) {
    PBT_CHECK(ud == &got, "hook user data"); got.push_back(Bytes(b->data, b->data + b->length));
    PBT_EQ((int) b->cursor, 0, "cursor of a received frame");
    if (keep) kept.push_back(b); else embc_buffer_free(b);
}
static Bytes frame(Tape &t, int depth) {
    Bytes p; size_t k;
    if (depth && t.chance(1, 4)) { // frames inside the payload
        while (p.size() < 200 && t.pick(3)) { Bytes x = frame(t, 0); if (p.size() + x.size() > 240) break; p.insert(p.end(), x.begin(), x.end()); if (t.pick(3) == 0) p.push_back((uint8_t) t.pick(256)); }
    } else { switch (t.pick(4)) { case 0: k = t.pick(4); break; case 1: k = 240 - t.pick(3); break; default: k = t.pick(40); } p = t.blob(k); if (t.pick(3) == 0) for (auto &x : p) if (x & 1) x = 0xAA; }
    if (t.chance(1, 6)) return fr::ack((uint8_t) t.pick(16), (uint8_t) t.pick(16), (uint8_t) t.pick(256), (uint16_t) t.u(16), (uint8_t) t.pick(30));
    return fr::data((uint8_t) t.pick(16), (uint8_t) t.pick(16), (uint8_t) t.u(8), (uint16_t) t.u(16), p);
}

PBT_PROP("C24", 700000, 12000000,
         "byte streams mixing valid frames (0..240 payload bytes, payloads holding further frames or many start bytes), runs of start bytes, garbage, and damaged, truncated or forged frames "
         "(right header checksum with any length), fed in chunks of any size; after every chunk the frames reported so far must equal those found by a reference scanner; "
         "non-trivial: 2 or more frames found in a stream with damage or garbage") {
    fr::Hal h; fr::Scanner ref; got.clear(); kept.clear(); keep = t.flip();
    embc_framer_register_rx_hook(h.f, hook, &got);
    std::vector<Bytes> want; unsigned pieces = 0, dirty = 0, mean = t.oneof({3u, 10u}); size_t checked = 0;
    Bytes s;
    auto feed = [&](const Bytes &b) {
        size_t i = 0;
        while (i < b.size()) {
            size_t k = t.pick(4) == 0 ? 1 + t.pick(3) : 1 + t.pick(b.size() - i); if (k > b.size() - i) k = b.size() - i;
            ref.feed(&b[i], k, [&](Bytes x) { want.push_back(x); });
            if (k == 1) embc_framer_hal_rx_byte(h.f, b[i]); else h.rx(&b[i], k);
            PBT_CHECK(got.size() <= want.size(), "received %s, which is not a frame of the stream at this point", pbt::hex(got.back().data(), got.back().size(), 40).c_str());
            PBT_EQ(got.size(), want.size(), "frames received after the byte %d of this piece", (int) (i + k));
            for (; checked < want.size(); ++checked) PBT_CHECK(got[checked] == want[checked], "frame %d is %s, expected %s", (int) checked, pbt::hex(got[checked].data(), got[checked].size(), 40).c_str(), pbt::hex(want[checked].data(), want[checked].size(), 40).c_str());
            i += k;
            while (h.q.size() > 4) h.take();
        }
    };
    while (t.more(mean) && pieces++ < 60) {
        Bytes b; const char *what = "frame";
        switch (t.weighted({8, 1, 2, 3, 2, 2})) {
            case 0: b = frame(t, 1); break;
            case 1: b = Bytes(1 + t.pick(12), 0xAA); what = "start bytes"; break;
            case 2: b = t.vec(1 + t.pick(12)); if (t.flip()) b[t.pick(b.size())] = 0xAA; what = "garbage"; ++dirty; break;
            case 3: { b = frame(t, 1); unsigned n = 1 + (unsigned) t.pick(3); while (n--) b[t.pick(t.flip() ? 8 : b.size())] ^= (uint8_t) (1u << t.pick(8)); what = "damaged frame"; ++dirty; break; }
            case 4: { b = frame(t, 1); b.resize(1 + t.pick(b.size())); what = "start of a frame"; ++dirty; break; }
            default: { Bytes p = t.vec(t.pick(8)); b = fr::encode_raw((uint8_t) t.pick(16), (uint8_t) t.pick(16), (uint8_t) t.pick(256), (uint8_t) (t.flip() ? t.pick(256) : t.pick(20)), (uint16_t) t.u(16), p); if (t.flip()) b.resize(8 + p.size()); what = "forged header"; ++dirty; }
        }
        NOTE(t, "%s: %s", what, pbt::hex(b.data(), b.size(), 300).c_str());
        feed(b);
    }
    if (ref.waiting()) { NOTE(t, "zeros to the end of the open frame"); feed(Bytes(260, 0)); t.label("flushed"); }
    {
        embc_framer_status_s st = embc_framer_status_get(h.f); PBT_EQ((size_t) st.rx_count, want.size(), "rx_count");
        for (auto *b : kept) { PBT_CHECK(h.pool.live.count(b), "a received frame was freed"); embc_buffer_free(b); }
        if (dirty && want.size() >= 2) t.nontrivial();
        if (want.size() >= 10) t.label("10 frames or more");
    }
    while (!h.q.empty()) h.take();
    h.finish();
}
