// C22: frame format: what is built and sent, and what validates.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_hal.hpp"
using pbt::Tape; using pbt::Exact;
static size_t len_pick(Tape &t) { switch (t.pick(4)) { case 0: return t.pick(4); case 1: return 240 - t.pick(6); default: return t.pick(241); } }
static unsigned dones; static int last_status; static uint8_t last_mid;
static void on_done(void *, uint8_t, uint8_t mid, uint16_t, int32_t st) { ++dones; last_status = st; last_mid = mid; }

PBT_PROP("C22", 500000, 9000000,
         "frames with random id, port, message id, port_def and 0..240 payload bytes built with construct_frame / construct_ack and sent with send_payload, a zero-copy buffer or a plain buffer "
         "(ids over several wraps, acknowledged by reference frames), compared byte by byte with an independent encoder; and random, truncated, extended and field-edited frames (also with the "
         "checksums recomputed) given to validate at exact size, compared with an independent decoder; non-trivial: payload of 1 or more bytes, or an edited frame") {
    unsigned mode = t.weighted({2, 2, 4});
    if (mode == 0) {
        fr::Hal h; Bytes p = t.blob(len_pick(t));
        uint8_t id = (uint8_t) t.pick(16), port = (uint8_t) t.pick(16), mid = (uint8_t) t.u(8); uint16_t pd = (uint16_t) t.u(16);
        uint8_t idb = t.flip() ? id : (uint8_t) (id | (t.pick(16) << 4));
        NOTE(t, "construct id %d port %d mid %d port_def %04x, %d bytes %s", idb, port, mid, pd, (int) p.size(), pbt::hex(p.data(), p.size(), 20).c_str());
        Exact e(p.data(), p.size());
        embc_buffer_s *b = embc_framer_construct_frame(h.f, idb, port, mid, pd, e.p, (uint8_t) p.size());
        Bytes want = fr::data(id, port, mid, pd, p);
        PBT_CHECK(b->length == want.size() && !memcmp(b->data, want.data(), want.size()), "construct_frame built %s, expected %s", pbt::hex(b->data, b->length, 40).c_str(), pbt::hex(want.data(), want.size(), 40).c_str());
        uint16_t n = 0; PBT_EQ(embc_framer_validate(b->data, b->length, &n), 0, "validate of a constructed frame"); PBT_EQ((size_t) n, want.size(), "frame length");
        embc_buffer_free(b);
        uint8_t st = (uint8_t) t.u(8); uint16_t mask = (uint16_t) t.u(16);
        b = embc_framer_construct_ack(h.f, idb, (uint8_t) t.pick(256), mid, mask, st);
        want = fr::ack(id, b->data[2], mid, mask, st);
        PBT_CHECK(b->length == want.size() && !memcmp(b->data, want.data(), want.size()), "construct_ack built %s, expected %s", pbt::hex(b->data, b->length, 40).c_str(), pbt::hex(want.data(), want.size(), 40).c_str());
        embc_buffer_free(b); if (p.size()) t.nontrivial();
        h.finish();
    } else if (mode == 1) {
        fr::Hal h; unsigned n = 0, id = 0, max = (unsigned) t.range(1, 40); dones = 0;
        embc_framer_port_callbacks_s cb = {0, 0, on_done};
        for (int i = 0; i < 16; ++i) embc_framer_register_port_callbacks(h.f, (uint8_t) i, &cb);
        do {
            uint8_t port = (uint8_t) t.pick(16), mid = (uint8_t) t.u(8); uint16_t pd = (uint16_t) t.u(16); Bytes p = t.blob(len_pick(t));
            if (port == 0 && ((pd & 0xff) == 5 || (pd & 0xff) == 7)) pd ^= 8;   // completions of these are handled inside
            unsigned how = (unsigned) t.pick(3);
            NOTE(t, "send(%s) port %d mid %d port_def %04x %d bytes", how == 0 ? "payload" : how == 1 ? "framer buffer" : "plain buffer", port, mid, pd, (int) p.size());
            Exact e(p.data(), p.size());
            if (how == 0) embc_framer_send_payload(h.f, port, mid, pd, e.p, (uint8_t) p.size());
            else {
                embc_buffer_s *b = how == 1 ? embc_framer_alloc(h.f) : embc_buffer_alloc(fr::pool_handle(0), (embc_size_t) t.range(p.size() ? p.size() : 1, 256));
                if (how == 1) { PBT_CHECK(embc_buffer_write_remaining(b) >= 240, "room in a framer buffer is %d", (int) embc_buffer_write_remaining(b)); PBT_EQ(embc_buffer_cursor_get(b), (embc_size_t) 8, "cursor of a framer buffer"); }
                size_t k = t.pick(p.size() + 1); embc_buffer_write(b, e.p, (embc_size_t) k); embc_buffer_write(b, e.p + k, (embc_size_t) (p.size() - k));
                embc_framer_send(h.f, port, mid, pd, b);
            }
            PBT_EQ(h.q.size(), (size_t) 1, "frames handed to the HAL by one send");
            Bytes got = h.take(), want = fr::data((uint8_t) id, port, mid, pd, p);
            PBT_CHECK(got == want, "sent %s, expected %s", pbt::hex(got.data(), got.size(), 60).c_str(), pbt::hex(want.data(), want.size(), 60).c_str());
            if (p.size()) t.nontrivial();
            unsigned before = dones;
            h.rx(fr::ack((uint8_t) id, port, mid, 0x100, 0));
            PBT_EQ(dones, before + 1, "completions"); PBT_CHECK(last_status == 0 && last_mid == mid, "completion of message %d with status %d", last_mid, last_status);
            id = (id + 1) & 15;
        } while (++n < max);
        if (n > 16) t.label("ids wrapped");
        h.finish();
    } else {
        Bytes p = t.blob(t.pick(3) ? t.pick(30) : len_pick(t)), f;
        uint8_t idb = (uint8_t) (t.pick(3) ? t.pick(16) : t.pick(256)), len = (uint8_t) p.size();
        f = fr::encode_raw(idb, (uint8_t) t.pick(20), (uint8_t) t.pick(256), len, (uint16_t) t.u(16), p);
        switch (t.pick(6)) {
            case 0: break;
            case 1: { unsigned k = 1 + (unsigned) t.pick(3); while (k--) f[t.pick(f.size())] ^= (uint8_t) (1u << t.pick(8)); t.label("bits flipped"); t.nontrivial(); break; }
            case 2: { size_t i = t.pick(7); f[i] = (uint8_t) t.u(8); f[7] = fr::crc8(f.data(), 7); t.label("header edited, header crc right"); t.nontrivial();
                      if (t.flip()) { size_t m = f[4] + 13u; Bytes pl(f.begin() + 8, f.end()); pl.resize(m - 8, 0x5c); f.resize(8); f.insert(f.end(), pl.begin(), pl.end()); uint32_t c = fr::crc32(f.data(), m - 5); for (int j = 0; j < 4; ++j) f[m - 5 + (size_t) j] = (uint8_t) (c >> (8 * j)); t.label("both crcs right"); } break; }
            case 3: f.resize(t.pick(f.size() + 1)); t.label("truncated"); break;
            case 4: { size_t k = 1 + t.pick(20); while (k--) f.push_back((uint8_t) t.pick(256)); t.label("extended"); break; }
            default: f = t.vec(t.pick(40)); if (f.size() && t.flip()) f[0] = 0xAA; if (f.size() >= 8 && t.flip()) f[7] = fr::crc8(f.data(), 7); break;
        }
        Exact e(f.data(), f.size()); uint16_t n = 0xBEEF; size_t want_n = 0xBEEF;
        int want = fr::validate(f.data(), f.size(), &want_n);
        NOTE(t, "validate %d bytes %s", (int) f.size(), pbt::hex(f.data(), f.size(), 60).c_str());
        int got = embc_framer_validate(e.p, (uint16_t) f.size(), &n);
        PBT_EQ(got, want, "validate"); 
        if (want == 0 || want == EMBC_ERROR_TOO_SMALL) PBT_EQ((size_t) n, want_n, "frame length from validate");
        PBT_EQ(embc_framer_validate(e.p, (uint16_t) f.size(), 0), want, "validate without length");
    }
}
