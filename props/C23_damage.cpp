// C23: damaged frames are never taken for good ones.
// LDFLAGS: -Wl,--wrap=embc_buffer_alloc,--wrap=embc_buffer_alloc_unsafe
#include "framer_hal.hpp"
using pbt::Tape; using pbt::Exact;
struct Rx { uint8_t port, mid; uint16_t pd; Bytes p; };
static std::vector<Rx> got;
static void on_rx(void *, uint8_t port, uint8_t mid, uint16_t pd, embc_buffer_s *b) {
    got.push_back({port, mid, pd, Bytes(b->data + b->cursor, b->data + b->length)}); embc_buffer_free(b);
}
PBT_PROP("C23", 230000, 10000000,
         "a receiver in sync is given frames; each may first arrive damaged by an error the checksums must detect (1 to 3 flipped bits or a burst of up to 8 bits in the header; 1 to 4 flipped bits or a "
         "burst of up to 32 bits in payload or frame checksum; both together; or lost tail bytes) and then intact; a damaged frame is not delivered and not acknowledged with status 0, damage behind "
         "the header is reported by exactly one acknowledgement with a message integrity status and the frame's identity, and the intact frames are delivered exactly; non-trivial: 2 or more damaged frames") {
    fr::Hal h; got.clear(); fr::Scanner ref; size_t frames = 0;
    embc_framer_port_callbacks_s cb = {0, on_rx, 0};
    for (int i = 1; i < 16; ++i) embc_framer_register_port_callbacks(h.f, (uint8_t) i, &cb);
    uint8_t id = (uint8_t) t.pick(16); unsigned damaged = 0, n = 0, mean = t.oneof({4u, 20u});
    auto feed = [&](const Bytes &b) {
        ref.feed(b.data(), b.size(), [&](Bytes) { ++frames; });
        size_t i = 0; while (i < b.size()) { size_t k = 1 + t.pick(b.size() - i); h.rx(&b[i], k); i += k; }
    };
    auto acks = [&] { std::vector<Bytes> v; while (!h.q.empty()) v.push_back(h.take()); return v; };
    feed(fr::data(id, 0, 0, fr::PORT0_RESYNC, Bytes())); acks(); id = (id + 1) & 15;
    while (t.more(mean) && n++ < 80) {
        Rx x; x.port = (uint8_t) t.range(1, 15); x.mid = (uint8_t) t.u(8); x.pd = (uint16_t) t.u(16);
        size_t k; switch (t.pick(4)) { case 0: k = t.pick(4); break; case 1: k = 240 - t.pick(3); break; default: k = t.pick(60); } x.p = t.blob(k);
        for (auto &c : x.p) if (c == 0xAA) c = 0x2A;
        Bytes f = fr::data(id, x.port, x.mid, x.pd, x.p); size_t nb = f.size() - 1;
        NOTE(t, "frame id %d port %d mid %d, %d bytes", id, x.port, x.mid, (int) x.p.size());
        unsigned tries = 0;
        while (tries < 6 && t.pick(2)) {
            ++tries; Bytes d = f; unsigned kind = t.weighted({3, 3, 4, 4, 2, 2}); bool head = false;
            auto flips = [&](size_t lo, size_t hi, unsigned c) { std::set<size_t> s; while (s.size() < c) s.insert(lo * 8 + t.pick((hi - lo) * 8)); for (size_t i : s) d[i / 8] ^= (uint8_t) (1u << (i % 8)); };
            auto burst = [&](size_t lo, size_t hi, unsigned w) { w = (unsigned) std::min<size_t>(w, (hi - lo) * 8); size_t at = lo * 8 + t.pick((hi - lo) * 8 - w + 1); uint32_t e = (uint32_t) t.pick(1ull << w) | 1; if (w > 1) e |= 1u << (w - 1); for (unsigned i = 0; i < w; ++i) if (e >> i & 1) d[(at + i) / 8] ^= (uint8_t) (1u << ((at + i) % 8)); };
            bool cut = false;
            switch (kind) {
                case 0: flips(0, 8, (unsigned) t.range(1, 3)); head = true; break;
                case 1: burst(0, 8, (unsigned) t.range(1, 8)); head = true; break;
                case 2: flips(8, nb, (unsigned) t.range(1, 4)); break;
                case 3: burst(8, nb, (unsigned) t.range(1, 32)); break;
                case 4: flips(0, 8, (unsigned) t.range(1, 3)); flips(8, nb, (unsigned) t.range(1, 4)); head = true; break;
                default: d.resize(1 + t.pick(nb - 4)); cut = true; break;
            }
            size_t before = got.size(), fb = frames; ++damaged;
            NOTE(t, "  damaged: %s", pbt::hex(d.data(), d.size(), 253).c_str());
            feed(d);
            t.label(cut ? "cut" : head ? "header damaged" : "payload damaged");
            if (frames != fb) { t.label("damage contains a frame"); t.excluded(); while (!h.q.empty()) h.take(); h.finish(); return; }
            PBT_EQ(got.size(), before, "frames delivered after a damaged one");
            auto v = acks(); unsigned mic = 0;
            for (auto &a : v) {
                size_t len = 0; PBT_CHECK(fr::validate(a.data(), a.size(), &len) == 0 && len == a.size(), "sent %s, not a frame", pbt::hex(a.data(), a.size()).c_str());
                PBT_CHECK((a[1] & 0x80) && a.size() == 14, "sent %s, not an acknowledgement", pbt::hex(a.data(), a.size()).c_str());
                PBT_CHECK(a[8] != 0, "a damaged frame was acknowledged with status 0");
                if (a[8] == EMBC_ERROR_MESSAGE_INTEGRITY) ++mic;
            }
            if (!head && !cut) {
                PBT_EQ(v.size(), (size_t) 1, "acknowledgements of a frame with a damaged payload");
                Bytes want = fr::ack(id, x.port, x.mid, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY);
                PBT_CHECK(v[0] == want, "acknowledged with %s, expected %s", pbt::hex(v[0].data(), v[0].size()).c_str(), pbt::hex(want.data(), want.size()).c_str());
            }
            if (ref.pend.size() > 1) { feed(Bytes(260, 0)); for (auto &a : acks()) PBT_CHECK(a[8] != 0, "damage was acknowledged with status 0"); PBT_EQ(got.size(), before, "frames delivered after damage"); t.label("open frame flushed"); }
        }
        size_t before = got.size();
        feed(f); auto v = acks();
        PBT_EQ(got.size(), before + 1, "frames delivered for an intact one");
        const Rx &g = got.back();
        PBT_CHECK(g.port == x.port && g.mid == x.mid && g.pd == x.pd && g.p == x.p, "delivered port %d mid %d port_def %04x %s", g.port, g.mid, g.pd, pbt::hex(g.p.data(), g.p.size(), 40).c_str());
        PBT_EQ(v.size(), (size_t) 1, "acknowledgements of an intact frame");
        PBT_CHECK(v[0].size() == 14 && v[0][1] == (0x80 | id) && v[0][2] == x.port && v[0][3] == x.mid && (v[0][6] & 1) && v[0][8] == 0, "intact frame acknowledged with %s", pbt::hex(v[0].data(), v[0].size()).c_str());
        id = (id + 1) & 15;
    }
    if (damaged >= 2) t.nontrivial();
    h.finish();
}
