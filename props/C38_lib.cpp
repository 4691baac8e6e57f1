// C38: the shared library interface reports fatal errors and log messages to the host exactly as they happened.
// LDFLAGS: -Wl,--allow-multiple-definition
#include "pbt.hpp"
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "embc/lib.h"
#include "embc/log.h"
#include "embc/assert.h"
void c38_assert(int ok);
}
using pbt::Tape;
struct Got { int h; void *ud; bool fatal; std::string file, text; int line; };
static std::vector<Got> got;
static int depth; static int from_fatal; static bool raise_;   // what the fatal handler does
static std::string from_text;
static void say(const char *s) { embc_log_printf_("%s", s); }
static void on_fatal(int h, void *ud, const char *file, int line, const char *msg) {
    got.push_back({h, ud, true, file ? file : "", msg ? msg : "", line});
    if (from_fatal == 1 && !depth) { ++depth; say(from_text.c_str()); --depth; }
    if (from_fatal == 2 && !depth) { ++depth; embc_fatal("nested.c", 4711, from_text.c_str()); --depth; }
    if (raise_) throw pbt::Fatal{file ? file : "", line, msg ? msg : ""};
}
static void f0(void *u, const char *f, int l, const char *m) { on_fatal(0, u, f, l, m); }
static void f1(void *u, const char *f, int l, const char *m) { on_fatal(1, u, f, l, m); }
static void p0(void *u, const char *s) { got.push_back({0, u, false, "", s, 0}); }
static void p1(void *u, const char *s) { got.push_back({1, u, false, "", s, 0}); }
static void plain(const char *f, ...) { char b[16384]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); got.push_back({2, 0, false, "", b, 0}); }

// what the library writes to stdout while fn runs
template <class F> static std::string captured(F fn) {
    static int fd = memfd_create("c38", 0);
    fflush(stdout); int save = dup(1);
    if (ftruncate(fd, 0)) {}
    lseek(fd, 0, SEEK_SET); dup2(fd, 1);
    try { fn(); } catch (...) { fflush(stdout); dup2(save, 1); close(save); throw; }
    fflush(stdout); dup2(save, 1); close(save);
    std::string s(lseek(fd, 0, SEEK_END), 0);
    if (pread(fd, &s[0], s.size(), 0) < 0) {}
    return s;
}
static std::string text(Tape &t, size_t n) {
    std::string s; uint64_t r = 0;
    for (size_t i = 0; i < n; ++i) { if (i < 40) s += t.chance(1, 5) ? "%sdn"[t.pick(4)] : (char) t.range(32, 126); else s += (char) (32 + (r = r * 31 + 7 + i) % 95); }
    return s;
}
static std::map<void *, size_t> blocks; static unsigned custom_calls;
static void *cal(embc_size_t n) { ++custom_calls; void *p = malloc(n ? n : 1); memset(p, 0xEE, n); blocks[p] = n; return p; }
static void cfr(void *p) { ++custom_calls; if (!blocks.erase(p)) pbt::fail("allocator asked to free a foreign block"); free(p); }

PBT_PROP("C38", 400000, 5000000,
         "random histories on the shared library interface: fatal handlers set, replaced and removed (two handlers, any user data, some logging or failing again inside), print functions set, "
         "replaced and removed, log messages through the logging module (lengths around the internal buffer of 8192), fatal errors raised directly and by library code (failed assertion, freeing "
         "null), memory taken and returned with the default and with a custom allocator; every report must reach the current receiver exactly once with its data (or stdout when there is none); "
         "non-trivial: 4 or more operations with a fatal error and a message delivered") {
    got.clear(); blocks.clear(); depth = 0; from_fatal = 0; raise_ = false;
    embc_lib_fatal_set(0, 0); embc_lib_print_set(0, 0); embc_log_finalize();
    pbt::watched_reset();
    { pbt::Watch w; embc_lib_initialize(); }
    int fh = -1, ph = -1; void *fud = 0, *pud = 0; bool custom = false;
    int route = 0;   // 0: log module silent, 1: through the library, 2: a handler of the host's own
    std::vector<std::pair<void *, size_t>> live; bool live_custom = false;
    unsigned steps = 0, nf = 0, nm = 0;
    auto ud = [&] { return (void *) (uintptr_t) t.oneof({0ull, 1ull, 0x1234567890abcdefull, ~0ull}); };
    while (t.more(14) && steps++ < 120) {
        got.clear();
        switch (t.weighted({4, 4, 2, 2, 3, 3, 1})) {
            case 0: {   // fatal error
                unsigned kind = fh < 0 ? 0 : (unsigned) t.weighted({3, 1, 1});
                from_fatal = fh < 0 ? 0 : (int) t.pick(3); from_text = text(t, t.pick(8)); raise_ = fh >= 0 && (kind == 2 || t.chance(1, 4));
                if (raise_ && from_fatal == 2) from_fatal = 0;
                std::string file = text(t, t.pick(20)), msg = text(t, t.chance(1, 12) ? t.range(200, 2000) : t.pick(30));
                int line = (int) t.u(31); bool thrown = false; std::string out;
                if (kind == 1) { file = ""; msg = ""; } else if (kind == 2) { file = ""; msg = ""; }
                NOTE(t, "fatal kind %u (handler %d, does %d, raises %d) %s:%d %s", kind, fh, from_fatal, raise_, file.c_str(), line, msg.c_str());
                auto go = [&] { try { if (kind == 0) embc_fatal(file.c_str(), line, msg.c_str()); else if (kind == 1) c38_assert(0); else embc_free(0); } catch (pbt::Fatal &) { thrown = true; } };
                if (fh < 0 && ph < 0) out = captured(go); else go();
                int ff = from_fatal; from_fatal = 0;
                PBT_CHECK(thrown == raise_, "exception of the fatal handler did not pass");
                if (fh >= 0) {
                    size_t want = 1 + ((ff == 1 && route && !(route == 1 && ph < 0)) || ff == 2 ? 1 : 0);
                    PBT_CHECK(got.size() == want, "one fatal error led to %zu reports, expected %zu", got.size(), want);
                    PBT_CHECK(got[0].fatal && got[0].h == fh && got[0].ud == fud, "fatal error went to handler %d with %p, current is %d with %p", got[0].h, got[0].ud, fh, fud);
                    if (kind == 0) PBT_CHECK(got[0].file == file && got[0].line == line && got[0].text == msg, "fatal error reported as %s:%d: %s, was %s:%d: %s", got[0].file.c_str(), got[0].line, got[0].text.c_str(), file.c_str(), line, msg.c_str());
                    if (kind) PBT_CHECK(got[0].line > 0 && !got[0].file.empty() && !got[0].text.empty(), "fatal error of the library has no location or text");
                    if (ff == 2) PBT_CHECK(got[1].fatal && got[1].h == fh && got[1].ud == fud && got[1].line == 4711 && got[1].file == "nested.c" && got[1].text == from_text, "nested fatal error reported wrongly");
                    if (want == 2 && ff == 1) PBT_CHECK(!got[1].fatal && got[1].text == from_text, "message logged in the fatal handler arrived as %s", got[1].text.c_str());
                } else {
                    if (ph >= 0) {
                        PBT_CHECK(got.size() == 1 && !got[0].fatal && got[0].h == ph && got[0].ud == pud, "fatal error without handler was not printed once by the current print function");
                        out = got[0].text;
                    } else PBT_CHECK(got.empty(), "fatal error without receivers was delivered");
                    PBT_CHECK(out.find(file) != std::string::npos && out.find(msg) != std::string::npos && out.find(std::to_string(line)) != std::string::npos,
                              "printed fatal error %s lacks part of %s:%d: %s", pbt::quote(out).c_str(), file.c_str(), line, msg.c_str());
                }
                ++nf; break;
            }
            case 1: {   // log message
                size_t n = t.chance(1, 8) ? t.range(8150, 8300) : t.chance(1, 20) ? t.range(1000, 12000) : t.pick(60);
                std::string s = text(t, n), out; int a = (int) (int32_t) t.u(32); unsigned form = (unsigned) t.pick(2);
                NOTE(t, "log %zu characters, form %u (route %d, print %d): %.60s", n, form, route, ph, s.c_str());
                std::string want = form ? std::to_string(a) + "/" + s + "/x" : s;
                auto go = [&] { if (form) embc_log_printf_("%d/%s/%c", a, s.c_str(), 'x'); else embc_log_printf_("%s", s.c_str()); };
                if (route == 1 && ph < 0) {
                    out = captured(go);
                    PBT_CHECK(got.empty() && out == want, "message without print function gave %zu characters on stdout, expected the %zu of the message", out.size(), want.size());
                } else {
                    go();
                    if (!route) { PBT_CHECK(got.empty(), "message delivered while logging is off"); break; }
                    PBT_CHECK(got.size() == 1 && !got[0].fatal, "one message led to %zu reports", got.size());
                    PBT_CHECK(got[0].h == (route == 2 ? 2 : ph) && (route == 2 || got[0].ud == pud), "message went to print function %d with %p, current is %d with %p", got[0].h, got[0].ud, ph, pud);
                    if (want.size() <= 8191) PBT_CHECK(got[0].text == want, "message %s arrived as %s", pbt::quote(want).c_str(), pbt::quote(got[0].text).c_str());
                    else PBT_CHECK(got[0].text.size() >= 8191 && want.compare(0, got[0].text.size(), got[0].text) == 0, "long message of %zu characters arrived as %zu characters that are not its start", want.size(), got[0].text.size());
                }
                ++nm; break;
            }
            case 2: fh = (int) t.pick(3) - 1; fud = ud(); NOTE(t, "fatal handler %d with %p", fh, fud); embc_lib_fatal_set(fh == 0 ? f0 : fh == 1 ? f1 : 0, fud); break;
            case 3:
                if (t.chance(1, 4)) { route = (int) t.pick(2) * 2; NOTE(t, "log module %s", route ? "to the host" : "off"); embc_log_initialize(route ? plain : (embc_log_printf) 0); break; }
                ph = (int) t.pick(3) - 1; pud = ud(); route = 1; NOTE(t, "print function %d with %p", ph, pud); embc_lib_print_set(ph == 0 ? p0 : ph == 1 ? p1 : 0, pud); break;
            case 4: {   // allocate
                embc_size_t n = (embc_size_t) t.oneof({1u, 8u, 33u, 300u, 5000u}) + (embc_size_t) t.pick(9);
                if (live.size() > 20) break;
                NOTE(t, "alloc %lld %s", (long long) n, custom ? "custom" : "default");
                unsigned c0 = custom_calls; size_t w0 = pbt::watched_live(); uint8_t *p;
                if (custom) p = (uint8_t *) embc_lib_alloc(n); else { pbt::Watch w; p = (uint8_t *) embc_lib_alloc(n); }
                PBT_CHECK(p, "no memory");
                if (custom) PBT_CHECK(custom_calls == c0 + 1 && blocks.count(p) && blocks[p] >= (size_t) n, "allocation did not use the current allocator");
                else PBT_CHECK(custom_calls == c0 && pbt::watched_live() == w0 + 1, "allocation did not use the heap");
                for (embc_size_t i = 0; i < n; ++i) PBT_CHECK(!p[i], "byte %lld of a block of %lld is not cleared", (long long) i, (long long) n);
                memset(p, 0x5A, n); live.push_back({p, (size_t) n}); live_custom = custom;
                break;
            }
            case 5: {   // free
                if (live.empty() || t.chance(1, 5)) { NOTE(t, "free null"); unsigned c0 = custom_calls; embc_lib_free(0); PBT_CHECK(got.empty() && custom_calls == c0, "freeing null had an effect"); break; }
                size_t i = t.pick(live.size()); void *p = live[i].first;
                NOTE(t, "free %zu", i);
                for (size_t k = 0; k < live[i].second; ++k) PBT_CHECK(((uint8_t *) p)[k] == 0x5A, "live memory changed");
                unsigned c0 = custom_calls; size_t w0 = pbt::watched_live();
                if (custom) { embc_lib_free(p); PBT_CHECK(custom_calls == c0 + 1 && !blocks.count(p), "free did not reach the allocator"); }
                else { pbt::Watch w; embc_lib_free(p); }
                if (!custom) PBT_CHECK(custom_calls == c0 && pbt::watched_live() == w0 - 1, "free did not return the block to the heap");
                live.erase(live.begin() + i);
                break;
            }
            default: {  // change the allocator; every live block goes first
                for (auto &p : live) { if (custom) embc_lib_free(p.first); else { pbt::Watch w; embc_lib_free(p.first); } }
                live.clear(); custom = t.flip();
                NOTE(t, "allocator %s", custom ? "custom" : "default");
                if (custom) embc_allocator_set(cal, cfr); else embc_lib_initialize();
            }
        }
    }
    for (auto &p : live) { if (custom) embc_lib_free(p.first); else { pbt::Watch w; embc_lib_free(p.first); } }
    PBT_CHECK(blocks.empty() && pbt::watched_live() == 0, "%zu blocks were not returned", blocks.size() + pbt::watched_live());
    (void) live_custom;
    if (steps >= 4 && nf && nm) t.nontrivial();
    if (nf) t.label("fatal"); if (nm) t.label("message"); if (custom) t.label("custom allocator");
    embc_lib_fatal_set(0, 0); embc_log_finalize();
}
