// C33: logging delivers exactly the permitted messages, complete and in order, to the current handler.
#include "pbt.hpp"
#include <strings.h>
extern "C" {
#include "embc/log.h"
int c33_level, c33_global;
extern int c33_line;
const char *c33_file(void); int c33_hits(void);
void c33_log(int which, int form, const char *s, int a);
void c33_log_at(int lvl, int other, int pick, const char *s, int a);
int c33_check(int), c33_check_e(int, int), c33_lcheck(int, int), c33_lcheck_e(int, int, int, int);
const char *c33_name(int); char c33_char(int); int c33_value(int);
}
using pbt::Tape;
static std::vector<std::pair<int, std::string>> got;
static void take(int h, const char *f, va_list a) { static char b[80000]; vsnprintf(b, sizeof(b), f, a); got.push_back({h, b}); }
static void h0(const char *f, ...) { va_list a; va_start(a, f); take(0, f, a); va_end(a); }
static void h1(const char *f, ...) { va_list a; va_start(a, f); take(1, f, a); va_end(a); }
static const int lvl_of[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 3, 4, 7, 7, 3, 4, 5, 6, 7, 7, 8, 9};
static const char *const names[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL"};
static const char chars[] = "!ACEWNIDDD.";

PBT_PROP("C33", 1500000, 12000000,
         "random histories of handler changes (two handlers, none, finalize), level limit changes (global and module, off to all) and log statements through every level macro "
         "and alias, single messages with arbitrary printable text including percent signs, formatted and with the maximum of arguments; each must reach the current handler "
         "exactly once with its level character, file, line and text if and only if both limits permit it; level names and characters checked against the level list; "
         "non-trivial: 3 or more log statements with at least one delivered and one suppressed") {
    int handler = -1; unsigned steps = 0, sent = 0, cut = 0;
    c33_level = (int) t.range(0, 10); c33_global = 10;
    c33_hits();
    embc_log_finalize();
    while (t.more(12) && steps++ < 100) {
        got.clear();
        switch (t.weighted({6, 2, 2, 1, 1})) {
            case 0: {
                int which = (int) t.pick(22), form = (int) t.pick(4), a = (int) t.pick(20000) - 10000, lvl = lvl_of[which];
                std::string s; size_t n = t.pick(t.chance(1, 10) ? 200 : 12); if (t.chance(1, 3000)) { n = t.oneof<size_t>({250, 1020, 4080, 8180, 65520}) + t.pick(40); t.heavy(); t.label("long message"); }
                if (n > 300) s = std::string(n, (char) t.range(33, 126)) + "end";
                else
                for (size_t i = 0; i < n; ++i) s += t.chance(1, 5) ? "%sdn"[t.pick(4)] : (char) t.range(32, 126);
                if (form == 3) { lvl = (int) t.pick(12) - 1; int other = (int) t.pick(10); bool p = t.flip();
                    NOTE(t, "log level %d as an expression (handler %d, level %d, global %d): %s", lvl, handler, c33_level, c33_global, s.c_str());
                    if (lvl == 10 && c33_level == 10 && c33_global == 10) { /* ALL is a limit, not a message level */ lvl = 9; }
                    c33_log_at(p ? lvl : other, p ? other : lvl, p, s.c_str(), a); }
                else { NOTE(t, "log macro %d form %d (handler %d, level %d, global %d): %s", which, form, handler, c33_level, c33_global, s.c_str());
                    c33_log(which, form, s.c_str(), a); }
                bool pass = lvl >= 0 && lvl <= c33_level && lvl <= c33_global;
                static char body[70000];
                if (form == 1) snprintf(body, sizeof(body), "%s", s.c_str());
                else if (form == 2) snprintf(body, sizeof(body), "%d 1 2 3 4 5 6 7 8 %s", a, s.c_str());
                else snprintf(body, sizeof(body), "%s/%d/%x", s.c_str(), a, 77);
                static char want[71000];
                if (pass) snprintf(want, sizeof(want), "%c %s:%d: %s\n", chars[lvl], c33_file(), c33_line, body);
                size_t count = pass && handler >= 0 ? 1 : 0;
                PBT_CHECK(got.size() == count, "a level %d message with module limit %d and global limit %d was delivered %zu times, expected %zu", lvl, c33_level, c33_global, got.size(), count);
                if (count) {
                    PBT_CHECK(got[0].first == handler, "message went to handler %d, current is %d", got[0].first, handler);
                    PBT_CHECK(got[0].second == want, "level %d message is %s, expected %s", lvl, pbt::quote(got[0].second).c_str(), pbt::quote(want).c_str());
                    ++sent;
                } else if (!pass) ++cut;
                int h = c33_hits();
                PBT_CHECK(h == (form != 1 && pass ? 1 : 0), "arguments of a %s message were evaluated %d times", pass ? "permitted" : "suppressed", h);
                break;
            }
            case 1: {
                int h = (int) t.pick(4) - 1; handler = h == 2 ? -1 : h;
                NOTE(t, "handler %d", h);
                if (h == 2) embc_log_finalize(); else PBT_EQ(embc_log_initialize(h == 0 ? h0 : h == 1 ? h1 : (embc_log_printf) 0), 0, "log initialize");
                break;
            }
            case 2: c33_level = (int) t.pick(12) - 1; c33_global = t.flip() ? 10 : (int) t.pick(12) - 1; NOTE(t, "level %d global %d", c33_level, c33_global); break;
            case 3: {
                int l = (int) t.pick(13) - 1, x = (int) t.pick(16), c = (int) t.pick(12) - 1, y = (int) t.pick(16);
                bool want = l >= 0 && l <= c33_level && l <= c33_global;
                PBT_CHECK(!!c33_check(l) == want && !!c33_check_e(l ^ x, x) == want, "static check of level %d with limits %d and %d", l, c33_level, c33_global);
                PBT_CHECK(!!c33_lcheck(l, c) == (l <= c) && !!c33_lcheck_e(l ^ x, x, c ^ y, y) == (l <= c), "check of level %d against %d", l, c);
                break;
            }
            default: {
                int i = (int) t.pick(11); const char *nm = c33_name(i);
                NOTE(t, "level name %d", i);
                PBT_EQ(c33_value(i), i, "value of level %d", i);
                PBT_CHECK(nm && !strcasecmp(nm, names[i]), "name of level %d is %s, expected %s", i, nm ? nm : "null", names[i]);
                PBT_CHECK(c33_char(i) == chars[i], "character of level %d is %c, expected %c", i, c33_char(i), chars[i]);
            }
        }
    }
    if (steps >= 3 && sent && cut) t.nontrivial();
    if (sent) t.label("delivered");
    if (cut) t.label("suppressed");
}
