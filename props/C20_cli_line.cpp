// C20: command line editing: what is executed and what the terminal shows, for every byte sequence.
#include "pbt.hpp"
extern "C" {
#include "embc/cli.h"
}
using pbt::Tape;
static std::string out; static std::vector<std::string> ran; static int rc_; static int tag_exec, tag_print;
static void print_(void *c, const char *s) { PBT_CHECK(c == &tag_print, "print got another cookie"); PBT_CHECK(s, "print called with a null string"); out += s; }
static int exec_(void *c, const char *l) { PBT_CHECK(c == &tag_exec, "execute got another cookie"); ran.push_back(l); return rc_; }

PBT_PROP("C20", 1200000, 12000000,
         "typed byte streams (words, blanks, tabs, comment characters, backspace / delete, CR, LF, CRLF, long lines around the 64 character limit, any byte but NUL) with "
         "every echo and verbosity mode changed on the fly; oracle: an unbounded line editor model giving the executed command and the exact terminal output; "
         "non-trivial: two or more lines executed and an edit, a long line or a comment") {
    embc_cli_t c; struct { embc_cli_t c; char guard[16]; } *box = (decltype(box)) calloc(1, sizeof(*box)); (void) c;
    memset(box->guard, 0x5a, 16);
    embc_cli_t *s = &box->c; out.clear(); ran.clear();
    s->print = t.chance(1, 15) ? 0 : print_; s->print_cookie = &tag_print; s->execute_line = exec_; s->execute_cookie = &tag_exec;
    s->response_success = t.chance(1, 10) ? 0 : "OK\n"; s->response_error = t.chance(1, 10) ? 0 : "ERR\n";
    std::string prompt = t.oneof<const char *>({"", "> ", "123456789012345"}); memcpy(s->prompt, prompt.c_str(), prompt.size() + 1);
    embc_cli_initialize(s);
    std::string want = prompt, line; int echo = 0, verb = 0; char echo_ch = 0, last = 0;
    unsigned mean = t.oneof({12u, 60u, 250u}), n = 0, lines = 0, edits = 0, special = 0;
    std::string queue; size_t qi = 0;
    while (t.more(mean) && n++ < 1200) {
        if (t.chance(1, 25)) {
            if (t.flip()) { echo = (int) t.pick(3); echo_ch = t.oneof({'*', '.', 'x'}); NOTE(t, "echo mode %d", echo); embc_cli_set_echo(s, (embc_cli_echo_mode_e) echo, echo_ch); }
            else { verb = (int) t.pick(2); NOTE(t, "verbose %d", verb); embc_cli_set_verbose(s, (embc_cli_verbose_mode_e) verb); }
        }
        if (t.chance(1, 60) && last != '\r') { // initialize may be called again: the line is discarded
            NOTE(t, "initialize again"); embc_cli_initialize(s); line.clear(); want += prompt;
            if (s->print) PBT_CHECK(out == want, "the terminal shows %s, expected %s", pbt::quote(out).c_str(), pbt::quote(want).c_str());
        }
        queue.clear();
        switch (t.weighted({8, 4, 2, 3, 1, 3, 2, 1})) {
            case 0: for (uint64_t k = t.range(1, 12); k--; ) queue.push_back((char) ('a' + t.pick(26))); break;
            case 1: for (uint64_t k = t.range(1, 3); k--; ) queue.push_back(t.chance(1, 4) ? '\t' : ' '); break;
            case 2: queue.push_back(t.oneof({'\r', '\n'})); break;
            case 3: for (uint64_t k = t.flip() ? 1 : t.range(1, 20); k--; ) queue.push_back(t.oneof({'\b', '\x7f'})); break;
            case 4: queue.push_back(t.oneof({'#', '@', '%'})); break;
            case 5: queue = "\r\n"; break;
            case 6: { uint64_t k = t.range(55, 75); k = k > line.size() ? k - line.size() : 1; bool sp = t.flip(); for (uint64_t j = 0; j < k; ++j) queue.push_back(sp && t.chance(1, 6) ? ' ' : (char) ('A' + j % 26)); break; }
            default: queue.push_back((char) t.range(1, 255));
        }
        for (qi = 0; qi < queue.size(); ++qi) {
            char ch = queue[qi]; NOTE(t, "key 0x%02x", (uint8_t) ch);
            bool eol = false; rc_ = t.pick(4) ? 0 : t.oneof({-1, 1, 2, 3, -2, 128, 256, 65536, -256, -65536}); if (ch != '\r' && ch != '\n') rc_ = 0;
            std::string cmd; bool either = false; size_t r0 = ran.size();
            if (ch == '\b' || ch == 0x7f) { if (!line.empty()) { line.pop_back(); if (echo) want += "\b \b"; ++edits; } }
            else if (ch == '\n' && last == '\r') { }
            else if (ch == '\r' || ch == '\n') {
                eol = true; ++lines; want += "\n";
                std::string raw = line; line.clear(); size_t p = raw.find_first_of("#@%"); bool toolong = false;
                if (p != std::string::npos && p < 64) { raw.resize(p); ++special; } else if (raw.size() > 64) toolong = true;
                if (!toolong) { for (char x : raw) { if (x == ' ' || x == '\t') { if (!cmd.empty() && cmd.back() != ' ') cmd += ' '; } else cmd += x; } if (!cmd.empty() && cmd.back() == ' ') cmd.pop_back(); }
                either = !toolong && cmd.size() == 64;
                if (toolong) ++special;
                if (either) special++;
                else if (toolong) want += "Maximum command line length reached\n";
                else if (!cmd.empty() && rc_ != -1) { if (verb) want += cmd + "\n"; const char *a = rc_ ? s->response_error : s->response_success; if (a) want += a; }
                if (toolong) cmd.clear();
            } else { line += ch; if (echo == 1) want += ch; else if (echo == 2) want += echo_ch; }
            last = ch;
            embc_cli_insert_char(s, ch);
            if (either) { // a line of exactly the maximum length: accepted or refused, but complete
                bool did = ran.size() > r0;
                if (did) { PBT_CHECK(ran.back() == cmd, "executed %s, expected %s", pbt::quote(ran.back()).c_str(), pbt::quote(cmd).c_str());
                    if (rc_ != -1) { if (verb) want += cmd + "\n"; const char *a = rc_ ? s->response_error : s->response_success; if (a) want += a; } }
                else want += "Maximum command line length reached\n";
            } else {
                PBT_EQ(ran.size() - r0, (size_t) (eol && !cmd.empty()), "commands executed by this key (command %s)", pbt::quote(cmd).c_str());
                if (ran.size() > r0) PBT_CHECK(ran.back() == cmd, "executed %s, expected %s", pbt::quote(ran.back()).c_str(), pbt::quote(cmd).c_str());
            }
            if (eol) want += prompt;
            if (s->print) PBT_CHECK(out == want, "the terminal shows %s, expected %s", pbt::quote(out).c_str(), pbt::quote(want).c_str());
            if (eol) { out.clear(); want.clear(); }
        }
    }
    for (char g : box->guard) PBT_CHECK(g == 0x5a, "memory behind the instance changed");
    free(box);
    if (ran.size() >= 2 && (edits || special)) t.nontrivial();
}
