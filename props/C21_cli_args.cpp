// C21: splitting a command line into arguments.
#include "pbt.hpp"
#include <climits>
extern "C" {
#include "embc/cli.h"
}
using pbt::Tape; using pbt::Exact;
static std::vector<std::string> got; static unsigned calls; static int rc_, tag_;
static embc_cli_t *inst; static void *want_cookie;
static std::string prints;
static void print_(void *, const char *s) { prints += s; }
static int args_(void *cookie, int argc, char *argv[]) {
    PBT_CHECK(cookie == want_cookie, "execute_args got %s instead of the execute cookie", cookie == inst ? "the CLI instance" : "another pointer");
    ++calls; got.clear();
    for (int i = 0; i < argc; ++i) { PBT_CHECK(argv[i], "argv[%d] is null", i); got.push_back(argv[i]); }
    // arguments are writable and separate
    for (int i = 0; i < argc; ++i) for (size_t k = 0; argv[i][k]; ++k) argv[i][k] = '!';
    return rc_;
}
static int line_(void *, const char *) { pbt::fail("execute_line called although execute_args is set"); }
PBT_PROP("C21", 4000000, 20000000,
         "command lines of 0 to 64 characters built from tokens and runs of blanks, tabs and commas (0..20 tokens), parsed directly from an exactly sized string and "
         "typed into an instance with execute_args; oracle: split on delimiters; more than 16 arguments are refused without a call; non-trivial: 3 or more tokens and "
         "a run of two different delimiters, or the argument limit reached") {
    std::string line; std::vector<std::string> want; bool typed = t.flip(), mixed = false, again = false;
    size_t top = typed ? EMBC_CLI_LINE_LENGTH - 1 : EMBC_CLI_LINE_LENGTH;
    unsigned nt = (unsigned) (t.chance(1, 4) ? t.range(14, 20) : t.range(0, 8));
    auto delim = [&](unsigned least) {
        unsigned k = least + (unsigned) (t.chance(1, 3) ? t.pick(4) : 0); char prev = 0;
        for (unsigned i = 0; i < k; ++i) { char c = t.oneof({' ', ',', '\t'}); if (prev && c != prev) mixed = true; prev = c; line += c; }
    };
    delim(0);
    for (unsigned i = 0; i < nt; ++i) {
        std::string tok; uint64_t k = nt > 10 ? t.range(1, 2) : t.range(1, 12);
        for (uint64_t j = 0; j < k; ++j) { char c = t.chance(1, 8) ? (char) t.range(1, 255) : (char) t.range('0', 'z'); if (strchr(" \t,#@%\b\r\n\x7f", c)) c = 'q'; tok += c; }
        unsigned room = line.size() + tok.size();
        if (room > top) break;
        line += tok; want.push_back(tok); delim(i + 1 < nt ? 1 : 0);
    }
    if (line.size() < top && t.chance(1, 8)) { char c = t.flip() ? 'e' : ' '; line.resize(top, c); again = true; t.label("longest line"); }
    if (line.size() > top) { line.resize(top); again = true; }
    if (again) { size_t a = 0; want.clear(); while (a < line.size()) { size_t b = line.find_first_of(" \t,", a); if (b == std::string::npos) b = line.size(); if (b > a) want.push_back(line.substr(a, b - a)); a = b + 1; } }
    NOTE(t, "%s, %zu tokens%s", pbt::quote(line).c_str(), want.size(), typed ? ", typed" : "");
    embc_cli_t *s = (embc_cli_t *) calloc(1, sizeof(*s)); inst = s; calls = 0; got.clear(); prints.clear(); rc_ = t.weighted({4, 1}) == 0 ? t.oneof<int>({0, -1, 1, 2, 3}) : t.oneof<int>({-5, 127, 128, 255, 256, 512, -128, -256, 65536, 0x10000000, INT_MAX, INT_MIN, -1000});
    s->execute_args = args_; s->execute_cookie = want_cookie = &tag_; s->execute_line = t.flip() ? line_ : 0; s->print = print_; s->response_success = "OK"; s->response_error = "ERR";
    bool none = !typed && t.chance(1, 30); if (none) s->execute_args = 0;
    bool init = typed || t.flip();
    if (init) embc_cli_initialize(s);
    bool over = want.size() > EMBC_CLI_MAX_ARGS; int r = 0; bool call = !want.empty() && !over && s->execute_args;
    if (typed) {
        for (char c : line) embc_cli_insert_char(s, c);
        embc_cli_insert_char(s, '\r');
        r = prints.find("ERR") != std::string::npos ? 1 : prints.find("OK") != std::string::npos ? 0 : -1;
        bool blank = line.find_first_not_of(" \t") == std::string::npos;
        int w = blank ? -1 : over ? 1 : want.empty() ? 0 : rc_ == 0 ? 0 : rc_ == -1 ? -1 : 1;
        PBT_EQ(r, w, "response (1 error, 0 success, -1 prompt only)");
    } else {
        Exact e(line.c_str(), line.size() + 1);
        r = embc_cli_line_parser(s, e.c());
        PBT_CHECK(!memcmp(e.p, line.c_str(), line.size() + 1), "the parser changed its input");
        if (none && !want.empty()) PBT_CHECK(r > 0, "result without a function to call: %d", r);
        else if (over) PBT_EQ(r, (int) EMBC_CLI_ERROR_PARAMETER_VALUE, "result with %zu arguments", want.size());
        else PBT_EQ(r, want.empty() ? 0 : rc_, "result");
    }
    PBT_EQ(calls, (unsigned) call, "calls of execute_args with %zu arguments", want.size());
    if (call) {
        PBT_EQ(got.size(), want.size(), "number of arguments");
        for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(got[i] == want[i], "argument %zu is %s, expected %s", i, pbt::quote(got[i]).c_str(), pbt::quote(want[i]).c_str());
    }
    free(s);
    if ((want.size() >= 3 && mixed) || over) t.nontrivial();
}
