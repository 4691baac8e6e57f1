// Engine: case generation, coverage guidance, crash isolation, shrinking,
// replay confirmation, evidence.  See pbt.hpp.
#include "pbt.hpp"
#include <algorithm>
#include <sanitizer/allocator_interface.h>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" {
#include "embc/platform.h"
#include "embc/log.h"
}

namespace pbt {

const Prop *the_prop = nullptr;

static const size_t TAPE_MAX = 1 << 16;
static const size_t NOTES_MAX = 1 << 18;
static const int MAX_WORKERS = 16;

enum Outcome : uint32_t { RUNNING = 0, PASS = 1, FAILED = 2, KNOWN = 3, CRASH = 4, HANG = 5, TOOLONG = 6 };

struct Shared {
    volatile uint64_t case_idx;
    volatile uint64_t done;        // worker finished its share
    volatile uint32_t stop;        // wall budget used up: finish
    volatile uint32_t outcome;
    volatile uint32_t tape_len;
    volatile uint32_t notes_len;
    char msg[2048];
    char key[128];
    uint64_t tape[TAPE_MAX];
    char notes[NOTES_MAX];
};

struct TapeOverflow {};

uint64_t Tape::pick(uint64_t n) {
    uint64_t v;
    if (pos < src.size()) v = src[pos];
    else if (random_tail) v = rng.next();
    else v = 0;
    if (pos < src.size() || !random_tail) { if (n) v %= n; }
    else if (n) v = (uint64_t)(((unsigned __int128) v * n) >> 64);
    if (pos >= TAPE_MAX) throw TapeOverflow();
    if (sh) { sh->tape[pos] = v; sh->tape_len = (uint32_t)(pos + 1); }
    ++pos;
    hash = (hash ^ v) * 0x9e3779b97f4a7c15ull; hash ^= hash >> 29;
    return v;
}

std::vector<uint8_t> Tape::blob(size_t n) {
    std::vector<uint8_t> v(n);
    unsigned kind = (unsigned) pick(4);
    uint8_t b = (uint8_t) pick(256);
    if (kind == 0) { for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(b + i); }
    else if (kind == 1) { for (auto &x : v) x = b; }
    else { Rng r(pick(0)); for (auto &x : v) x = (uint8_t) r.next();
           if (kind == 3) for (auto &x : v) if (r.next() % 3 == 0) x = (r.next() & 1) ? 0xAA : b; }
    return v;
}

void Tape::note(const char *fmt, ...) {
    if (!sh) return;
    va_list a; va_start(a, fmt);
    char buf[4096];
    int k = vsnprintf(buf, sizeof(buf) - 1, fmt, a);
    va_end(a);
    if (k < 0) return;
    if (k > (int) sizeof(buf) - 2) k = sizeof(buf) - 2;
    buf[k++] = '\n';
    uint32_t at = sh->notes_len;
    if (at + k >= NOTES_MAX) return;
    memcpy(sh->notes + at, buf, k);
    sh->notes_len = at + k;
}

void Tape::label(const char *name) {
    for (auto *l : labels) if (l == name || !strcmp(l, name)) return;
    labels.push_back(name);
}

void fail(const char *fmt, ...) {
    char buf[2000];
    va_list a; va_start(a, fmt); vsnprintf(buf, sizeof(buf), fmt, a); va_end(a);
    throw Fail{buf};
}
struct KnownFail { std::string key, msg; };
void known(const char *key, const char *fmt, ...) {
    char buf[2000];
    va_list a; va_start(a, fmt); vsnprintf(buf, sizeof(buf), fmt, a); va_end(a);
    throw KnownFail{key, buf};
}

std::string hex(const void *p, size_t n, size_t maxn) {
    std::string s; char b[4];
    for (size_t i = 0; i < n && i < maxn; ++i) { snprintf(b, 4, "%02x", ((const uint8_t *) p)[i]); s += b; }
    if (n > maxn) s += "..";
    return s;
}
std::string quote(const std::string &in) {
    std::string s = "\"";
    for (unsigned char c : in) {
        char b[8];
        if (c == '"' || c == '\\') { s += '\\'; s += (char) c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); s += b; }
        else s += (char) c;
    }
    return s + "\"";
}

// ---- heap behind embc_alloc ----
static std::unordered_map<void *, size_t> heap_;
static size_t heap_total_, heap_bytes_;
static void *heap_alloc(embc_size_t n) {
    if (n < 0 || n > (embc_size_t) (1 << 28)) fail("allocation of %lld bytes requested", (long long) n);
    void *p = malloc(n ? (size_t) n : 1);
    Unwatch u;
    heap_[p] = (size_t) n; ++heap_total_; heap_bytes_ += (size_t) n;
    return p;
}
static void heap_free(void *p) {
    auto it = heap_.find(p);
    if (it == heap_.end()) fail("free of %s pointer", p ? "an unallocated" : "a null");
    heap_bytes_ -= it->second;
    heap_.erase(it);
    free(p);
}
void Heap::install() { embc_allocator_set(heap_alloc, heap_free); }
void Heap::reset() {
    for (auto &e : heap_) free(e.first);
    heap_.clear(); heap_total_ = 0; heap_bytes_ = 0;
}
size_t Heap::live() { return heap_.size(); }
size_t Heap::live_bytes() { return heap_bytes_; }
size_t Heap::total() { return heap_total_; }


// ---- sanitizer allocation hooks ----
static int watching_;
static const size_t WMAX = 1 << 16;
static const void *wtab_[WMAX];
static size_t wcount_;
static bool hooks_installed_;
static size_t wslot(const void *p) { return ((uintptr_t) p >> 4) * 0x9e3779b97f4a7c15ull >> 48; }
static void hook_malloc(const volatile void *p, size_t) {
    if (watching_ <= 0 || !p || wcount_ > WMAX / 2) return;
    for (size_t i = wslot((const void *) p); ; i = (i + 1) % WMAX)
        if (!wtab_[i] || wtab_[i] == (const void *) 1) { wtab_[i] = (const void *) p; ++wcount_; return; }
}
static void hook_free(const volatile void *p) {
    if (!wcount_ || !p) return;
    for (size_t i = wslot((const void *) p); wtab_[i]; i = (i + 1) % WMAX)
        if (wtab_[i] == (const void *) p) { wtab_[i] = (const void *) 1; --wcount_; return; }
}
Watch::Watch() {
    if (!hooks_installed_) { hooks_installed_ = true; __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free); }
    ++watching_;
}
Watch::~Watch() { --watching_; }
Unwatch::Unwatch() : prev(watching_) { watching_ = 0; }
Unwatch::~Unwatch() { watching_ = prev; }
size_t watched_live() { return wcount_; }
void watched_reset() { memset(wtab_, 0, sizeof(wtab_)); wcount_ = 0; watching_ = 0; }

}  // namespace pbt

extern "C" void embc_fatal(char const *file, int line, char const *msg) {
    throw pbt::Fatal{file ? file : "", line, msg ? msg : ""};
}

// ---- coverage feedback (clang -fsanitize-coverage=inline-8bit-counters on the library) ----
static std::vector<std::pair<uint8_t *, uint8_t *>> &cov_regions() {
    static std::vector<std::pair<uint8_t *, uint8_t *>> r; return r;
}
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
    if (a < b) cov_regions().push_back({a, b});
}

namespace pbt {

static size_t cov_size() { size_t n = 0; for (auto &r : cov_regions()) n += r.second - r.first; return n; }
static void cov_reset() { for (auto &r : cov_regions()) memset(r.first, 0, r.second - r.first); }
static uint8_t bucket(uint8_t c) {
    if (c == 0) return 0; if (c == 1) return 1; if (c == 2) return 2; if (c == 3) return 4;
    if (c < 8) return 8; if (c < 16) return 16; if (c < 32) return 32; if (c < 128) return 64;
    return 128;
}
// returns true when the case reached something new
static bool cov_merge(std::vector<uint8_t> &seen) {
    bool fresh = false; size_t at = 0;
    for (auto &r : cov_regions())
        for (uint8_t *p = r.first; p < r.second; ++p, ++at)
            if (*p) { uint8_t b = bucket(*p); if (b & ~seen[at]) { seen[at] |= b; fresh = true; } }
    return fresh;
}

static std::set<std::string> known_keys;

static void arm_timer(int secs) {
    struct itimerval tv; memset(&tv, 0, sizeof(tv));
    tv.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

static int case_cpu_limit = 20;

// run one case in this process
static Outcome run_case(Tape &t, std::string &msg, std::string &key) {
    Heap::reset();
    Heap::install();
    embc_log_initialize(0);
    try {
        the_prop->fn(t);
    } catch (Fail &f) { msg = f.msg; return FAILED; }
    catch (KnownFail &k) {
        msg = k.msg; key = k.key;
        return known_keys.count(k.key) ? KNOWN : FAILED;
    } catch (Fatal &f) {
        size_t s = f.file.rfind('/');
        msg = "unexpected fatal (assert) at " + (s == std::string::npos ? f.file : f.file.substr(s + 1)) + ":" +
              std::to_string(f.line) + " " + f.msg;
        return FAILED;
    } catch (TapeOverflow &) { return TOOLONG; }
    return PASS;
}

static std::vector<Shared *> slots;
static Shared *make_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared *) p;
}

static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x2545F4914F6CDD1Dull + b); r.next(); return r.next(); }
static uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (uint8_t) *s++) * 1099511628211ull; return h; }

struct Stats {
    uint64_t evals = 0, nontrivial = 0, known = 0, excluded = 0, toolong = 0, cov_edges = 0, corpus = 0, mutated = 0;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> known_hits;
    std::unordered_set<uint64_t> distinct;
};

static void mutate(Tape &t, Rng &r, std::vector<std::vector<uint64_t>> &corpus) {
    // newest entries are favoured
    size_t n = corpus.size();
    size_t i = (r.next() & 1) ? r.next() % n : n - 1 - (r.next() % std::min<size_t>(n, 16));
    t.src = corpus[i];
    unsigned k = 1 + r.next() % 4;
    for (unsigned j = 0; j < k; ++j) {
        size_t len = t.src.size();
        if (len == 0) break;
        size_t at = r.next() % len;
        switch (r.next() % 7) {
            case 0: t.src[at] = r.next() >> (r.next() % 64); break;
            case 1: t.src[at] += (r.next() % 5) - 2; break;
            case 2: { size_t c = 1 + r.next() % std::min<size_t>(len - at, 16); t.src.erase(t.src.begin() + at, t.src.begin() + at + c); break; }
            case 3: { size_t c = 1 + r.next() % std::min<size_t>(len - at, 32);
                      std::vector<uint64_t> part(t.src.begin() + at, t.src.begin() + at + c);
                      size_t to = r.next() % (len + 1); t.src.insert(t.src.begin() + to, part.begin(), part.end()); break; }
            case 4: { auto &o = corpus[r.next() % n]; if (o.empty()) break;
                      size_t from = r.next() % o.size(); t.src.resize(at);
                      t.src.insert(t.src.end(), o.begin() + from, o.end()); break; }
            case 5: t.src.resize(at); break;
            default: { size_t c = 1 + r.next() % 4; std::vector<uint64_t> part;
                       for (size_t q = 0; q < c; ++q) part.push_back(r.next() >> (r.next() % 64));
                       t.src.insert(t.src.begin() + at, part.begin(), part.end()); }
        }
    }
    if (t.src.size() > TAPE_MAX / 2) t.src.resize(TAPE_MAX / 2);
}

static void worker(int w, int nw, uint64_t seed, uint64_t cases, uint64_t start, const std::string &statfile) {
    Shared *sh = slots[w];
    Stats st;
    std::vector<uint8_t> seen(cov_size(), 0);
    std::vector<std::vector<uint64_t>> corpus;
    uint64_t base = mix(seed, hash_str(the_prop->id));
    Rng wr(mix(base, 0xC0FFEE00 + w));
    for (uint64_t i = start; i < cases && !sh->stop; i += nw) {
        Tape t;
        t.rng = Rng(mix(base, i));
        t.random_tail = true;
        t.sh = sh;
        if (!corpus.empty() && (i / nw) % 2 == 1) {
            mutate(t, wr, corpus);
            t.random_tail = (wr.next() & 3) != 0;
            ++st.mutated;
        }
        sh->case_idx = i;
        sh->outcome = RUNNING;
        sh->tape_len = 0;
        arm_timer(case_cpu_limit);
        cov_reset();
        std::string msg, key;
        Outcome o = run_case(t, msg, key);
        arm_timer(0);
        ++st.evals;
        if (o == FAILED) {
            snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
            sh->outcome = FAILED;
            _exit(3);
        }
        if (o == TOOLONG) { ++st.toolong; continue; }
        if (o == KNOWN) { ++st.known; st.known_hits[key]++; }
        if (!t.heavy_ && cov_merge(seen) && t.pos < 4096) {
            corpus.emplace_back(sh->tape, sh->tape + t.pos);
            if (corpus.size() > 4000) corpus.erase(corpus.begin());
        }
        for (auto *l : t.labels) st.labels[l]++;
        if (t.excluded_) ++st.excluded;
        if (t.nontrivial_ && o == PASS && st.distinct.size() < 4000000) st.distinct.insert(t.hash);
    }
    for (auto b : seen) if (b) ++st.cov_edges;
    std::ofstream f(statfile, std::ios::binary);
    f << st.evals << " " << st.known << " " << st.excluded << " " << st.toolong << " " << st.cov_edges << " "
      << corpus.size() << " " << st.mutated << "\n";
    f << st.labels.size() << "\n";
    for (auto &l : st.labels) f << l.second << " " << l.first << "\n";
    f << st.known_hits.size() << "\n";
    for (auto &l : st.known_hits) f << l.second << " " << l.first << "\n";
    f << st.distinct.size() << "\n";
    for (auto h : st.distinct) f.write((const char *) &h, 8);
    f.close();
    sh->done = 1;
    _exit(0);
}

struct RunResult { Outcome o; std::string msg, notes, err; std::vector<uint64_t> tape; bool nontrivial; };

// run a tape in a child process
static RunResult run_child(const std::vector<uint64_t> &tape, bool tracing, uint64_t rng_seed = 0, bool random_tail = false) {
    static Shared *sh = nullptr;
    if (!sh) sh = make_shared();
    sh->outcome = RUNNING; sh->tape_len = 0; sh->notes_len = 0; sh->msg[0] = 0; sh->key[0] = 0; sh->done = 0;
    char errname[] = "/tmp/pbt_err_XXXXXX";
    int efd = mkstemp(errname);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(efd, 2);
        dup2(efd, 1);
        Tape t;
        t.src = tape; t.sh = sh; t.tracing = tracing;
        t.rng = Rng(rng_seed); t.random_tail = random_tail;
        arm_timer(case_cpu_limit);
        std::string msg, key;
        Outcome o = run_case(t, msg, key);
        arm_timer(0);
        snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
        snprintf(sh->key, sizeof(sh->key), "%s", key.c_str());
        sh->done = t.nontrivial_ ? 1 : 0;
        sh->outcome = o;
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.o = (Outcome) sh->outcome;
    r.msg = sh->msg;
    r.nontrivial = sh->done;
    if (r.o == RUNNING || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) { r.o = HANG; r.msg = "no termination: one case used more than " + std::to_string(case_cpu_limit) + " s of CPU"; }
        else {
            r.o = CRASH;
            r.msg = "crash";
            lseek(efd, 0, SEEK_SET);
            std::string e; char buf[4096]; ssize_t k;
            while ((k = read(efd, buf, sizeof(buf))) > 0 && e.size() < 200000) e.append(buf, k);
            r.err = e;
            // pick the ASan/UBSan summary
            size_t at = e.find("SUMMARY:"); size_t at2 = e.find("runtime error:");
            size_t p = at2 != std::string::npos ? at2 : at;
            if (p != std::string::npos) { size_t nl = e.find('\n', p); r.msg = "crash: " + e.substr(p, std::min<size_t>(nl - p, 300)); }
            else if (WIFSIGNALED(status)) r.msg = "crash: signal " + std::to_string(WTERMSIG(status));
        }
    }
    close(efd);
    unlink(errname);
    r.tape.assign(sh->tape, sh->tape + sh->tape_len);
    r.notes.assign(sh->notes, sh->notes_len);
    return r;
}

static bool is_bad(Outcome o) { return o == FAILED || o == CRASH || o == HANG; }

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, Outcome kind) {
    double t0 = now();
    int budget = kind == HANG ? 12 : 4000;
    double tmax = kind == HANG ? 120 : 90;
    auto attempt = [&](const std::vector<uint64_t> &c) {
        if (budget-- <= 0 || now() - t0 > tmax) return false;
        RunResult r = run_child(c, false);
        if (!is_bad(r.o)) return false;
        if (kind != HANG && r.o == HANG) return false;
        std::vector<uint64_t> used = r.tape;
        while (!used.empty() && used.back() == 0) used.pop_back();
        if (used.size() < best.size() || (used.size() == best.size() && used < best)) { best = used; return true; }
        return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && budget > 0 && now() - t0 < tmax) {
        progress = false;
        for (size_t sz = best.size() / 2 + 1; sz >= 1; sz = sz / 2) {
            for (size_t at = 0; at + sz <= best.size();) {
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + at, c.begin() + at + sz);
                if (attempt(c)) progress = true; else at += sz > 4 ? sz / 2 : 1;
                if (budget <= 0) break;
            }
            if (sz == 1) break;
        }
        for (size_t at = 0; at < best.size() && budget > 0; ++at) {
            if (best[at] == 0) continue;
            std::vector<uint64_t> c = best; c[at] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = at < best.size() ? best[at] : 0;
            for (int k = 0; k < 8 && lo + 1 < hi && at < best.size(); ++k) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[at] = mid;
                if (attempt(c)) { progress = true; hi = at < best.size() ? best[at] : 0; } else lo = mid;
            }
            if (at < best.size() && best[at] > 0) { c = best; c[at] -= 1; if (attempt(c)) progress = true; }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

static std::string describe(const RunResult &r) {
    std::ostringstream o;
    o << "result: " << r.msg << "\n--- trace of the case ---\n" << r.notes;
    if (!r.err.empty()) o << "--- sanitizer report ---\n" << r.err.substr(0, 6000);
    return o.str();
}

// returns true if the violation is confirmed (printed)
static bool report(const std::vector<uint64_t> &tape0, const std::string &outdir, uint64_t seed, std::string &why) {
    RunResult first = run_child(tape0, false);
    if (!is_bad(first.o)) { why = "did not reproduce"; return false; }
    std::vector<uint64_t> t = shrink(tape0, first.o);
    RunResult last;
    for (int i = 0; i < 3; ++i) {
        last = run_child(t, true);
        if (!is_bad(last.o)) { t = tape0; i = -1; if (why == "flaky") { return false; } why = "flaky"; }
    }
    mkdir(outdir.c_str(), 0777);
    uint64_t h = 0; for (auto v : t) h = mix(h, v);
    char name[64]; snprintf(name, sizeof(name), "%s-%llu-%08x.tape", the_prop->id, (unsigned long long) seed, (unsigned) h);
    std::string path = outdir + "/" + name;
    std::ofstream f(path);
    f << "# property " << the_prop->id << "\n# replay: python3 /verif/check.py " << the_prop->id << " --replay " << path << "\n";
    f << "tape " << t.size();
    for (auto v : t) f << " " << v;
    f << "\n" << describe(last);
    f.close();
    std::string brief = last.notes;
    if (brief.size() > 3000) brief = brief.substr(0, 3000) + "...\n";
    printf("%s\n%s", last.msg.c_str(), brief.c_str());
    printf("VIOLATION property=%s replay=%s\n", the_prop->id, path.c_str());
    fflush(stdout);
    return true;
}

}  // namespace pbt

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
           "handle_abort=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:quarantine_size_mb=16:"
           "abort_on_error=0:exitcode=77:symbolize=1:allow_user_segv_handler=0:print_legend=0";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }

using namespace pbt;

int main(int argc, char **argv) {
    uint64_t seed = 1, cases = 0; std::string tier = "quick", evidence, outdir = "out", replay, workdir = "/tmp", knownfile;
    int nw = 8; double tmax = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--tier") tier = v;
        else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10);
        else if (a == "--evidence") evidence = v;
        else if (a == "--out") outdir = v;
        else if (a == "--replay") replay = v;
        else if (a == "--work") workdir = v;
        else if (a == "--workers") nw = atoi(v.c_str());
        else if (a == "--known") knownfile = v;
        else if (a == "--tmax") tmax = atof(v.c_str());
    }
    if (nw > MAX_WORKERS) nw = MAX_WORKERS;
    if (!cases) cases = tier == "thorough" ? the_prop->thorough_cases : the_prop->quick_cases;
    double wall0 = now();
    std::map<std::string, std::string> known_text;
    if (!knownfile.empty()) {
        std::ifstream f(knownfile); std::string line;
        std::string want = std::string("KNOWN-FINDING: property=") + the_prop->id + " key=";
        while (std::getline(f, line)) {
            if (line.rfind(want, 0) != 0) continue;
            std::string rest = line.substr(want.size());
            size_t sp = rest.find(' ');
            std::string key = rest.substr(0, sp);
            known_keys.insert(key);
            known_text[key] = sp == std::string::npos ? "" : rest.substr(sp + 1);
        }
    }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string line; std::vector<uint64_t> t;
        while (std::getline(f, line)) if (line.rfind("tape ", 0) == 0) {
            std::istringstream is(line.substr(5)); size_t n; is >> n; uint64_t v; while (n-- && is >> v) t.push_back(v); }
        RunResult r = run_child(t, true);
        printf("%s\n", describe(r).c_str());
        if (is_bad(r.o)) { printf("VIOLATION property=%s replay=%s\n", the_prop->id, replay.c_str()); return 1; }
        return 0;
    }
    for (int i = 0; i < nw; ++i) slots.push_back(make_shared());
    std::vector<pid_t> pids(nw, 0);
    std::vector<uint64_t> next_start(nw);
    std::vector<int> unreproduced(nw, 0);
    auto statfile = [&](int w) { return workdir + "/stat." + std::to_string(w); };
    auto launch = [&](int w) {
        fflush(stdout);
        slots[w]->done = 0;
        pid_t p = fork();
        if (p == 0) {
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1);
            worker(w, nw, seed, cases, next_start[w], statfile(w));
        }
        pids[w] = p;
    };
    for (int w = 0; w < nw; ++w) { next_start[w] = w; unlink(statfile(w).c_str()); launch(w); }
    bool violated = false; std::string why; int alive = nw; uint64_t lost = 0; bool cut = false;
    uint64_t partial = 0;
    while (alive > 0) {
        int status; pid_t p;
        if (tmax > 0) {
            p = waitpid(-1, &status, WNOHANG);
            if (p == 0) {
                if (now() - wall0 > tmax && !cut) {  // wall budget: keep what was explored
                    cut = true;
                    for (int w = 0; w < nw; ++w) slots[w]->stop = 1;
                }
                if (now() - wall0 > tmax + 40) {
                    for (int w = 0; w < nw; ++w) if (pids[w]) { kill(pids[w], SIGKILL); partial += slots[w]->case_idx / nw; }
                    for (int w = 0; w < nw; ++w) if (pids[w]) { waitpid(pids[w], &status, 0); pids[w] = 0; }
                    break;
                }
                usleep(20000); continue;
            }
        } else p = waitpid(-1, &status, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < nw; ++i) if (pids[i] == p) w = i;
        if (w < 0) continue;
        pids[w] = 0;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && slots[w]->done) { --alive; continue; }
        // failure, crash or hang: the tape is in the slot
        std::vector<uint64_t> tape(slots[w]->tape, slots[w]->tape + slots[w]->tape_len);
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
            // killed from outside (memory): treat like a crash, confirm by replay
        }
        for (int i = 0; i < nw; ++i) if (pids[i]) kill(pids[i], SIGSTOP);
        if (report(tape, outdir, seed, why)) {
            violated = true;
            for (int i = 0; i < nw; ++i) if (pids[i]) { kill(pids[i], SIGKILL); waitpid(pids[i], &status, 0); pids[i] = 0; }
            break;
        }
        for (int i = 0; i < nw; ++i) if (pids[i]) kill(pids[i], SIGCONT);
        // state from earlier cases of this process may matter: the failing case
        // alone passes.  Continue after it, count it.
        fprintf(stderr, "note: case %llu of worker %d failed (%s; status %x) but %s\n",
                (unsigned long long) slots[w]->case_idx, w, slots[w]->msg, status, why.c_str());
        ++lost;
        next_start[w] = slots[w]->case_idx + nw;
        if (++unreproduced[w] > 5 || next_start[w] >= cases) { --alive; continue; }
        launch(w);
    }
    Stats st; std::unordered_set<uint64_t> all;
    for (int w = 0; w < nw; ++w) {
        std::ifstream f(statfile(w), std::ios::binary);
        if (!f) continue;
        uint64_t a, b, c, d, e, g, m; size_t n; std::string line;
        f >> a >> b >> c >> d >> e >> g >> m; std::getline(f, line);
        st.evals += a; st.known += b; st.excluded += c; st.toolong += d; st.cov_edges = std::max(st.cov_edges, e); st.corpus += g; st.mutated += m;
        for (auto *mp : {&st.labels, &st.known_hits}) {
            f >> n; std::getline(f, line);
            for (size_t i = 0; i < n; ++i) { uint64_t k; f >> k; f.get(); std::getline(f, line); (*mp)[line] += k; }
        }
        f >> n; std::getline(f, line);
        for (size_t i = 0; i < n; ++i) { uint64_t h; f.read((char *) &h, 8); all.insert(h); }
        f.close();
        unlink(statfile(w).c_str());
    }
    st.evals += partial;
    // samples: re-run the first few cases with tracing
    std::vector<std::string> samples; uint64_t sample_nt = 0;
    if (!violated) {
        uint64_t base = mix(seed, hash_str(the_prop->id));
        for (uint64_t i = 0; i < 40 && samples.size() < 4; ++i) {
            RunResult r = run_child({}, true, mix(base, i), true);
            if (r.o == PASS && r.nontrivial) { ++sample_nt; std::string s = r.notes; if (s.size() > 1500) s = s.substr(0, 1500) + "..."; samples.push_back(s); }
        }
    }
    double wall = now() - wall0;
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jstr(the_prop->id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << st.evals
          << ",\n  \"distinct_nontrivial\": " << all.size() << ",\n  \"rule\": " << jstr(the_prop->rule)
          << ",\n  \"classes\": {";
        bool first = true;
        for (auto &l : st.labels) { f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
        f << "},\n  \"mutated_from_corpus\": " << st.mutated << ",\n  \"corpus\": " << st.corpus
          << ",\n  \"coverage_edges_one_worker\": " << st.cov_edges << ",\n  \"library_edges\": " << cov_size()
          << ",\n  \"known_finding_cases\": " << st.known << ",\n  \"excluded_cases\": " << st.excluded
          << ",\n  \"overlong_cases\": " << st.toolong << ",\n  \"unreproduced_cases\": " << lost
          << ",\n  \"stopped_by_time_budget\": " << (cut ? "true" : "false") << ",\n  \"samples\": [";
        first = true;
        for (auto &s : samples) { f << (first ? "\n   " : ",\n   ") << jstr(s); first = false; }
        f << "]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
    }
    if (violated) return 1;
    for (auto &k : known_text)
        printf("KNOWN-FINDING: property=%s %s (%llu cases)\n", the_prop->id, k.second.c_str(), (unsigned long long) st.known_hits[k.first]);
    printf("%s: held on %llu cases, %zu distinct non-trivial, %.1f s\n", the_prop->id, (unsigned long long) st.evals, all.size(), wall);
    return 0;
}
