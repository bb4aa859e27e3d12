// Runs one property: parallel generation, crash isolation, confirmation, shrinking, replay, evidence.
#include "vp.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <stdarg.h>
#include <grp.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <unordered_set>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" void __sanitizer_set_report_path(const char *);

namespace vp {
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
std::vector<Work> &workloads() { static std::vector<Work> r; return r; }

// ------------------------------------------------------------------ shared memory between driver and children
enum { MAXDRAWS = 1 << 16, MAXLABELS = 96, MSGSZ = 8192, TRACESZ = 1 << 16, MAXW = 64 };
struct Label { char name[56]; uint64_t count; };
struct WorkerShm { volatile long cur; volatile long next; volatile long done; volatile long nontriv; volatile int nlabels; Label labels[MAXLABELS]; };
struct Shm {
    volatile int failed; char msg[MSGSZ];
    volatile size_t tracelen; char trace[TRACESZ];
    volatile size_t ndraws; uint64_t draws[MAXDRAWS];
    volatile int is_nontriv; volatile uint64_t hash;
    volatile int nknown; char known[8][512];
    WorkerShm w[MAXW];
};
static Shm *g; static uint64_t *g_hashes; static long g_hash_cap;
static int g_worker = 0;
int worker_index() { return g_worker; }
static bool g_record = false;
bool g_trace = false, g_soft = false;
static bool g_skip_leak, g_nontriv; static uint64_t g_last_hash;
static bool g_soft_armed;
bool g_memory_faults = false;
void g_soft_rearm() { g_soft_armed = g_soft; }

// ------------------------------------------------------------------ choices
static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void Src::seed(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567) * 0xD1342543DE82EF95ull; for (int i = 0; i < 4; i++) st[i] = splitmix(x); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Src::raw() {
    uint64_t r = rotl(st[1] * 5, 7) * 9, t = st[1] << 17;
    st[2] ^= st[0]; st[3] ^= st[1]; st[1] ^= st[2]; st[0] ^= st[3]; st[2] ^= t; st[3] = rotl(st[3], 45);
    return r;
}
uint64_t Src::draw(uint64_t max) {
    uint64_t v = 0;
    if (mode == GEN) { v = max == UINT64_MAX ? raw() : (uint64_t)(((unsigned __int128)raw() * (max + 1)) >> 64); }
    else if (mode == REPLAY) { v = pos < rn ? rv[pos] : 0; if (v > max) v = max == UINT64_MAX ? v : v % (max + 1); }
    else { uint64_t m = max; while (m) { if (pos < bn) { v = (v << 8) | bp[pos++]; } m >>= 8; } if (max != UINT64_MAX && v > max) v %= max + 1; }
    if (mode != BYTES) pos++;
    if (g_record && g->ndraws < MAXDRAWS) { g->draws[g->ndraws] = v; g->ndraws = g->ndraws + 1; }
    hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
    return v;
}
size_t Src::size(size_t max) {
    if (max == 0) return 0;
    switch (draw(7)) {
        case 0: return n(std::min<size_t>(max, 2));
        case 1: case 2: case 3: return n(std::min<size_t>(max, 8));
        case 4: case 5: return n(std::min<size_t>(max, 24));
        default: return n(max);
    }
}
uint64_t Src::bits64() {
    switch (draw(6)) {
        case 0: return draw(16);
        case 1: return draw(1000);
        case 2: { uint64_t v = 1ull << draw(63); return v - 1 + draw(2); }
        case 3: return UINT64_MAX - draw(3);
        case 4: { unsigned b = (unsigned)draw(63); return draw(b == 63 ? UINT64_MAX : ((1ull << (b + 1)) - 1)); }
        default: return draw(UINT64_MAX);
    }
}
int64_t Src::integer(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    switch (draw(7)) {
        case 0: return lo + (int64_t)draw(std::min<uint64_t>(span, 2));
        case 1: return hi - (int64_t)draw(std::min<uint64_t>(span, 2));
        case 2: case 3: if (lo <= 0 && hi >= 0) { int64_t a = std::max<int64_t>(lo, -9), b = std::min<int64_t>(hi, 9); return range(a, b); } return lo + (int64_t)draw(std::min<uint64_t>(span, 9));
        case 4: if (lo <= 0 && hi >= 0) { uint64_t b = bits64(); int64_t v = (int64_t)b; if (v >= lo && v <= hi) return v; } return range(lo, hi);
        default: return range(lo, hi);
    }
}
std::string Src::text(size_t maxlen, const char *alphabet) {
    static const char *def = "ab,. -AZz09_\t\n!";
    const char *a = alphabet ? alphabet : def; size_t k = strlen(a);
    size_t len = size(maxlen); std::string s; s.reserve(len);
    for (size_t i = 0; i < len; i++) s += a[n(k - 1)];
    return s;
}
std::string Src::bytes(size_t maxlen) {
    size_t len = size(maxlen); std::string s;
    for (size_t i = 0; i < len; i++) s += (char)(unsigned char)(1 + draw(254));
    return s;
}
std::string Src::big(size_t len, const char *alphabet) {
    static const char *def = "abcdefghijklmnopqrstuvwxyz0123456789";
    const char *a = alphabet ? alphabet : def; size_t k = strlen(a); std::string s(len, a[0]);
    uint64_t x = draw(1000000); if (x) for (size_t i = 0; i < len; i++) s[i] = a[splitmix(x) % k];
    return s;
}
size_t Src::big_size(size_t max) {
    switch (draw(9)) {
        case 0: return n(std::min<size_t>(max, 3));
        case 1: case 2: case 3: case 4: return n(std::min<size_t>(max, 20));
        case 5: case 6: return n(std::min<size_t>(max, 100));
        case 7: { size_t b = 1; while ((b << 1) <= max) b <<= 1; size_t e = 0; while ((1ull << e) < b) e++; size_t v = (size_t)1 << n(e); v = v + n(4); v = v >= 2 ? v - 2 : 0; return v > max ? max : v; }
        case 8: return n(std::min<size_t>(max, 1100));
        default: return n(max);
    }
}
std::string show(const std::string &s) {
    std::string o = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < 400; i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c >= 32 && c < 127) o += c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    o += "\""; if (s.size() > 400) { o += "...(" + std::to_string(s.size()) + ")"; }
    return o;
}

// ------------------------------------------------------------------ case context
void log(const char *fmt, ...) {
    if (!g_trace) return;
    va_list a; va_start(a, fmt);
    size_t l = g->tracelen; if (l + 2 < TRACESZ) { int k = vsnprintf(g->trace + l, TRACESZ - l - 2, fmt, a); if (k > 0) { l = std::min<size_t>(l + k, TRACESZ - 2); g->trace[l++] = '\n'; g->trace[l] = 0; g->tracelen = l; } }
    va_end(a);
}
void label(const char *name) {
    WorkerShm &w = g->w[g_worker];
    for (int i = 0; i < w.nlabels; i++) if (!strncmp(w.labels[i].name, name, sizeof w.labels[i].name - 1)) { w.labels[i].count++; return; }
    if (w.nlabels < MAXLABELS) { Label &l = w.labels[w.nlabels]; snprintf(l.name, sizeof l.name, "%s", name); l.count = 1; w.nlabels = w.nlabels + 1; }
}
void nontrivial() { g_nontriv = true; }
void skip_leak_check() { g_skip_leak = true; }
void known_finding(const char *t) {
    for (int i = 0; i < g->nknown; i++) if (!strcmp(g->known[i], t)) return;
    if (g->nknown < 8) { snprintf(g->known[g->nknown], 512, "%s", t); g->nknown = g->nknown + 1; }
}
static bool g_fuzz;
void fail(const char *file, int line, const char *fmt, ...) {
    if (g_soft && g_soft_armed && strcmp(file, "library") != 0) { g_soft_armed = false; throw SoftFail(); }
    const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
    int k = snprintf(g->msg, MSGSZ, "%s:%d: ", b, line);
    va_list a; va_start(a, fmt); vsnprintf(g->msg + k, MSGSZ - k, fmt, a); va_end(a);
    g->failed = 1;
    if (g_fuzz) __builtin_trap();
    _exit(77);
}

// ------------------------------------------------------------------ heap hooks
static volatile long g_live;
static void on_malloc(const volatile void *, size_t) { if (!g_heap_pause) __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void *p) { if (p) block_forget((const void *)p); if (p && !g_heap_pause) __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED); }
long heap_live() { return g_live; }
void heap_count(long d) { __atomic_add_fetch(&g_live, d, __ATOMIC_RELAXED); }

// ------------------------------------------------------------------ stderr capture, scratch
static int g_err_fd = -1;
void err_clear() { if (g_err_fd >= 0) { if (ftruncate(g_err_fd, 0)) {} lseek(g_err_fd, 0, SEEK_SET); } }
std::string err_text() {
    if (g_err_fd < 0) return "";
    struct stat st; if (fstat(g_err_fd, &st)) return "";
    std::string s(std::min<off_t>(st.st_size, 1 << 22), 0); ssize_t k = pread(g_err_fd, &s[0], s.size(), 0); if (k < 0) k = 0; s.resize(k); return s;
}
static std::string g_scratch;
const std::string &scratch() { return g_scratch; }
static void wipe(const std::string &d) {
    DIR *D = opendir(d.c_str()); if (!D) { chmod(d.c_str(), 0700); D = opendir(d.c_str()); if (!D) return; }
    std::vector<std::string> names; while (dirent *e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
    closedir(D);
    for (auto &n : names) { std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
}
void fs_reset() { g_heap_pause = true; if (chdir(g_scratch.c_str())) {} wipe(g_scratch); g_escapes = 0; g_heap_pause = false; }

// ------------------------------------------------------------------ running one case in this process
static const Prop *g_prop;
static uint64_t g_seed = 1;
static void arm_timer(bool on) {
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = on ? 30 : 0;
    setitimer(ITIMER_PROF, &t, nullptr);               // CPU time of this process only
    if (g_prop->flags & F_WALL) alarm(on ? 30 : 0);
}
void more_time(int secs) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &t, nullptr); }
static void on_hang(int) {
    const char m[] = "the case did not finish (30 s of CPU time, 300 s with several GB; or 30 s waiting)";
    memcpy(g->msg, m, sizeof m); g->failed = 1; _exit(77);
}
static void reset_lib() {
    vt_debug_redirect_output(nullptr); vt_debug_disable_output(true); vt_log_redirect_all_output(nullptr);
    g_lib_fail_at = 0; g_lib_failed = 0; g_fake_time = 0; g_death_armed = 0; g_escapes = 0; g_memory_faults = false; g_huge_ok = false; g_place_n = 0;
}
static void run_raw(Src &s) {
    g_nontriv = false; g_skip_leak = false;
    reset_lib(); err_clear();
    if (g_prop->flags & F_SOFT) { g_soft = true; g_soft_armed = true; try { g_prop->fn(s); } catch (const SoftFail &) { g_skip_leak = true; } g_soft_armed = false; g_soft = false; }
    else g_prop->fn(s);
    if (g_escapes) fail("library", 0, "the library called %s", escape_text().c_str());
}
static void run_case(Src s) {
    arm_timer(true);
    if (g_prop->flags & F_LEAK) {
        long deltas[3]; int k = 0;
        for (; k < 3; k++) {
            Src c = s; bool rec = g_record, tr = g_trace; if (k) g_record = g_trace = false;
            long before = heap_live();
            run_raw(c);
            g_record = rec; g_trace = tr;
            long d = heap_live() - before; deltas[k] = d;
            if (k == 0) g_last_hash = c.hash;
            if (g_skip_leak || d == 0) break;
        }
        if (k == 3) fail("heap", 0, "%ld block(s) still allocated after everything was destroyed", deltas[2]);
    } else { run_raw(s); g_last_hash = s.hash; }
    arm_timer(false);
    g->is_nontriv = g_nontriv; g->hash = g_last_hash;
}

static void child_setup() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!g_fuzz) { signal(SIGPROF, on_hang); signal(SIGALRM, on_hang); }   // libFuzzer has its own timer
    signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN);
    char t[] = "/vpw-XXXXXX"; std::string base = getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp";
    std::string d = base + t; std::vector<char> b(d.begin(), d.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(2); }
    char rp[4096]; g_scratch = realpath(b.data(), rp) ? rp : b.data();
    if (geteuid() == 0 && (g_prop->flags & F_FS)) {     // an unprivileged user with only scratch files of its own
        if (chown(g_scratch.c_str(), 65534, 65534) == 0) { if (setgroups(0, nullptr) == 0 && setresgid(65534, 65534, 65534) == 0 && setresuid(65534, 65534, 65534) == 0) {} }
        prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_DUMPABLE, 1);
    }
    if (chdir(g_scratch.c_str())) {}
    g_err_fd = memfd_create("err", 0); fcntl(g_err_fd, F_SETFL, O_APPEND);
    dup2(g_err_fd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
    std::string rep = base + "/asan"; __sanitizer_set_report_path(rep.c_str());
}
static void child_cleanup() { if (chdir("/")) {} wipe(g_scratch); rmdir(g_scratch.c_str()); }

static Src gen_src(long idx) { Src s; s.mode = Src::GEN; s.seed(g_seed, (uint64_t)idx); return s; }

struct Result { bool failed; std::string msg, trace; std::vector<uint64_t> draws; bool nontriv; uint64_t hash; };
static void describe_status(int st) {
    if (g->failed) return;
    if (WIFEXITED(st)) snprintf(g->msg, MSGSZ, "the process ended with status %d inside the case", WEXITSTATUS(st));
    else snprintf(g->msg, MSGSZ, "the process crashed inside the case (signal %d)", WTERMSIG(st));
}
static void asan_summary() {                             // append the sanitizer's summary, if there is one
    std::string base = getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp";
    DIR *D = opendir(base.c_str()); if (!D) return; std::string newest; time_t nt = 0;
    while (dirent *e = readdir(D)) if (!strncmp(e->d_name, "asan.", 5)) { std::string p = base + "/" + e->d_name; struct stat st; if (!stat(p.c_str(), &st)) { if (st.st_mtime >= nt) { nt = st.st_mtime; newest = p; } } }
    closedir(D); if (newest.empty()) return;
    FILE *f = fopen(newest.c_str(), "r"); char line[1024]; int k = 0; std::string s;
    if (f) { while (fgets(line, sizeof line, f) && k < 14) { if (strstr(line, "ERROR:") || strstr(line, "runtime error") || strstr(line, "    #") || strstr(line, "SUMMARY")) { s += line; k++; } } fclose(f); }
    D = opendir(base.c_str()); while (dirent *e = readdir(D)) if (!strncmp(e->d_name, "asan.", 5)) unlink((base + "/" + e->d_name).c_str()); closedir(D);
    size_t l = strlen(g->msg); snprintf(g->msg + l, MSGSZ - l, "\n%s", s.c_str());
}
// run cases [from..to] step (generated) or one replayed sequence in a fresh child
static Result run_child(const std::vector<uint64_t> *replay, long from, long to, long step, bool trace, const std::string *bytes = nullptr) {
    g->failed = 0; g->msg[0] = 0; g->tracelen = 0; g->trace[0] = 0; g->ndraws = 0; g->is_nontriv = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        child_setup(); g_worker = MAXW - 1; g_record = true; g_trace = trace;
        if (replay) { Src s; s.mode = Src::REPLAY; s.rv = replay->data(); s.rn = replay->size(); run_case(s); }
        else if (bytes) { Src s; s.mode = Src::BYTES; s.bp = (const uint8_t *)bytes->data(); s.bn = bytes->size(); run_case(s); }
        else for (long i = from; i <= to; i += step) { g->ndraws = 0; g_trace = trace && i + step > to; run_case(gen_src(i)); }
        child_cleanup(); _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (r.failed) { describe_status(st); if (!g->failed) asan_summary(); }
    r.msg = g->msg; r.trace = std::string(g->trace, g->tracelen); r.draws.assign(g->draws, g->draws + g->ndraws); r.nontriv = g->is_nontriv; r.hash = g->hash;
    return r;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<uint64_t> shrink(std::vector<uint64_t> v, double budget, long &tries) {
    double end = now() + budget; bool progress = true; tries = 0;
    auto fails = [&](const std::vector<uint64_t> &c) { tries++; Result r = run_child(&c, 0, 0, 1, false); return r.failed; };
    while (progress && now() < end) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, v.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
            for (size_t i = v.size(); i >= chunk && now() < end; ) {
                i -= std::min(i, chunk);
                if (i + chunk > v.size()) { if (i == 0) break; continue; }
                std::vector<uint64_t> c(v); c.erase(c.begin() + i, c.begin() + i + chunk);
                if (fails(c)) { v = c; progress = true; }
                if (i == 0) break;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < v.size() && now() < end; i++) {
            if (v[i] == 0) continue;
            std::vector<uint64_t> c(v); c[i] = 0;
            if (fails(c)) { v = c; progress = true; continue; }
            uint64_t lo = 0, hi = v[i];
            while (hi - lo > 1 && now() < end) { uint64_t m = lo + (hi - lo) / 2; c[i] = m; if (fails(c)) { hi = m; } else lo = m; }
            if (hi < v[i]) { v[i] = hi; progress = true; }
        }
        while (!v.empty() && v.back() == 0) v.pop_back();
    }
    return v;
}
static std::string json_str(const std::string &s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static int report(const char *replay_path, const std::vector<uint64_t> *draws, long from, long to, long step, const std::string &msg, const std::string &trace) {
    FILE *f = fopen(replay_path, "w"); if (!f) { perror(replay_path); return 2; }
    fprintf(f, "property %s\nseed %llu\n", g_prop->id, (unsigned long long)g_seed);
    if (draws) { fprintf(f, "draws"); for (auto d : *draws) fprintf(f, " %llu", (unsigned long long)d); fprintf(f, "\n"); }
    else fprintf(f, "cases %ld %ld %ld\n", from, to, step);
    fprintf(f, "---\n%s\n---\n%s\n", msg.c_str(), trace.c_str()); fclose(f);
    return 1;
}
// confirm a failure 3 times, shrink it, write the replay file. returns 1 if confirmed
static int handle_failure(const char *replay_path, std::vector<uint64_t> draws, long idx, long first, long step) {
    int ok = 0; for (int i = 0; i < 3; i++) ok += run_child(&draws, 0, 0, 1, false).failed;
    if (ok == 3) {
        long tries; std::vector<uint64_t> v = shrink(draws, getenv("VP_SHRINK") ? atof(getenv("VP_SHRINK")) : 25, tries);
        Result r = run_child(&v, 0, 0, 1, true);
        if (!r.failed) { v = draws; r = run_child(&v, 0, 0, 1, true); }
        report(replay_path, &v, 0, 0, 1, r.msg, r.trace);
        printf("FAILED %s\nshrunk to %zu draws in %ld runs (from %zu)\n", r.msg.c_str(), v.size(), tries, draws.size());
        return 1;
    }
    if (idx < 0) { printf("unconfirmed failure (%d of 3)\n", ok); return 0; }
    // it needs the history of the worker: replay the whole prefix, then the shortest suffix of it that fails
    ok = 0; Result r; for (int i = 0; i < 3; i++) { r = run_child(nullptr, first, idx, step, false); ok += r.failed; }
    if (ok < 3) { printf("unconfirmed failure (case %ld, %d of 3 with history)\n", idx, ok); return 0; }
    long from = first; double end = now() + 20;
    for (long back = 1; back < (idx - first) / step + 1 && now() < end; back *= 2) { long f = idx - back * step; if (f < first) break; if (run_child(nullptr, f, idx, step, false).failed) { from = f; break; } }
    r = run_child(nullptr, from, idx, step, true);
    report(replay_path, nullptr, from, idx, step, r.msg, r.trace);
    printf("FAILED (needs %ld cases in a row) %s\n", (idx - from) / step + 1, r.msg.c_str());
    return 1;
}

static int main_run(long cases, int workers, const char *replay_path, const char *out_path, double max_secs) {
    if (cases < workers) workers = cases;
    g_hash_cap = cases;
    g_hashes = (uint64_t *)mmap(nullptr, sizeof(uint64_t) * (size_t)cases, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now(), t_search = 0; int rc = 0; size_t unconfirmed = 0; std::vector<long> next(workers); for (int w = 0; w < workers; w++) next[w] = w;
    for (int round = 0; round < 4; round++) {                             // an unconfirmed failure does not end the search
    std::vector<pid_t> pids(workers); fflush(stdout); double t1 = now();
    for (int w = 0; w < workers; w++) {
        g->w[w].cur = -1; g->w[w].next = next[w];
        pid_t p = fork();
        if (p == 0) {
            g_worker = w; child_setup();
            for (long i = next[w]; i < cases; i += workers) {
                g->w[w].cur = i; g->w[w].next = i + workers;
                run_case(gen_src(i));
                g->w[w].done++;
                if (g_nontriv) g->w[w].nontriv++;
                g_hashes[i] = g_nontriv ? (g_last_hash | 1) : 0;
                if (now() - t0 > max_secs) break;
                bool stop = false; for (int k = 0; k < workers; k++) if (g->w[k].cur == -2) stop = true;
                if (stop) break;
            }
            child_cleanup(); _exit(0);
        }
        pids[w] = p;
    }
    int failed_worker = -1, live = workers; std::vector<std::pair<long, int>> fails;
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int k = 0; k < workers; k++) if (pids[k] == p) w = k; if (w < 0) continue;
        live--;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fails.push_back({g->w[w].cur, w}); failed_worker = w; g->w[w].cur = -2; }
    }
    t_search += now() - t1; bool more = false; for (int w = 0; w < workers; w++) { next[w] = g->w[w].next; if (next[w] < cases) more = true; }
    if (failed_worker >= 0) {
        std::sort(fails.begin(), fails.end()); std::string first_msg = g->msg;
        for (auto &f : fails) {
            Result r = run_child(nullptr, f.first, f.first, 1, false);
            if (handle_failure(replay_path, r.draws, f.first, f.second, workers)) { rc = 1; break; }
            unconfirmed++; printf("  (%s)\n", first_msg.substr(0, 300).c_str());
        }
    }
    if (rc || failed_worker < 0 || !more || now() - t0 > max_secs) break;
    }
    long done = 0; std::map<std::string, uint64_t> labels;
    for (int w = 0; w < workers; w++) { done += g->w[w].done; for (int i = 0; i < g->w[w].nlabels; i++) labels[g->w[w].labels[i].name] += g->w[w].labels[i].count; }
    // samples: re-run a few non-trivial cases with tracing
    std::vector<std::string> samples; std::vector<long> nt; for (long i = 0; i < cases && nt.size() < 4000; i++) if (g_hashes[i]) nt.push_back(i);
    std::sort(g_hashes, g_hashes + cases); size_t distinct = (size_t)(std::unique(g_hashes, g_hashes + cases) - g_hashes); if (cases > 0 && g_hashes[0] == 0) distinct--;
    if (rc == 0) for (int k = 0; k < 4 && !nt.empty(); k++) { long i = nt[(nt.size() - 1) * k / 3]; Result r = run_child(nullptr, i, i, 1, true); std::string t = r.trace; if (t.size() > 1500) t = t.substr(0, 1500) + "..."; if (!t.empty()) samples.push_back("case " + std::to_string(i) + ": " + t); }
    FILE *f = fopen(out_path, "w"); if (!f) { perror(out_path); return 2; }
    fprintf(f, "{\"evaluations\": %ld, \"distinct_nontrivial\": %zu, \"rule\": %s, \"search_s\": %.2f, \"planned\": %ld, \"workers\": %d, \"failed\": %d, \"nofuzz\": %s, \"unconfirmed\": %zu,\n \"labels\": {", done, distinct, json_str(g_prop->rule).c_str(), t_search, cases, workers, rc, g_prop->flags & F_NOFUZZ ? "true" : "false", rc ? (size_t)0 : unconfirmed);
    bool first = true; for (auto &kv : labels) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},\n \"known\": ["); for (int i = 0; i < g->nknown; i++) fprintf(f, "%s%s", i ? ", " : "", json_str(g->known[i]).c_str());
    fprintf(f, "],\n \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_str(samples[i]).c_str());
    fprintf(f, "]}\n"); fclose(f);
    return rc;
}
static bool init(const char *id) {
    g = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto &p : registry()) if (!strcmp(p.id, id)) { static Prop pp; pp = p; g_prop = &pp; }
    if (!g_prop) { fprintf(stderr, "no property %s\n", id); return false; }
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    std::sort(workloads().begin(), workloads().end(), [](const Work &a, const Work &b) { return strcmp(a.name, b.name) < 0; });
    if (const char *s = getenv("VERIF_SEED")) g_seed = strtoull(s, nullptr, 10);
    if (g_seed == 0) g_seed = 0x5eed0;
    return true;
}
} // namespace vp

#ifndef VP_FUZZ
using namespace vp;
// driver ID run CASES(0=quick,-1=thorough) OUT REPLAY | driver ID replay FILE | driver ID bytes FILE REPLAY
int main(int argc, char **argv) {
    if (argc < 3 || !init(argv[1])) return 2;
    std::string cmd = argv[2];
    if (cmd == "run") {
        long n = atol(argv[3]); if (n == 0) n = g_prop->quick_cases; else if (n < 0) n = g_prop->thorough_cases;
        if (getenv("VP_PCT")) n = std::max(1L, n * atol(getenv("VP_PCT")) / 100);
        int w = getenv("VP_WORKERS") ? atoi(getenv("VP_WORKERS")) : 8;
        return main_run(n, w, argv[5], argv[4], argc > 6 ? atof(argv[6]) : 500);
    }
    if (cmd == "replay") {
        FILE *f = fopen(argv[3], "r"); if (!f) { perror(argv[3]); return 2; }
        std::vector<uint64_t> d; char w[64]; bool draws = false; long a = 0, b = 0, c = 1; unsigned long long x;
        while (fscanf(f, "%63s", w) == 1 && strcmp(w, "---")) { if (!strcmp(w, "seed")) { if (fscanf(f, "%llu", &x) == 1) g_seed = x; } else if (!strcmp(w, "draws")) { draws = true; while (fscanf(f, "%llu", &x) == 1) d.push_back(x); } else if (!strcmp(w, "cases")) { if (fscanf(f, "%ld %ld %ld", &a, &b, &c) != 3) return 2; } }
        fclose(f);
        Result r = draws ? run_child(&d, 0, 0, 1, true) : run_child(nullptr, a, b, c, true);
        printf("%s\n%s\n%s\n", r.failed ? "FAILS" : "passes", r.msg.c_str(), r.trace.c_str());
        return r.failed ? 1 : 0;
    }
    if (cmd == "bytes") {
        FILE *f = fopen(argv[3], "rb"); if (!f) return 2; std::string s; char buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, k); fclose(f);
        Result r = run_child(nullptr, 0, 0, 1, false, &s);
        if (!r.failed) { printf("bytes pass\n"); return 0; }
        return handle_failure(argv[4], r.draws, -1, 0, 1);
    }
    return 2;
}
#else
using namespace vp;
static long g_nt, g_runs; static int g_keep_err;
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    if (!init(getenv("VP_PROP"))) _exit(2);
    g_fuzz = true; g_prop = new Prop(*g_prop); const_cast<Prop *>(g_prop)->flags &= ~F_LEAK;
    g_keep_err = dup(2); child_setup(); dup2(g_keep_err, 2); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    Src s; s.mode = Src::BYTES; s.bp = d; s.bn = n; g_worker = 0;
    dup2(g_err_fd, 2); run_raw(s); fflush(stderr); dup2(g_keep_err, 2); g_runs++; if (g_nontriv) g_nt++;
    return 0;
}
#endif
