// Stand-ins for the libc functions the library objects call (the library's references are renamed
// with objcopy: NAME -> vp_NAME), so that process ends, allocation failures, the clock and
// destructive file operations are under the harness's control.
#include "vp.hpp"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <limits.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <poll.h>
#include <unordered_map>
#include <sys/mman.h>

namespace vp {
volatile int g_death_armed;
volatile long g_lib_allocs, g_lib_fail_at, g_lib_failed, g_lib_live, g_lib_live_bytes;
time_t g_fake_time;
volatile int g_escapes; static char g_escape_buf[512];
std::string escape_text() { return g_escape_buf; }
bool g_heap_pause;
volatile long g_short_read;   // > 0: the next fread gives at most that many items; < 0: that happened

volatile bool g_sock_virtual; volatile double g_sock_skipped;   // waits with nothing to see end at once and are added up (ms)
static bool sock_fail(unsigned bit); volatile unsigned g_sock_hit; // those that did
volatile unsigned g_sock_fail; // bit mask of socket calls that fail, see below
static bool sock_fail(unsigned bit) { if (!(g_sock_fail & bit)) return false; g_sock_hit |= bit; return true; }
static bool g_track;
static std::unordered_map<void *, size_t> *g_blocks;
void lib_track(bool on) {
    g_heap_pause = true;
    if (!g_blocks) g_blocks = new std::unordered_map<void *, size_t>();
    g_blocks->clear(); g_lib_live = 0; g_lib_live_bytes = 0; g_track = on;
    g_heap_pause = false;
}
void lib_free_all() {
    if (!g_blocks) return;
    g_heap_pause = true;
    std::vector<void *> v; for (auto &kv : *g_blocks) v.push_back(kv.first);
    g_blocks->clear(); g_lib_live = 0; g_lib_live_bytes = 0;
    g_heap_pause = false;
    for (void *p : v) free(p);
    g_heap_pause = true; std::vector<void *>().swap(v); g_heap_pause = false;
}
static void track_add(void *p, size_t n) { if (!g_track || !p) return; g_heap_pause = true; (*g_blocks)[p] = n; g_heap_pause = false; g_lib_live++; g_lib_live_bytes += n; }
static void track_del(void *p) {
    if (!g_track || !p) return;
    auto it = g_blocks->find(p);
    if (it == g_blocks->end()) return;
    g_lib_live--; g_lib_live_bytes -= it->second;
    g_heap_pause = true; g_blocks->erase(it); g_heap_pause = false;
}
// Requests of more than 1 GB, while g_huge_ok: address space whose first 16 MB and last 32 MB are memory of its own; in between the same
// 16 MB repeat, so that touching all of it is cheap. Nothing may be concluded from the content of the middle.
bool g_huge_ok;
enum : size_t { HUGE_MIN = 1ull << 30, HUGE_WIN = 16ull << 20 };
struct Huge { size_t n, span; };
static std::map<void *, Huge> *g_huge;
size_t huge_size(const void *p) { if (!g_huge || g_huge->empty()) return 0; auto it = g_huge->find(const_cast<void *>(p)); return it == g_huge->end() ? 0 : it->second.n; }
static bool is_huge(size_t n) { return g_huge_ok && n >= HUGE_MIN && n <= (1ull << 36); }
static void *huge_new(size_t n) {
    size_t span = (n + HUGE_WIN - 1) / HUGE_WIN * HUGE_WIN; int fd = memfd_create("huge", 0); if (fd < 0) return nullptr;
    char *p = (char *)MAP_FAILED; if (ftruncate(fd, HUGE_WIN) == 0) p = (char *)mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != (char *)MAP_FAILED) for (size_t o = 0; o < span; o += HUGE_WIN) if (bool own = o == 0 || o + 2 * HUGE_WIN >= span; mmap(p + o, HUGE_WIN, PROT_READ | PROT_WRITE, (own ? MAP_PRIVATE | MAP_ANONYMOUS : MAP_SHARED) | MAP_FIXED | MAP_NORESERVE, own ? -1 : fd, 0) == MAP_FAILED) { munmap(p, span); p = (char *)MAP_FAILED; break; }
    close(fd); if (p == (char *)MAP_FAILED) return nullptr;
    g_heap_pause = true; if (!g_huge) g_huge = new std::map<void *, Huge>(); (*g_huge)[p] = {n, span}; g_heap_pause = false; heap_count(1); return p;
}
static void huge_free(void *p) { auto it = g_huge->find(p); munmap(p, it->second.span); g_heap_pause = true; g_huge->erase(it); g_heap_pause = false; heap_count(-1); }
static void *huge_realloc(void *q, size_t n) {
    size_t old = huge_size(q), have = q && !old ? block_size(q) : 0; void *p;
    if (is_huge(n)) { p = huge_new(n); if (!p) return nullptr; if (old) memcpy(p, q, HUGE_WIN); else if (q) { block_forget(q); memcpy(p, q, have); } }
    else { p = malloc(n); if (!p) return nullptr; memcpy(p, q, n); }
    if (old) huge_free(q); else free(q);
    return p;
}
// The sanitizer's realloc always moves a block. Here some of the library's blocks get hidden room behind them (poisoned, the size asked for
// noted in its last 16 bytes), and a reallocation that fits there stays in place, as it often does with an ordinary heap.
unsigned g_place_n;                                     // decisions so far in this case
static const uint64_t ROOM_MAGIC = 0x726f6f6d6b656570ull;
__attribute__((no_sanitize("address"), noinline)) static uint64_t peek8(const volatile unsigned char *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
__attribute__((no_sanitize("address"), noinline)) static void poke8(volatile unsigned char *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (unsigned char)(v >> (8 * i)); }
static bool has_room(const void *p, size_t full) { return full >= 48 && peek8((const unsigned char *)p + full - 16) == (ROOM_MAGIC ^ (uint64_t)(uintptr_t)p); }
size_t block_size(const void *p) { size_t full = __sanitizer_get_allocated_size(p); return has_room(p, full) ? (size_t)peek8((const unsigned char *)p + full - 8) : full; }
void block_forget(const void *p) { size_t full = __sanitizer_get_allocated_size(p); if (has_room(p, full)) { poke8((unsigned char *)p + full - 16, 0); ASAN_UNPOISON_MEMORY_REGION((void *)p, full); } }
static bool toss(size_t n) { uint64_t x = (++g_place_n * 0x9E3779B97F4A7C15ull) ^ (n * 0xD6E8FEB86659FD93ull); return ((x >> 40) & 3) == 0; }
static size_t room_for(size_t n) { return n < (1u << 20) && toss(n) ? n / 2 + 48 : 0; }
static void room_mark(void *p, size_t n) { size_t full = __sanitizer_get_allocated_size(p); ASAN_UNPOISON_MEMORY_REGION(p, n); ASAN_POISON_MEMORY_REGION((char *)p + n, full - n); poke8((unsigned char *)p + full - 16, ROOM_MAGIC ^ (uint64_t)(uintptr_t)p); poke8((unsigned char *)p + full - 8, n); }
static void *new_block(size_t n, bool zero) {
    size_t room = room_for(n); void *p = zero ? calloc(1, n + room) : malloc(n + room); if (p && room) room_mark(p, n); return p;
}
static bool fault() {
    g_lib_allocs++;
    if (g_lib_fail_at > 0 && --g_lib_fail_at == 0) { g_lib_failed++; return true; }
    return false;
}
volatile int g_fault_end, g_fault_code;   // did the program end after an injected allocation failure?
const char *volatile g_exe; volatile bool g_exe_asked;   // what the link to the executable shall say ("": it cannot be read)
[[noreturn]] void lib_end(int code, bool aborted, const char *how) {
    g_exe = nullptr;
    if (g_lib_failed && !g_fault_end) { g_fault_end = 1; g_fault_code = aborted ? 134 : code; }
    if (g_death_armed) { g_death_armed = 0; throw Ended{code, aborted}; }
    fail("library", 0, "the library ended the program (%s, status %d): %s", how, code, err_text().c_str());
}
// is this path (after resolving its directory) inside the scratch directory?
static bool inside(const char *p) {
    if (!p || !*p) return true;                         // fails by itself
    if (!strcmp(p, "/dev/full") || !strcmp(p, "/dev/null") || !strcmp(p, "/dev/zero")) return true;
    std::string s(p); while (s.size() > 1 && s.back() == '/') s.pop_back();
    size_t k = s.rfind('/');
    std::string dir = k == std::string::npos ? "." : (k == 0 ? "/" : s.substr(0, k));
    std::string base = k == std::string::npos ? s : s.substr(k + 1);
    char buf[PATH_MAX];
    if (!realpath(dir.c_str(), buf)) return true;       // no such directory: the call fails by itself
    std::string r(buf);
    const std::string &sc = scratch();
    if (r == sc || r.compare(0, sc.size() + 1, sc + "/") == 0) {
        if (base == ".." && r == sc) return false;
        return true;
    }
    return false;
}
static bool inside_final(const char *p) {               // for calls that follow a final link
    if (!p || !*p) return true;
    if (!inside(p)) return false;
    char buf[PATH_MAX]; if (!strncmp(p, "/dev/", 5)) return true;
    if (!realpath(p, buf)) {                            // new file, or dangling link
        struct stat st; if (lstat(p, &st) == 0 && S_ISLNK(st.st_mode)) { ssize_t n = readlink(p, buf, sizeof buf - 1); if (n > 0) { buf[n] = 0; if (buf[0] == '/') return inside(buf); } }
        return true;
    }
    const std::string &sc = scratch(); std::string r(buf);
    return r == sc || r.compare(0, sc.size() + 1, sc + "/") == 0;
}
static int escape(const char *call, const char *p) {
    g_escapes++; snprintf(g_escape_buf, sizeof g_escape_buf, "%s(\"%s\") outside the scratch directory", call, p);
    errno = EACCES; return -1;
}
} // namespace vp
using namespace vp;

extern "C" {
[[noreturn]] void vp_exit(int c) { lib_end(c, false, "exit"); }
[[noreturn]] void vp__exit(int c) { lib_end(c, false, "_exit"); }
[[noreturn]] void vp__Exit(int c) { lib_end(c, false, "_Exit"); }
[[noreturn]] void vp_quick_exit(int c) { lib_end(c, false, "quick_exit"); }
[[noreturn]] void vp_abort(void) { lib_end(134, true, "abort"); }
[[noreturn]] void vp___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e);
    lib_end(134, true, "assert");
}
void *vp_malloc(size_t n) { if (fault()) { errno = ENOMEM; return nullptr; } if (is_huge(n)) return huge_new(n); void *p = new_block(n, false); track_add(p, n); return p; }
void *vp_calloc(size_t a, size_t b) { if (fault()) { errno = ENOMEM; return nullptr; } if (is_huge(a * b) && (!a || a * b / a == b)) return huge_new(a * b); if (a && a * b / a != b) return calloc(a, b); void *p = new_block(a * b, true); track_add(p, a * b); return p; }
void *vp_realloc(void *q, size_t n) {
    if (fault()) { errno = ENOMEM; return nullptr; }
    if (is_huge(n) || huge_size(q)) return huge_realloc(q, n);
    track_del(q);
    size_t full = q ? __sanitizer_get_allocated_size(q) : 0; bool roomy = q && has_room(q, full); void *p;
    if (roomy && n && n + 16 <= full) { room_mark(q, n); track_add(q, n); return q; }          // stays in place
    if (roomy) block_forget(q);
    if (n && room_for(n)) { p = realloc(q, n + n / 2 + 48); if (p) room_mark(p, n); }
    else p = realloc(q, n);
    track_add(p, n); return p;
}
void *vp_reallocarray(void *q, size_t a, size_t b) { return vp_realloc(q, a * b); }
void vp_free(void *p) { if (huge_size(p)) return huge_free(p); track_del(p); free(p); }
time_t vp_time(time_t *t) { time_t v = g_fake_time ? g_fake_time : time(nullptr); if (t) *t = v; return v; }
int vp_clock_gettime(clockid_t c, struct timespec *t) { if (g_fake_time && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = g_fake_time; t->tv_nsec = 0; return 0; } return clock_gettime(c, t); }
int vp_gettimeofday(struct timeval *t, void *z) { if (g_fake_time) { t->tv_sec = g_fake_time; t->tv_usec = 0; return 0; } return gettimeofday(t, (struct timezone *)z); }
int vp_timespec_get(struct timespec *t, int base) { if (g_fake_time && base == TIME_UTC) { t->tv_sec = g_fake_time; t->tv_nsec = 0; return base; } return timespec_get(t, base); }

size_t vp_fread(void *b, size_t sz, size_t n, FILE *f) {
    if (g_short_read > 0) { size_t k = (size_t)g_short_read - 1; if (k < n) { g_short_read = -1; return fread(b, sz, k, f); } }
    return fread(b, sz, n, f);
}
ssize_t vp_readlink(const char *p, char *b, size_t n) {
    if (g_exe && !strcmp(p, "/proc/self/exe")) { g_exe_asked = true; size_t k = strlen(g_exe); if (!k) { errno = EACCES; return -1; } if (k > n) k = n; memcpy(b, g_exe, k); return (ssize_t)k; }
    return readlink(p, b, n);
}
int vp_unlink(const char *p) { return inside(p) ? unlink(p) : escape("unlink", p); }
int vp_rmdir(const char *p) { return inside(p) ? rmdir(p) : escape("rmdir", p); }
int vp_remove(const char *p) { return inside(p) ? remove(p) : escape("remove", p); }
int vp_mkdir(const char *p, mode_t m) { return inside(p) ? mkdir(p, m) : escape("mkdir", p); }
int vp_rename(const char *a, const char *b) { return !inside(a) ? escape("rename", a) : !inside(b) ? escape("rename", b) : rename(a, b); }
static std::string at(int fd, const char *p) {
    if (fd == AT_FDCWD || p[0] == '/') return p;
    char l[64], b[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return p;
    b[n] = 0; return std::string(b) + "/" + p;
}
int vp_unlinkat(int fd, const char *p, int fl) { return inside(at(fd, p).c_str()) ? unlinkat(fd, p, fl) : escape("unlinkat", p); }
int vp_mkdirat(int fd, const char *p, mode_t m) { return inside(at(fd, p).c_str()) ? mkdirat(fd, p, m) : escape("mkdirat", p); }
int vp_renameat(int fa, const char *a, int fb, const char *b) {
    return !inside(at(fa, a).c_str()) ? escape("renameat", a) : !inside(at(fb, b).c_str()) ? escape("renameat", b) : renameat(fa, a, fb, b);
}
int vp_truncate(const char *p, off_t n) { return inside_final(p) ? truncate(p, n) : escape("truncate", p); }
int vp_chmod(const char *p, mode_t m) { return inside_final(p) ? chmod(p, m) : escape("chmod", p); }
int vp_system(const char *p) { return escape("system", p); }
int vp_kill(int, int) { return escape("kill", ""); }
FILE *vp_fopen(const char *p, const char *m) {
    if ((strpbrk(m, "wa+")) && !inside_final(p)) { escape("fopen", p); return nullptr; }
    return fopen(p, m);
}
FILE *vp_freopen(const char *p, const char *m, FILE *f) {
    if (p && strpbrk(m, "wa+") && !inside_final(p)) { escape("freopen", p); return nullptr; }
    return freopen(p, m, f);
}
int vp_open(const char *p, int fl, ...) {
    mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
    if ((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && !inside_final(p)) return escape("open", p);
    return open(p, fl, m);
}
int vp_creat(const char *p, mode_t m) { return inside_final(p) ? creat(p, m) : escape("creat", p); }
int vp_socket(int d, int t, int p) { if (sock_fail(1)) { errno = EMFILE; return -1; } return socket(d, t, p); }
int vp_setsockopt(int f, int l, int o, const void *v, socklen_t n) { if (sock_fail(2)) { errno = ENOPROTOOPT; return -1; } return setsockopt(f, l, o, v, n); }
int vp_bind(int f, const struct sockaddr *a, socklen_t n) { if (sock_fail(4)) { errno = EADDRINUSE; return -1; } return bind(f, a, n); }
int vp_listen(int f, int b) { if (sock_fail(8)) { errno = EADDRINUSE; return -1; } return listen(f, b); }
int vp_connect(int f, const struct sockaddr *a, socklen_t n) { if (sock_fail(16)) { errno = ENETUNREACH; return -1; } return connect(f, a, n); }
int vp_accept(int f, struct sockaddr *a, socklen_t *n) { if (sock_fail(32)) { errno = ECONNABORTED; return -1; } return accept(f, a, n); }
int vp_poll(struct pollfd *p, nfds_t n, int t) { if (sock_fail(64)) { errno = ENOMEM; return -1; }
    if (g_sock_virtual && t) { int r = poll(p, n, 0); if (r == 0) g_sock_skipped = g_sock_skipped + (t < 0 ? 1e12 : t); return r; }
    return poll(p, n, t); }
}
