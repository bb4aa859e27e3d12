// Model of the file functions, shared by C17 and the memory properties (C09/C28).
#include "seq.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <wchar.h>
#include <sys/stat.h>
#include <sys/resource.h>
typedef std::string S;
namespace vp { extern volatile long g_short_read; }

static bool f_slurp(const S &p, S &out) {                                // the harness's own reader
    int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false;
    out.clear(); char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) out.append(b, k);
    close(fd); return k == 0;
}
static void f_put(const S &p, const S &data) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return; size_t o = 0; while (o < data.size()) { ssize_t k = write(fd, data.data() + o, data.size() - o); if (k <= 0) break; o += k; } close(fd); }
static int f_lowest_fd() { int f = dup(0); if (f >= 0) close(f); return f; }

enum { FW_PLAIN = 8 };
struct FWriter { const char *name; bool append, ln; bool (*fn)(const char *const, const char *const); };
static const FWriter f_writers[FW_PLAIN] = {{"write", false, false, vt_file_write}, {"append", true, false, vt_file_append}, {"writeln", false, true, vt_file_writeln}, {"appendln", true, true, vt_file_appendln}, {"writeb", false, false, vt_file_writeb}, {"appendb", true, false, vt_file_appendb}, {"writebln", false, true, vt_file_writebln}, {"appendbln", true, true, vt_file_appendbln}};

// one write call: what it should add, whether it appends, and the call itself
// a long way to the same place: ./././..., at most about 4000 characters
static S long_way(Src &s, const S &f, size_t most = 4050) {
    S head = f[0] == '/' ? scratch() + "/" : S(), tail = f.substr(head.size()); size_t room = (most - std::min(most, f.size())) / 2, k;
    if (s.coin()) { static const size_t round[] = {64, 100, 128, 255, 256, 260, 512, 1000, 1024, 2048, 4000}; size_t want = round[s.n(10)] + s.n(4); k = want > f.size() + 2 ? (want - f.size() - 2) / 2 : 0; } else k = s.n(s.coin() ? 300 : 1900);
    if (k > room) k = room; for (size_t i = 0; i < k; i++) head += "./"; if (k > 100) label("long name"); return head + tail;
}
struct FCall { S name; bool append; S data; std::function<bool(const char *)> run; };
static FCall f_call(Src &s, bool big) {
    FCall c; S z = big && s.chance(1, 3) ? s.big(s.big_size(200000), "ab\n%") : s.text(60, "ab \n\t%sd\\x,."); if (s.chance(1, 12)) z = s.bytes(40);
    size_t k = s.n(FW_PLAIN + 3);
    if (k < FW_PLAIN) { const FWriter &w = f_writers[k]; c.name = w.name; c.append = w.append; c.data = z + (w.ln ? "\n" : ""); c.run = [&w, z](const char *f) { return w.fn(f, z.c_str()); }; return c; }
    int i = (int)s.range(-100000, 100000); unsigned wd = (unsigned)s.n(30); char ch = (char)('a' + s.n(25)); S head; int form = (int)s.n(3);
    std::vector<char> b(z.size() + 300);
    switch (form) { case 0: snprintf(b.data(), b.size(), "%s", z.c_str()); break; case 1: snprintf(b.data(), b.size(), "%d:%s|%c", i, z.c_str(), ch); break; case 2: snprintf(b.data(), b.size(), "%*d%%%s", (int)wd, i, z.c_str()); break; default: snprintf(b.data(), b.size(), "just text 100%%"); }
    head = b.data(); bool ln = false, bin = false; c.append = false;
    if (k == FW_PLAIN) c.name = "writef"; else if (k == FW_PLAIN + 1) { c.name = "writefln"; ln = true; } else { ln = s.coin(); bin = s.coin(); c.append = s.coin(); c.name = "writefc"; }
    c.data = head + (ln ? "\n" : "");
    #define F_FORMS(CALL, ...) switch (form) { case 0: return CALL(__VA_ARGS__, "%s", z.c_str()); case 1: return CALL(__VA_ARGS__, "%d:%s|%c", i, z.c_str(), ch); case 2: return CALL(__VA_ARGS__, "%*d%%%s", (int)wd, i, z.c_str()); default: return CALL(__VA_ARGS__, "just text 100%%"); }
    bool app = c.append;
    c.run = [=](const char *f) -> bool { if (k == FW_PLAIN) { F_FORMS(vt_file_writef, f) } if (k == FW_PLAIN + 1) { F_FORMS(vt_file_writefln, f) } F_FORMS(vt_file_writefc, f, bin, app, ln) };
    return c;
}
static void f_read_check(Src &s, const S &path, const S &want, Alloc *al, bool destroy) {
    bool inject = s.chance(1, 12) && !want.empty(); if (inject) { g_short_read = 1 + (long)s.n(want.size() - 1); label("short read"); }
    size_t how = s.n(3);
    if (how <= 1) {
        VPLOG("read%s %s%s", how ? "b" : "", path.c_str(), inject ? " (one short read)" : "");
        vt_str_t *r = how ? vt_file_readb(path.c_str(), al) : vt_file_read(path.c_str(), al); bool fired = g_short_read < 0; g_short_read = 0;
        CHECK(r || fired, "reading %s (%zu bytes) fails", path.c_str(), want.size());
        if (r) { CHECK(vt_str_len(r) == want.size(), "%zu bytes read, the file has %zu", vt_str_len(r), want.size()); CHECK(!memcmp(r->ptr, want.data(), want.size()) && ((char *)r->ptr)[want.size()] == 0, "the text read differs from the file (%s)", show(want).c_str()); check_storage(r, 1, "read"); if (destroy) vt_str_destroy(r); }
    } else {
        size_t n = s.coin() ? want.size() : s.chance(1, 2) ? s.n(want.size()) : want.size() + s.n(50); if (!n) n = 1; char *b = (char *)malloc(n); memset(b, 0x5a, n);
        VPLOG("read_to_buffer %s, %zu bytes%s", path.c_str(), n, inject ? " (one short read)" : "");
        const char *r = vt_file_read_to_buffer(path.c_str(), b, n); bool fired = g_short_read < 0; g_short_read = 0; CHECK(r == b || fired, "reading %s into a buffer fails", path.c_str());
        if (r) CHECK(!memcmp(b, want.data(), std::min(n, want.size())), "the bytes read differ from the file"); if (r && !fired) for (size_t i = want.size(); i < n; i++) CHECK(b[i] == 0x5a, "byte %zu of the buffer was written, the file has %zu", i, want.size()); free(b);
    }
}
static void file_history(Src &s, Alloc *al, bool destroy) {
    fs_reset(); int fd0 = f_lowest_fd(); std::map<S, S> model; std::map<S, bool> ro; if (mkdir("dir", 0755)) {}
    static const char *names[] = {"a", "b %s%n.txt", "dir/c", "./d"}; size_t ops = 1 + s.n(11); bool appended = false;
    for (size_t k = 0; k < ops; k++) {
        S f = names[s.n(3)]; if (s.chance(1, 4)) f = scratch() + "/" + f; S key = f.substr(0, 1) == "/" ? f.substr(scratch().size() + 1) : f; if (s.chance(1, 25)) f = long_way(s, f); auto it = model.find(key);
        size_t op = s.n(19);
        if (op < 10) {
            FCall c = f_call(s, true); VPLOG("%s %s %s", c.name.c_str(), f.c_str(), show(c.data).c_str()); bool ok = c.run(f.c_str());
            if (ro[key]) { CHECK(!ok, "%s on a file that may not be written reports success", c.name.c_str()); label("read-only file"); }
            else { CHECK(ok, "%s fails", c.name.c_str()); if (c.append && it != model.end() && !it->second.empty()) appended = true; S &m = model[key]; m = c.append ? m + c.data : c.data; }
        } else if (op < 13) { if (it == model.end()) { size_t how = s.n(2); char b[4]; VPLOG("read missing %s", f.c_str()); bool none = how == 0 ? !vt_file_read(f.c_str(), al) : how == 1 ? !vt_file_readb(f.c_str(), al) : !vt_file_read_to_buffer(f.c_str(), b, 4); CHECK(none, "reading a missing file gives something"); label("missing file"); } else f_read_check(s, f, it->second, al, destroy); }
        else if (op < 15) { if (ro[key]) continue; size_t n = s.big_size(70000); S d(n, 0); uint64_t x = s.u(100000); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; d[i] = (char)(x >> 56) & (x & 1024 ? 0xff : 0x0f); } f_put(f, d); model[key] = d; VPLOG("%zu binary bytes put into %s", n, f.c_str()); label("binary data");
            if (s.chance(1, 30)) {                                       // for a while with a hole of some GB behind them
                static const long long sizes[] = {(1LL << 31) - 1, 1LL << 31, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 3, 3LL << 31, 1LL << 33}; long long z = sizes[s.n(6)]; size_t w = 1 + s.n(300); std::vector<char> b(w, 0x5a); VPLOG("read_to_buffer, %zu bytes, with a size of %lld", w, z);
                if (truncate(f.c_str(), z) == 0) { const char *r = vt_file_read_to_buffer(f.c_str(), b.data(), w); CHECK(r == b.data(), "reading the first %zu bytes of a file of %lld fails", w, z); for (size_t i = 0; i < w; i++) CHECK(b[i] == (i < n ? d[i] : 0), "byte %zu of a file of %lld bytes is read as %d", i, z, b[i]); label("file of several GB"); } if (truncate(f.c_str(), (off_t)n)) model.erase(key); } }
        else if (op == 15) {                                             // an impossible destination
            static const char *bad[] = {"no/such/dir/x", "dir", "", "a/x"}; S t = bad[s.n(3)]; if (t == "a/x" && !model.count("a")) continue; FCall c = f_call(s, false); VPLOG("%s %s", c.name.c_str(), show(t).c_str()); bool ok = c.run(t.c_str()); CHECK(!ok, "%s to %s reports success", c.name.c_str(), show(t).c_str()); label("impossible destination");
            if (t != "dir") { char b[4]; size_t how = s.n(2); bool none = how == 0 ? !vt_file_read(t.c_str(), al) : how == 1 ? !vt_file_readb(t.c_str(), al) : !vt_file_read_to_buffer(t.c_str(), b, 4); CHECK(none, "reading %s gives something", show(t).c_str()); }
            else { struct stat st; if (!stat("dir", &st) && st.st_size > 0) { vt_str_t *r = s.coin() ? vt_file_read("dir", al) : vt_file_readb("dir", al); CHECK(!r, "reading a directory gives something"); label("directory read"); } }
        } else if (op == 16 && s.chance(1, 3)) {                         // a text that cannot be formatted
            if (ro[key]) continue; wint_t wc = 0x80 + (wint_t)s.n(5000); S z = s.text(20, "ab \n%"); size_t how = s.n(2); bool bin = s.coin(), app = s.coin(), ln = s.coin(); VPLOG("formatted write %zu of a character that cannot be encoded to %s", how, f.c_str());
            bool ok = how == 0 ? vt_file_writef(f.c_str(), "%s%lc", z.c_str(), wc) : how == 1 ? vt_file_writefln(f.c_str(), "%s%lc", z.c_str(), wc) : vt_file_writefc(f.c_str(), bin, app, ln, "%s%lc", z.c_str(), wc);
            CHECK(!ok, "a text that cannot be formatted is reported as written"); label("unprintable format"); S now; if (f_slurp(f, now)) model[key] = now; else model.erase(key);
        } else if (op == 16) { FCall c = f_call(s, true); VPLOG("%s %zu bytes to a full device", c.name.c_str(), c.data.size()); bool ok = c.run("/dev/full"); CHECK(!ok || c.data.empty(), "%s of %zu bytes to a full device reports success", c.name.c_str(), c.data.size()); label("full device"); }
        else if (op == 17) {                                             // the file may not grow beyond a limit
            if (ro[key]) continue; FCall c = f_call(s, true); size_t before = c.append ? (it == model.end() ? 0 : it->second.size()) : 0, total = before + c.data.size(), lim = s.coin() ? s.n(total) : total ? total - 1 : 0; VPLOG("%s %zu bytes, limit %zu", c.name.c_str(), c.data.size(), lim);
            struct rlimit o, r; getrlimit(RLIMIT_FSIZE, &o); r = o; r.rlim_cur = lim; if (!vp::g_memory_faults) setrlimit(RLIMIT_FSIZE, &r); bool ok = c.run(f.c_str()); setrlimit(RLIMIT_FSIZE, &o);
            S now; bool there = f_slurp(f, now); S want = c.append && it != model.end() ? it->second + c.data : c.data;
            CHECK(!ok || (there && now == want), "%s reports success but the file holds %zu of %zu bytes (limit %zu)", c.name.c_str(), now.size(), want.size(), lim); if (!ok) label("size limit hit");
            CHECK(ok || (total > lim && !vp::g_memory_faults), "%s fails below the size limit", c.name.c_str()); if (there) model[key] = now; else model.erase(key);
        } else if (op == 18) { if (it == model.end() || geteuid() == 0) continue; if (ro[key]) { chmod(f.c_str(), 0644); ro[key] = false; } else { chmod(f.c_str(), 0444); ro[key] = true; } VPLOG("%s is %s", f.c_str(), ro[key] ? "read-only" : "writable"); }
        else { if (it == model.end() || geteuid() == 0 || ro[key]) continue; chmod(f.c_str(), 0); VPLOG("read unreadable %s", f.c_str()); vt_str_t *r = s.coin() ? vt_file_read(f.c_str(), al) : vt_file_readb(f.c_str(), al); CHECK(!r, "reading a file without permission gives something"); chmod(f.c_str(), 0644); label("unreadable file"); }
        CHECK(f_lowest_fd() == fd0, "a file descriptor was left open");
    }
    for (auto &kv : model) { S now; CHECK(f_slurp(kv.first, now), "file %s is gone", kv.first.c_str()); CHECK(now == kv.second, "file %s holds %s, expected %s", kv.first.c_str(), show(now).c_str(), show(kv.second).c_str()); f_read_check(s, kv.first, kv.second, al, destroy); }
    for (const char *n : names) if (!model.count(n)) CHECK(access(n, F_OK) != 0, "file %s appeared", n);
    CHECK(f_lowest_fd() == fd0, "a file descriptor was left open");
    if (appended || model.size() >= 2) nontrivial();
    for (auto &kv : ro) if (kv.second) chmod(kv.first.c_str(), 0644);
}
