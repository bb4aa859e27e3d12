// Models of path text and of a directory tree, shared by C18/C19 and the memory properties (C09/C28).
#include <memory>
#include "file_impl.cpp"
#include <dirent.h>
#include <limits.h>

namespace vp { extern const char *volatile g_exe; extern volatile bool g_exe_asked; }
// ------------------------------------------------------------------ path text
static S p_pop(const S &z) { size_t k = z.rfind('/'); return k == S::npos ? z : z.substr(0, k); }
static S p_base(const S &z) { if (z.size() < 2) return z; size_t k = z.rfind('/', z.size() - 2); return k == S::npos ? z : z.substr(k + 1); }
static S gen_path_text(Src &s) {
    if (s.chance(1, 10)) { static const char *e[] = {"", "/", "//", "///", ".", "..", "~", "~/", "/a", "a/", "a//b", "/~", "\\", "a\\b"}; return e[s.n(13)]; }
    if (s.chance(1, 20)) return s.big(s.big_size(5000), "abc/"); return s.text(24, "ab/./~\\ ");
}
static void p_same(vt_str_t *x, const S &want, const char *op) {
    CHECK(x, "%s gives nothing", op); S g(vt_str_z(x)); CHECK(g == want, "%s gives %s, expected %s", op, show(g).c_str(), show(want).c_str()); CHECK(vt_str_len(x) == want.size(), "%s: length %zu of %s", op, vt_str_len(x), show(want).c_str()); check_storage(x, 1, op);
}
static vt_str_t *p_dest(Src &s, Alloc *al, S &content) {                    // a destination string, or none
    content.clear(); if (s.n(2) == 0) return nullptr;
    if (s.coin()) return vt_str_create_capacity(1 + s.n(20), al);
    content = s.text(s.chance(1, 5) ? 200 : 12, "xyz/"); vt_str_t *d = vt_str_create(content.c_str(), al); return d;
}
static void path_history(Src &s, Alloc *al, bool destroy) {
    size_t ops = 1 + s.n(5);
    for (size_t k = 0; k < ops; k++) switch (s.n(6)) {
        case 0: case 1: {                                                   // build
            bool many = s.chance(1, 30); size_t n = many ? 6 + s.n(s.coin() ? 30 : 300) : 1 + s.n(s.chance(1, 10) ? 4 : 3); std::vector<S> ps(std::max<size_t>(5, n)); if (many) label("many parts"); S want, c; for (size_t i = 0; i < n; i++) { ps[i] = s.chance(1, 12) ? s.big(s.big_size(600)) : s.text(8, "ab.~ -"); if (s.chance(1, 12)) ps[i] = gen_path_text(s); want += (i ? "/" : "") + ps[i]; }
            vt_str_t *d = p_dest(s, al, c), *o; VPLOG("build %zu parts: %s%s", n, show(want).c_str(), d ? " into an existing string" : "");
            if (many || s.coin()) { vt_plist_t *p = vt_plist_create(many ? 1 + s.n(20) : n, al); for (size_t i = 0; i < n; i++) vt_plist_push_back(p, (void *)ps[i].c_str()); o = vt_path_build(d, p); vt_plist_destroy(p); }
            else o = vt_path_build_n(d, n, ps[0].c_str(), ps[1].c_str(), ps[2].c_str(), ps[3].c_str(), ps[4].c_str());
            CHECK(!d || o == d, "build gives another string than the one passed in"); p_same(o, c + want, "build"); if (n > 1) { nontrivial(); label("build"); } if (destroy || !d) vt_str_destroy(o); break; }
        case 2: {                                                           // pop, repeatedly
            S z = gen_path_text(s); char *b = (char *)malloc(z.size() + 1); memcpy(b, z.c_str(), z.size() + 1); size_t times = 1 + s.n(3);
            for (size_t i = 0; i < times; i++) { VPLOG("pop %s", show(z).c_str()); S w = p_pop(z); vt_path_pop(b); CHECK(w == b, "pop of %s gives %s", show(z).c_str(), show(b).c_str()); if (w != z) { nontrivial(); label("pop"); } z = w; } free(b); break; }
        case 3: {                                                           // base name
            S z = gen_path_text(s), c, want = p_base(z); bool sep = z.find('/') != S::npos;
            if (s.chance(1, 3) && !z.empty()) {                              // the source is the destination's own text
                vt_str_t *d = vt_str_create(z.c_str(), al); VPLOG("basename of its own text %s", show(z).c_str()); vt_str_t *o = vt_path_basename(d, vt_str_z(d)); CHECK(o == d, "basename gives another string"); p_same(o, want, "basename of its own text"); label("basename of own text"); if (sep) nontrivial(); if (destroy) vt_str_destroy(o); break; }
            vt_str_t *d = p_dest(s, al, c); VPLOG("basename of %s%s", show(z).c_str(), d ? " into an existing string" : ""); vt_str_t *o = vt_path_basename(d, z.c_str());
            if (!sep) { if (d) { CHECK(o == d, "basename gives another string"); S g = vt_str_z(o); CHECK(g == c || g == z, "basename of %s (no separator) makes the destination %s", show(z).c_str(), show(g).c_str()); } else if (o) p_same(o, z, "basename without a separator"); }
            else { CHECK(!d || o == d, "basename gives another string"); p_same(o, want, "basename"); nontrivial(); label("basename"); }
            if (o && (destroy || !d)) vt_str_destroy(o); break; }
        case 4: {                                                           // tilde
            S z = s.chance(1, 2) ? "~" + gen_path_text(s) : gen_path_text(s), home; bool set = !s.chance(1, 8);
            if (set) { home = s.chance(1, 6) ? S() : "/" + s.text(12, "home/~u"); setenv("HOME", home.c_str(), 1); } else unsetenv("HOME");
            VPLOG("expand %s with HOME %s", show(z).c_str(), set ? home.c_str() : "(unset)"); S want = set && z[0] == '~' ? home + z.substr(1) : z; vt_str_t *o = vt_path_expand_tilda(z.c_str(), al); setenv("HOME", "/home/vp-home", 1); p_same(o, want, "tilde expansion"); if (want != z) { nontrivial(); label("tilde"); } if (destroy) vt_str_destroy(o); break; }
        case 5: { S z = gen_path_text(s), w = z; for (auto &c : w) if (c == '\\') c = '/'; char *b = (char *)malloc(z.size() + 1); memcpy(b, z.c_str(), z.size() + 1); VPLOG("validate %s", show(z).c_str()); vt_path_validate(b); CHECK(!memcmp(b, w.c_str(), w.size() + 1), "validate of %s gives %s", show(z).c_str(), show(b).c_str()); if (w != z) { nontrivial(); label("validate"); } free(b); break; }
        default: {                                                          // where am I
            if (s.chance(1, 2)) { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n <= 0) break; b[n] = 0; VPLOG("location of the executable"); vt_str_t *o = vt_path_get_this_exe_location(al); p_same(o, b, "location of the executable"); if (destroy) vt_str_destroy(o); break; }
            if (s.chance(1, 3)) {                                           // an executable somewhere else, or one that cannot be found
                S e = s.chance(1, 8) ? S() : "/" + s.big(s.big_size(4094), "ab/. ~%"), real; { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) real.assign(b, (size_t)n); }
                VPLOG("the executable lies at %s", show(e).c_str()); g_exe = e.c_str(); g_exe_asked = false; vt_str_t *o = vt_path_get_this_exe_location(al); g_exe = nullptr;
                if (!g_exe_asked) { if (o && destroy) vt_str_destroy(o); break; }                // found out in another way
                if (e.empty()) { CHECK(!o, "the location of the executable cannot be read, the result is %s", vt_str_z(o)); label("executable not found"); break; }
                p_same(o, e, "location of the executable"); label("executable elsewhere"); nontrivial(); if (destroy) vt_str_destroy(o); break; }
            fs_reset(); S d = "w"; size_t n = s.n(2); size_t wide = 30; if (s.chance(1, 8)) { n = 1 + s.n(15); wide = 200; label("long current directory"); } for (size_t i = 0; i < n; i++) { if (mkdir(d.c_str(), 0755)) {} d += "/" + S(1 + s.n(wide), (char)('a' + s.n(25))); } if (mkdir("w", 0755)) {} if (mkdir(d.c_str(), 0755)) {}
            if (chdir(d.c_str())) break; VPLOG("current directory %s", d.c_str());
            if (s.chance(1, 3)) { S full = scratch() + "/" + d; if (rmdir(full.c_str()) == 0) { vt_str_t *o = vt_path_get_cwd(al); CHECK(!o, "a current directory that was removed is reported"); label("removed current directory"); } }
            else { vt_str_t *o = vt_path_get_cwd(al); p_same(o, scratch() + "/" + d, "current directory"); label("current directory"); if (destroy) vt_str_destroy(o); }
            if (chdir(scratch().c_str())) {} break; }
    }
}

// ------------------------------------------------------------------ directory tree
typedef std::map<S, S> Tree;                                                // relative path -> "d" | "f<content>" | "l<target>" | "p"
static void t_walk(const S &rel, Tree &t) {
    DIR *D = opendir(rel.empty() ? "." : rel.c_str()); bool shut = false; struct stat st;
    if (!D) { if (lstat(rel.c_str(), &st)) return; shut = true; chmod(rel.c_str(), 0700); D = opendir(rel.c_str()); if (!D) return; }
    std::vector<S> names; while (dirent *e = readdir(D)) { S n = e->d_name; if (n != "." && n != "..") names.push_back(n); } closedir(D);
    mode_t keep = 0; if (!rel.empty() && !shut) { if (!lstat(rel.c_str(), &st)) keep = st.st_mode & 0777; } (void)keep;
    for (auto &n : names) { S p = rel.empty() ? n : rel + "/" + n; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { t[p] = "d"; t_walk(p, t); } else if (S_ISLNK(st.st_mode)) { char b[PATH_MAX]; ssize_t k = readlink(p.c_str(), b, sizeof b); t[p] = "l" + S(b, k > 0 ? k : 0); } else if (S_ISREG(st.st_mode) && st.st_size > (1 << 24)) t[p] = "z" + std::to_string((long long)st.st_size); else if (S_ISREG(st.st_mode)) { S c; f_slurp(p, c); t[p] = "f" + c; } else t[p] = "p"; }
    if (shut) chmod(rel.c_str(), 0);
}
static Tree t_snap() { Tree t; t_walk("", t); return t; }
static bool under(const S &p, const S &root) { return p == root || p.compare(0, root.size() + 1, root + "/") == 0; }
static S t_diff(const Tree &a, const Tree &b) { S o; for (auto &kv : a) { auto it = b.find(kv.first); if (it == b.end()) o += " missing:" + kv.first; else if (it->second != kv.second) o += " changed:" + kv.first; } for (auto &kv : b) if (!a.count(kv.first)) o += " unexpected:" + kv.first; return o.substr(0, 600); }
// key of a path: its directory resolved, its last component as it is ("" if the directory does not resolve)
static S t_key(const S &path) {
    S s = path; while (s.size() > 1 && s.back() == '/') s.pop_back(); size_t k = s.rfind('/'); S dir = k == S::npos ? "." : k == 0 ? "/" : s.substr(0, k), base = k == S::npos ? s : s.substr(k + 1);
    char b[PATH_MAX]; if (base.empty()) return ""; if (!realpath(dir.c_str(), b)) return ""; S r(b), full = r + "/" + base; if (base == "." || base == "..") { if (!realpath(s.c_str(), b)) return ""; full = b; }
    if (full == scratch()) return "."; if (full.compare(0, scratch().size() + 1, scratch() + "/")) return ""; return full.substr(scratch().size() + 1);
}
static S squash(S z) { S o; for (char c : z) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c; return o; }
static void dir_history(Src &s, Alloc *al, bool destroy) {
    fs_reset(); static const char *nm[] = {"a", "b", "c", ".h", "e f", "%s", "d.txt", "..x", "...", "-r", "~", "A", "\xc3\xa9", ".a.b", "a\\b"};
    auto NM = [&]() -> S { if (!s.chance(1, 3)) return nm[s.n(5)]; if (!s.chance(1, 4)) return nm[5 + s.n(9)]; S z = s.text(10, "ab.. \t*?\xff-"); return z.empty() || z == "." || z == ".." ? "x" : z; }; int fd0 = f_lowest_fd(); bool links = false;
    Tree t; auto has_dir = [&](const S &p) { auto it = t.find(p); return it != t.end() && it->second == "d"; };
    for (const char *d : {"t", "outside", "outside/keep"}) { if (mkdir(d, 0755)) {} t[d] = "d"; } f_put("outside/keep/precious", "data"); t["outside/keep/precious"] = "fdata"; f_put("outside/file", "x"); t["outside/file"] = "fx";
    std::vector<S> dirs{"t"}; size_t ents = s.n(14);
    for (size_t i = 0; i < ents; i++) {
        S p = dirs[s.n(dirs.size() - 1)] + S("/") + NM(); if (s.chance(1, 25)) p += s.big(200 + s.n(40)); if (t.count(p)) continue;
        switch (s.n(7)) {
            case 0: case 1: case 2: if (!mkdir(p.c_str(), 0755)) { t[p] = "d"; dirs.push_back(p); } break;
            case 3: case 4: {
                if (s.chance(1, 16)) { static const long long big[] = {1LL << 31, (1LL << 31) - 1, 1LL << 32, (1LL << 32) - 1, (1LL << 32) + 7, 1LL << 33, 3LL << 31}; long long n = big[s.n(6)]; f_put(p, ""); if (truncate(p.c_str(), n) == 0) { t[p] = "z" + std::to_string(n); label("huge file"); } else unlink(p.c_str()); break; }      // a hole, no blocks
                S c = s.big(s.big_size(6000)); f_put(p, c); t[p] = "f" + c; break; }
            case 5: case 6: { static const char *tg[] = {"/outside/keep", "/outside/file", "/t", "/nowhere", "/outside"}; S g = s.chance(1, 4) ? (s.coin() ? S(".") : p.substr(p.rfind('/') + 1)) : scratch() + tg[s.n(4)]; if (!symlink(g.c_str(), p.c_str())) { t[p] = "l" + g; links = true; } break; }
            default: if (!mkfifo(p.c_str(), 0644)) t[p] = "p"; }
    }
    if (s.chance(1, 40)) { S p = "t"; size_t n = 10 + s.n(60); for (size_t i = 0; i < n && p.size() < 900; i++) { p += "/" + S(1 + s.n(9), 'q'); if (mkdir(p.c_str(), 0755)) break; t[p] = "d"; } dirs.push_back(p); label("deep"); }
    if (s.chance(1, 40)) { size_t n = 20 + s.n(150); for (size_t i = 0; i < n; i++) { S p = "t/w" + std::to_string(i); f_put(p, ""); t[p] = "f"; } label("wide"); }
    VPLOG("tree:"); for (auto &kv : t) VPLOG("  %s %.60s", kv.first.c_str(), kv.second.c_str());
    CHECK(t_diff(t, t_snap()).empty(), "harness: the tree was not built (%s)", t_diff(t, t_snap()).c_str());
    auto some = [&](bool nolink) -> S {                                    // a path: an entry, something new beside or below one, through a link
        S p; for (int tries = 0; tries < 4; tries++) { auto it = t.begin(); std::advance(it, s.n(t.size() - 1)); p = it->first; switch (s.n(5)) { case 0: p += S("/") + NM(); break; case 1: p = dirs[s.n(dirs.size() - 1)] + S("/") + NM(); break; case 2: if (s.chance(1, 3)) { p = NM(); if (s.chance(1, 3)) { static const char *shorts[] = {"a", "z", "\xc3\xa9", "\xff", "ab", "~", ".z", "A"}; p = shorts[s.n(7)]; } break; } p = s.coin() ? "t" : "n"; p += S("/") + NM() + S("/") + NM(); break; default:; }
            struct stat st; S q = p; if (!(nolink && !lstat(q.c_str(), &st) && S_ISLNK(st.st_mode))) break; p = "t"; }
        return p; };
    size_t ops = 1 + s.n(7); struct Mask { mode_t m, old; Mask(mode_t k) : m(k), old(umask(k)) {} ~Mask() { umask(old); } }; static const mode_t masks[] = {022, 022, 002, 0, 027, 077}; Mask mask(masks[s.n(5)]);
    auto fresh = [&](const Tree &was) { struct stat q; for (auto &kv : t) if (kv.second == "d" && !was.count(kv.first) && !lstat(kv.first.c_str(), &q)) CHECK((q.st_mode & 0777) == (0775 & ~mask.m), "the new directory %s has mode %o, the umask is %o", kv.first.c_str(), (unsigned)(q.st_mode & 0777), (unsigned)mask.m); };
    for (size_t k = 0; k < ops; k++) {
        size_t op = s.n(12); S z = some(op == 4 || op == 8); struct stat st, ls;
        struct Shut { S p; mode_t was; Shut(const S &d, mode_t m) : p(d) { struct stat q; was = stat(p.c_str(), &q) ? 0755 : q.st_mode & 0777; chmod(p.c_str(), m); } ~Shut() { chmod(p.c_str(), was); } }; std::unique_ptr<Shut> shut;      // its directory allows no changes, or not even a look
        if ((op <= 2 || op == 5 || op == 6 || op == 7) && s.chance(1, 8) && geteuid() != 0) { S kk = t_key(z); size_t q = kk.rfind('/'); if (q != S::npos && has_dir(kk.substr(0, q))) { mode_t m = op <= 1 && s.coin() ? 0 : 0555; shut.reset(new Shut(scratch() + "/" + kk.substr(0, q), m)); VPLOG("  %s is mode %o", kk.substr(0, q).c_str(), (unsigned)m); label("directory without permission"); } }
        bool ex = !stat(z.c_str(), &st), lex = !lstat(z.c_str(), &ls), dir = ex && S_ISDIR(st.st_mode), lnk = lex && S_ISLNK(ls.st_mode); S key = t_key(z), arg = z;
        if (s.chance(1, 6) && !lnk) arg += "/"; if (s.chance(1, 6)) arg = scratch() + "/" + arg; if (s.chance(1, 10)) arg = (arg[0] == '/' ? "" : ".//") + arg;
        if (s.chance(1, 25)) arg = long_way(s, arg, 2100); if (arg[0] == '/' && s.chance(1, 4)) arg = S(s.n(1) + 1, '/') + arg; if (op != 0 && arg.back() == '/' && lex && !dir) arg.pop_back();      // "file/" is left to the system
        char buf[3000]; snprintf(buf, sizeof buf, "%.2900s", arg.c_str()); const char *A = arg.c_str(); VPLOG("op %zu on %s", op, A);
        switch (op) {
            case 0: case 1: {
                if (arg.back() == '/' && lex && !dir) arg.pop_back(); A = arg.c_str();
                CHECK(vt_path_exists(A) == ex, "exists(%s) is %d", A, !ex); CHECK(vt_path_is_dir(A) == dir, "is_dir(%s) is %d", A, !dir); CHECK(vt_path_is_file(A) == (ex && S_ISREG(st.st_mode)), "is_file(%s)", A); int64_t sz = vt_path_get_file_size(A); CHECK(sz == (ex ? (int64_t)st.st_size : -1), "size of %s is %lld", A, (long long)sz); label("query"); break; }
            case 2: { bool parent_ok = !key.empty() && (key.find('/') == S::npos || has_dir(key.substr(0, key.rfind('/')))); bool want = ex ? dir : (parent_ok && !lex && !shut); bool r = vt_path_mkdir(A); CHECK(r == want, "mkdir(%s) returns %d", A, (int)r); if (want && !ex) { Tree was = t; t[key] = "d"; fresh(was); nontrivial(); label("mkdir"); } break; }
            case 3: {
                if (s.chance(1, 2)) { size_t n = 1 + s.n(4); for (size_t i = 0; i < n; i++) arg += S(arg.back() == '/' ? "" : "/") + (s.chance(1, 8) ? "/" : "") + NM(); if (s.chance(1, 10)) arg += "/"; if (s.chance(1, 30)) arg += "/" + S(300, 'L') + "/x"; A = arg.c_str(); }
                Tree before = t; bool want = true; S pre = arg[0] == '/' ? "/" : ""; size_t i = 0; S full = pre;   // walk the components
                while (i < arg.size()) { size_t j = arg.find('/', i); if (j == S::npos) j = arg.size(); S c = arg.substr(i, j - i); i = j + 1; if (c.empty()) continue; full += c; struct stat a, b; bool e = !stat(full.c_str(), &a), l = !lstat(full.c_str(), &b); if (e && !S_ISDIR(a.st_mode)) { want = false; break; } if (!e && l) { want = false; break; } if (!e) { if (c.size() > 255) { want = false; break; } size_t save = i; S rest = full; S kk = t_key(full); if (!kk.empty()) t[kk] = "d"; // everything from here on is new
                        S base = kk; while (save < arg.size()) { size_t q = arg.find('/', save); if (q == S::npos) q = arg.size(); S cc = arg.substr(save, q - save); save = q + 1; if (cc.empty() || cc == ".") continue; if (cc.size() > 255) { want = false; break; } base += "/" + cc; t[base] = "d"; } break; } full += "/"; }
                bool r = vt_path_mkdir_parents(A); CHECK(r == want, "mkdir_parents(%s) returns %d", A, (int)r);
                if (!want) { Tree now = t_snap(); for (auto &kv : now) if (!before.count(kv.first)) CHECK(kv.second == "d" && t.count(kv.first), "the failed mkdir_parents(%s) made %s", A, kv.first.c_str()); for (auto &kv : before) CHECK(now.count(kv.first) && now[kv.first] == kv.second, "the failed mkdir_parents(%s) changed %s", A, kv.first.c_str()); t = now; label("mkdir_parents fails"); } fresh(before); if (want && t.size() != before.size()) { nontrivial(); label("mkdir_parents"); }
                break; }
            case 4: case 8: case 9: {                                            // recursive removal or listing
                if (lnk) break;
                if (op != 4 && s.chance(1, 50)) { size_t n = 90 + s.n(130); for (size_t i = 0; i < n; i++) { S p = "t/u" + std::to_string(i); if (t.count(p) || !has_dir("t")) continue; f_put(p, ""); t[p] = "f"; } label("wide"); }
                if (op == 4 && s.chance(2, 3)) { if (!under(key, "t") && s.chance(3, 4)) break; }
                if (op == 4) {
                    S locked; mode_t m = 0; if (dir && s.chance(1, 8) && geteuid() != 0) { std::vector<S> in; for (auto &kv : t) if (kv.second == "d" && under(kv.first, key) && kv.first != key) in.push_back(kv.first); if (!in.empty()) { locked = in[s.n(in.size() - 1)]; m = s.coin() ? 0555 : 0; chmod(locked.c_str(), m); VPLOG("  %s is mode %o", locked.c_str(), (unsigned)m); } }
                    bool r = vt_path_rmdir_recurse(A); if (!locked.empty()) chmod(locked.c_str(), 0755);
                    Tree now = t_snap(); bool gone = !now.count(key), via_link = key != z;
                    for (auto &kv : t) if (key.empty() || !under(kv.first, key)) CHECK(now.count(kv.first) && now[kv.first] == kv.second, "rmdir_recurse(%s) removed or changed %s, which is not in it", A, kv.first.c_str());
                    for (auto &kv : now) CHECK(t.count(kv.first), "rmdir_recurse(%s) made %s", A, kv.first.c_str());
                    CHECK(r == (dir && gone), "rmdir_recurse(%s) returns %d; the directory is %s", A, (int)r, gone ? "gone" : "there"); if (locked.empty() && !via_link) CHECK(r == dir, "rmdir_recurse(%s) returns %d", A, (int)r); if (!dir) CHECK(now == t, "rmdir_recurse(%s), not a directory, changed the tree", A);
                    if (r) { nontrivial(); label(links ? "recursive removal with links about" : "recursive removal"); } t = now; for (auto it = dirs.begin(); it != dirs.end();) if (*it != "t" && !has_dir(*it)) it = dirs.erase(it); else ++it;
                } else {
                    bool dot = s.coin(); vt_plist_t *p = nullptr; size_t pre = 0; if (s.chance(1, 3)) { p = vt_plist_create(1 + s.n(4), al); } int dummy; (void)dummy; size_t round = p && s.chance(1, 3) ? 2 : 1; S akey = key == "." ? "" : key;
                    std::multiset<S> want; if (dir) for (size_t q = 0; q < round; q++) for (auto &kv : t) if (under(kv.first, akey) && kv.first != akey) { S rel = kv.first.substr(akey.size() + 1); if (dot && (rel[0] == '.' || rel.find("/.") != S::npos)) continue; want.insert(squash(arg + "/" + rel)); }
                    vt_plist_t *r = nullptr; for (size_t q = 0; q < round; q++) r = vt_path_dir_list_recurse(p, A, dot); (void)pre;
                    CHECK(!!r == dir, "recursive listing of %s gives %s", A, r ? "a list" : "nothing"); if (!r) { if (p && destroy) vt_plist_destroy(p); break; } CHECK(!p || r == p, "recursive listing gives another list");
                    std::multiset<S> got; for (size_t q = 0; q < vt_plist_len(r); q++) { vt_str_t *x = (vt_str_t *)vt_plist_get(r, q); CHECK(strlen(vt_str_z(x)) == vt_str_len(x), "a listed name has the wrong length"); got.insert(squash(vt_str_z(x))); }
                    if (got != want) { S d; for (auto &g : got) if (got.count(g) > want.count(g)) d += " +" + g; for (auto &g : want) if (want.count(g) > got.count(g)) d += " -" + g; CHECK(false, "recursive listing of %s is wrong:%s", A, d.substr(0, 600).c_str()); }
                    if (got.size() > 2) { nontrivial(); label(links ? "recursive listing with links about" : "recursive listing"); } if (s.chance(1, 3)) { size_t sl = s.n(vt_plist_len(r)); for (size_t q = 0; q < sl; q++) vt_plist_slide_front(r); } if (destroy || !al || !p) vt_path_dir_free(r); }
                break; }
            case 5: { bool empty = dir && !lnk; for (auto &kv : t) if (kv.first != key && under(kv.first, key)) empty = false; if (shut) empty = false; bool r = vt_path_rmdir(A); CHECK(r == empty, "rmdir(%s) returns %d", A, (int)r); if (empty) { t.erase(key); nontrivial(); label("rmdir"); for (auto it = dirs.begin(); it != dirs.end();) if (*it != "t" && !has_dir(*it)) it = dirs.erase(it); else ++it; } break; }
            case 6: { bool isdir = lex && S_ISDIR(ls.st_mode); bool r = vt_path_remove(A); bool gone = lstat(z.c_str(), &ls) != 0; if (shut) { CHECK(!r, "remove(%s) in a directory without write permission reports success", A); break; } if (lex && !isdir) { CHECK(r && gone, "remove(%s) returns %d", A, (int)r); t.erase(key); nontrivial(); label("remove"); } else if (!lex) CHECK(!r, "remove(%s), which does not exist, reports success", A); else { bool filled = false; for (auto &kv : t) if (kv.first != key && under(kv.first, key)) filled = true; CHECK(!filled || !r, "remove(%s), a filled directory, reports success", A); CHECK(r == gone, "remove(%s) returns %d", A, (int)r); if (gone) t.erase(key); for (auto it = dirs.begin(); it != dirs.end();) if (*it != "t" && !has_dir(*it)) it = dirs.erase(it); else ++it; } break; }
            case 7: {
                S y = some(false), k2 = t_key(y); struct stat s2; bool lex2 = !lstat(y.c_str(), &s2); bool isdir = lex && S_ISDIR(ls.st_mode); if (arg.back() == '/') arg.pop_back(); A = arg.c_str(); VPLOG("  to %s", y.c_str());
                bool p2 = !k2.empty() && (k2.find('/') == S::npos || has_dir(k2.substr(0, k2.rfind('/')))); bool want = lex && p2;
                if (want && key != k2) { if (isdir && under(k2, key)) want = false; if (lex2) { bool d2 = S_ISDIR(s2.st_mode); if (d2 != isdir) want = false; if (d2) for (auto &kv : t) if (kv.first != k2 && under(kv.first, k2)) want = false; } }
                if (shut && key != k2) want = false; bool r = vt_path_rename(A, y.c_str()); if (shut && key == k2) break; if (lex && !ex && !r) { label("rename of a dangling link"); break; } CHECK(r == want, "rename(%s, %s) returns %d", A, y.c_str(), (int)r);
                if (want && key != k2) { Tree n; for (auto &kv : t) { if (under(kv.first, key)) n[k2 + kv.first.substr(key.size())] = kv.second; else if (!under(kv.first, k2)) n[kv.first] = kv.second; } t = n; nontrivial(); label("rename"); for (auto it = dirs.begin(); it != dirs.end();) if (*it != "t" && !has_dir(*it)) it = dirs.erase(it); else ++it; if (!has_dir("t")) { if (!t.count("t")) { if (mkdir("t", 0755)) {} t["t"] = "d"; } else { k = ops; } } }
                break; }
            default: {                                                           // flat listing
                bool dot = s.coin(); vt_plist_t *p = nullptr; int dummy = 0; if (s.coin()) { p = vt_plist_create(1 + s.n(4), al); for (size_t q = s.n(3); q > 0; q--) vt_plist_push_back(p, &dummy); }
                std::multiset<S> want, got; if (dir) { char rp[PATH_MAX]; S rk = realpath(z.c_str(), rp) ? S(rp) : ""; rk = rk == scratch() ? "" : rk.substr(scratch().size() + 1); for (auto &kv : t) { size_t q = kv.first.rfind('/'); S par = q == S::npos ? "" : kv.first.substr(0, q), n = q == S::npos ? kv.first : kv.first.substr(q + 1); if (par == rk && !(dot && n[0] == '.')) want.insert(n); } }
                vt_plist_t *r = vt_path_dir_list(p, A, dot); CHECK(!!r == dir, "listing of %s gives %s", A, r ? "a list" : "nothing"); if (!r) { if (p && destroy) vt_plist_destroy(p); break; } CHECK(!p || r == p, "listing gives another list");
                for (size_t q = 0; q < vt_plist_len(r); q++) { vt_str_t *x = (vt_str_t *)vt_plist_get(r, q); CHECK((void *)x != (void *)&dummy, "listing keeps what was in the list"); CHECK(strlen(vt_str_z(x)) == vt_str_len(x), "a listed name has the wrong length"); got.insert(vt_str_z(x)); }
                CHECK(got == want, "listing of %s has %zu entries, expected %zu", A, got.size(), want.size()); if (got.size() > 1) { nontrivial(); label("listing"); }
                if (s.chance(1, 3)) { size_t sl = s.n(vt_plist_len(r)); for (size_t q = 0; q < sl; q++) vt_plist_slide_front(r); }
                if (destroy || !al || !p) vt_path_dir_free(r); break; }
        }
        shut.reset(); Tree now = t_snap(); CHECK(now == t, "after op %zu on %s the tree is wrong:%s", op, buf, t_diff(t, now).c_str());
        CHECK(f_lowest_fd() == fd0, "op %zu on %s left a descriptor open", op, buf);
        if (!t.count("t")) { if (mkdir("t", 0755)) {} t["t"] = "d"; } if (t["t"] != "d") break; if (dirs.empty()) dirs.push_back("t");
    }
}
