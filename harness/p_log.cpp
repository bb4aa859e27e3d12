// C20 the logger, C21 assertions and debug output.
#include "vp.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace vp;
typedef std::string S;

// ---------------------------------------------------------------- the formatted messages
struct Msg { S fmt, out; std::function<void(const std::function<void(const char *)> &)> dummy; int form; S z; int i; size_t zu; double d; char c; int w; };
static Msg l_msg(Src &s) {
    Msg m; m.form = (int)s.n(7); m.i = (int)s.integer(INT32_MIN, INT32_MAX); m.zu = (size_t)s.bits64(); m.d = (double)s.range(-100000000, 100000000) / 64; m.c = (char)('!' + s.n(90)); m.w = (int)s.range(-20, 20);
    m.z = s.chance(1, 6) ? s.big(s.big_size(9000), "ab %sdn") : s.text(30, "ab %sdn\\,.:[]");
    if (s.chance(1, 10)) m.z = s.bytes(30);
    S lit = s.text(12, "xy z.,:[]"); if (s.chance(1, 5)) lit += "\n"; if (s.chance(1, 10)) m.z += "\n";
    std::vector<char> b(m.z.size() + 512); int k = 0;
    switch (m.form) {
        case 0: m.fmt = lit; k = snprintf(b.data(), b.size(), "%s", lit.c_str()); break;
        case 1: m.fmt = lit + "%s"; k = snprintf(b.data(), b.size(), "%s%s", lit.c_str(), m.z.c_str()); break;
        case 2: m.fmt = lit + "%d%%%s"; k = snprintf(b.data(), b.size(), "%s%d%%%s", lit.c_str(), m.i, m.z.c_str()); break;
        case 3: m.fmt = "%zu" + lit + "%c"; k = snprintf(b.data(), b.size(), "%zu%s%c", m.zu, lit.c_str(), m.c); break;
        case 4: m.fmt = "%.3f" + lit; k = snprintf(b.data(), b.size(), "%.3f%s", m.d, lit.c_str()); break;
        case 5: m.fmt = "%*d|%s|%d|%s"; k = snprintf(b.data(), b.size(), "%*d|%s|%d|%s", m.w, m.i, lit.c_str(), m.w, m.z.c_str()); m.fmt = "%*d|" + lit + "|%d|%s"; break;
        case 6: m.fmt = "%d %d %d %d %d %d %d %d %s" ; k = snprintf(b.data(), b.size(), "%d %d %d %d %d %d %d %d %s", 1, 2, 3, 4, 5, 6, m.i, m.w, m.z.c_str()); break;
        default: m.fmt = "%s"; k = snprintf(b.data(), b.size(), "%s", m.z.c_str()); break;
    }
    m.out.assign(b.data(), (size_t)k); return m;
}
#define WITH_MSG(m, CALL) switch ((m).form) { \
    case 0: CALL((m).fmt.c_str()); break; \
    case 1: CALL((m).fmt.c_str(), (m).z.c_str()); break; \
    case 2: CALL((m).fmt.c_str(), (m).i, (m).z.c_str()); break; \
    case 3: CALL((m).fmt.c_str(), (m).zu, (m).c); break; \
    case 4: CALL((m).fmt.c_str(), (m).d); break; \
    case 5: CALL((m).fmt.c_str(), (m).w, (m).i, (m).w, (m).z.c_str()); break; \
    case 6: CALL((m).fmt.c_str(), 1, 2, 3, 4, 5, 6, (m).i, (m).w, (m).z.c_str()); break; \
    default: CALL((m).fmt.c_str(), (m).z.c_str()); }

static S l_place(Src &s, size_t n, const char *alphabet) { return s.chance(1, 25) ? s.big(s.big_size(3500), alphabet) : s.text(n, alphabet); }   // file and function names, the text of a condition
static size_t l_line(Src &s) { return s.chance(1, 4) ? (size_t)s.bits64() : (size_t)s.n(100000); }
// ---------------------------------------------------------------- destinations
static S stamp(time_t t) { struct tm tm; localtime_r(&t, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b; }
static bool slurp(const S &p, S &out) { out.clear(); int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) out.append(b, k); close(fd); return true; }
struct World {
    std::map<S, S> files; S err;                                          // expected texts; every record starts with a 19 character stamp
    std::vector<S> bad;                                                   // names that cannot be opened
    std::set<S> lifted;                                                   // those of them that can be opened by now
    S t0;
    void lift(Src &s) { if (s.coin()) { VPLOG("the missing directory appears"); mkdir("missing", 0755); lifted.insert("missing/x"); } else { VPLOG("the protected file may be written"); chmod("readonly", 0600); lifted.insert("readonly"); } label("destination becomes usable"); }
    void start() { fs_reset(); mkdir("dir", 0755); S ro = "readonly"; { int fd = open(ro.c_str(), O_CREAT | O_WRONLY, 0400); if (fd >= 0) close(fd); } bad = {"dir", "missing/x", "readonly", S(300, 'n')}; if (geteuid() == 0) bad.erase(bad.begin() + 2); }
    bool usable(const S &n) const { return lifted.count(n) || std::find(bad.begin(), bad.end(), n) == bad.end(); }
    void add(const S &name, const S &rec) { if (name.empty() || !usable(name)) err += rec; else files[name] += rec; }
};
static const char *const STAMP = "0000-00-00 00:00:00";                  // placeholder of 19 characters in the expectation
// equal up to the stamps, each of which has to lie between the two times
static void same(const S &where, const S &exp, const S &got, const S &t0, const S &t1) {
    S a = exp, b = got; size_t p = 0; S st(STAMP);
    while ((p = a.find(st, p)) != S::npos) {
        if (p + 19 <= b.size()) { S g = b.substr(p, 19); if (g >= t0 && g <= t1) { b.replace(p, 19, st); } }
        p += 19;
    }
    if (a != b) { size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) d++; size_t f = d > 60 ? d - 60 : 0; fail(__FILE__, __LINE__, "%s holds %zu bytes, expected %zu; they differ at %zu: got %s, expected %s", where.c_str(), b.size(), a.size(), d, show(b.substr(f, 200)).c_str(), show(a.substr(f, 200)).c_str()); }
}
static void compare(World &w) {
    S t1 = stamp(time(nullptr)), got;
    for (auto &kv : w.files) { bool there = slurp(kv.first, got); CHECK(there, "nothing was written to %s, expected %s", kv.first.c_str(), show(kv.second).c_str()); same("file " + kv.first, kv.second, got, w.t0, t1); }
    for (const char *n : {"a.log", "b.log", "c", "sub.log", "100%d %s%n", "\xc3\xa9 x", "--", "~"}) if (!w.files.count(n)) CHECK(access(n, F_OK) != 0, "%s was created, nothing should be there", n);
    if (geteuid() != 0 && !w.lifted.count("readonly")) { slurp("readonly", got); CHECK(got.empty(), "a file without write permission got text"); }
    fflush(stderr); same("standard error", w.err, err_text(), w.t0, t1);
}
static S longname(Src &s) { S n = scratch() + "/"; if (s.chance(1, 3)) { size_t k = s.n(s.coin() ? 500 : 1900); for (size_t i = 0; i < k && n.size() < 4000; i++) n += "./"; } return n + "sub.log"; }   // a long way to the same file
static S pick_name(Src &s, World &w, bool &is_bad) { is_bad = false; switch (s.n(6)) { case 0: case 1: return "a.log"; case 2: return "b.log"; case 3: { static const char *odd[] = {"c", "c", "100%d %s%n", "\xc3\xa9 x", "--", "~"}; return odd[s.n(5)]; } case 4: return longname(s); default: is_bad = true; return s.pick(w.bad); } }
static S norm(const S &n) { return n.size() > 8 && n.compare(n.size() - 8, 8, "/sub.log") == 0 ? S("sub.log") : n; }

// ---------------------------------------------------------------- C20
static const char *const LEVELS[] = {"INFO", "WARN", "DEBUG", "ERROR", "FATAL", "ASSERT FAILURE"};
static S pad5(const S &z) { return z.size() < 5 ? S(5 - z.size(), ' ') + z : z; }
static void c20(Src &s) {
    World w; w.start(); err_clear(); w.t0 = stamp(time(nullptr));
    S dest[6]; bool dbg = s.chance(1, 6); if (dbg) vt_debug_disable_output(false);
    size_t ops = 1 + s.size(20), written = 0, redirects = 0; std::set<S> used;
    for (size_t o = 0; o < ops; o++) {
        size_t k = s.n(9); bool isbad; if (s.chance(1, 12)) w.lift(s);
        if (k == 0) {                                                     // redirect everything
            bool nul = s.chance(1, 4); S n = nul ? "" : pick_name(s, w, isbad); bool null_arg = nul && s.coin();
            VPLOG("redirect all to %s", nul ? (null_arg ? "NULL" : "\"\"") : n.c_str());
            { S tmp = n; vt_log_redirect_all_output(null_arg ? nullptr : tmp.c_str()); std::fill(tmp.begin(), tmp.end(), 'q'); }   // the name is copied
            for (auto &d : dest) d = norm(n); redirects++; label("redirect all");
        } else if (k <= 3) {
            int lv = (int)s.n(5); bool nul = s.chance(1, 4); S n = nul ? "" : pick_name(s, w, isbad); bool null_arg = nul && s.coin();
            VPLOG("redirect %s to %s", LEVELS[lv], nul ? (null_arg ? "NULL" : "\"\"") : n.c_str());
            { S tmp = n; vt_log_redirect_level_output((enum VitaLogLevel)lv, null_arg ? nullptr : tmp.c_str()); std::fill(tmp.begin(), tmp.end(), 'q'); }
            dest[lv] = norm(n); redirects++; label("redirect level");
        } else {
            int lv = (int)s.n(5); bool expr = s.chance(1, 5), own = s.chance(1, 4); S name = own ? pick_name(s, w, isbad) : S(); bool fatal = lv >= 4 && !expr;
            Msg m = l_msg(s); S zexpr = l_place(s, 12, "ab ><=!&%s"); bool has_expr = s.coin(); S file = l_place(s, 20, "ab/_.c%s"); size_t line = l_line(s);
            S to = own ? norm(name) : dest[lv]; bool macro = s.chance(1, 4);
            VPLOG("%s%s: condition %s, to %s: %s", LEVELS[lv], macro ? " (macro)" : "", expr ? "holds" : "fails", own ? name.c_str() : "the level's destination", show(m.out).c_str());
            int evaluated = 0, mline = 0; bool mexpr = false; Death d;
            if (macro) {
                file = "p_log.cpp"; has_expr = lv == 5; if (lv != 5) expr = false; fatal = lv >= 4 && !expr; zexpr = "(evaluated++, expr)"; mexpr = true;
                d = expect_death([&] {
#define M_INFO(...) mline = __LINE__; own ? VT_LOGF_INFO(name.c_str(), __VA_ARGS__) : VT_LOG_INFO(__VA_ARGS__)
#define M_WARN(...) mline = __LINE__; own ? VT_LOGF_WARN(name.c_str(), __VA_ARGS__) : VT_LOG_WARN(__VA_ARGS__)
#define M_DEBUG(...) mline = __LINE__; own ? VT_LOGF_DEBUG(name.c_str(), __VA_ARGS__) : VT_LOG_DEBUG(__VA_ARGS__)
#define M_ERROR(...) mline = __LINE__; own ? VT_LOGF_ERROR(name.c_str(), __VA_ARGS__) : VT_LOG_ERROR(__VA_ARGS__)
#define M_FATAL(...) mline = __LINE__; own ? VT_LOGF_FATAL(name.c_str(), __VA_ARGS__) : VT_LOG_FATAL(__VA_ARGS__)
#define M_ASSERT(...) mline = __LINE__; own ? VT_LOGF_ASSERT(name.c_str(), (evaluated++, expr), __VA_ARGS__) : VT_LOG_ASSERT((evaluated++, expr), __VA_ARGS__)
                    switch (lv) {
                        case 0: WITH_MSG(m, M_INFO); break; case 1: WITH_MSG(m, M_WARN); break; case 2: WITH_MSG(m, M_DEBUG); break;
                        case 3: WITH_MSG(m, M_ERROR); break; case 4: WITH_MSG(m, M_FATAL); break; default: WITH_MSG(m, M_ASSERT);
                    }
                });
                line = (size_t)mline; if (lv == 5) CHECK(evaluated == 1, "the condition was evaluated %d times", evaluated);
            } else {
                S n2 = name, f2 = file, e2 = zexpr;
#define M_CALL(...) vt_log(own ? n2.c_str() : nullptr, (enum VitaLogLevel)lv, expr, has_expr ? e2.c_str() : nullptr, f2.c_str(), line, __VA_ARGS__)
                d = expect_death([&] { WITH_MSG(m, M_CALL); });
            }
            (void)mexpr;
            CHECK(d.died == fatal, "%s with a condition that %s %s the program", LEVELS[lv], expr ? "holds" : "fails", d.died ? "ended" : "did not end");
            if (d.died) CHECK(!d.aborted && d.code != 0, "%s ended the program with status %d", LEVELS[lv], d.code);
            if (!expr) {
                if (!to.empty() && !w.usable(to) && dbg) w.err += S(STAMP) + " DEBUG INFO " + file + ":" + std::to_string(line) + ": Failed to open a file <" + (own ? name : to) + ">!\n";
                w.add(to, S(STAMP) + " " + pad5(LEVELS[lv]) + " " + (has_expr ? "[" + zexpr + "] " : "") + file + ":" + std::to_string(line) + ": " + m.out + "\n");
                written++; used.insert(w.usable(to) ? to : S()); label(LEVELS[lv]); if (!w.usable(to)) label("unusable destination");
            } else label("condition holds");
            if (s.chance(1, 3)) compare(w);
        }
    }
    compare(w);
    for (int i = 0; i < 6; i++) CHECK(!strcmp(vt_log_get_level_str((enum VitaLogLevel)i), LEVELS[i]), "level %d is called %s", i, vt_log_get_level_str((enum VitaLogLevel)i));
    vt_log_redirect_all_output(nullptr);
    if (written >= 2 && redirects >= 1 && used.size() >= 2) nontrivial();
}
PROP("C20", c20, 700000, 2000000, F_LEAK | F_FS, "Random histories of redirects (one level or all; usable files, none, a directory, a missing directory, a file without permission, an overlong name; some become usable midway; the name's buffer is overwritten after the call) and log calls through the macros and the function, with every level, condition, explicit file and generated format (up to 9000 characters); all files and standard error are compared with a model. Non-trivial: two lines written to two different destinations after a redirect.");

// ---------------------------------------------------------------- C21
static void c21(Src &s) {
    World w; w.start(); err_clear(); w.t0 = stamp(time(nullptr));
    static std::string names[5]; names[0] = "a.log"; names[1] = "b.log"; names[2] = "c"; names[3] = longname(s);
    bool on = true; S to; vt_debug_disable_output(false); vt_debug_redirect_output(nullptr);
    size_t ops = 1 + s.size(20), written = 0, ended = 0, switches = 0; std::set<S> used;
    const char *bads[4]; static std::string badstore[4]; for (size_t i = 0; i < w.bad.size(); i++) { badstore[i] = w.bad[i]; bads[i] = badstore[i].c_str(); }
    for (size_t o = 0; o < ops; o++) {
        size_t k = s.n(15); if (s.chance(1, 12)) w.lift(s);
        if (k == 0) { on = !s.coin(); VPLOG("output %s", on ? "on" : "off"); vt_debug_disable_output(!on); switches++; label(on ? "on" : "off"); continue; }
        if (k <= 3) {
            size_t t = s.n(6); const char *p = t == 0 ? nullptr : t <= 4 ? names[t - 1].c_str() : bads[s.n(w.bad.size() - 1)];
            VPLOG("redirect to %s", p ? p : "NULL"); vt_debug_redirect_output(p); to = p ? norm(p) : S(); switches++; label(t == 0 ? "redirect to stderr" : t <= 4 ? "redirect" : "unusable redirect"); continue;
        }
        Msg m = l_msg(s); bool expr = s.chance(1, 3), quit = s.coin(); S zexpr = l_place(s, 12, "ab ><=!&%s"), subject = l_place(s, 16, "ABC d%s"), file = l_place(s, 20, "ab/_.c%s"), func = l_place(s, 12, "fgh_%s"); size_t line = l_line(s);
        int evaluated = 0, mline = 0; Death d; bool printf_form = false, need_eval = false; int form = (int)s.n(11);
        auto body = [&] {
#define E (evaluated++, expr)
            switch (form) {
#define A_CALL(...) vt_debug_assert(expr, zexpr.c_str(), subject.c_str(), quit, file.c_str(), func.c_str(), line, __VA_ARGS__)
                default: WITH_MSG(m, A_CALL); break;
#define A_PRINT(...) vt_debug_printf(subject.c_str(), __VA_ARGS__)
                case 2: WITH_MSG(m, A_PRINT); break;
#define A_MPRINT(...) VT_DEBUG_PRINTF(__VA_ARGS__)
                case 3: WITH_MSG(m, A_MPRINT); break;
#define A_ASSERT(...) mline = __LINE__; VT_DEBUG_ASSERT(E, __VA_ARGS__)
                case 4: WITH_MSG(m, A_ASSERT); break;
#define A_ASSERTC(...) VT_DEBUG_ASSERTC(E, file.c_str(), func.c_str(), line, __VA_ARGS__)
                case 5: WITH_MSG(m, A_ASSERTC); break;
#define A_CHECK(...) mline = __LINE__; VT_CHECK(E, __VA_ARGS__)
                case 6: WITH_MSG(m, A_CHECK); break;
#define A_ENF(...) mline = __LINE__; VT_ENFORCE(E, __VA_ARGS__)
                case 7: WITH_MSG(m, A_ENF); break;
#define A_NOTE(...) mline = __LINE__; VT_NOTE(__VA_ARGS__)
                case 8: WITH_MSG(m, A_NOTE); break;
#define A_REQ(...) mline = __LINE__; VT_REQUIRED(__VA_ARGS__)
                case 9: WITH_MSG(m, A_REQ); break;
#define A_TODO(...) mline = __LINE__; VT_TODO(__VA_ARGS__)
                case 10: WITH_MSG(m, A_TODO); break;
#define A_UNI(...) mline = __LINE__; VT_UNIMPLEMENTED(__VA_ARGS__)
                case 11: WITH_MSG(m, A_UNI); break;
            }
        };
        d = expect_death(body);
        if (form >= 4 && form != 5) { file = "p_log.cpp"; line = (size_t)mline; func = "operator()"; }
        const char *ez = "(evaluated++, expr)";
        switch (form) {
            case 2: printf_form = true; break;
            case 3: printf_form = true; subject = "DEBUG INFO"; break;
            case 4: case 5: subject = "DEBUG ASSERTION FAILURE"; quit = true; zexpr = ez; need_eval = true; break;
            case 6: subject = "CHECK FAILURE"; quit = false; zexpr = ez; need_eval = true; break;
            case 7: subject = "ENFORCE FAILURE"; quit = true; zexpr = ez; need_eval = true; break;
            case 8: subject = "NOTE"; quit = false; expr = false; zexpr = "!"; break;
            case 9: subject = "REQUIRED"; quit = true; expr = false; zexpr = "!"; break;
            case 10: subject = "TODO"; quit = true; expr = false; zexpr = "!"; break;
            case 11: subject = "UNIMPLEMENTED"; quit = true; expr = false; zexpr = "!"; break;
            default: break;
        }
        bool fatal = !printf_form && !expr && quit, writes = on && (printf_form || !expr);
        VPLOG("form %d (%s), condition %s, quit %d: %s", form, subject.c_str(), expr ? "holds" : "fails", (int)quit, show(m.out).c_str());
        if (need_eval) CHECK(evaluated == 1, "the condition was evaluated %d times", evaluated);
        CHECK(d.died == fatal, "%s with a condition that %s %s the program", subject.c_str(), expr ? "holds" : "fails", d.died ? "ended" : "did not end");
        if (d.died) { CHECK(!d.aborted && d.code != 0, "%s ended the program with status %d", subject.c_str(), d.code); ended++; label("ended"); }
        if (writes) {
            w.add(to, printf_form ? S(STAMP) + " " + subject + " " + m.out : S(STAMP) + " " + subject + " [" + zexpr + "] " + file + ":" + func + ":" + std::to_string(line) + ": " + m.out + "\n");
            written++; used.insert(w.usable(to) ? to : S()); label(form < 2 ? "assert" : form == 2 ? "printf" : subject.c_str()); if (!w.usable(to)) label("unusable destination");
        } else label(on ? "condition holds" : "silenced");
        if (s.chance(1, 3)) compare(w);
    }
    compare(w);
    vt_debug_redirect_output(nullptr); vt_debug_disable_output(true);
    if (written >= 2 && switches >= 1 && used.size() >= 2) nontrivial();
    (void)ended;
}
PROP("C21", c21, 700000, 2000000, F_LEAK | F_FS, "Random histories of redirects (standard error, usable files, a directory, a missing directory, a file without permission, an overlong name; some become usable midway), switching output off and on, and every debug macro and function with holding and failing conditions and generated formats (up to 9000 characters); all files, standard error and the way the program ends are compared with a model, and conditions must be evaluated exactly once. Non-trivial: two records written to two different destinations after a switch.");
