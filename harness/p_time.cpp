// C13 date-time texts, C14 calendar facts, C15 date arithmetic.
#include "vp.hpp"
using namespace vp;
typedef std::string S;
typedef struct VitaDateTime DT;

// ------------------------------------------------------------------ an independent proleptic Gregorian calendar (days since 1970-01-01)
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
static int64_t jan1(int y) { int64_t p = y - 1; return p * 365 + p / 4 - p / 100 + p / 400 - 719162; }    // y >= 1
static int yday(int y, int m, int d) { int n = d; for (int k = 1; k < m; k++) n += mdays(y, k); return n; }
static int64_t days_of(int y, int m, int d) { return jan1(y) + yday(y, m, d) - 1; }
static int wday(int64_t days) { int64_t w = (days + 3) % 7; return (int)((w + 7) % 7) + 1; }                // 1970-01-01 is a Thursday (4)
static void civil(int64_t days, int &y, int &m, int &d) {
    y = (int)(1970 + days / 366); while (y < 1 || jan1(y) > days) y--; while (jan1(y + 1) <= days) y++;
    int r = (int)(days - jan1(y)); for (m = 1; r >= mdays(y, m); m++) r -= mdays(y, m);
    d = r + 1;
}
static int64_t floordiv(int64_t a, int64_t b) { int64_t q = a / b; return a % b < 0 ? q - 1 : q; }
static DT dt_of(int64_t wall) {                                                                           // wall-clock seconds -> all fields
    int64_t days = floordiv(wall, 86400), r = wall - days * 86400; int y, m, d; civil(days, y, m, d);
    DT t; memset(&t, 0, sizeof t); t.year = y; t.month = m; t.month_day = d; t.hour = r / 3600; t.minute = r / 60 % 60; t.second = r % 60; t.week_day = wday(days); t.year_day = yday(y, m, d); return t;
}
static int64_t wall_of(const DT &t) { return days_of(t.year, t.month, t.month_day) * 86400 + t.hour * 3600 + t.minute * 60 + t.second; }
static bool same(const DT &a, const DT &b) { return a.year == b.year && a.month == b.month && a.month_day == b.month_day && a.hour == b.hour && a.minute == b.minute && a.second == b.second; }
static bool same_all(const DT &a, const DT &b) { return same(a, b) && a.week_day == b.week_day && a.year_day == b.year_day; }
static S str(const DT &t) { char b[128]; snprintf(b, sizeof b, "%d-%02d-%02d %02d:%02d:%02d (wd %d, yd %d)", t.year, t.month, t.month_day, t.hour, t.minute, t.second, t.week_day, t.year_day); return b; }

// ------------------------------------------------------------------ time zones (rules spelled out: no zone files needed)
static const char *const zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "AEST-10AEDT,M10.1.0,M4.1.0/3", "LINT-14", "AOE12", "NPT-5:45", "NST3:30NDT,M3.2.0,M11.1.0"};
static const char *set_zone(Src &s) { const char *z = zones[s.coin() ? 0 : s.n(sizeof zones / sizeof *zones - 1)]; setenv("TZ", z, 1); tzset(); VPLOG("TZ=%s", z); if (z != zones[0]) label("zone other than UTC"); return z; }
static int64_t offset_at(int64_t t) { time_t x = (time_t)t; struct tm r; memset(&r, 0, sizeof r); localtime_r(&x, &r); return r.tm_gmtoff; }
// the instants at which the wall clock shows w
static std::vector<int64_t> instants(int64_t w) {
    std::set<int64_t> offs{offset_at(w - 86400 * 2), offset_at(w + 86400 * 2), offset_at(w)}; std::vector<int64_t> r;
    for (int64_t o : offs) if (offset_at(w - o) == o) r.push_back(w - o);
    return r;
}

// ------------------------------------------------------------------ generators
static int gen_year(Src &s) {
    switch (s.n(5)) { case 0: return 1970 + (int)s.n(60); case 1: return 100 * (10 + (int)s.n(89)); case 2: return 100 * (10 + (int)s.n(88)) + 4 * (int)s.n(25); case 3: { static const int e[] = {1000, 9999, 1969, 1970, 1900, 2000, 2038, 1582, 2100, 1999, 2400, 1901}; return e[s.n(11)]; } default: return 1000 + (int)s.n(8999); }
}
static DT gen_dt(Src &s, bool leap_second = false) {
    DT t; memset(&t, 0, sizeof t); t.year = gen_year(s);
    switch (s.n(3)) { case 0: { static const int e[][2] = {{1, 1}, {12, 31}, {2, 28}, {3, 1}, {2, 29}, {12, 30}, {3, 31}, {10, 31}}; size_t k = s.n(7); t.month = e[k][0]; t.month_day = e[k][1]; break; } case 1: t.month = 1 + s.n(11); t.month_day = mdays(t.year, t.month) - (int)s.n(1); break; default: t.month = 1 + s.n(11); t.month_day = 1 + s.n(30); }
    if (t.month_day > mdays(t.year, t.month)) t.month_day = mdays(t.year, t.month);
    if (s.chance(1, 4)) { static const int e[][3] = {{0, 0, 0}, {23, 59, 59}, {12, 0, 0}, {11, 59, 59}, {0, 0, 1}, {1, 59, 59}, {3, 0, 0}}; size_t k = s.n(6); t.hour = e[k][0]; t.minute = e[k][1]; t.second = e[k][2]; } else { t.hour = s.n(23); t.minute = s.n(59); t.second = s.n(59); }
    if (leap_second && s.chance(1, 16)) t.second = 60;
    t.week_day = wday(days_of(t.year, t.month, t.month_day)); t.year_day = yday(t.year, t.month, t.month_day);
    VPLOG("date-time %s", str(t).c_str()); return t;
}

// ------------------------------------------------------------------ C13
struct Form { const char *name, *pat; void (*to)(const DT, char *, const size_t); DT (*from)(const char *); bool (*valid)(const char *const); };
static const Form forms[] = {{"text", "%04d-%02d-%02d %02d:%02d:%02d", vt_datetime_to_text, vt_datetime_from_text, vt_datetime_is_valid_text}, {"iso", "%04d%02d%02dT%02d%02d%02d", vt_datetime_to_text_iso, vt_datetime_from_text_iso, vt_datetime_is_valid_text_iso}, {"iso_ext", "%04d-%02d-%02dT%02d:%02d:%02d", vt_datetime_to_text_iso_ext, vt_datetime_from_text_iso_ext, vt_datetime_is_valid_text_iso_ext}};
static S render(const Form &f, const DT &t) { char b[64]; snprintf(b, sizeof b, f.pat, t.year, t.month, t.month_day, t.hour, t.minute, t.second); return b; }
static S pretty(const DT &t) {
    static const char *const wd[] = {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}, *const mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    char b[64]; snprintf(b, sizeof b, "%s %s %2d %02d:%02d:%02d %d", wd[t.week_day - 1], mo[t.month - 1], t.month_day, t.hour, t.minute, t.second, t.year); return b;
}
template <class F> static S into_buffer(Src &s, F f) {       // an exactly sized heap buffer of at least VT_DATETIME_BUFFER_SIZE bytes
    size_t n = VT_DATETIME_BUFFER_SIZE + (s.coin() ? 0 : s.n(80)); char *b = (char *)malloc(n); memset(b, 0x5a, n); f(b, n);
    size_t l = strnlen(b, n); CHECK(l < n, "the text is not terminated within its %zu bytes", n); S r(b, l); free(b); return r;
}
static bool valid_exact(const Form &f, const S &z) { char *b = (char *)malloc(z.size() + 1); memcpy(b, z.c_str(), z.size() + 1); bool r = f.valid(b); free(b); return r; }
static void c13(Src &s) {
    set_zone(s);
    if (s.chance(1, 6)) {                                    // the current time
        int64_t now = s.range(-30000000000ll, 250000000000ll); if (!now) now = 1; DT w = dt_of(now + offset_at(now)); g_fake_time = (time_t)now; VPLOG("the clock shows %lld", (long long)now); label("current time");
        DT g = vt_datetime_get_now(); CHECK(same_all(g, w), "now is %s, get_now gives %s", str(w).c_str(), str(g).c_str());
        S a = into_buffer(s, [](char *b, size_t n) { vt_datetime_get_now_as_text(b, n); }); CHECK(a == render(forms[0], w), "now as text: %s, expected %s", show(a).c_str(), render(forms[0], w).c_str());
        S p = into_buffer(s, [](char *b, size_t n) { vt_datetime_get_now_as_text_pretty(b, n); }); CHECK(p == pretty(w), "now as readable text: %s, expected %s", show(p).c_str(), pretty(w).c_str());
        g_fake_time = 0; nontrivial(); return;
    }
    DT t = gen_dt(s, true);
    if (s.chance(1, 5)) { S p = into_buffer(s, [&](char *b, size_t n) { vt_datetime_to_text_pretty(t, b, n); }); CHECK(p == pretty(t), "readable form %s, expected %s", show(p).c_str(), show(pretty(t)).c_str()); label("readable form"); nontrivial(); }
    const Form &f = forms[s.n(2)]; S want = render(f, t);
    S z = into_buffer(s, [&](char *b, size_t n) { f.to(t, b, n); });
    CHECK(z == want, "%s form of %s is %s", f.name, str(t).c_str(), show(z).c_str());
    CHECK(valid_exact(f, z), "the %s validator rejects %s", f.name, show(z).c_str());
    DT r = f.from(z.c_str()); CHECK(same(r, t), "%s reads back as %s", show(z).c_str(), str(r).c_str());
    if (t.month_day != 1 || t.hour) nontrivial();
    for (size_t k = s.n(2); k > 0; k--) {                     // damaged text must be rejected
        S bad = z; size_t i = s.n(bad.size() - 1); bool digit = isdigit((unsigned char)bad[i]);
        switch (s.n(3)) {
            case 0: bad.resize(i); break;
            case 1: { char c = digit ? "-/: T.xOl\t"[s.n(9)] : "0123456789T -:./"[s.n(15)]; if (c == bad[i]) c = '#'; bad[i] = c; break; }
            case 2: { unsigned char c = (unsigned char)s.range(1, 255); if (c == (unsigned char)bad[i] || (digit && isdigit(c))) c = 0xb2; bad[i] = (char)c; break; }
            default: { const Form &g = forms[(&f - forms + 1 + s.n(1)) % 3]; bad = render(g, t); break; }                // another form's text
        }
        VPLOG("%s validator on %s", f.name, show(bad).c_str()); label("damaged text");
        CHECK(!valid_exact(f, bad), "the %s validator accepts %s", f.name, show(bad).c_str());
        if (s.chance(1, 4)) { char *b = (char *)malloc(bad.size() + 1); memcpy(b, bad.c_str(), bad.size() + 1); Death d = expect_death([&] { f.from(b); }); CHECK_DIES(d, "parsing a text the validator rejects"); free(b); }
    }
    if (s.chance(1, 12)) { size_t n = s.n(VT_DATETIME_BUFFER_SIZE - 1); char *b = (char *)malloc(n ? n : 1); b[0] = 0x5a; VPLOG("buffer of %zu bytes", n); Death d = expect_death([&] { if (s.coin()) f.to(t, b, n); else vt_datetime_to_text_pretty(t, b, n); }); CHECK_DIES(d, "formatting into a buffer below the stated minimum"); free(b); label("buffer too small"); }
}
PROP("C13", c13, 5000000, 30000000, 0, "Random valid date-times (years 1000-9999 biased to epoch, century and leap years; month ends; day boundaries; leap second) in nine time zones are written in all forms into exactly sized heap buffers and compared with an independent renderer, validated and parsed back; the texts are then damaged (cut, one character replaced, another form's text) and must be rejected; the current time is taken from a set clock. Non-trivial: not midnight on the first of a month.");

// ------------------------------------------------------------------ C14
static void c14(Src &s) {
    const char *z = set_zone(s); (void)z;
    DT t = gen_dt(s); if (s.coin()) { t.week_day = (int16_t)s.range(-2, 9); t.year_day = (int16_t)s.range(-2, 400); }    // must be ignored
    bool lp = leap(t.year); int md = mdays(t.year, t.month); int64_t days = days_of(t.year, t.month, t.month_day); int wd = wday(days), yd = yday(t.year, t.month, t.month_day);
    CHECK(vt_datetime_is_leap_year(t) == lp, "is_leap_year(%d) is %d", t.year, (int)!lp);
    CHECK(vt_datetime_find_days_in_year(t) == (lp ? 366 : 365), "days in %d: %d", t.year, vt_datetime_find_days_in_year(t));
    CHECK(vt_datetime_find_days_in_month(t) == md, "days in %d-%02d: %d", t.year, t.month, vt_datetime_find_days_in_month(t));
    CHECK(vt_datetime_find_year_day(t) == yd, "year day of %s: %d, expected %d", str(t).c_str(), vt_datetime_find_year_day(t), yd);
    CHECK(vt_datetime_find_week_day(t) == wd, "week day of %s: %d, expected %d", str(t).c_str(), vt_datetime_find_week_day(t), wd);
    if (t.year < 1970) label("before 1970"); if (lp && t.month == 2 && t.month_day == 29) label("leap day"); if (t.year % 100 == 0) label("century");
    if (t.month > 1) nontrivial();
    for (int k = 0; k < 3; k++) if (s.chance(1, 3)) { S x = render(forms[k], t); DT r = forms[k].from(x.c_str()); CHECK(r.week_day == wd && r.year_day == yd && same(r, t), "%s parses as %s; expected week day %d, year day %d", x.c_str(), str(r).c_str(), wd, yd); label("parsed from text"); }
    if (s.chance(1, 8)) { DT q = t; q.month = s.coin() ? (int16_t)-s.n(5) : (int16_t)(13 + s.n(5)); CHECK(vt_datetime_find_days_in_month(q) == 31, "days in month %d: %d", q.month, vt_datetime_find_days_in_month(q)); }
    if (s.coin()) {                                          // partial or out-of-range fields
        int16_t y = s.chance(1, 8) ? (int16_t)-(1 + s.n(3000)) : t.year, mo = t.month, d = t.month_day, h = t.hour, mi = t.minute, se = t.second, gw = -1, gy = -1;
        auto wild = [&](int lo, int hi) { return (int16_t)(s.coin() ? lo - 1 - (int)s.n(s.coin() ? 3 : 30000) : hi + 1 + (int)s.n(s.coin() ? 3 : 30000)); };
        if (s.chance(1, 4)) mo = wild(1, 12); if (s.chance(1, 4)) h = wild(0, 23); if (s.chance(1, 4)) mi = wild(0, 59); if (s.chance(1, 4)) se = wild(0, 60);
        int ey = y < 0 ? VT_DATETIME_MIN_YEAR_RANGE : y, em = mo < 1 ? 1 : mo > 12 ? 12 : mo;
        if (s.chance(1, 3)) d = wild(1, 31);
        if (d >= 1 && d <= 31 && d > mdays(ey, em)) d = mdays(ey, em);
        if (s.chance(1, 4)) gw = wild(1, 7); else if (s.chance(1, 4)) gw = 1 + s.n(6); if (s.chance(1, 4)) gy = wild(1, 366); else if (s.chance(1, 4)) gy = 1 + s.n(365);
        VPLOG("create(%d,%d,%d, %d,%d,%d, %d,%d)", y, mo, d, h, mi, se, gw, gy);
        DT r = vt_datetime_create(y, mo, d, h, mi, se, gw, gy), e; memset(&e, 0, sizeof e);
        e.year = ey; e.month = em; e.month_day = d < 1 ? 1 : d > 31 ? mdays(ey, em) : d; e.hour = h < 0 ? 0 : h > 23 ? 23 : h; e.minute = mi < 0 ? 0 : mi > 59 ? 59 : mi; e.second = se < 0 ? 0 : se > 60 ? 60 : se;
        e.week_day = gw >= 1 && gw <= 7 ? gw : wday(days_of(ey, em, e.month_day)); e.year_day = gy >= 1 && gy <= 366 ? gy : yday(ey, em, e.month_day);
        CHECK(same_all(r, e), "create gives %s, expected %s", str(r).c_str(), str(e).c_str()); label("created from fields"); nontrivial();
    }
}
PROP("C14", c14, 8000000, 60000000, 0, "Random dates of years 1000-9999 (biased to centuries, leap years, month ends, the epoch) in nine time zones, with wrong week/year day fields that must not matter: leap year, days in month and year, day of year and of week against an independent proleptic Gregorian calendar, also after parsing from text and for create() with out-of-range fields. Non-trivial: after January, or created from partial fields.");

// ------------------------------------------------------------------ C15
static const int64_t LO = -30610224000ll + 86400 * 40000ll, HI = 253402300799ll - 86400 * 40000ll;    // years ~1110 to ~9889: offsets stay within four digits
static int64_t gen_secs(Src &s) { switch (s.n(4)) { case 0: return s.range(-100000, 100000); case 1: return s.range(-2208988800ll, 4102444800ll); case 2: { DT t = gen_dt(s); int64_t w = wall_of(t); return w < LO ? LO : w > HI ? HI : w; } default: return s.range(LO, HI); } }
static void c15(Src &s) {
    if (s.n(127) == 1) {                                     // the recorded finding: single-precision division in vt_datetime_diff
        setenv("TZ", "UTC0", 1); tzset(); DT a = dt_of(wall_of(DT{2023, 5, 25, 18, 40, 0, 0, 0})), b = dt_of(wall_of(DT{2023, 5, 19, 20, 31, 1, 0, 0})), r = vt_datetime_diff(a, b);
        if (r.second != 59 && r.minute == 8 && r.hour == 22 && r.month_day == 5) known_finding("vt_datetime_diff(2023-05-25 18:40:00, 2023-05-19 20:31:01) reports 58 instead of 59 seconds (the breakdown is computed in single precision)");
    }
    set_zone(s); int64_t t1 = gen_secs(s); VPLOG("t1=%lld", (long long)t1);
    DT d1 = vt_datetime_from_secs((time_t)t1), w1 = dt_of(t1 + offset_at(t1));
    CHECK(same_all(d1, w1), "from_secs(%lld) is %s, expected %s", (long long)t1, str(d1).c_str(), str(w1).c_str());
    int64_t wall1 = wall_of(w1); auto i1 = instants(wall1);
    if (i1.size() != 1) { label("skipped or repeated hour"); return; }
    CHECK((int64_t)vt_datetime_to_secs(w1) == t1, "to_secs(%s) is %lld, expected %lld", str(w1).c_str(), (long long)vt_datetime_to_secs(w1), (long long)t1);
    if (s.coin()) { DT q = w1; q.week_day = 0; q.year_day = 0; CHECK((int64_t)vt_datetime_to_secs(q) == t1, "to_secs depends on the week or year day of %s", str(w1).c_str()); }
    if (s.coin()) {                                          // adding an offset
        DT dl; memset(&dl, 0, sizeof dl); auto part = [&](int max) -> int16_t { switch (s.n(4)) { case 0: return 0; case 1: return (int16_t)s.range(-2, 2); case 2: return (int16_t)s.range(-100, 100); default: return (int16_t)s.range(-max, max); } };
        dl.month_day = part(30000); dl.hour = part(32767); dl.minute = part(32767); dl.second = part(32767);
        int64_t base = wall1; bool ym = s.chance(1, 4);     // a day the month does not have counts on into the next one
       
        if (ym) { dl.year = (int16_t)s.range(-20, 20); dl.month = (int16_t)s.range(-30, 30); int mm = w1.month - 1 + dl.month, yy = w1.year + dl.year + (int)floordiv(mm, 12); DT b = w1; b.year = yy; b.month = mm - (int)floordiv(mm, 12) * 12 + 1; base = wall_of(b); label("offset with years and months"); }
        int64_t wall2 = base + dl.month_day * 86400ll + dl.hour * 3600ll + dl.minute * 60ll + dl.second; VPLOG("+ %dy %dm %dd %dh %dm %ds", dl.year, dl.month, dl.month_day, dl.hour, dl.minute, dl.second);
        auto i2 = instants(wall2); bool steady = true;         // a clock change between the partial sums would make elapsed and wall-clock time differ
        for (int64_t w : std::vector<int64_t>{base, base + dl.month_day * 86400ll, base + dl.month_day * 86400ll + dl.hour * 3600ll, wall2 - dl.second, wall2 - dl.second - dl.minute * 60ll}) { auto k = instants(w); if (k.size() != 1 || offset_at(k[0]) != offset_at(t1)) steady = false; }
        if (i2.size() == 1 && offset_at(i2[0]) == offset_at(t1) && steady) {
            DT r = vt_datetime_op(w1, dl), e = dt_of(wall2); CHECK(same_all(r, e), "%s plus the offset is %s, expected %s", str(w1).c_str(), str(r).c_str(), str(e).c_str());
            label("offset added"); if (e.month != w1.month) nontrivial();
        } else label("offset across a clock change");
    } else {
        int64_t t2; switch (s.n(3)) { case 0: t2 = t1 + s.range(-100000, 100000); break; case 1: t2 = t1 + s.range(-3000000, 3000000); break; case 2: t2 = t1 + 86400 * s.range(-400, 400) + s.range(-1, 1); break; default: t2 = gen_secs(s); }
        DT w2 = dt_of(t2 + offset_at(t2)); auto i2 = instants(wall_of(w2)); if (i2.size() != 1) { label("skipped or repeated hour"); return; }
        int64_t df = t1 - t2; VPLOG("minus %s", str(w2).c_str()); label("difference"); if (df) nontrivial();
        CHECK((int64_t)vt_datetime_diff_secs(w1, w2) == df, "diff_secs is %lld, expected %lld", (long long)vt_datetime_diff_secs(w1, w2), (long long)df);
        CHECK((int64_t)vt_datetime_diff_minutes(w1, w2) == df / 60, "diff_minutes is %lld for %lld s", (long long)vt_datetime_diff_minutes(w1, w2), (long long)df);
        CHECK((int64_t)vt_datetime_diff_hours(w1, w2) == df / 3600, "diff_hours is %lld for %lld s", (long long)vt_datetime_diff_hours(w1, w2), (long long)df);
        CHECK((int64_t)vt_datetime_diff_days(w1, w2) == df / 86400, "diff_days is %lld for %lld s", (long long)vt_datetime_diff_days(w1, w2), (long long)df);
        int64_t mag = df < 0 ? -df : df;
        if (mag / 86400 <= 32000) {
            DT r = vt_datetime_diff(w1, w2); int64_t sum = r.month_day * 86400ll + r.hour * 3600ll + r.minute * 60ll + r.second; if (df < 0) sum = -sum;
            int64_t tol = mag >> 22;                         // single precision (the recorded finding) loses at most this much and the fraction of a second
            CHECK(sum <= mag + tol && sum >= mag - 1 - tol, "the difference of %lld s is broken down as %d d %d h %d m %d s", (long long)df, r.month_day, r.hour, r.minute, r.second);
            CHECK(abs(r.hour) < 24 && abs(r.minute) < 60 && abs(r.second) < 60, "the difference of %lld s is broken down as %d d %d h %d m %d s", (long long)df, r.month_day, r.hour, r.minute, r.second);
            CHECK(r.year == 0 && r.month == 0, "the difference of %lld s has years or months", (long long)df);
            label("breakdown");
        }
    }
}
PROP("C15", c15, 7000000, 40000000, 0, "Random instants (around the epoch, 1900-2100, month and year ends, years 1110-9889) in nine time zones incl. daylight saving ones: from_secs against an independent calendar, to_secs back, random day/hour/minute/second (and year/month) offsets with carries, and differences in seconds, minutes, hours, days and broken down. Wall-clock times that a clock change skips or repeats are left out. Non-trivial: a non-zero difference or an offset that changes the month.");
