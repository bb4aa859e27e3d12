// Stateful model of dynamic strings (C03; C09/C28 workloads).
#include "seq.hpp"
#include <wchar.h>
struct StrInst { vt_str_t *s; std::string m; Alloc *a; };
static void str_check(const StrInst &x, const char *op) {
    const char *z = vt_str_z(x.s); size_t n = vt_str_len(x.s);
    CHECK(n == x.m.size(), "after %s: length %zu, expected %zu", op, n, x.m.size());
    CHECK(vt_str_capacity(x.s) >= n, "after %s: capacity %zu below length %zu", op, vt_str_capacity(x.s), n);
    check_storage(x.s, 1, op); CHECK_OWNER(x.s, x.a, op);
    CHECK(strlen(z) == n, "after %s: NUL found at %zu, but length is %zu", op, strlen(z), n);
    CHECK(!memcmp(z, x.m.data(), n + 1), "after %s: text is %s, expected %s", op, show(std::string(z, n)).c_str(), show(x.m).c_str());
    CHECK(vt_str_is_empty(x.s) == (n == 0) && vt_str_has_space(x.s) == vt_str_capacity(x.s) - n, "after %s: is_empty/has_space", op);
}
static std::string any_text(Src &s, bool big) {
    if (big && s.chance(1, 500)) { label("very long text"); size_t l = (s.coin() ? 32700 : 65500) + s.n(1200); return s.big(l); }
    if (big && s.chance(1, 2)) { size_t l = s.chance(1, 3) ? 1018 + s.n(10) : s.n(6000); return s.big(l); }
    switch (s.n(5)) { case 0: return s.bytes(30); case 1: { size_t l = s.n(120); return s.big(l); } default: return s.text(20); }
}
static char *heap_copy(const std::string &t, Alloc *a) {
    char *z = a ? (char *)VT_ALLOCATOR_ALLOC(a, t.size() + 1) : (char *)malloc(t.size() + 1);
    memcpy(z, t.c_str(), t.size() + 1); return z;
}
void str_history(Src &s, Alloc *alloctr, bool destroy) {
    bool big = s.chance(1, 12); std::vector<StrInst> live;
    {
        std::string t = any_text(s, big);
        switch (s.n(4)) {
            case 0: case 1: VPLOG("create %s%s", show(t).c_str(), alloctr ? " on an allocator" : ""); live.push_back({vt_str_create(t.c_str(), alloctr), t, alloctr}); break;
            case 2: { size_t c = 1 + s.size(50); VPLOG("create_capacity %zu%s", c, alloctr ? " on an allocator" : ""); vt_str_t *x = vt_str_create_capacity(c, alloctr); CHECK(vt_str_capacity(x) >= c, "create_capacity(%zu): capacity %zu", c, vt_str_capacity(x)); live.push_back({x, "", alloctr}); break; }
            case 3: { if (t.empty()) t = "x"; VPLOG("create_len %zu, set %s", t.size(), show(t).c_str()); vt_str_t *x = vt_str_create_len(t.size(), alloctr); CHECK(vt_str_len(x) == t.size(), "create_len(%zu): length %zu", t.size(), vt_str_len(x)); vt_str_set(x, t.c_str()); live.push_back({x, t, alloctr}); break; }
            default: { VPLOG("take_ownership %s", show(t).c_str()); char *z = heap_copy(t, alloctr); vt_str_t *x = vt_str_take_ownership(z, alloctr); CHECK(vt_str_z(x) == z, "take_ownership copied the text"); live.push_back({x, t, alloctr}); break; }
        }
    }
    str_check(live[0], "create");
    size_t nops = s.n(s.chance(1, 8) ? 80 : 25); bool grew = false, edit = false;
    for (size_t k = 0; k < nops; k++) {
        size_t w = s.n(live.size() - 1); vt_str_t *x = live[w].s; std::string &m = live[w].m; size_t n = m.size(), oldcap = vt_str_capacity(x); const char *op = "";
        switch (s.n(21)) {
            case 0: case 1: { op = "append"; std::string t = any_text(s, big); VPLOG("[%zu] append %s", w, show(t).c_str()); vt_str_append(x, t.c_str()); m += t; break; }
            case 2: { op = "append_n"; std::string t = any_text(s, big); if (t.empty()) t = "q"; size_t c = 1 + s.n(t.size() - 1); VPLOG("[%zu] append_n %s, %zu", w, show(t).c_str(), c); vt_str_append_n(x, t.c_str(), c); m += t.substr(0, c); break; }
            case 3: case 4: { op = "appendf"; std::string t = any_text(s, big); int64_t v = (int64_t)s.bits64(); int wd = (int)s.n(30); char *o = nullptr; enum VitaStatus r; int l = 0;
                if (s.chance(1, 16)) {                                   // a format that cannot be printed: refused, nothing changes
                    wint_t wc = 0x80 + (wint_t)s.n(5000); VPLOG("[%zu] appendf/insertf \"%%s%%lc%%s\" with the wide character %u", w, (unsigned)wc);
                    r = n && s.coin() ? vt_str_insertf(x, s.n(n - 1), "%s%lc%s", t.c_str(), wc, t.c_str()) : vt_str_appendf(x, "%s%lc%s", t.c_str(), wc, t.c_str());
                    CHECK(r != VT_STATUS_OPERATION_SUCCESS, "a text that cannot be formatted is reported as written"); label("unprintable format"); break;
                }
                switch (s.n(4)) {
                    case 0: VPLOG("[%zu] appendf \"%%s\" %s", w, show(t).c_str()); r = vt_str_appendf(x, "%s", t.c_str()); l = asprintf(&o, "%s", t.c_str()); break;
                    case 1: VPLOG("[%zu] appendf \"%%d:%%s%%%%\" %d %s", w, (int)v, show(t).c_str()); r = vt_str_appendf(x, "%d:%s%%", (int)v, t.c_str()); l = asprintf(&o, "%d:%s%%", (int)v, t.c_str()); break;
                    case 2: VPLOG("[%zu] appendf \"%%*ld|%%-*s|\" %d %ld", w, wd, (long)v); r = vt_str_appendf(x, "%*ld|%-*s|", wd, (long)v, wd, t.c_str()); l = asprintf(&o, "%*ld|%-*s|", wd, (long)v, wd, t.c_str()); break;
                    case 3: VPLOG("[%zu] appendf \"\"", w); r = vt_str_appendf(x, "%s", ""); l = asprintf(&o, "%s", ""); break;
                    default: VPLOG("[%zu] appendf \"%%s%%s%%c%%.3f\"", w); r = vt_str_appendf(x, "%s%s%c%.3f", t.c_str(), t.c_str(), '#', v / 8.0); l = asprintf(&o, "%s%s%c%.3f", t.c_str(), t.c_str(), '#', v / 8.0); break;
                }
                CHECK(r == VT_STATUS_OPERATION_SUCCESS, "appendf reports %d", (int)r); m.append(o, l); free(o); break; }
            case 5: case 6: if (n) { op = "insert"; std::string t = any_text(s, big); size_t at = s.n(n - 1); VPLOG("[%zu] insert %s at %zu", w, show(t).c_str(), at); vt_str_insert(x, t.c_str(), at); m.insert(at, t); edit = true; } break;
            case 7: case 8: if (n) { op = "insertf"; std::string t = any_text(s, big); size_t at = s.n(n - 1); int v = (int)s.range(-1000, 1000); enum VitaStatus r; std::string want;
                if (s.coin()) { r = vt_str_insertf(x, at, "%s", t.c_str()); want = t; } else { r = vt_str_insertf(x, at, "<%d,%s>", v, t.c_str()); want = "<" + std::to_string(v) + "," + t + ">"; }
                VPLOG("[%zu] insertf %s at %zu", w, show(want).c_str(), at); CHECK(r == VT_STATUS_OPERATION_SUCCESS, "insertf reports %d", (int)r); m.insert(at, want); edit = true; } break;
            case 9: if (n) { op = "insert_n"; std::string t = any_text(s, big); if (t.empty()) t = "q"; size_t c = 1 + s.n(t.size() - 1), at = s.n(n - 1); VPLOG("[%zu] insert_n %s, %zu at %zu", w, show(t).c_str(), c, at); vt_str_insert_n(x, t.c_str(), at, c); m.insert(at, t.substr(0, c)); edit = true; } break;
            case 10: case 11: if (n) { op = "remove"; size_t from = s.n(n - 1), c = s.chance(1, 8) ? 1 + s.size(2 * n) : s.chance(1, 12) ? SIZE_MAX - s.size(2 * n) : 1 + s.n(n - from - 1); VPLOG("[%zu] remove %zu from %zu", w, c, from); vt_str_remove(x, from, c); m.erase(from, c); edit = true; } break;
            case 12: { op = "set"; std::string t = any_text(s, big); if (t.size() > n) t.resize(n); VPLOG("[%zu] set %s", w, show(t).c_str()); vt_str_set(x, t.c_str()); m = t; break; }
            case 13: if (n) { op = "set_n"; std::string t = any_text(s, big); if (t.empty()) t = "q"; size_t c = 1 + s.n(std::min(n, t.size()) - 1); VPLOG("[%zu] set_n %s, %zu", w, show(t).c_str(), c); vt_str_set_n(x, t.c_str(), c); m = t.substr(0, c); } break;
            case 14: if (n) { op = "set_at"; size_t at = s.n(n - 1); std::string t = any_text(s, big); if (t.size() > n - at) t.resize(n - at); VPLOG("[%zu] set_at %s at %zu", w, show(t).c_str(), at); CHECK(vt_str_set_at(x, t.c_str(), at) == VT_STATUS_OPERATION_SUCCESS, "set_at reports failure"); m = m.substr(0, at) + t; edit = true; } break;
            case 15: if (n) { op = "set_c"; size_t at = s.n(n - 1); char c = (char)(1 + s.n(254)); VPLOG("[%zu] set_c %d at %zu", w, (int)c, at); CHECK(vt_str_set_c(x, c, at) == VT_STATUS_OPERATION_SUCCESS, "set_c reports failure"); m[at] = c; } break;
            case 16: op = "shrink"; VPLOG("[%zu] shrink", w); vt_str_shrink(x); CHECK(vt_str_capacity(x) == n || n == 0, "shrink: capacity %zu, length %zu", vt_str_capacity(x), n); break;
            case 17: { op = "reserve"; size_t c = g_huge_ok && oldcap < 1000000 && s.coin() ? huge_number(s) : 1 + s.size(big ? 5000 : 60); if (c > 1000000) label("several GB reserved"); VPLOG("[%zu] reserve %zu", w, c); vt_str_reserve(x, c); CHECK(vt_str_has_space(x) >= c, "reserve(%zu) leaves room for %zu", c, vt_str_has_space(x)); break; }
            case 18: { op = "resize"; size_t c = 1 + s.size(n + 20); VPLOG("[%zu] resize %zu", w, c); vt_str_resize(x, c); CHECK(vt_str_capacity(x) >= c, "resize(%zu): capacity %zu", c, vt_str_capacity(x)); if (c < n) m.resize(c); break; }
            case 19: if (s.coin()) { op = "clear"; VPLOG("[%zu] clear", w); vt_str_clear(x); m.clear(); } else { op = "validate_len"; size_t cap = vt_str_capacity(x); if (s.coin() && !x->is_view) { std::string r = any_text(s, big); if (s.chance(1, 4) && cap < 1000000) r = s.big(cap); if (r.size() > cap) r.resize(cap); VPLOG("[%zu] write %s into the storage", w, show(r).c_str()); memcpy(x->ptr, r.data(), r.size()); ((char *)x->ptr)[r.size()] = 0; m = r; n = r.size(); edit = true; } VPLOG("[%zu] validate_len", w); CHECK(vt_str_validate_len(x) == n, "validate_len gives %zu, expected %zu", vt_str_len(x), n); } break;
            default: if (live.size() < 3) { op = "dup"; VPLOG("[%zu] dup -> [%zu]", w, live.size()); vt_str_t *d = vt_str_dup(x); CHECK(d && d != x && d->ptr != x->ptr && !d->is_view, "dup shares storage with its original"); live.push_back({d, std::string(live[w].m), live[w].a}); }
                     else { op = "destroy"; VPLOG("destroy [%zu]", live.size() - 1); if (destroy || !live.back().s->alloctr) vt_str_destroy(live.back().s); live.pop_back(); } break;
        }
        if (live.size() > w && live[w].s == x && vt_str_capacity(x) > oldcap) grew = true;
        for (auto &y : live) str_check(y, op);
    }
    if (grew) label("grew"); if (edit) label("edited in the middle"); if (big) label("long text"); if (live.size() > 1) label("duplicates");
    if (grew || edit) nontrivial();
    for (auto &y : live) if (destroy || !y.s->alloctr) vt_str_destroy(y.s);
}

// The end of a text of a few GB (see vec_far).
void str_far(Src &s, Alloc *alloctr) {
    size_t b = (size_t)1 << (31 + s.n(1)), N = s.coin() ? b + s.n(4 << 20) : b - s.n(100000); g_huge_ok = true; more_time(300); label("end of several GB"); nontrivial();
    VPLOG("text of %zu characters%s", N, alloctr ? " on an allocator" : ""); vt_str_t *x = vt_str_create_len(N, alloctr); CHECK(vt_str_len(x) == N && vt_str_capacity(x) >= N, "create_len(%zu): length %zu, capacity %zu", N, vt_str_len(x), vt_str_capacity(x)); check_storage(x, 1, "create_len");
    char *z = (char *)x->ptr; const size_t HEAD = 4 << 20, K = 400, first = N - K; static const std::string ref(HEAD, 0x6b); memset(z, 0x6b, HEAD); std::string m(K, 0);
    for (size_t i = 0; i < K; i++) { m[i] = (char)('a' + s.n(25)); z[first + i] = m[i]; }
    auto check = [&](const char *op) {
        size_t n = vt_str_len(x); CHECK(n == first + m.size(), "after %s: length %zu, expected %zu", op, n, first + m.size()); const char *y = vt_str_z(x); CHECK(y[n] == 0, "after %s: no NUL after %zu characters", op, n);
        CHECK(!memcmp(y + first, m.data(), m.size()), "after %s: the end of %zu characters is %s, expected %s", op, n, show(std::string(y + first, m.size())).c_str(), show(m).c_str()); CHECK(!memcmp(y, ref.data(), HEAD), "after %s at the far end: the beginning of the text has changed", op); };
    size_t nops = 2 + s.n(12);
    for (size_t k = 0; k < nops && m.size() > 100; k++) {
        std::string t = s.text(1 + s.n(20)); if (t.empty()) t = "q"; size_t at = s.n(m.size() - 1), room = K - m.size(); const char *op = "";
        switch (k == 0 ? 0 : s.n(6)) {
            case 0: { op = "remove"; size_t c = 1 + s.n(std::min<size_t>(80, m.size() - at - 1)); VPLOG("remove %zu at %zu", c, first + at); vt_str_remove(x, first + at, c); m.erase(at, c); break; }
            case 1: if (t.size() <= room) { op = "append"; VPLOG("append %s", show(t).c_str()); vt_str_append(x, t.c_str()); m += t; } break;
            case 2: if (t.size() <= room) { op = "append_n"; VPLOG("append_n %s, %zu", show(t).c_str(), t.size()); vt_str_append_n(x, t.c_str(), t.size()); m += t; } break;
            case 3: if (t.size() <= room) { op = "insert"; VPLOG("insert %s at %zu", show(t).c_str(), first + at); vt_str_insert(x, t.c_str(), first + at); m.insert(at, t); } break;
            case 4: if (t.size() <= room) { op = "insert_n"; VPLOG("insert_n %s, %zu at %zu", show(t).c_str(), t.size(), first + at); vt_str_insert_n(x, t.c_str(), first + at, t.size()); m.insert(at, t); } break;
            case 5: if (t.size() <= room) { op = "appendf"; VPLOG("appendf %s", show(t).c_str()); vt_str_appendf(x, "%s", t.c_str()); m += t; } break;
            default: { op = "set_c"; char c = (char)(33 + s.n(90)); VPLOG("set_c %c at %zu", c, first + at); vt_str_set_c(x, c, first + at); m[at] = c; }
        }
        check(op);
    }
    vt_str_destroy(x);
}
