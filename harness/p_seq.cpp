// C01 vectors, C02 pointer lists, C07 sliders and apply.
#include "seq.hpp"
#include "seq_impl.cpp"

static void c01(Src &s) { g_huge_ok = s.chance(1, 2500); Alloc *a = s.coin() ? vt_mallocator_create() : nullptr; if (far_case(s, 4000)) vec_far(s, a); else vec_history(s, a, true); if (a) vt_mallocator_destroy(a); }
PROP("C01", c01, 600000, 20000000, F_LEAK, "Random histories of 1-120 vector operations (11 element types and raw element sizes 1-300, up to 3 live vectors incl. duplicates, heap or allocator, now and then several GB reserved, or the history plays at the end of a vector of 2-8 GB) run against std::vector. Non-trivial: the storage grew or an element was removed from the middle.");
static void c02(Src &s) { g_huge_ok = s.chance(1, 2500); Alloc *a = s.coin() ? vt_mallocator_create() : nullptr; if (far_case(s, 4000)) plist_far(s, a); else plist_history(s, a, true); if (a) vt_mallocator_destroy(a); }
PROP("C02", c02, 1800000, 20000000, F_LEAK, "Random histories of 1-120 pointer-list operations over unmapped addresses (a dereference or free crashes), up to 3 live lists, heap or allocator, now and then several GB reserved or at the end of a list of 2-8 GB, run against std::vector<void*>. Non-trivial: the storage grew or an element was removed.");

// ------------------------------------------------------------------ C07
// A slider is a position 0..len: each slide gives the next element in its direction or, past the last, null and starts over.
struct Slid { int kind; void *c; size_t len, elsize; std::vector<void *> m; };   // kind 0 vec, 1 plist, 2 str, 3 span, 4 base array over vec, 5 base array over str
static void *slide(Slid &x, bool back) {
    switch (x.kind) {
        case 0: return back ? vt_vec_slide_back((vt_vec_t *)x.c) : vt_vec_slide_front((vt_vec_t *)x.c);
        case 1: return back ? vt_plist_slide_back((vt_plist_t *)x.c) : vt_plist_slide_front((vt_plist_t *)x.c);
        case 2: return back ? (void *)vt_str_slide_back((vt_str_t *)x.c) : (void *)vt_str_slide_front((vt_str_t *)x.c);
        default: return back ? vt_array_slide_back((struct VitaBaseArrayType *)x.c) : vt_array_slide_front((struct VitaBaseArrayType *)x.c);
    }
}
static void slide_reset(Slid &x) {
    switch (x.kind) {
        case 0: vt_vec_slide_reset((vt_vec_t *)x.c); break; case 1: vt_plist_slide_reset((vt_plist_t *)x.c); break;
        case 2: vt_str_slide_reset((vt_str_t *)x.c); break; default: vt_array_slide_reset((struct VitaBaseArrayType *)x.c);
    }
}
static void *expect_at(Slid &x, size_t i) {
    if (x.kind == 1) return x.m[i];
    return (char *)((struct VitaBaseArrayType *)x.c)->ptr + i * x.elsize;
}
static std::vector<std::pair<void *, size_t>> *g_str_calls;
static void str_cb(char *p, size_t i) { g_str_calls->push_back({p, i}); }
static void c07_push(Src &s, vt_vec_t *v, vt_plist_t *p, vt_str_t *st, size_t es, std::vector<void *> &m) {
    if (v) { std::string e(es, 'n'); vt_vec_push_back(v, e.data()); } else if (p) { void *q = (void *)(uintptr_t)(16 + 16 * m.size()); vt_plist_push_back(p, q); m.push_back(q); }
    else switch (s.n(2)) { case 0: vt_str_append(st, "n"); break; case 1: vt_str_appendf(st, "%c", 'n'); break; default: vt_str_append_n(st, "nx", 1); }
}
static void c07_pop(Src &s, vt_vec_t *v, vt_plist_t *p, vt_str_t *st, std::vector<void *> &m) {
    size_t how = s.n(4); enum VitaRemoveStrategy rs = s.coin() ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE;
    if (v) { size_t n = vt_vec_len(v); if (how == 1) vt_vec_pop_get(v); else if (how == 2) vt_vec_remove(v, n - 1, rs); else if (how == 3 && n > 1) vt_vec_resize(v, n - 1); else vt_vec_pop(v); }
    else if (p) { size_t n = vt_plist_len(p); if (how == 1) CHECK(vt_plist_pop_get(p) == m.back(), "pop gives another pointer"); else if (how == 2) vt_plist_remove(p, n - 1, rs); else if (how == 3 && n > 1) vt_plist_resize(p, n - 1); else if (how == 4 && (n < 2 || m[n - 2] != m.back())) vt_plist_remove_element(p, m.back(), rs); else vt_plist_pop(p); m.pop_back(); }
    else { size_t n = vt_str_len(st); if (how == 3 && n > 1) vt_str_resize(st, n - 1); else vt_str_remove(st, n - 1, how == 1 ? 5 : 1); }
}
static size_t c07_read(Src &s, vt_vec_t *v, vt_plist_t *p, vt_str_t *st, size_t n, size_t es) {   // changes nothing a slide could see
    std::string e(es, 'q'); size_t how = s.n(3);
    if (how == 0) { size_t k = 1 + s.n(20); if (v) vt_vec_reserve(v, k); else if (p) vt_plist_reserve(p, k); else vt_str_reserve(st, k); }
    else if (how == 1 && n) { if (v) vt_vec_shrink(v); else if (p) vt_plist_shrink(p); else vt_str_shrink(st); }
    else if (how == 2 && n) { size_t at = s.n(n - 1); if (v) vt_vec_set(v, e.data(), at); else if (p) vt_plist_set(p, vt_plist_get(p, at), at); else vt_str_set_c(st, 'q', at); }
    else if (n) {                                                         // a duplicate is slid over on its own
        size_t k = 0; if (v) { vt_vec_t *d = vt_vec_dup(v, v->alloctr); while (vt_vec_slide_front(d)) k++; vt_vec_destroy(d); } else if (p) { vt_plist_t *d = vt_plist_dup(p, p->alloctr); while (vt_plist_slide_front(d)) k++; vt_plist_destroy(d); } else { vt_str_t *d = vt_str_dup(st); while (vt_str_slide_front(d)) k++; vt_str_destroy(d); }
        CHECK(k == n, "a slide over the duplicate of a container with %zu elements ends after %zu", n, k); }
    return how;
}
// a slide from the back of a container of several GB (see vec_far): the slots have offsets beyond 31 and 32 bits
static void c07_far(Src &s, Alloc *a) {
    bool list = s.chance(1, 3); size_t es = list ? 8 : 1 + s.n(40), b = (size_t)1 << (31 + s.n(1)), n = (b + s.n(4 << 20)) / es; g_huge_ok = true; more_time(300); label("end of several GB"); nontrivial(); VPLOG("%s with %zu elements of size %zu", list ? "plist" : "vec", n, es);
    vt_vec_t *v = nullptr; vt_plist_t *p = nullptr; if (list) { p = vt_plist_create(n, a); vt_plist_resize(p, n); } else { v = vt_vec_create(n, es, a); vt_vec_resize(v, n); }
    size_t k = 1 + s.n(100); if (p) for (size_t i = 0; i < k; i++) vt_plist_set(p, (void *)(uintptr_t)(16 + 16 * i), n - 1 - i);
    for (int round = 0; round < 2; round++) {
        VPLOG("slide back, %zu calls, then reset", k);
        for (size_t i = 0; i < k; i++) { void *got = p ? vt_plist_slide_back(p) : vt_vec_slide_back(v), *want = p ? (void *)(uintptr_t)(16 + 16 * i) : (char *)v->ptr + (n - 1 - i) * es; CHECK(got == want, "slide back, call %zu of a container with %zu elements of size %zu: got %p, expected %p", i, n, es, got, want); }
        if (p) vt_plist_slide_reset(p); else vt_vec_slide_reset(v);
    }
    if (p) vt_plist_destroy(p); if (v) vt_vec_destroy(v);
}
static void c07(Src &s) {
    Alloc *a = s.coin() ? vt_mallocator_create() : nullptr;
    if (far_case(s, 10000)) { c07_far(s, a); if (a) vt_mallocator_destroy(a); return; }
    Slid x; x.kind = (int)s.n(4); if (x.kind == 3) x.kind = 4;
    size_t n = s.chance(1, 7000) ? 60000 + s.n(s.coin() ? 10000 : 80000) : s.big_size(s.chance(1, 20) ? 3000 : 80); size_t same_ptr = s.chance(1, 4) ? 2 + s.n(2) : 1; if (n > 3000) label("more than 60000 elements");
    size_t es = x.kind == 1 ? sizeof(void *) : x.kind == 2 ? 1 : 1 + s.n(40); bool base = s.chance(1, 4) && x.kind != 1;
    x.len = n; x.elsize = es; vt_vec_t *v = nullptr; vt_plist_t *p = nullptr; vt_str_t *st = nullptr;
    if (x.kind == 0 || x.kind == 4) { v = vt_vec_create(1 + s.n(8), es, a); std::string e(es, 'x'); for (size_t i = 0; i < n; i++) { e[0] = (char)i; vt_vec_push_back(v, e.data()); } x.c = v; }
    else if (x.kind == 1) { p = vt_plist_create(1 + s.n(8), a); for (size_t i = 0; i < n; i++) { void *q = (void *)(uintptr_t)(16 + 16 * (i / same_ptr)); x.m.push_back(q); vt_plist_push_back(p, q); } x.c = p; }
    else { std::string t = s.big(n); st = vt_str_create(t.c_str(), a); x.c = st; }
    if (base && x.kind == 0) x.kind = 4;
    if (base && x.kind == 2) x.kind = 5;
    VPLOG("container kind %d with %zu elements of size %zu", x.kind, n, es);
    size_t rounds = 1 + s.n(4); bool ended = false;
    for (size_t r = 0; r < rounds; r++) {
        bool back = s.coin(), partial = s.chance(1, 3); size_t stop = partial ? s.n(n) : n + 1;
        bool cut = s.chance(1, 5); size_t cut_at = cut ? s.n(n) : 0;          // the container changes at its end while it is being slid over
        VPLOG("slide %s, %zu calls%s", back ? "back" : "front", stop, partial ? ", then reset" : "");
        size_t pos = 0; bool loose = false;
        bool look = s.chance(1, 6); size_t look_at = look ? s.n(n) : 0;
        for (size_t i = 0; i < stop; i++) {
            if (look && i == look_at) { size_t how = c07_read(s, v, p, st, n, es); VPLOG("  midway: %s", how == 0 ? "reserve" : how == 1 ? "shrink" : how == 2 ? "set" : "duplicate"); label("read midway"); }
            if (cut && i == cut_at) {
                size_t how = s.n(2), k = 1 + s.n(3);
                if (how == 0) { for (; k > 0; k--) c07_push(s, v, p, st, es, x.m), n++; }
                else if (how == 1) { for (; k > 0 && n; k--) c07_pop(s, v, p, st, x.m), n--; }
                else { if (v) vt_vec_clear(v); else if (p) { vt_plist_clear(p); x.m.clear(); } else vt_str_clear(st); n = 0; }
                VPLOG("  midway: %zu elements now", n); label("changed midway"); stop = pos < n ? i + (n - pos) + 1 : i + 1; partial = false; loose = back && pos > 0;
            }
            void *got = slide(x, back), *want = pos < n ? expect_at(x, back ? n - 1 - pos : pos) : nullptr;
            if (loose && pos < n) { bool in = false; if (p) { for (void *q : x.m) in = in || q == got; } else in = got >= expect_at(x, 0) && got <= expect_at(x, n - 1); CHECK(in, "slide back after the container changed: %p is not in it (%zu elements)", got, n); }
            else CHECK(got == want, "slide %s, call %zu of a container with %zu elements: got %p, expected %p", back ? "back" : "front", i, n, got, want);
            pos++;
        }
        if (partial) { slide_reset(x); label("reset midway"); } else { ended = true; label("slid to the end"); }
        if (v || p || st) {   // grow or shrink between rounds: the next round covers the new content
            if (s.chance(1, 4)) { c07_push(s, v, p, st, es, x.m); n++; VPLOG("push_back"); } else if (s.chance(1, 4) && n) { c07_pop(s, v, p, st, x.m); n--; VPLOG("pop"); }
        }
    }
    if (s.chance(1, 8)) {   // the loop macros: from..to-1 upwards, to..from+1 downwards, every step-th
        size_t hi = s.coin() ? n : s.n(200), from = s.n(hi), step = 1 + s.n(5), i0 = from, k = 0, steps = 0; VPLOG("loops from %zu to %zu, step %zu", from, hi, step);
        VT_FOREACH(i, from, hi) { CHECK(i == i0, "loop from %zu to %zu: step %zu is %zu", from, hi, k, i); i0++; k++; } CHECK(k == hi - from, "loop from %zu to %zu ran %zu times", from, hi, k);
        i0 = hi; k = 0; VT_FOREACH_R(i, from, hi) { CHECK(i == i0, "reverse loop between %zu and %zu: step %zu is %zu", from, hi, k, i); i0--; k++; } CHECK(k == hi - from, "reverse loop between %zu and %zu ran %zu times", from, hi, k);
        VT_FOREACH_STEP(i, from, hi, step) { CHECK(i == from + steps * step, "loop from %zu in steps of %zu: step %zu is %zu", from, step, steps, i); steps++; } CHECK(steps == (hi - from + step - 1) / step, "loop from %zu to %zu in steps of %zu ran %zu times", from, hi, step, steps);
        if (hi > from) label("loop macros");
    }
    std::vector<std::pair<void *, size_t>> calls;
    if (v) { g_calls = &calls; vt_vec_apply(v, apply_cb); } else if (p) { g_calls = &calls; vt_plist_apply(p, apply_cb); } else { g_str_calls = &calls; vt_str_apply(st, str_cb); }
    VPLOG("apply: %zu calls", calls.size());
    CHECK(calls.size() == n, "apply made %zu calls for %zu elements", calls.size(), n);
    for (size_t i = 0; i < n; i++) CHECK(calls[i].second == i && calls[i].first == expect_at(x, i), "apply call %zu: index %zu, pointer %p, expected %p", i, calls[i].second, calls[i].first, expect_at(x, i));
    if (n > 1 && ended) nontrivial();
    if (v) vt_vec_destroy(v); if (p) vt_plist_destroy(p); if (st) vt_str_destroy(st);
    if (a) vt_mallocator_destroy(a);
}
PROP("C07", c07, 1500000, 30000000, F_LEAK, "A vec, plist, str or base array of 0-3000 (now and then more than 60000, or the last ones of several GB) elements is slid front/back in several rounds (to the end, or partly and reset; elements added, popped or cleared between rounds and in the middle of one, capacity or contents touched or the container duplicated midway), then applied; now and then the counting loops over a range. Non-trivial: more than one element and a round that reached the end.");
