// C04 search/replace/strip/case, C05 split/join/pop.
#include "text_impl.cpp"
// views: the buffer has exactly the text and its NUL, so that any access beyond is seen by the sanitizer
static void view_text(Src &s) {
    const char *al = alphabet(s); S m = gen_text(s, al, s.chance(1, 30)); char *buf = (char *)malloc(m.size() + 1); memcpy(buf, m.c_str(), m.size() + 1);
    VPLOG("text %s in the caller's buffer", show(m).c_str()); label("view");
    vt_str_t v = vt_str_create_static(buf); bool nt = false; size_t n = 1 + s.n(4);
    for (size_t i = 0; i < n; i++) if (text_op(s, &v, m, al, false)) nt = true;
    CHECK(v.ptr == buf, "the view moved"); if (nt) nontrivial();
    free(buf);
}
// a text of several GB whose only interesting part is its end (see str_far in str_impl.cpp)
static void c04_far(Src &s, Alloc *a) {
    size_t b = (size_t)1 << (s.chance(1, 3) ? 32 : 31), N = b + 200 + s.n(4 << 20), at = N - 20 - s.n(60); g_huge_ok = true; more_time(300); label("more than 2 GB"); nontrivial(); vt_str_t *x = vt_str_create_len(N, a); char *z = (char *)x->ptr;
    for (size_t i = N - 100; i < N; i++) z[i] = '-'; memcpy(z + at, "#xy", 3); S m(z + N - 100, 100); size_t q = at - (N - 100); VPLOG("text of %zu characters, #xy at %zu", N, at);
    switch (s.n(5)) {
        case 0: { VPLOG("index_find"); int64_t g = vt_str_index_find(x, "#xy"); CHECK(g == (int64_t)at, "index_find of #xy at %zu gives %lld", at, (long long)g); break; }
        case 1: { VPLOG("index_of"); int64_t g = vt_str_index_of(x, 'x'); CHECK(g == (int64_t)at + 1, "index_of x at %zu gives %lld", at + 1, (long long)g); break; }
        case 2: { VPLOG("find, ends_with"); const char *g = vt_str_find(x, "xy"); CHECK(g == z + at + 1, "find of xy at %zu gives offset %lld", at + 1, g ? (long long)(g - z) : -1LL); CHECK(vt_str_ends_with(x, z + N - 7), "ends_with its own end is false"); CHECK(!vt_str_ends_with(x, "--?--"), "ends_with --?-- is true"); break; }
        case 3: VPLOG("remove_first"); vt_str_remove_first(x, "#xy"); m.erase(q, 3); break;
        case 4: VPLOG("replace_first"); vt_str_replace_first(x, "#xy", "ab"); m.replace(q, 3, "ab"); break;
        default: VPLOG("remove, insert_before"); vt_str_remove(x, N - 5, 5); m.erase(95); vt_str_insert_before(x, "#xy", "k="); m.insert(q, "k="); }
    size_t n = N - 100 + m.size(); z = (char *)x->ptr; CHECK(vt_str_len(x) == n, "length %zu, expected %zu", vt_str_len(x), n); CHECK(!memcmp(z + N - 100, m.c_str(), m.size() + 1), "the end of the text is %s, expected %s", show(S(z + N - 100, m.size())).c_str(), show(m).c_str()); for (size_t i = 0; i < 4 << 20; i += 61) CHECK(z[i] == z[1], "character %zu of the text has changed", i);
    vt_str_destroy(x);
}
static void c04(Src &s) { if (s.chance(1, 4)) { view_text(s); return; } Alloc *a = s.chance(1, 4) ? vt_mallocator_create() : nullptr; if (far_case(s, 300000)) c04_far(s, a); else text_history(s, a, true); if (a) vt_mallocator_destroy(a); }
PROP("C04", c04, 5000000, 30000000, F_LEAK, "Random texts over small alphabets (empty to 3000 characters, a few of 2-4 GB), needles cut from the text or nearly so, 1-6 operations (search, count, compare, replace, remove, insert before/after, strip, case, numeric) per text, on heap, allocator or exactly sized caller buffers, checked against independent definitions. Non-trivial: the needle occurred or the text changed.");
static void c05(Src &s) { Alloc *a = s.coin() ? vt_mallocator_create() : nullptr; split_history(s, a, true); if (a) vt_mallocator_destroy(a); }
PROP("C05", c05, 3500000, 30000000, F_LEAK, "Random texts and separators (repeated, adjacent, overlapping, leading, trailing), split into fresh or reused lists, joined (fresh or onto existing text), split again, popped from both ends piece by piece, cut between markers; compared with reference definitions. Non-trivial: at least two pieces, a popped piece or text between both markers.");
