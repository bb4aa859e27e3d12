// C10 out-of-range accesses are refused before any memory is touched.
#include "seq.hpp"
typedef std::string S;
struct SpanOps { void (*get)(vt_span_t, size_t); void (*set)(vt_span_t, const void *, size_t); };
#define SPAN_OPS(T, t) { [](vt_span_t p, size_t i) { vt_span_get##t(p, i); }, [](vt_span_t p, const void *x, size_t i) { vt_span_set##t(p, *(const T *)x, i); } }
static const SpanOps span_types[] = { SPAN_OPS(int32_t, i32), SPAN_OPS(int8_t, i8), SPAN_OPS(uint8_t, u8), SPAN_OPS(int16_t, i16), SPAN_OPS(uint16_t, u16), SPAN_OPS(uint32_t, u32), SPAN_OPS(int64_t, i64), SPAN_OPS(uint64_t, u64), SPAN_OPS(float, f), SPAN_OPS(double, d), SPAN_OPS(real, r) };

static size_t far_index(Src &s, size_t len, size_t cap, size_t es) {
    size_t v;
    switch (s.n(11)) {
        case 0: case 1: v = len; break; case 2: v = len + 1; break; case 3: v = len + 2 + s.n(60); break; case 4: v = cap; break; case 5: v = SIZE_MAX - s.n(2); break; case 6: v = (size_t)1 << 63; break;
        case 7: v = ((size_t)1 << 32) + s.n(len ? len - 1 : 0); break; case 8: v = SIZE_MAX / es + 1 + s.n(len ? len - 1 : 0); break; case 9: v = s.bits64(); break; case 10: v = cap ? cap - 1 : 0; break;
        default: v = len + ((size_t)1 << s.n(62));
    }
    return v >= len ? v : len;
}
static std::string g_what;
static void refused(const char *what, size_t at, size_t len, const struct VitaBaseArrayType *a, size_t bytes, std::function<void()> f, bool redirect) {
    struct VitaBaseArrayType h; memcpy(&h, a, sizeof h); S store((char *)a->ptr, bytes);
    VPLOG("%s at %zu (length %zu, capacity %zu)", what, at, len, a->capacity); label(what);
    vt_debug_disable_output(false); (void)redirect;
    err_clear(); Death d = expect_death(f); std::string e = err_text(); vt_debug_disable_output(true);
    CHECK(d.died, "%s at %zu of a container with %zu elements returns instead of ending the program", what, at, len);
    CHECK(d.aborted || d.code != 0, "%s at %zu (length %zu) ends the program with status 0", what, at, len);
    CHECK(!e.empty() && e.back() == '\n', "%s at %zu (length %zu) ends the program without a diagnostic", what, at, len);
    CHECK(!memcmp(&h, a, sizeof h), "%s at %zu (length %zu) changed the container", what, at, len);
    CHECK(!memcmp(store.data(), a->ptr, bytes), "%s at %zu (length %zu) changed the stored bytes", what, at, len);
    nontrivial();
}
static void c10(Src &s) {
    Alloc *al = s.chance(1, 4) ? vt_mallocator_create() : nullptr; size_t tries = 1 + s.n(2);
    switch (s.n(3)) {
        case 0: { // vectors, and the generic access to any array
            int type = (int)s.n(NVT + 2); const VecOps *t = type < NVT ? &vec_types[type] : nullptr; size_t es = t ? t->elsize : 1 + s.n(s.coin() ? 15 : 299); if (!t) type = NVT;
            vt_vec_t *v = vt_vec_create(1 + s.size(20), es, al); size_t n = s.size(24); VPLOG("vector of %s (element size %zu)", t ? t->name : "bytes", es); S e = elem_value(s, type, es); std::vector<char> tmp(es + 16);
            for (size_t i = 0; i < n; i++) { e[0] = (char)(e[0] + 1); vt_vec_push_back(v, e.data()); }
            for (size_t k = s.n(3); k > 0; k--) { if (s.coin()) { vt_vec_pop(v); } else if (s.coin()) vt_vec_reserve(v, 1 + s.n(9)); else if (s.coin()) vt_vec_shrink(v); else if (s.coin()) vt_vec_clear(v); else if (vt_vec_len(v)) vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_FAST); }
            for (size_t k = 0; k < tries; k++) {
                size_t len = vt_vec_len(v), at = far_index(s, len, v->capacity, es), bytes = v->capacity * es;
                switch (s.n(9)) {
                    case 0: refused("vec_get", at, len, v, bytes, [&] { vt_vec_get(v, at); }, false); break;
                    case 1: refused("vec_set", at, len, v, bytes, [&] { vt_vec_set(v, e.data(), at); }, false); break;
                    case 2: refused("vec_insert", at, len, v, bytes, [&] { vt_vec_insert(v, e.data(), at); }, false); break;
                    case 3: refused("vec_remove (stable)", at, len, v, bytes, [&] { vt_vec_remove(v, at, VT_REMOVE_STRATEGY_STABLE); }, false); break;
                    case 4: refused("vec_remove (fast)", at, len, v, bytes, [&] { vt_vec_remove(v, at, VT_REMOVE_STRATEGY_FAST); }, false); break;
                    case 5: refused("array_get", at, len, v, bytes, [&] { vt_array_get(v, at); }, false); break;
                    case 6: refused("array_set", at, len, v, bytes, [&] { vt_array_set(v, e.data(), at); }, false); break;
                    case 7: if (t) refused("vec_getT", at, len, v, bytes, [&] { t->get(v, at, tmp.data()); }, false); break;
                    case 8: if (t) refused("vec_setT", at, len, v, bytes, [&] { t->set(v, e.data(), at); }, false); break;
                    default: if (t) refused("vec_insertT", at, len, v, bytes, [&] { t->insert(v, e.data(), at); }, false); break;
                }
            }
            vt_vec_destroy(v); break; }
        case 1: { // pointer lists
            vt_plist_t *p = vt_plist_create(1 + s.size(20), al); size_t n = s.size(24); for (size_t i = 0; i < n; i++) vt_plist_push_back(p, (void *)(0x1000 + i * 16));
            for (size_t k = s.n(3); k > 0; k--) { if (s.coin()) { if (vt_plist_len(p)) vt_plist_pop(p); } else if (s.coin()) vt_plist_reserve(p, 1 + s.n(9)); else if (s.coin()) vt_plist_clear(p); else if (vt_plist_len(p)) vt_plist_remove(p, 0, VT_REMOVE_STRATEGY_STABLE); }
            for (size_t k = 0; k < tries; k++) {
                size_t len = vt_plist_len(p), at = far_index(s, len, p->capacity, 8), bytes = p->capacity * 8; void *q = (void *)0x77777;
                switch (s.n(4)) {
                    case 0: refused("plist_get", at, len, p, bytes, [&] { vt_plist_get(p, at); }, false); break;
                    case 1: refused("plist_set", at, len, p, bytes, [&] { vt_plist_set(p, q, at); }, false); break;
                    case 2: refused("plist_insert", at, len, p, bytes, [&] { vt_plist_insert(p, q, at); }, false); break;
                    case 3: refused("plist_remove (stable)", at, len, p, bytes, [&] { vt_plist_remove(p, at, VT_REMOVE_STRATEGY_STABLE); }, false); break;
                    default: refused("plist_remove (fast)", at, len, p, bytes, [&] { vt_plist_remove(p, at, VT_REMOVE_STRATEGY_FAST); }, false); break;
                }
            }
            vt_plist_destroy(p); break; }
        case 2: { // strings
            vt_str_t *x = vt_str_create_capacity(1 + s.size(30), al); S m = s.text(30); vt_str_append(x, m.c_str());
            for (size_t k = s.n(3); k > 0; k--) { if (s.coin()) vt_str_reserve(x, 1 + s.n(30)); else if (s.coin()) vt_str_shrink(x); else if (s.coin()) vt_str_clear(x); else if (vt_str_len(x)) vt_str_remove(x, s.n(vt_str_len(x) - 1), 1); }
            for (size_t k = 0; k < tries; k++) {
                size_t len = vt_str_len(x), at = far_index(s, len, x->capacity, 1), bytes = x->capacity + 1; S a = s.text(8); size_t c = 1 + s.n(8); S longer = s.big(len + 1 + s.n(20));
                switch (s.n(9)) {
                    case 0: refused("str_set_at", at, len, x, bytes, [&] { vt_str_set_at(x, a.c_str(), at); }, false); break;
                    case 1: refused("str_set_c", at, len, x, bytes, [&] { vt_str_set_c(x, 'k', at); }, false); break;
                    case 2: if (a.empty()) a = "i"; refused("str_insert", at, len, x, bytes, [&] { vt_str_insert(x, a.c_str(), at); }, false); break;
                    case 3: if (at == len) at++; a += "12345678"; refused("str_insert_n", at, len, x, bytes, [&] { vt_str_insert_n(x, a.c_str(), at, c); }, false); break;
                    case 4: refused("str_insertf", at, len, x, bytes, [&] { vt_str_insertf(x, at, "%s-%zu", a.c_str(), c); }, false); break;
                    case 5: refused("str_remove", at, len, x, bytes, [&] { vt_str_remove(x, at, s.coin() ? c : SIZE_MAX - c); }, false); break;
                    case 6: refused("str_set (longer)", longer.size(), len, x, bytes, [&] { vt_str_set(x, longer.c_str()); }, false); break;
                    case 7: refused("str_set_n (longer)", longer.size(), len, x, bytes, [&] { vt_str_set_n(x, longer.c_str(), longer.size()); }, false); break;
                    case 8: if (len) { at = s.n(len - 1); S l2 = longer.substr(0, len - at + 1 + s.n(longer.size() - (len - at) - 1)); refused("str_set_at (longer)", at, len, x, bytes, [&] { vt_str_set_at(x, l2.c_str(), at); }, false); } break;
                    default: refused("array_get (str)", at, len, x, bytes, [&] { vt_array_get(x, at); }, false); break;
                }
            }
            vt_str_destroy(x); break; }
        default: { // spans
            int type = (int)s.n(NVT + 2); const SpanOps *t = type < NVT ? &span_types[type] : nullptr; size_t es = t ? vec_types[type].elsize : 1 + s.n(40); if (!t) type = NVT; size_t n = 1 + s.size(24); char *b = (char *)calloc(n, es); S e = elem_value(s, type, es);
            size_t from = s.n(n - 1), to = from + 1 + s.n(n - from - 1); vt_span_t sp = s.coin() ? vt_span_from(b, n, es) : vt_span_from_to(b, from, to, es); size_t len = vt_span_len(sp);
            for (size_t k = 0; k < tries; k++) {
                size_t at = far_index(s, len, n, es), bytes = len * es; const struct VitaBaseArrayType *a = &sp.instance; S whole(b, n * es);
                switch (s.n(3)) {
                    case 0: refused("span_get", at, len, a, bytes, [&] { vt_span_get(sp, at); }, false); break;
                    case 1: refused("span_set", at, len, a, bytes, [&] { vt_span_set(sp, e.data(), at); }, false); break;
                    case 2: if (t) refused("span_getT", at, len, a, bytes, [&] { t->get(sp, at); }, false); break;
                    default: if (t) refused("span_setT", at, len, a, bytes, [&] { t->set(sp, e.data(), at); }, false); break;
                }
                CHECK(!memcmp(whole.data(), b, n * es), "an access outside a span changed the storage");
            }
            free(b); break; }
    }
    if (al) vt_mallocator_destroy(al);
}
PROP("C10", c10, 3000000, 10000000, 0, "Random containers (vectors of every type and size, pointer lists, strings, spans) after a short history, then accesses at length, length+1, capacity, huge and wrap-around positions through every accessor; each must end the program with failure status and a diagnostic on standard error, leaving header and storage bytes unchanged. Non-trivial: an access outside the length was attempted.");
