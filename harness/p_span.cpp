// C06 spans are live windows, C11 views are never grown, moved or freed.
#include "seq.hpp"
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <map>
typedef std::string S;

struct SpanOps { const char *name; size_t elsize, cmp; void (*get)(vt_span_t, size_t, void *); void (*set)(vt_span_t, const void *, size_t); };
#define SPAN_OPS(T, t, CMP) { #t, sizeof(T), CMP, [](vt_span_t p, size_t i, void *o) { T r = vt_span_get##t(p, i); memcpy(o, &r, sizeof r); }, [](vt_span_t p, const void *x, size_t i) { vt_span_set##t(p, *(const T *)x, i); } }
static const SpanOps span_types[] = {   // same order as vec_types
    SPAN_OPS(int32_t, i32, 4), SPAN_OPS(int8_t, i8, 1), SPAN_OPS(uint8_t, u8, 1), SPAN_OPS(int16_t, i16, 2), SPAN_OPS(uint16_t, u16, 2), SPAN_OPS(uint32_t, u32, 4),
    SPAN_OPS(int64_t, i64, 8), SPAN_OPS(uint64_t, u64, 8), SPAN_OPS(float, f, 4), SPAN_OPS(double, d, 8), SPAN_OPS(real, r, 10),
};
struct Win { vt_span_t sp; size_t from, len; };
static size_t far_index(Src &s, size_t len, size_t elsize) {     // an index outside [0,len)
    switch (s.n(9)) {
        case 0: return len; case 1: return len + 1; case 2: return len + 2 + s.n(60); case 3: return SIZE_MAX - s.n(2); case 4: return (size_t)1 << 63; case 5: return ((size_t)1 << 32) + s.n(len ? len - 1 : 0);
        case 6: { size_t w = SIZE_MAX / elsize + 1 + s.n(len ? len - 1 : 0); return w >= len && elsize > 1 ? w : SIZE_MAX; }   // wraps around to an element
        case 7: return SIZE_MAX / 2 + s.n(2); case 8: { size_t v = s.bits64(); return v >= len ? v : len; }
        default: return len + ((size_t)1 << s.n(62));
    }
}

// spans longer than 16 or 32 bits can count, over address space of which only the touched pages get memory
static char *g_land; static const size_t land_size = ((size_t)1 << 32) + ((size_t)1 << 31);
static void c06_large(Src &s) {
    if (!g_land) { g_land = (char *)mmap(nullptr, land_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_land == MAP_FAILED) { g_land = nullptr; return; } }
    int type = (int)s.n(NVT + 1); const SpanOps *t = type < NVT ? &span_types[type] : nullptr; if (!t) type = NVT; size_t es = t ? t->elsize : 1 + s.n(39), cmp = t ? t->cmp : es, cap = land_size / es;
    auto about = [&](size_t hi) { size_t v; switch (s.n(4)) { case 0: v = ((size_t)1 << 16) + s.n(9) - 5; break; case 1: v = ((size_t)1 << 32) / es + s.n(9) - 5; break; case 2: v = ((size_t)1 << 31) / es + s.n(9) - 5; break; case 3: v = ((size_t)1 << 32) + s.n(9) - 5; break; default: v = s.u(hi); } return v > hi ? s.u(hi) : v; };
    size_t from = s.coin() ? 0 : s.coin() ? s.n(20) : about(cap - 1), len = 1 + about(cap - from - 1); bool ranged = from || s.coin(); vt_span_t sp = ranged ? vt_span_from_to(g_land, from, from + len, es) : vt_span_from(g_land, len, es);
    VPLOG("span over [%zu, %zu) of elements of size %zu", from, from + len, es); CHECK(vt_span_len(sp) == len, "span over %zu elements has length %zu", len, vt_span_len(sp)); label("more than 65535 elements");
    std::map<size_t, S> m; std::vector<char> tmp(es + 16);
    for (size_t k = 1 + s.n(4); k > 0; k--) {
        size_t i = s.coin() ? about(len - 1) : s.coin() ? len - 1 : s.n(len - 1), g = from + i;
        if (s.chance(2, 3)) { S e = elem_value(s, type, es); VPLOG("set %zu %s", i, hex(e).c_str()); if (t && s.coin()) t->set(sp, e.data(), i); else vt_span_set(sp, e.data(), i); m[g] = e; }
        CHECK(vt_span_get(sp, i) == g_land + g * es, "element %zu of the span over [%zu, %zu) is not at position %zu of the storage", i, from, from + len, g);
        if (t) { t->get(sp, i, tmp.data()); CHECK(!memcmp(tmp.data(), g_land + g * es, cmp), "get%s %zu gives %s, the storage holds %s", t->name, i, hex(S(tmp.data(), es)).c_str(), hex(S(g_land + g * es, es)).c_str()); }
        for (auto &x : m) CHECK(!memcmp(g_land + x.first * es, x.second.data(), cmp), "element %zu of the storage is %s, expected %s", x.first, hex(S(g_land + x.first * es, es)).c_str(), hex(x.second).c_str());
        if (s.chance(1, 3)) { size_t at = std::max(len, far_index(s, len, es)); VPLOG("get %zu (outside)", at); Death d = expect_death([&] { vt_span_get(sp, at); }); CHECK_DIES(d, "span get outside the range"); }
    }
    for (auto &x : m) memset(g_land + x.first * es, 0, es);
    static unsigned uses; if (++uses % 32 == 0) madvise(g_land, land_size, MADV_DONTNEED);
    nontrivial();
}
static void c06(Src &s) {
    if (s.chance(1, 60)) return c06_large(s);
    int type = (int)s.n(NVT + 3); const SpanOps *t = nullptr; size_t es, cmp;
    int kind = (int)s.n(3);                        // raw buffer, vector, string, pointer list
    if (kind == 2) { type = s.coin() ? 1 : NVT; es = 1; } else if (kind == 3) { type = s.coin() ? 7 : NVT; es = sizeof(void *); }
    else if (type < NVT) es = span_types[type].elsize; else { type = NVT; es = s.coin() ? 1 + s.n(15) : 1 + s.n(299); }
    if (type < NVT) { t = &span_types[type]; cmp = t->cmp; } else cmp = es;
    size_t n = 1 + (s.chance(1, 12) ? s.n(2000) : s.size(40));
    char *base; char *raw = nullptr; vt_vec_t *v = nullptr; vt_str_t *z = nullptr; vt_plist_t *pl = nullptr; const struct VitaBaseArrayType *cont = nullptr; std::vector<S> m(n);
    Alloc *al = s.chance(1, 4) ? vt_mallocator_create() : nullptr;
    S fill = elem_value(s, type, es);
    for (size_t i = 0; i < n; i++) { m[i] = fill; for (size_t b = 0; b < std::min<size_t>(cmp, 2); b++) m[i][b] = (char)(fill[b] ^ (i >> (8 * b))); if (kind == 2 && !m[i][0]) m[i][0] = 'x'; if (kind == 3) { uint64_t w; memcpy(&w, m[i].data(), 8); if (!w) { w = 0x1000 + i; memcpy(&m[i][0], &w, 8); } } }
    if (kind == 0) { raw = base = (char *)malloc(n * es); for (size_t i = 0; i < n; i++) memcpy(base + i * es, m[i].data(), es); }
    else if (kind == 1) { v = vt_vec_create(1 + s.n(n + 8), es, al); for (auto &e : m) vt_vec_push_back(v, e.data()); base = (char *)v->ptr; cont = v; }
    else if (kind == 2) { S c; for (auto &e : m) c += e; z = vt_str_create(c.c_str(), al); base = (char *)z->ptr; cont = z; }
    else { pl = vt_plist_create(n, al); for (auto &e : m) { void *q; memcpy(&q, e.data(), 8); vt_plist_push_back(pl, q); } base = (char *)pl->ptr; cont = pl; }
    struct VitaBaseArrayType before; if (cont) before = *cont;
    VPLOG("%s of %zu elements of %s (size %zu)", kind == 0 ? "raw buffer" : kind == 1 ? "vector" : kind == 2 ? "string" : "pointer list", n, t ? t->name : "bytes", es);
    long allocs = g_lib_allocs;
    auto same = [&](const char *op, size_t around) {
        bool all = n <= 64; size_t lo = all || around < 24 ? 0 : around - 24, hi = all ? n : std::min(n, around + 24);
        auto one = [&](size_t i) { CHECK(!memcmp(base + i * es, m[i].data(), cmp), "after %s: element %zu of the storage is %s, expected %s", op, i, hex(S(base + i * es, es)).c_str(), hex(m[i]).c_str()); };
        for (size_t i = lo; i < hi; i++) one(i); one(0); one(n - 1);
        if (cont) CHECK(cont->ptr == base && cont->len == before.len && cont->capacity == before.capacity && cont->elsize == before.elsize && cont->alloctr == before.alloctr && cont->is_view == before.is_view, "after %s: the container behind the span changed", op);
        CHECK(g_lib_allocs == allocs, "%s on a span allocated memory", op);
    };
    std::vector<Win> w; std::vector<char> tmp(es + 16); bool nt = false; size_t nops = 2 + s.n(14);
    for (size_t k = 0; k < nops; k++) {
        int op = w.empty() ? 0 : (int)s.n(8);
        if (op == 0) {
            size_t from = 0, to = n; vt_span_t sp;
            if (s.coin()) { to = 1 + s.n(n - 1); sp = vt_span_from(base, to, es); VPLOG("span_from %zu", to); }
            else { from = s.n(n - 1); to = from + 1 + s.n(n - from - 1); sp = vt_span_from_to(base, from, to, es); VPLOG("span_from_to %zu %zu", from, to); if (from > 0) nt = true; }
            Win x{sp, from, to - from}; CHECK(vt_span_len(sp) == x.len, "span over %zu elements has length %zu", x.len, vt_span_len(sp));
            if (w.size() < 4) w.push_back(x); else w[s.n(3)] = x; same("creating a span", from); continue;
        }
        if (s.chance(1, 12)) { Win &x = w[s.n(w.size() - 1)]; bool back = s.coin(); VPLOG("[%zu+%zu] slide %s", x.from, x.len, back ? "back" : "front"); size_t lim = std::min<size_t>(x.len, 300); for (size_t q = 0; q < lim; q++) { char *p = (char *)(back ? vt_array_slide_back(&x.sp.instance) : vt_array_slide_front(&x.sp.instance)); CHECK(p == base + (x.from + (back ? x.len - 1 - q : q)) * es, "slide %zu over a span of %zu gives another element", q, x.len); } if (lim == x.len) CHECK(!(back ? vt_array_slide_back(&x.sp.instance) : vt_array_slide_front(&x.sp.instance)), "a slide over a span of %zu does not stop", x.len); else vt_array_slide_reset(&x.sp.instance); same("slide", x.from); label("slide over a span"); continue; }
        Win &x = w[s.n(w.size() - 1)]; size_t i = s.chance(1, 4) ? (s.coin() ? x.len - 1 : 0) : s.n(x.len - 1), g = x.from + i;
        if (op <= 3) {
            S e = elem_value(s, type, es); if (kind == 2 && !e[0]) e[0] = 'y'; VPLOG("[%zu+%zu] set %zu %s", x.from, x.len, i, hex(e).c_str());
            if (t && s.coin()) t->set(x.sp, e.data(), i); else vt_span_set(x.sp, e.data(), i); m[g] = e; same("set", g); nt = true;
        } else if (op <= 5) {
            CHECK(vt_span_len(x.sp) == x.len, "span length changed to %zu", vt_span_len(x.sp));
            void *p = vt_span_get(x.sp, i); CHECK(p == base + g * es, "element %zu of the span over [%zu, %zu) is not at position %zu of the storage", i, x.from, x.from + x.len, g);
            if (t) { t->get(x.sp, i, tmp.data()); CHECK(!memcmp(tmp.data(), m[g].data(), cmp), "get%s %zu gives %s, expected %s", t->name, i, hex(S(tmp.data(), es)).c_str(), hex(m[g]).c_str()); }
        } else if (op == 6) {                      // a write through the container is seen by the span
            size_t j = s.coin() ? g : s.n(n - 1); S e = elem_value(s, type, es); if (kind == 2 && !e[0]) e[0] = 'y'; VPLOG("storage[%zu] = %s", j, hex(e).c_str());
            if (kind == 1) vt_vec_set(v, e.data(), j); else if (kind == 2) vt_str_set_c(z, e[0], j); else memcpy(base + j * es, e.data(), es); m[j] = e;
            for (size_t q = 0; q < std::min<size_t>(x.len, 40); q++) CHECK(!memcmp(vt_span_get(x.sp, q), m[x.from + q].data(), cmp), "span element %zu does not show the storage", q); nt = true;
        } else {                                   // outside the range: refused, nothing is written
            size_t at = far_index(s, x.len, es); bool wr = op == 7, typed = t && s.coin(); S e = elem_value(s, type, es); VPLOG("[%zu+%zu] %s %zu (outside)", x.from, x.len, wr ? "set" : "get", at);
            Death d = expect_death([&] { if (wr) { if (typed) t->set(x.sp, e.data(), at); else vt_span_set(x.sp, e.data(), at); } else if (typed) t->get(x.sp, at, tmp.data()); else vt_span_get(x.sp, at); });
            CHECK_DIES(d, wr ? "span set outside the range" : "span get outside the range"); same("a refused access", std::min(n - 1, g)); label("refused");
        }
    }
    if (nt) nontrivial();
    label(kind == 0 ? "raw buffer" : kind == 1 ? "vector" : kind == 2 ? "string" : "pointer list");
    same("history", 0); free(raw); if (v) vt_vec_destroy(v); if (z) vt_str_destroy(z); if (pl) vt_plist_destroy(pl); if (al) vt_mallocator_destroy(al);
}
PROP("C06", c06, 3000000, 20000000, F_LEAK, "Random raw buffers (exactly sized; some of several GB, of which only the pages touched exist), vectors, strings and pointer lists with 1-4 overlapping spans of every element type and size; reads, slides, writes through spans and through the container, refused accesses; after each step the whole storage is compared with a model. Non-trivial: a write through a span or the container, or a span that does not start at 0.");

// ------------------------------------------------------------------ C11
static S repl_all(const S &t, const S &x, const S &r) { S o; size_t p = 0, q; while ((q = t.find(x, p)) != S::npos) { o += t.substr(p, q - p) + r; p = q + x.size(); } return o + t.substr(p); }
static size_t last_occ(const S &t, const S &x) { size_t l = S::npos, p = 0; while ((p = t.find(x, p)) != S::npos) { l = p; p += x.size(); } return l; }
static S trim(const S &t, const S &set) { size_t a = t.find_first_not_of(set); if (a == S::npos) return ""; return t.substr(a, t.find_last_not_of(set) - a + 1); }
static void c11_span(Src &s) {      // a span over the middle of a block whose other bytes are poisoned
    int type = (int)s.n(NVT + 2); const SpanOps *t = type < NVT ? &span_types[type] : nullptr; size_t es = t ? t->elsize : 8 * (1 + s.n(6)); if (!t) type = NVT; size_t cmp = t ? t->cmp : es;
    size_t n = 1 + s.size(20), head = 64, tail = 64, inner = (n * es + 7) / 8 * 8; char *blk = (char *)malloc(head + inner + tail), *b = blk + head; for (size_t i = 0; i < head + inner + tail; i++) blk[i] = (char)(0xA5 ^ (i * 7)); S keep(blk, head + inner + tail);
    size_t from = s.n(n - 1), to = from + 1 + s.n(n - from - 1); bool ranged = s.coin(); vt_span_t sp = ranged ? vt_span_from_to(b, from, to, es) : vt_span_from(b, n, es); if (!ranged) from = 0, to = n;
    VPLOG("span of %zu elements of size %zu", to - from, es); long allocs = g_lib_allocs; std::vector<char> tmp(es + 16); label("span");
    for (size_t k = 1 + s.n(5); k > 0; k--) {
        bool in = s.chance(2, 3); size_t at = in ? s.n(to - from - 1) : far_index(s, to - from, es); bool wr = s.coin(), typed = t && s.coin(); S e = elem_value(s, type, es); VPLOG("%s %zu", wr ? "set" : "get", at);
        ASAN_POISON_MEMORY_REGION(blk, head); ASAN_POISON_MEMORY_REGION(b + inner, tail);
        Death d = expect_death([&] { if (wr) { if (typed) t->set(sp, e.data(), at); else vt_span_set(sp, e.data(), at); } else if (typed) t->get(sp, at, tmp.data()); else CHECK(vt_span_get(sp, at) == b + (from + at) * es, "span element %zu is elsewhere", at); });
        ASAN_UNPOISON_MEMORY_REGION(blk, head + inner + tail);
        if (in) { CHECK(!d.died, "an access inside a span ends the program"); if (wr) { memcpy(&keep[head + (from + at) * es], e.data(), cmp); memcpy(&keep[head + (from + at) * es + cmp], b + (from + at) * es + cmp, es - cmp); } nontrivial(); } else CHECK_DIES(d, "access outside a span");
        CHECK(!memcmp(keep.data(), blk, keep.size()), "%s %zu of a span over [%zu, %zu): bytes other than that element changed", wr ? "set" : "get", at, from, to);
    }
    CHECK(g_lib_allocs == allocs, "using a span allocated memory"); free(blk);
}
static void c11(Src &s) {
    if (s.chance(1, 6)) { c11_span(s); return; }
    S m = s.chance(1, 30) ? s.big(s.n(3000), "ab,.") : s.text(s.coin() ? 12 : 60, s.coin() ? "ab," : "aAbB .,;09"); const size_t orig = m.size();
    // the view's bytes lie inside a larger block; its neighbours are poisoned while the library runs
    const size_t pad = 64; size_t skew = s.n(7) * 8; char *blk = (char *)malloc(pad + skew + orig + 1 + pad + 32); char *buf = blk + pad + skew;
    size_t total = pad + skew + orig + 1 + pad + 32; for (size_t i = 0; i < total; i++) blk[i] = (char)(0xC0 ^ (i * 31));
    memcpy(buf, m.c_str(), orig + 1); S canary(blk, total);
    lib_track(true);
    vt_str_t v = vt_str_create_static(buf);
    VPLOG("view of %s", show(m).c_str());
    CHECK(v.ptr == buf && vt_str_len(&v) == orig && vt_str_z(&v) == buf && vt_str_capacity(&v) == orig, "a view of %zu characters has length %zu, capacity %zu", orig, vt_str_len(&v), vt_str_capacity(&v));
    auto poison = [&](bool on) { (void)on; if (on) { ASAN_POISON_MEMORY_REGION(blk, pad + skew); ASAN_POISON_MEMORY_REGION(buf + orig + 1, total - (pad + skew + orig + 1)); } else ASAN_UNPOISON_MEMORY_REGION(blk, total); };
    auto neighbours = [&](const char *op) { CHECK(!memcmp(blk, canary.data(), pad + skew) && !memcmp(buf + orig + 1, canary.data() + pad + skew + orig + 1, total - (pad + skew + orig + 1)), "%s on a view changed bytes outside its text", op); };
    size_t nops = 1 + s.n(7); bool nt = false, died = false;
    for (size_t k = 0; k < nops && !died; k++) {
        size_t n = m.size(); const char *op = ""; S want = m, a, b; size_t at = 0, c = 0; std::function<void()> run; bool must = true; // must: has to succeed if it fits
        auto arg = [&](size_t room) { size_t l; switch (s.n(4)) { case 0: l = room; break; case 1: l = room + 1; break; case 2: l = s.chance(1, 6) ? room + 1 + s.n(2000) : room + s.n(20); break; default: l = s.n(room + 3); } return s.big(l, "xyz"); };
        auto needle = [&]() -> S { if (n && s.chance(5, 6)) { size_t f = s.n(n - 1); return m.substr(f, 1 + s.n(std::min<size_t>(3, n - f) - 1)); } return "q"; };
        switch (s.n(25)) {
            case 0: op = "append"; a = arg(orig - n); want = m + a; run = [&] { vt_str_append(&v, a.c_str()); }; break;
            case 1: op = "append_n"; a = arg(orig - n) + "w"; c = 1 + s.n(a.size() - 1); want = m + a.substr(0, c); run = [&] { vt_str_append_n(&v, a.c_str(), c); }; break;
            case 2: op = "appendf"; a = arg(orig - n); c = s.n(99); want = m + a + std::to_string(c); run = [&] { CHECK(vt_str_appendf(&v, "%s%zu", a.c_str(), c) == VT_STATUS_OPERATION_SUCCESS, "appendf"); }; break;
            case 3: if (!n) continue; op = "insert"; a = arg(orig - n); at = s.n(n - 1); want.insert(at, a); run = [&] { vt_str_insert(&v, a.c_str(), at); }; break;
            case 4: if (!n) continue; op = "insertf"; a = arg(orig - n); at = s.n(n - 1); c = s.n(99); want.insert(at, a + std::to_string(c)); run = [&] { CHECK(vt_str_insertf(&v, at, "%s%zu", a.c_str(), c) == VT_STATUS_OPERATION_SUCCESS, "insertf"); }; break;
            case 5: if (!n) continue; op = "insert_n"; a = arg(orig - n) + "w"; c = 1 + s.n(a.size() - 1); at = s.n(n - 1); want.insert(at, a.substr(0, c)); run = [&] { vt_str_insert_n(&v, a.c_str(), at, c); }; break;
            case 6: if (!n) continue; op = "insert_before"; b = needle(); a = arg(orig - n); at = m.find(b); if (at != S::npos) want.insert(at, a); run = [&] { vt_str_insert_before(&v, b.c_str(), a.c_str()); }; break;
            case 7: if (!n) continue; op = "insert_after"; b = needle(); a = arg(orig - n); at = m.find(b); if (at != S::npos) want.insert(at + b.size(), a); run = [&] { vt_str_insert_after(&v, b.c_str(), a.c_str()); }; break;
            case 8: if (!n) continue; op = "replace"; b = needle(); a = s.coin() ? s.big(1 + s.n(2), "xyz") : "x" + arg(orig - n); want = repl_all(m, b, a); run = [&] { vt_str_replace(&v, b.c_str(), a.c_str()); }; break;
            case 9: if (!n) continue; op = "replace_first"; b = needle(); a = s.coin() ? s.big(1 + s.n(2), "xyz") : "x" + arg(orig - n); at = m.find(b); if (at != S::npos) want.replace(at, b.size(), a); run = [&] { vt_str_replace_first(&v, b.c_str(), a.c_str()); }; break;
            case 10: if (!n) continue; op = "replace_last"; b = needle(); a = s.coin() ? s.big(1 + s.n(2), "xyz") : "x" + arg(orig - n); at = last_occ(m, b); if (at != S::npos) want.replace(at, b.size(), a); run = [&] { vt_str_replace_last(&v, b.c_str(), a.c_str()); }; break;
            case 11: case 12: if (!n) continue; op = "remove"; at = s.n(n - 1); c = 1 + s.n(n - at + 1); want.erase(at, c); run = [&] { vt_str_remove(&v, at, c); }; break;
            case 13: op = "set"; a = s.big(s.n(n), "xyz"); want = a; run = [&] { vt_str_set(&v, a.c_str()); }; break;
            case 14: if (!n) continue; op = "set_at"; at = s.n(n - 1); a = s.big(s.n(n - at), "xyz"); want = m.substr(0, at) + a; run = [&] { vt_str_set_at(&v, a.c_str(), at); }; break;
            case 15: if (!n) continue; op = "set_c"; at = s.n(n - 1); want[at] = '#'; run = [&] { vt_str_set_c(&v, '#', at); }; break;
            case 16: op = "clear"; want = ""; run = [&] { vt_str_clear(&v); }; break;
            case 17: op = "strip"; want = trim(m, " \t\n\v\f\r"); run = [&] { vt_str_strip(&v); }; break;
            case 18: op = "to_uppercase"; for (auto &ch : want) ch = (char)toupper((unsigned char)ch); run = [&] { vt_str_to_uppercase(&v); }; break;
            case 19: if (!n) continue; op = "remove_all"; b = needle(); { size_t p; while ((p = want.find(b)) != S::npos) want.erase(p, b.size()); } run = [&] { vt_str_remove_all(&v, b.c_str()); }; break;
            case 20: op = "join_n"; a = arg(orig - n); b = s.big(s.n(3), "uv"); want = m + a + "," + b; run = [&] { vt_str_t *r = vt_str_join_n(&v, ",", 2, a.c_str(), b.c_str()); CHECK(r == &v, "join_n onto a view gives another string"); }; break;
            case 23: { op = "read"; b = needle(); if (b.size() > n) continue; poison(true); long live = g_lib_live; const char *f = vt_str_find(&v, b.c_str()); size_t p = m.find(b); bool st = vt_str_starts_with(&v, b.c_str()), en = vt_str_ends_with(&v, b.c_str()); size_t vl = vt_str_validate_len(&v);
                vt_plist_t *sp = vt_str_split(nullptr, &v, b.c_str()); if (sp) { for (size_t i = 0; i < vt_plist_len(sp); i++) vt_str_destroy((vt_str_t *)vt_plist_get(sp, i)); vt_plist_destroy(sp); } poison(false);
                CHECK(f == (p == S::npos ? nullptr : buf + p) && st == (m.compare(0, b.size(), b) == 0) && en == (m.compare(n - b.size(), b.size(), b) == 0) && vl == n, "reading a view of %s with %s", show(m).c_str(), show(b).c_str()); CHECK(g_lib_live == live, "reading a view left memory behind"); neighbours(op); CHECK(S(buf) == m, "reading changed the text"); continue; }
            case 24: { if (!n) continue; op = "pop_get_first"; b = needle(); at = m.find(b); if (at == S::npos || at == 0) continue; a = m.substr(0, at); want = m.substr(at + b.size()); run = [&] { vt_str_t *r = vt_str_pop_get_first(nullptr, &v, b.c_str()); CHECK(r && r != &v && S(vt_str_z(r)) == a, "pop_get_first from a view"); vt_str_destroy(r); }; break; }
            case 21: { op = "dup"; poison(true); vt_str_t *d = vt_str_dup(&v); poison(false); CHECK(d && d != &v && d->ptr != buf && !d->is_view && S(vt_str_z(d)) == m, "duplicate of a view"); vt_str_append(d, "grows"); CHECK(S(vt_str_z(d)) == m + "grows", "a duplicate of a view can be edited"); vt_str_destroy(d); continue; }
            case 22: { op = "destroy"; long live = g_lib_live; vt_str_destroy(&v); CHECK(g_lib_live == live, "destroying a view released memory"); v = vt_str_create_static(buf); if (m.size() < orig) { k = nops; } break; }
            default: { // capacity operations: refused or harmless
                int w = s.n(2); c = 1 + s.size(40); op = w == 0 ? "shrink" : w == 1 ? "reserve" : "resize"; VPLOG("%s %zu", op, c); poison(true);
                Death d = expect_death([&] { if (w == 0) vt_str_shrink(&v); else if (w == 1) vt_str_reserve(&v, c); else vt_str_resize(&v, c); }); poison(false);
                if (d.died) { CHECK_DIES(d, op); died = true; } else { CHECK(v.ptr == buf && v.capacity <= orig, "%s on a view gives it storage it does not own", op); m = S(vt_str_z(&v)); }
                neighbours(op); continue; }
        }
        if (!run) { neighbours(op); CHECK(S(buf) == m, "%s changed the text", op); if (m.size() < orig) break; continue; }
        (void)must; bool fits = want.size() <= orig; VPLOG("%s %s%s at %zu -> %zu of %zu", op, show(a).c_str(), b.empty() ? "" : show(b).c_str(), at, want.size(), orig);
        poison(true); Death d = expect_death(run); poison(false);
        CHECK(v.ptr == buf, "%s moved the view", op); neighbours(op);
        if (fits) {
            CHECK(!d.died, "%s fits into the view (%zu of %zu characters) but ends the program", op, want.size(), orig);
            CHECK(S(buf) == want && vt_str_len(&v) == want.size() && v.is_view, "%s: the view holds %s (length %zu), expected %s", op, show(buf).c_str(), vt_str_len(&v), show(want).c_str());
            if (want != m) { nt = true; label("edited in place"); } m = want;
        } else { CHECK_DIES(d, op); died = true; nt = true; label("refused: needs more room"); }
    }
    if (nt) nontrivial();
    lib_free_all(); lib_track(false); free(blk);
}
PROP("C11", c11, 5000000, 20000000, F_LEAK, "Random texts inside a larger block whose other bytes are poisoned and hold a pattern, a view over the text, histories of 1-8 edits of every kind with argument lengths around the room that is left; an edit that fits must appear in place, one that does not must end the program, the pattern and the view's address never change. Non-trivial: the text was edited or an edit was refused.");
