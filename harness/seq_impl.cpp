#include "seq.hpp"
static std::vector<std::pair<void *, size_t>> *g_calls;
static void apply_cb(void *p, size_t i) { g_calls->push_back({p, i}); }

static void vec_check(const VecInst &x, const VecOps *t, size_t cmp, bool full, Src *s, const char *op) {
    vt_vec_t *v = x.v; size_t n = x.m.size();
    CHECK(vt_vec_len(v) == n, "after %s: length %zu, expected %zu", op, vt_vec_len(v), n);
    CHECK(vt_array_len(v) == n && vt_array_elsize(v) == t->elsize, "after %s: base length/element size", op);
    CHECK(vt_vec_is_empty(v) == (n == 0), "after %s: is_empty with %zu elements", op, n);
    CHECK(vt_vec_capacity(v) >= n, "after %s: capacity %zu below length %zu", op, vt_vec_capacity(v), n);
    CHECK(vt_vec_has_space(v) == vt_vec_capacity(v) - n, "after %s: has_space", op);
    check_storage(v, 0, op); CHECK_OWNER(v, x.a, op);
    char *h = n ? (char *)vt_array_head(v) : nullptr;
    auto one = [&](size_t i) {
        void *p = vt_vec_get(v, i);
        CHECK(p == h + i * t->elsize, "after %s: element %zu is not in its slot", op, i);
        CHECK(!memcmp(p, x.m[i].data(), cmp), "after %s: element %zu is %s, expected %s (length %zu)", op, i, hex(std::string((char *)p, t->elsize)).c_str(), hex(x.m[i]).c_str(), n);
    };
    if (full || n <= 96) for (size_t i = 0; i < n; i++) one(i);
    else { for (size_t i = 0; i < 12; i++) { one(i); one(n - 1 - i); } for (size_t i = 0; i < n; i += 1 + n / 24) one(i); }
    (void)s;
}

void vec_history(Src &s, Alloc *alloctr, bool destroy) {
    int type = (int)s.n(NVT + 4); VecOps raw{}; const VecOps *t;
    size_t cmp; bool generic;
    if (type < NVT) { t = &vec_types[type]; cmp = t->cmpsize; generic = false; }
    else {
        type = NVT; static const size_t szs[] = {3, 1, 2, 4, 5, 7, 8, 12, 16, 24, 31, 33, 64, 100, 128, 255, 257};
        raw.name = "raw"; raw.elsize = s.chance(1, 4) ? 1 + s.n(299) : szs[s.n(16)]; cmp = raw.elsize; t = &raw; generic = true;
    }
    size_t cap0 = 1 + s.size(40);
    VPLOG("vec of %s (element size %zu), capacity %zu, %s", t->name, t->elsize, cap0, alloctr ? "on an allocator" : "on the heap");
    std::vector<VecInst> live;
    live.push_back({vt_vec_create(cap0, t->elsize, alloctr), {}, alloctr});
    CHECK(vt_vec_capacity(live[0].v) >= cap0, "create(%zu): capacity %zu", cap0, vt_vec_capacity(live[0].v));
    CHECK(vt_array_has_alloctr(live[0].v) == (alloctr != nullptr), "has_alloctr");
    size_t nops = 1 + s.n(s.chance(1, 8) ? 120 : 40); bool grew = false, removed = false, moved = false;
    std::vector<char> tmp(t->elsize + 16);
    bool big = s.chance(1, 24);
    if (t->elsize <= 16 && s.chance(1, 6000)) {                          // more elements than 15 or 16 bits can count
        size_t c = (s.coin() ? 32760 : 65530) + s.n(2000); VPLOG("%zu x push_back", c); label("very long"); vt_vec_t *v = live[0].v; std::string e = elem_value(s, type, t->elsize); nops = std::min<size_t>(nops, 12);
        for (size_t i = 0; i < c; i++) { if (type < 8 || generic) for (size_t b = 0; b < std::min<size_t>(cmp, 4); b++) e[b] = (char)(i >> (8 * b)); vt_vec_push_back(v, e.data()); live[0].m.push_back(e); }
    }
    for (size_t k = 0; k < nops; k++) {
        size_t w = s.n(live.size() - 1); VecInst &x = live[w]; vt_vec_t *v = x.v; auto &m = x.m; size_t n = m.size();
        bool g = generic || s.coin(); const char *op = "";
        void *oldp = v->ptr; size_t oldcap = vt_vec_capacity(v);
        switch (s.n(21)) {
            case 0: case 1: case 2: case 3: { op = "push_back"; std::string e = elem_value(s, type, t->elsize); VPLOG("[%zu] push_back %s", w, hex(e).c_str()); if (g) vt_vec_push_back(v, e.data()); else t->push_back(v, e.data()); m.push_back(e); break; }
            case 4: case 5: { op = "push_front"; std::string e = elem_value(s, type, t->elsize); VPLOG("[%zu] push_front %s", w, hex(e).c_str()); if (g) vt_vec_push_front(v, e.data()); else t->push_front(v, e.data()); m.insert(m.begin(), e); break; }
            case 6: { op = "burst"; size_t c = s.n(big ? 3000 : 70); int how = s.n(2); VPLOG("[%zu] %zu x %s", w, c, how == 0 ? "push_back" : how == 1 ? "push_front" : "insert");
                std::string e = elem_value(s, type, t->elsize);
                if (how && c > 200) c = 200;
                for (size_t i = 0; i < c; i++) { for (size_t b = 0; b < std::min(cmp, (size_t)(type >= 8 && type < NVT ? 2 : 4)); b++) e[b] = (char)((i >> (8 * b)) ^ e[b]);
                    if (how == 0) { vt_vec_push_back(v, e.data()); m.push_back(e); }
                    else if (how == 1) { vt_vec_push_front(v, e.data()); m.insert(m.begin(), e); }
                    else if (!m.empty()) { size_t at = (i * 7) % m.size(); vt_vec_insert(v, e.data(), at); m.insert(m.begin() + at, e); } }
                break; }
            case 7: op = "pop"; VPLOG("[%zu] pop", w); vt_vec_pop(v); if (n) m.pop_back(); break;
            case 8: case 9: { op = "pop_get"; VPLOG("[%zu] pop_get%s", w, g ? "" : t->name);
                if (g) { void *p = vt_vec_pop_get(v); CHECK((p == nullptr) == (n == 0), "pop_get on %zu elements gives %p", n, p); if (n) CHECK(!memcmp(p, m.back().data(), cmp), "pop_get gives %s, expected %s", hex(std::string((char *)p, t->elsize)).c_str(), hex(m.back()).c_str()); }
                else { memset(tmp.data(), 0, tmp.size()); t->pop_get(v, tmp.data()); std::string want = n ? m.back() : std::string(t->elsize, 0); CHECK(!memcmp(tmp.data(), want.data(), cmp), "pop_get%s on %zu elements gives %s, expected %s", t->name, n, hex(std::string(tmp.data(), t->elsize)).c_str(), hex(want).c_str()); }
                if (n) m.pop_back(); break; }
            case 10: if (n) { op = "set"; size_t at = s.n(n - 1); std::string e = elem_value(s, type, t->elsize); VPLOG("[%zu] set %zu %s", w, at, hex(e).c_str()); switch (g ? s.n(1) : 2) { case 0: vt_vec_set(v, e.data(), at); break; case 1: vt_array_set(v, e.data(), at); break; default: t->set(v, e.data(), at); } m[at] = e; } break;
            case 11: if (n) { op = "get"; size_t at = s.n(n - 1); VPLOG("[%zu] get %zu", w, at); if (!g) { t->get(v, at, tmp.data()); CHECK(!memcmp(tmp.data(), m[at].data(), cmp), "get%s(%zu) gives %s, expected %s", t->name, at, hex(std::string(tmp.data(), t->elsize)).c_str(), hex(m[at]).c_str()); } else { CHECK(vt_array_get(v, at) == vt_vec_get(v, at), "array_get and vec_get differ at %zu", at); } } break;
            case 12: case 13: if (n) { op = "insert"; size_t at = s.n(n - 1); std::string e = elem_value(s, type, t->elsize); VPLOG("[%zu] insert %s at %zu", w, hex(e).c_str(), at); if (g) vt_vec_insert(v, e.data(), at); else t->insert(v, e.data(), at); m.insert(m.begin() + at, e); } break;
            case 14: case 15: if (n) { op = "remove"; size_t at = s.n(n - 1); bool fast = s.coin(); VPLOG("[%zu] remove %s at %zu", w, fast ? "fast" : "stable", at); vt_vec_remove(v, at, fast ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE);
                if (fast) { std::swap(m[at], m.back()); m.pop_back(); } else m.erase(m.begin() + at); if (at + 1 < n) removed = true; } break;
            case 16: { op = "can_find"; std::string e = n && s.coin() ? m[s.n(n - 1)] : elem_value(s, type, t->elsize); if (n && (type < 8 || generic) && s.chance(1, 4)) { e = m[s.n(n - 1)]; size_t b = s.coin() ? cmp - 1 : s.n(cmp - 1); e[b] = (char)(e[b] ^ (1 << s.n(7))); }   // differs from an element in one bit
                int64_t want = -1; for (size_t i = 0; i < n; i++) if (!memcmp(m[i].data(), e.data(), cmp)) { want = i; break; }
                bool gg = g && (generic || t->generic_find); int64_t got = gg ? vt_vec_can_find(v, e.data()) : t->can_find(v, e.data()); VPLOG("[%zu] can_find %s = %lld", w, hex(e).c_str(), (long long)got); CHECK(got == want, "can_find %s gives %lld, expected %lld (length %zu)", hex(e).c_str(), (long long)got, (long long)want, n); break; }
            case 17: { op = "reserve"; size_t c = g_huge_ok && oldcap < 1000000 && s.coin() ? huge_number(s) / t->elsize : 1 + s.size(big ? 5000 : 60); if (c > 1000000) label("several GB reserved"); VPLOG("[%zu] reserve %zu", w, c); vt_vec_reserve(v, c); CHECK(vt_vec_has_space(v) >= c, "reserve(%zu) leaves room for %zu", c, vt_vec_has_space(v)); break; }
            case 18: op = "shrink"; VPLOG("[%zu] shrink", w); vt_vec_shrink(v); if (n) CHECK(vt_vec_capacity(v) == n, "shrink: capacity %zu, length %zu", vt_vec_capacity(v), n); break;
            case 19: { op = "resize"; size_t c = s.chance(1, 3) && oldcap < 1000000 ? std::max<size_t>(1, oldcap) : 1 + s.n(n + 12); VPLOG("[%zu] resize %zu", w, c); vt_vec_resize(v, c); CHECK(vt_vec_len(v) == c, "resize(%zu): length %zu", c, vt_vec_len(v));
                for (size_t i = 0; i < std::min(n, c); i++) CHECK(!memcmp(vt_vec_get(v, i), m[i].data(), cmp), "resize(%zu) changed element %zu", c, i);
                m.resize(std::min(n, c)); for (size_t i = m.size(); i < c; i++) { std::string e = elem_value(s, type, t->elsize); vt_vec_set(v, e.data(), i); m.push_back(e); } break; }
            case 20: if (s.chance(1, 3)) { op = "clear"; VPLOG("[%zu] clear", w); vt_vec_clear(v); m.clear(); } else { op = "apply"; std::vector<std::pair<void *, size_t>> calls; g_calls = &calls; vt_vec_apply(v, apply_cb); VPLOG("[%zu] apply: %zu calls", w, calls.size());
                    CHECK(calls.size() == n, "apply made %zu calls for %zu elements", calls.size(), n); for (size_t i = 0; i < n; i++) CHECK(calls[i].second == i && calls[i].first == vt_vec_get(v, i), "apply call %zu got index %zu", i, calls[i].second); } break;
            default: if (live.size() < 3) { op = "dup"; Alloc *a = s.coin() ? alloctr : nullptr; VPLOG("[%zu] dup -> [%zu]%s", w, live.size(), a ? " on the allocator" : ""); vt_vec_t *d = vt_vec_dup(v, a); CHECK(d != v && d->ptr != v->ptr, "dup shares storage with its original"); live.push_back({d, live[w].m, a}); label("dup"); }
                     else if (live.size() > 1) { op = "destroy"; VPLOG("destroy [%zu]", live.size() - 1); if (destroy || live.back().v->alloctr == nullptr) vt_vec_destroy(live.back().v); live.pop_back(); } break;
        }
        if (live.size() > w && live[w].v == v) { if (vt_vec_capacity(v) > oldcap) grew = true; if (v->ptr != oldp) moved = true; }
        for (size_t i = 0; i < live.size(); i++) vec_check(live[i], t, cmp, false, &s, op);
    }
    for (auto &x : live) vec_check(x, t, cmp, true, &s, "history");
    label(t->name); if (grew) label("grew"); if (moved) label("storage moved"); if (removed) label("removed from the middle"); if (big) label("large");
    if (grew || removed) nontrivial();
    for (auto &x : live) if (destroy || !x.v->alloctr) vt_vec_destroy(x.v);
}

// The end of a container of a few GB: positions whose byte offset does not fit in 31 or 32 bits. The storage is address space (wrap.cpp), of
// which only the beginning and the end are real, so the history stays near the end and never grows; the beginning must not change.
struct Far {
    size_t bytes, es; std::vector<std::string> m; size_t first;          // the model of the elements from `first` on
    Far(Src &s, size_t es_) : es(es_) { size_t b = (size_t)1 << (31 + s.n(2)); bytes = s.coin() ? b + s.n(4 << 20) : b - s.n(100000); }
    size_t count() const { return bytes / es; }
    enum { HEAD = 4 << 20 };
    static void mark(void *p) { memset(p, 0x6b, HEAD); }
    static void check_head(const void *p, const char *op) { static const std::string ref(HEAD, 0x6b); CHECK(!memcmp(p, ref.data(), HEAD), "after %s at the far end: the beginning of the container has changed", op); }
};
void vec_far(Src &s, Alloc *alloctr) {
    static const size_t szs[] = {4, 1, 2, 3, 8, 16, 24, 100, 255, 4096, 65544}; size_t es = szs[s.n(10)]; Far f(s, es); size_t N = f.count(); g_huge_ok = true; more_time(300); label("end of several GB"); nontrivial();
    int ti = es == 1 ? 2 : es == 2 ? 4 : es == 4 ? 0 : es == 8 ? 7 : -1; const VecOps *t = ti >= 0 ? &vec_types[ti] : nullptr;
    VPLOG("vec of %zu elements of size %zu%s", N, es, alloctr ? " on an allocator" : ""); vt_vec_t *v = vt_vec_create(N, es, alloctr); vt_vec_resize(v, N); CHECK(vt_vec_len(v) == N && vt_vec_capacity(v) >= N, "resize(%zu): length %zu, capacity %zu", N, vt_vec_len(v), vt_vec_capacity(v)); check_storage(v, 0, "resize");
    Far::mark(v->ptr); size_t K = 30 + s.n(40); auto &m = f.m; f.first = N - K; for (size_t i = 0; i < K; i++) { std::string e = elem_value(s, NVT, es); e[0] = (char)i; vt_vec_set(v, e.data(), f.first + i); m.push_back(e); }
    size_t drop = 1 + s.n(10); for (size_t i = 0; i < drop; i++) { vt_vec_pop(v); m.pop_back(); }
    size_t nops = 1 + s.n(25); const char *op = "set";
    for (size_t k = 0; k <= nops; k++) {
        CHECK(vt_vec_len(v) == f.first + m.size(), "after %s: length %zu, expected %zu", op, vt_vec_len(v), f.first + m.size()); CHECK(vt_vec_has_space(v) == vt_vec_capacity(v) - vt_vec_len(v), "after %s: has_space", op);
        for (size_t i = 0; i < m.size(); i++) { char *q = (char *)vt_vec_get(v, f.first + i); CHECK(q == (char *)v->ptr + (f.first + i) * es && vt_array_get(v, f.first + i) == q, "after %s: element %zu of size %zu is not in its slot", op, f.first + i, es); CHECK(!memcmp(q, m[i].data(), es), "after %s: element %zu (size %zu) is %s, expected %s", op, f.first + i, es, hex(std::string(q, es)).c_str(), hex(m[i]).c_str()); }
        if (k % 8 == 0 || k == nops) Far::check_head(v->ptr, op);
        if (k == nops || m.size() < 8) break;
        std::string e = elem_value(s, NVT, es); size_t at = s.n(m.size() - 1), idx = f.first + at; bool g = !t || s.coin(), room = f.first + m.size() < N; std::string o(es, 0);
        switch (s.n(7)) {
            case 0: case 1: if (room) { op = "push_back"; VPLOG("push_back %s", hex(e).c_str()); if (g) vt_vec_push_back(v, e.data()); else t->push_back(v, e.data()); m.push_back(e); } break;
            case 2: op = "pop_get"; VPLOG("pop_get"); if (g) { char *q = (char *)vt_vec_pop_get(v); CHECK(q && !memcmp(q, m.back().data(), es), "pop_get gives %s, expected %s", q ? hex(std::string(q, es)).c_str() : "NULL", hex(m.back()).c_str()); } else { t->pop_get(v, &o[0]); CHECK(o == m.back(), "pop_get%s gives %s, expected %s", t->name, hex(o).c_str(), hex(m.back()).c_str()); } m.pop_back(); break;
            case 3: op = "set"; VPLOG("set %zu %s", idx, hex(e).c_str()); if (!g) t->set(v, e.data(), idx); else if (s.coin()) vt_vec_set(v, e.data(), idx); else vt_array_set(v, e.data(), idx); m[at] = e; break;
            case 4: if (room) { op = "insert"; VPLOG("insert %s at %zu", hex(e).c_str(), idx); if (g) vt_vec_insert(v, e.data(), idx); else t->insert(v, e.data(), idx); m.insert(m.begin() + at, e); } break;
            case 5: { bool fast = s.coin(); op = "remove"; VPLOG("remove %s at %zu", fast ? "fast" : "stable", idx); vt_vec_remove(v, idx, fast ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE); if (fast) { std::swap(m[at], m.back()); m.pop_back(); } else m.erase(m.begin() + at); break; }
            case 6: op = "pop"; VPLOG("pop"); vt_vec_pop(v); m.pop_back(); break;
            default: if (t) { op = "get"; VPLOG("get %zu", idx); t->get(v, idx, &o[0]); CHECK(o == m[at], "get%s(%zu) gives %s, expected %s", t->name, idx, hex(o).c_str(), hex(m[at]).c_str()); }
        }
    }
    if (s.chance(1, 4)) { VPLOG("shrink"); size_t n = vt_vec_len(v); vt_vec_shrink(v); CHECK(vt_vec_len(v) == n && vt_vec_capacity(v) == n, "shrink: length %zu, capacity %zu, expected %zu", vt_vec_len(v), vt_vec_capacity(v), n); check_storage(v, 0, "shrink"); Far::check_head(v->ptr, "shrink"); }
    vt_vec_destroy(v);
}

// ------------------------------------------------------------------ pointer lists
// The pointers aim at memory that must never be touched: the middle of a poisoned page range.
static void *fake_ptr(Src &s) {
    static const uintptr_t base = 0x10;
    uint64_t k = s.chance(1, 4) ? s.bits64() : s.u(7);
    uintptr_t p = base + k * 8; return (void *)(p ? p : 8);
}
static void list_check(const ListInst &x, bool full, const char *op) {
    vt_plist_t *p = x.p; size_t n = x.m.size();
    CHECK(vt_plist_len(p) == n, "after %s: length %zu, expected %zu", op, vt_plist_len(p), n);
    CHECK(vt_plist_is_empty(p) == (n == 0), "after %s: is_empty", op);
    CHECK(vt_plist_capacity(p) >= n && vt_plist_has_space(p) == vt_plist_capacity(p) - n, "after %s: capacity %zu, space %zu, length %zu", op, vt_plist_capacity(p), vt_plist_has_space(p), n);
    check_storage(p, 0, op); CHECK_OWNER(p, x.a, op);
    auto one = [&](size_t i) { CHECK(vt_plist_get(p, i) == x.m[i], "after %s: element %zu is %p, expected %p (length %zu)", op, i, vt_plist_get(p, i), x.m[i], n); };
    if (full || n <= 96) for (size_t i = 0; i < n; i++) one(i);
    else { for (size_t i = 0; i < 12; i++) { one(i); one(n - 1 - i); } for (size_t i = 0; i < n; i += 1 + n / 24) one(i); }
}
void plist_history(Src &s, Alloc *alloctr, bool destroy) {
    size_t cap0 = 1 + s.size(40);
    VPLOG("plist, capacity %zu, %s", cap0, alloctr ? "on an allocator" : "on the heap");
    std::vector<ListInst> live; live.push_back({vt_plist_create(cap0, alloctr), {}, alloctr});
    CHECK(vt_plist_capacity(live[0].p) >= cap0, "create(%zu): capacity", cap0);
    size_t nops = 1 + s.n(s.chance(1, 8) ? 120 : 40); bool grew = false, removed = false, big = s.chance(1, 24);
    if (s.chance(1, 6000)) {                                             // more elements than 15 or 16 bits can count
        size_t c = (s.coin() ? 32760 : 65530) + s.n(2000); VPLOG("%zu x push_back", c); label("very long"); nops = std::min<size_t>(nops, 12);
        for (size_t i = 0; i < c; i++) { void *q = (void *)(uintptr_t)(0x1000 + i * 16); vt_plist_push_back(live[0].p, q); live[0].m.push_back(q); }
    }
    for (size_t k = 0; k < nops; k++) {
        size_t w = s.n(live.size() - 1); ListInst &x = live[w]; vt_plist_t *p = x.p; auto &m = x.m; size_t n = m.size(), oldcap = vt_plist_capacity(p); const char *op = "";
        switch (s.n(21)) {
            case 0: case 1: case 2: case 3: { op = "push_back"; void *q = fake_ptr(s); VPLOG("[%zu] push_back %p", w, q); vt_plist_push_back(p, q); m.push_back(q); break; }
            case 4: case 5: { op = "push_front"; void *q = fake_ptr(s); VPLOG("[%zu] push_front %p", w, q); vt_plist_push_front(p, q); m.insert(m.begin(), q); break; }
            case 6: { op = "burst"; size_t c = s.n(big ? 3000 : 70); int how = s.n(2); VPLOG("[%zu] %zu x %d", w, c, how); if (how && c > 200) c = 200; for (size_t i = 0; i < c; i++) { void *q = (void *)(uintptr_t)(0x1000 + i * 16 + k); if (how == 0) { vt_plist_push_back(p, q); m.push_back(q); } else if (how == 1) { vt_plist_push_front(p, q); m.insert(m.begin(), q); } else if (!m.empty()) { size_t at = (i * 7) % m.size(); vt_plist_insert(p, q, at); m.insert(m.begin() + at, q); } } break; }
            case 7: op = "pop"; VPLOG("[%zu] pop", w); vt_plist_pop(p); if (n) m.pop_back(); break;
            case 8: case 9: { op = "pop_get"; void *q = vt_plist_pop_get(p); VPLOG("[%zu] pop_get = %p", w, q); CHECK(q == (n ? m.back() : nullptr), "pop_get on %zu elements gives %p, expected %p", n, q, n ? m.back() : nullptr); if (n) m.pop_back(); break; }
            case 10: if (n) { op = "set"; size_t at = s.n(n - 1); void *q = fake_ptr(s); VPLOG("[%zu] set %zu %p", w, at, q); vt_plist_set(p, q, at); m[at] = q; } break;
            case 11: case 12: if (n) { op = "insert"; size_t at = s.n(n - 1); void *q = fake_ptr(s); VPLOG("[%zu] insert %p at %zu", w, q, at); vt_plist_insert(p, q, at); m.insert(m.begin() + at, q); } break;
            case 13: case 14: if (n) { op = "remove"; size_t at = s.n(n - 1); bool fast = s.coin(); VPLOG("[%zu] remove %s at %zu", w, fast ? "fast" : "stable", at); vt_plist_remove(p, at, fast ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE); if (fast) { m[at] = m.back(); m.pop_back(); } else m.erase(m.begin() + at); if (at + 1 < n) removed = true; } break;
            case 15: { op = "remove_element"; void *q = n && s.chance(3, 4) ? m[s.n(n - 1)] : fake_ptr(s); bool fast = s.coin(); VPLOG("[%zu] remove_element %p %s", w, q, fast ? "fast" : "stable"); vt_plist_remove_element(p, q, fast ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE);
                auto it = std::find(m.begin(), m.end(), q); if (it != m.end()) { if (fast) { *it = m.back(); m.pop_back(); } else m.erase(it); removed = true; } break; }
            case 16: { op = "can_find"; void *q = n && s.coin() ? m[s.n(n - 1)] : fake_ptr(s); auto it = std::find(m.begin(), m.end(), q); int64_t want = it == m.end() ? -1 : it - m.begin(), got = vt_plist_can_find(p, q); VPLOG("[%zu] can_find %p = %lld", w, q, (long long)got); CHECK(got == want, "can_find %p gives %lld, expected %lld", q, (long long)got, (long long)want); break; }
            case 17: { op = "reserve"; size_t c = g_huge_ok && oldcap < 1000000 && s.coin() ? huge_number(s) / 8 : 1 + s.size(big ? 5000 : 60); if (c > 1000000) label("several GB reserved"); VPLOG("[%zu] reserve %zu", w, c); vt_plist_reserve(p, c); CHECK(vt_plist_has_space(p) >= c, "reserve(%zu) leaves room for %zu", c, vt_plist_has_space(p)); break; }
            case 18: op = "shrink"; VPLOG("[%zu] shrink", w); vt_plist_shrink(p); if (n) CHECK(vt_plist_capacity(p) == n, "shrink: capacity %zu, length %zu", vt_plist_capacity(p), n); break;
            case 19: { op = "resize"; size_t c = s.chance(1, 3) && oldcap < 1000000 ? oldcap : 1 + s.n(n + 12); VPLOG("[%zu] resize %zu", w, c); vt_plist_resize(p, c); CHECK(vt_plist_len(p) == c, "resize(%zu): length %zu", c, vt_plist_len(p)); m.resize(std::min(n, c)); for (size_t i = 0; i < m.size(); i++) CHECK(vt_plist_get(p, i) == m[i], "resize(%zu) changed element %zu", c, i);
                for (size_t i = m.size(); i < c; i++) { void *q = fake_ptr(s); vt_plist_set(p, q, i); m.push_back(q); } break; }
            case 20: if (s.chance(1, 3)) { op = "clear"; VPLOG("[%zu] clear", w); vt_plist_clear(p); m.clear(); } else { op = "apply"; std::vector<std::pair<void *, size_t>> calls; g_calls = &calls; vt_plist_apply(p, apply_cb); VPLOG("[%zu] apply: %zu calls", w, calls.size()); CHECK(calls.size() == n, "apply made %zu calls for %zu elements", calls.size(), n); for (size_t i = 0; i < n; i++) CHECK(calls[i].second == i && calls[i].first == m[i], "apply call %zu got index %zu, pointer %p", i, calls[i].second, calls[i].first); } break;
            default: if (live.size() < 3) { op = "dup"; Alloc *a = s.coin() ? alloctr : nullptr; VPLOG("[%zu] dup -> [%zu]", w, live.size()); vt_plist_t *d = vt_plist_dup(p, a); CHECK(d != p && d->ptr2 != p->ptr2, "dup shares storage"); live.push_back({d, live[w].m, a}); label("dup"); }
                     else { op = "destroy"; VPLOG("destroy [%zu]", live.size() - 1); if (destroy || !live.back().p->alloctr) vt_plist_destroy(live.back().p); live.pop_back(); } break;
        }
        if (live.size() > w && live[w].p == p && vt_plist_capacity(p) > oldcap) grew = true;
        for (auto &y : live) list_check(y, false, op);
    }
    for (auto &y : live) list_check(y, true, "history");
    if (grew) label("grew"); if (removed) label("removed"); if (big) label("large");
    if (grew || removed) nontrivial();
    for (auto &y : live) if (destroy || !y.p->alloctr) vt_plist_destroy(y.p);
}

void plist_far(Src &s, Alloc *alloctr) {
    Far f(s, 8); size_t N = f.count(); g_huge_ok = true; more_time(300); label("end of several GB"); nontrivial(); VPLOG("plist of %zu pointers%s", N, alloctr ? " on an allocator" : "");
    vt_plist_t *p = vt_plist_create(N, alloctr); vt_plist_resize(p, N); CHECK(vt_plist_len(p) == N && vt_plist_capacity(p) >= N, "resize(%zu): length %zu, capacity %zu", N, vt_plist_len(p), vt_plist_capacity(p)); check_storage(p, 0, "resize");
    Far::mark(p->ptr); size_t K = 30 + s.n(40), first = N - K; std::vector<void *> m; for (size_t i = 0; i < K; i++) { void *q = fake_ptr(s); vt_plist_set(p, q, first + i); m.push_back(q); }
    size_t drop = 1 + s.n(10); for (size_t i = 0; i < drop; i++) { vt_plist_pop(p); m.pop_back(); }
    size_t nops = 1 + s.n(25); const char *op = "set";
    for (size_t k = 0; k <= nops; k++) {
        CHECK(vt_plist_len(p) == first + m.size() && vt_plist_has_space(p) == vt_plist_capacity(p) - vt_plist_len(p), "after %s: length %zu, expected %zu", op, vt_plist_len(p), first + m.size());
        for (size_t i = 0; i < m.size(); i++) CHECK(vt_plist_get(p, first + i) == m[i], "after %s: element %zu is %p, expected %p", op, first + i, vt_plist_get(p, first + i), m[i]);
        if (k % 8 == 0 || k == nops) Far::check_head(p->ptr, op);
        if (k == nops || m.size() < 8) break;
        void *q = fake_ptr(s); size_t at = s.n(m.size() - 1), idx = first + at; bool room = first + m.size() < N;
        switch (s.n(6)) {
            case 0: case 1: if (room) { op = "push_back"; VPLOG("push_back %p", q); vt_plist_push_back(p, q); m.push_back(q); } break;
            case 2: { op = "pop_get"; VPLOG("pop_get"); void *r = vt_plist_pop_get(p); CHECK(r == m.back(), "pop_get gives %p, expected %p", r, m.back()); m.pop_back(); break; }
            case 3: op = "set"; VPLOG("set %zu %p", idx, q); vt_plist_set(p, q, idx); m[at] = q; break;
            case 4: if (room) { op = "insert"; VPLOG("insert %p at %zu", q, idx); vt_plist_insert(p, q, idx); m.insert(m.begin() + at, q); } break;
            case 5: { bool fast = s.coin(); op = "remove"; VPLOG("remove %s at %zu", fast ? "fast" : "stable", idx); vt_plist_remove(p, idx, fast ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE); if (fast) { m[at] = m.back(); m.pop_back(); } else m.erase(m.begin() + at); break; }
            default: op = "pop"; VPLOG("pop"); vt_plist_pop(p); m.pop_back();
        }
    }
    if (s.chance(1, 4)) { VPLOG("shrink"); size_t n = vt_plist_len(p); vt_plist_shrink(p); CHECK(vt_plist_len(p) == n && vt_plist_capacity(p) == n, "shrink: length %zu, capacity %zu, expected %zu", vt_plist_len(p), vt_plist_capacity(p), n); check_storage(p, 0, "shrink"); Far::check_head(p->ptr, "shrink"); }
    vt_plist_destroy(p);
}
