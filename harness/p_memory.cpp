// C09 memory comes from and goes back to the given allocator, C28 running out of memory.
// The workloads are the histories of the other properties; here only the memory oracles decide.
#include "seq_impl.cpp"
#include "str_impl.cpp"
#include "text_impl.cpp"
#include "argopt_impl.cpp"
#include "path_impl.cpp"

// ---------------------------------------------------------------- an allocator of our own
// Blocks carry a header, so handing one of them to free()/realloc() is an error the sanitizer reports, and
// handing a foreign pointer to this allocator is seen here.
struct Own { Alloc a; std::map<void *, size_t> *live; long ops; };
struct OwnHead { uint64_t magic; size_t n; };
enum : uint64_t { OWN_MAGIC = 0x6F776E2D626C6B21ull };
static Own *own_of(Alloc *a) { return (Own *)a; }
static void *own_alloc(Alloc *const a, const size_t n, const char *const, const char *const, const size_t) {
    Own *o = own_of(a); o->ops++; CHECK(n > 0, "the library asks the allocator for 0 bytes");
    OwnHead *h = (OwnHead *)calloc(1, sizeof(OwnHead) + n); h->magic = OWN_MAGIC; h->n = n;
    (*o->live)[h + 1] = n; a->stats.count_allocs++; a->stats.count_bytes_allocated += n; return h + 1;
}
static void own_free(Alloc *const a, void *p, const char *const, const char *const, const size_t) {
    Own *o = own_of(a); o->ops++; auto it = o->live->find(p);
    if (it == o->live->end()) fail("library", 0, "the allocator is given %p back, which it did not hand out (or got back before)", p);
    a->stats.count_frees++; a->stats.count_bytes_allocated -= it->second; a->stats.count_bytes_freed += it->second; o->live->erase(it); free((OwnHead *)p - 1);
}
static void *own_realloc(Alloc *const a, void *p, const size_t n, const char *const, const char *const, const size_t) {
    Own *o = own_of(a); o->ops++; auto it = o->live->find(p); CHECK(n > 0, "the library asks the allocator for 0 bytes");
    if (it == o->live->end()) fail("library", 0, "the allocator is asked to resize %p, which it did not hand out", p);
    size_t old = it->second; OwnHead *h = (OwnHead *)malloc(sizeof(OwnHead) + n); h->magic = OWN_MAGIC; h->n = n; memset(h + 1, 0xC7, n); memcpy(h + 1, p, std::min(old, n));
    o->live->erase(it); free((OwnHead *)p - 1); (*o->live)[h + 1] = n; a->stats.count_reallocs++; a->stats.count_bytes_allocated += n - old; return h + 1;   // always moves
}
static Own *own_create() { Own *o = (Own *)calloc(1, sizeof(Own)); o->live = new std::map<void *, size_t>(); o->a.alloc = own_alloc; o->a.realloc = own_realloc; o->a.free = own_free; return o; }
static void own_drop(Own *o) { for (auto &kv : *o->live) free((OwnHead *)kv.first - 1); delete o->live; free(o); }

// ---------------------------------------------------------------- containers of several owners side by side
static void mixed_history(Src &s, Alloc *al, bool destroy) {
    Own *own[2] = {own_create(), own_create()}; struct Obj { int home; int kind; struct VitaBaseArrayType *x; }; std::vector<Obj> v; bool two = false;
    auto home_alloc = [&](int h) -> Alloc * { return h == 0 ? al : &own[h - 1]->a; };
    auto die = [&](int h) { return destroy || h != 0 || !al; };
    size_t n = 2 + s.size(25); std::set<int> homes;
    for (size_t k = 0; k < n; k++) {
        long ops[2] = {own[0]->ops, own[1]->ops}, lib = g_lib_allocs; int home; const char *what; size_t base = al ? al->stats.count_bytes_allocated : 0;
        size_t op = v.empty() ? 0 : s.n(14); int other = -1;
        if (op <= 1 || v.empty()) {
            home = (int)s.n(2); int kind = (int)s.n(2); Alloc *a = home_alloc(home); what = "create"; VPLOG("create %s for owner %d", kind == 0 ? "string" : kind == 1 ? "vector" : "list", home);
            v.push_back({home, kind, kind == 0 ? vt_str_create(s.text(30).c_str(), a) : kind == 1 ? vt_vec_create(1 + s.n(5), 1 + s.n(20), a) : vt_plist_create(1 + s.n(5), a)});
        } else if (op <= 3) {                                             // a copy may have another owner
            Obj o = v[s.n(v.size() - 1)]; what = "dup"; home = o.kind == 0 ? o.home : (int)s.n(2); VPLOG("dup from owner %d to %d", o.home, home); Alloc *a = home_alloc(home);
            v.push_back({home, o.kind, o.kind == 0 ? vt_str_dup(o.x) : o.kind == 1 ? vt_vec_dup(o.x, a) : vt_plist_dup(o.x, a)}); two = two || home != o.home;
        } else if (op <= 7) {
            Obj o = v[s.n(v.size() - 1)]; home = o.home; what = "edit"; VPLOG("edit an object of owner %d", home);
            if (o.kind == 0) switch (s.n(5)) { case 0: vt_str_append(o.x, s.text(60).c_str()); break; case 1: vt_str_reserve(o.x, 1 + s.n(90)); break; case 2: vt_str_shrink(o.x); break; case 3: vt_str_appendf(o.x, "%s-%d", s.text(60).c_str(), 5); break; case 4: vt_str_clear(o.x); break; default: vt_str_resize(o.x, 1 + s.n(50)); }
            else if (o.kind == 1) { char e[32] = {0}; switch (s.n(4)) { case 0: for (size_t i = s.n(9) + 1; i; i--) vt_vec_push_back(o.x, e); break; case 1: vt_vec_reserve(o.x, 1 + s.n(50)); break; case 2: vt_vec_shrink(o.x); break; case 3: vt_vec_resize(o.x, 1 + s.n(30)); break; default: vt_vec_clear(o.x); } }
            else { switch (s.n(4)) { case 0: for (size_t i = s.n(9) + 1; i; i--) vt_plist_push_back(o.x, (void *)&own); break; case 1: vt_plist_reserve(o.x, 1 + s.n(50)); break; case 2: vt_plist_shrink(o.x); break; case 3: vt_plist_resize(o.x, 1 + s.n(30)); break; default: vt_plist_clear(o.x); } }
        } else if (op == 10) {                                            // a split list and its pieces have one owner
            home = (int)s.n(2); Alloc *a = home_alloc(home); what = "split"; VPLOG("split into a list of owner %d", home); vt_plist_t *p = vt_plist_create(1 + s.n(4), a); S t = s.text(30, "ab,") + ","; vt_str_t src = vt_str_create_static(t.c_str());
            vt_plist_t *q = vt_str_split(p, &src, ","); if (q) { for (size_t i = 0; i < vt_plist_len(q); i++) { vt_str_t *z = (vt_str_t *)vt_plist_get(q, i); if (z->alloctr != a) fail("library", 0, "a piece of a split into a list of owner %d has another owner", home); if (die(home)) vt_str_destroy(z); } }
            if (die(home)) vt_plist_destroy(p);
        } else if (op == 11) {                                            // a reused destination keeps its owner
            home = (int)s.n(2); Alloc *a = home_alloc(home); what = "destination"; vt_str_t *d = vt_str_create(s.text(10).c_str(), a); int f = (int)s.n(5); VPLOG("function %d into a string of owner %d", f, home); S t = s.text(60, "ab/,"), u = s.text(60, "ab/,"); vt_str_t *r = d;
            if (f == 0) r = vt_path_build_n(d, 2, t.c_str(), u.c_str()); else if (f == 1) r = vt_path_basename(d, t.c_str()); else if (f == 2) r = vt_str_join_n(d, ", ", 2, t.c_str(), u.c_str()); else if (f == 3) r = vt_str_split_between(d, ("<" + t + ">").c_str(), "<", ">");
            else { int h2 = (int)s.n(2); other = h2; vt_str_t *src = vt_str_create((t + ";" + u).c_str(), home_alloc(h2)); r = f == 4 ? vt_str_pop_get_first(d, src, ";") : vt_str_pop_get_last(d, src, ";"); if (die(h2)) vt_str_destroy(src); }
            if (r && (r != d || r->alloctr != a)) fail("library", 0, "a string of owner %d given as the destination comes back as another one", home);
            if (die(home)) vt_str_destroy(d);
        } else if (op == 12) {                                            // results asked for with an owner
            home = (int)s.n(2); Alloc *a = home_alloc(home); what = "result"; int f = (int)s.n(3); VPLOG("function %d for owner %d", f, home); vt_str_t *r = f == 0 ? vt_path_expand_tilda(s.coin() ? "~/abc" : "abc", a) : f == 1 ? vt_path_get_cwd(a) : f == 2 ? vt_path_get_this_exe_location(a) : vt_str_create_capacity(1 + s.n(9), a);
            if (r && r->alloctr != a) fail("library", 0, "a result asked for with owner %d has another one", home);
            if (r && die(home)) vt_str_destroy(r);
        } else if (op == 14) {                                            // a copy of a view owns its text, on the heap
            home = other = 0; what = "dup of a view"; S t = s.text(30), u = s.text(40); VPLOG("dup of a view over %s", show(t).c_str()); vt_str_t vw = vt_str_create_static(t.c_str()); vt_str_t *d = vt_str_dup(&vw); if (s.coin()) vt_str_append(d, u.c_str()); if (s.coin()) vt_str_shrink(d); vt_str_destroy(d); vt_str_destroy(&vw);
            if (al && al->stats.count_bytes_allocated != base) fail("library", 0, "a copy of a view takes memory from an allocator");
        } else if (op == 13) {                                            // listed names belong to the owner of the list
            home = (int)s.n(2); Alloc *a = home_alloc(home); what = "listing"; bool rec = s.coin(); VPLOG("%slisting for owner %d", rec ? "recursive " : "", home); mkdir("mx", 0755); mkdir("mx/d", 0755); f_put("mx/f", ""); f_put("mx/d/g", "");
            vt_plist_t *p = vt_plist_create(1 + s.n(2), a); vt_plist_t *q = rec ? vt_path_dir_list_recurse(p, "mx", s.coin()) : vt_path_dir_list(p, "mx", s.coin());
            if (q) for (size_t i = 0; i < vt_plist_len(q); i++) if (((vt_str_t *)vt_plist_get(q, i))->alloctr != a) fail("library", 0, "a listed name in a list of owner %d has another owner", home);
            if (die(home)) vt_path_dir_free(p);
        } else {
            size_t i = s.n(v.size() - 1); Obj o = v[i]; home = o.home; what = "destroy"; VPLOG("destroy an object of owner %d", home);
            if (die(home)) { if (o.kind == 0) vt_str_destroy(o.x); else if (o.kind == 1) vt_vec_destroy(o.x); else vt_plist_destroy(o.x); } v.erase(v.begin() + (long)i);
        }
        homes.insert(home);
        for (int h = 0; h < 2; h++) if (home != h + 1 && other != h + 1 && own[h]->ops != ops[h]) fail("library", 0, "%s of an object of owner %d uses the allocator of owner %d", what, home, h + 1);
        if (home != 0 && other != 0) { if (g_lib_allocs != lib) fail("library", 0, "%s of an object with an allocator takes memory from the heap", what); if (al && al->stats.count_bytes_allocated != base) fail("library", 0, "%s of an object of owner %d changes the first allocator", what, home); }
    }
    for (auto &o : v) if (die(o.home)) { if (o.kind == 0) vt_str_destroy(o.x); else if (o.kind == 1) vt_vec_destroy(o.x); else vt_plist_destroy(o.x); }
    for (int h = 0; h < 2; h++) if (!own[h]->live->empty()) fail("library", 0, "%zu block(s) of owner %d are still taken after everything was destroyed", own[h]->live->size(), h + 1);
    for (int h = 0; h < 2; h++) own_drop(own[h]);
    if (two || homes.size() > 1) nontrivial();
}

struct W { const char *name; void (*fn)(Src &, Alloc *, bool); unsigned weight; };
static const W works[] = {{"vectors", vec_history, 5}, {"lists", plist_history, 4}, {"strings", str_history, 6}, {"text functions", text_history, 5}, {"split, join and pop", split_history, 5}, {"command lines", argopt_history, 3}, {"files", file_history, 2}, {"path texts", path_history, 5}, {"directories", dir_history, 2}, {"several owners", mixed_history, 3}};
static const W &pick_work(Src &s) { unsigned t = 0; for (auto &w : works) t += w.weight; unsigned k = (unsigned)s.n(t - 1); for (auto &w : works) { if (k < w.weight) return w; k -= w.weight; } return works[0]; }

// ---------------------------------------------------------------- C09
static void c09(Src &s) {
    const W &w = pick_work(s); int mode = (int)s.n(3); VPLOG("%s, %s", w.name, mode == 0 ? "heap" : mode == 1 ? "tracking allocator" : mode == 2 ? "own allocator" : "tracking allocator destroyed with everything in it");
    label(w.name); label(mode == 0 ? "heap" : mode == 1 ? "tracking allocator" : mode == 2 ? "own allocator" : "allocator destroyed with everything in it");
    struct Guard { Own *o = nullptr; Alloc *m = nullptr; ~Guard() { if (o) own_drop(o); if (m) vt_mallocator_destroy(m); } } g;
    if (mode == 0) { w.fn(s, nullptr, true); return; }                    // the driver's leak check decides
    if (mode == 2) {
        g.o = own_create(); long before = g_lib_allocs; w.fn(s, &g.o->a, true); long heap = g_lib_allocs - before;
        if (!g.o->live->empty()) fail("library", 0, "%zu block(s), %zu bytes, are still taken from the allocator after everything was destroyed", g.o->live->size(), g.o->a.stats.count_bytes_allocated);
        if (heap && w.fn != mixed_history) label("memory from the heap besides the allocator");
        if (heap && w.fn != mixed_history && (w.fn == str_history || w.fn == text_history || w.fn == argopt_history)) fail("library", 0, "objects on an allocator made %ld request(s) to the heap", heap);
        return;
    }
    g.m = vt_mallocator_create(); w.fn(s, g.m, mode == 1);
    if (mode == 1 && g.m->stats.count_bytes_allocated != 0) fail("library", 0, "%zu bytes are still taken from the allocator after everything was destroyed", g.m->stats.count_bytes_allocated);
    if (mode == 1 && g.m->obj_list_len != 0) fail("library", 0, "%zu blocks are still listed in the allocator after everything was destroyed", g.m->obj_list_len);
}
PROP("C09", c09, 800000, 2000000, F_LEAK | F_FS | F_SOFT, "The random histories of the container, text, split/join, command-line, file, path and directory properties, plus histories of objects of three owners with copies between them, each on the heap, on the tracking allocator (everything destroyed, or only the allocator), or on an allocator of the harness that knows its blocks and moves them on every resize. Memory oracles only: allocator ledger empty, no heap request for allocator objects, no block left on the heap, no foreign or repeated free. Non-trivial: by the rule of the history that was run.");

// ---------------------------------------------------------------- C28
namespace vp { extern volatile int g_fault_end; extern volatile int g_fault_code; }
static void c28(Src &s) {
    g_memory_faults = true;
    const W &w = pick_work(s); bool al = s.coin(); uint64_t pick[4]; for (auto &p : pick) p = s.u(1u << 20); bool output = s.coin(); Src base = s;
    auto once = [&](long at) {                                            // at = 0: count the requests
        Src c = base; Alloc *m = nullptr; vt_debug_disable_output(!output); g_lib_failed = 0; g_fault_end = 0; g_fault_code = 0; lib_track(true); long before = g_lib_allocs; g_lib_fail_at = at; Death d; bool soft = false;
        d = expect_death([&] { try { if (al) m = vt_mallocator_create(); w.fn(c, m, true); if (m) vt_mallocator_destroy(m); } catch (const SoftFail &) { soft = true; } });
        g_lib_fail_at = 0; lib_free_all(); lib_track(false); (void)d; return g_lib_allocs - before; };
    long n = once(0); if (g_trace) VPLOG("%s%s: %ld requests", w.name, al ? " on an allocator" : "", n);
    bool tr = g_trace; g_trace = false; label(w.name);
    if (n > 0) for (size_t i = 0; i < 4; i++) {
        long k = 1 + (long)(pick[i] % (uint64_t)n); if (n <= 4) { k = (long)i + 1; if (k > n) break; }
        err_clear(); g_soft_rearm(); once(k);
        g_trace = tr; VPLOG("request %ld of %ld fails: %s", k, n, g_fault_end ? "the program ends" : "it goes on"); g_trace = false;
        if (!g_lib_failed) continue;
        if (!g_fault_end) fail("library", 0, "request %ld of %ld (%s) failed and the program went on", k, n, w.name);
        if (g_fault_code == 0) fail("library", 0, "request %ld of %ld (%s) failed and the program ended with status 0", k, n, w.name);
        std::string e = err_text(); if (e.find("ALLOC") == std::string::npos && e.find("alloc") == std::string::npos && e.find("emory") == std::string::npos) fail("library", 0, "request %ld of %ld (%s) failed and the program ended without a diagnostic (%s)", k, n, w.name, show(e).c_str());
        nontrivial(); label("failed request");
    }
    g_trace = tr;
}
PROP("C28", c28, 300000, 3000000, F_FS | F_SOFT, "The same histories as for C09, run once to count the memory requests of the library (malloc, calloc, realloc) and then again with one of them failing: each of them when there are at most four, four random ones otherwise. Oracle: the program ends right there, with a failure status and a diagnostic on standard error; the sanitizer sees any use of a missing block on the way. Non-trivial: a request was really failed.");
