// C08 the tracking allocator's ledger, C27 memory primitives and status texts.
#include "seq.hpp"
#include <sanitizer/asan_interface.h>
#include <unistd.h>
#include <sys/mman.h>
typedef std::string S;

struct Blk { unsigned char *p; size_t n; uint64_t seed; };
static inline unsigned char pat(uint64_t seed, size_t i) { uint64_t x = (seed + i / 8) * 0x9E3779B97F4A7C15ull; return (unsigned char)((x ^ (x >> 29)) >> (8 * (i % 8))); }
enum : size_t { SPARSE = 1ull << 30, EDGE = 4096 };        // blocks beyond that: only the first and the last page are looked at
static void fill(Blk &b) { if (b.n >= SPARSE) { for (size_t i = 0; i < EDGE; i++) { b.p[i] = pat(b.seed, i); b.p[b.n - 1 - i] = pat(b.seed, b.n - 1 - i); } return; } for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b.seed, i); }
static bool intact(const Blk &b, size_t n) { if (b.n >= SPARSE) { for (size_t i = 0; i < EDGE && i < n; i++) if (b.p[i] != pat(b.seed, i)) return false; if (n >= b.n) for (size_t i = b.n - EDGE; i < b.n; i++) if (b.p[i] != pat(b.seed, i)) return false; return true; } for (size_t i = 0; i < n; i++) if (b.p[i] != pat(b.seed, i)) return false; return true; }
struct Ledger { Alloc *a; std::vector<Blk> live; size_t na = 0, nr = 0, nf = 0, bytes = 0, freed = 0; };
static void check_stats(const Ledger &l, const char *op) {
    const struct VitaAllocatorStats &st = l.a->stats;
    CHECK(st.count_allocs == l.na, "after %s: %zu allocations counted, %zu made", op, st.count_allocs, l.na);
    CHECK(st.count_reallocs == l.nr, "after %s: %zu reallocations counted, %zu made", op, st.count_reallocs, l.nr);
    CHECK(st.count_frees == l.nf, "after %s: %zu frees counted, %zu made", op, st.count_frees, l.nf);
    CHECK(st.count_bytes_allocated == l.bytes, "after %s: %zu bytes counted as allocated, %zu are live", op, st.count_bytes_allocated, l.bytes);
    CHECK(st.count_bytes_freed == l.freed, "after %s: %zu bytes counted as freed, %zu were", op, st.count_bytes_freed, l.freed);
}
static int g_out = -1, g_keep = -1;
static void check_report(const Ledger &l) {                // the printed report shows the counters
    if (g_out < 0) { g_heap_pause = true; g_out = memfd_create("out", 0); g_keep = dup(1); setvbuf(stdout, nullptr, _IONBF, 0); g_heap_pause = false; }
    fflush(stdout); if (ftruncate(g_out, 0)) {} lseek(g_out, 0, SEEK_SET); dup2(g_out, 1); vt_mallocator_print_stats(l.a->stats); fflush(stdout); dup2(g_keep, 1);
    off_t len = lseek(g_out, 0, SEEK_END); S z(len, 0); if (len && pread(g_out, &z[0], len, 0) != len) z.clear();
    std::vector<unsigned long long> got, want{l.na, l.nr, l.nf, l.bytes + l.freed, l.bytes, l.freed};
    for (size_t i = 0; i < z.size();) if (isdigit((unsigned char)z[i])) { got.push_back(strtoull(&z[i], nullptr, 10)); while (i < z.size() && isdigit((unsigned char)z[i])) i++; } else i++;
    CHECK(got == want, "the printed report does not show %zu allocations, %zu reallocations, %zu frees, %zu bytes in all, %zu live, %zu freed: %s", l.na, l.nr, l.nf, l.bytes + l.freed, l.bytes, l.freed, show(z).c_str()); label("report");
}
static bool g_giant;
static size_t blk_size(Src &s) { if (g_giant && s.chance(1, 3)) { label("block of several GB"); return huge_number(s); } return s.chance(1, 60) ? 1 + s.n(200000) : 1 + s.big_size(3000); }
static void c08(Src &s) {
    g_giant = g_huge_ok = s.chance(1, 1200);                // some blocks of several GB
    size_t nalloc = s.chance(1, 5) ? 2 : 1; std::vector<Ledger> ls(nalloc); for (auto &l : ls) { l.a = vt_mallocator_create(); CHECK(l.a && l.a->alloc && l.a->realloc && l.a->free, "create gives an unusable allocator"); check_stats(l, "create");
        if (s.chance(1, 8)) {                              // as after a long history
            auto old = [&] { return s.coin() ? (size_t)UINT32_MAX - s.n(300) : s.coin() ? (size_t)INT32_MAX - s.n(300) : (size_t)s.u(1ull << 50); }; struct VitaAllocatorStats &st = l.a->stats;
            l.na = st.count_allocs = old(); l.nr = st.count_reallocs = old(); l.nf = st.count_frees = old(); l.freed = st.count_bytes_freed = old(); label("counters start high"); } }
    size_t nops = 1 + (g_giant ? s.n(12) : s.chance(1, 10) ? s.n(400) : s.n(50)), maxlive = 0; bool grew = false, reused = false; uint64_t seed = s.u(1000000);
    bool hoard = s.chance(1, 3);                   // keep many blocks alive
    size_t mass = !g_giant && s.chance(1, 1000) ? 1 + s.n(s.chance(1, 4) ? 9000 : 2500) : 0;  // very many
    static const S lg(900, 'n'); static const char *wf[] = {"f", "", "g.c", "ab", "%s", "\xc3\xa9", "f"}; auto WF = [&]() -> const char * { return s.chance(1, 12) ? lg.c_str() : wf[s.n(6)]; }; auto LN = [&]() -> size_t { return s.chance(1, 4) ? 0 : s.n(70000); };      // where the call stands in the program
    size_t k_th = 0; auto take = [&](Ledger &l, size_t n, const char *op) {
        Blk b; b.n = n; b.seed = seed += 7919; b.p = (unsigned char *)(s.coin() ? VT_ALLOCATOR_ALLOC(l.a, n) : vt_mallocator_alloc(l.a, n, WF(), WF(), LN()));
        CHECK(b.p != nullptr, "alloc(%zu) gives NULL", n); for (size_t i = 0; i < n; i = i == EDGE && n >= SPARSE ? n - EDGE : i + 1) CHECK(b.p[i] == 0, "alloc(%zu): byte %zu of the new block is not zero", n, i);
        if (huge_size(b.p)) CHECK(huge_size(b.p) >= n, "alloc(%zu): the block has only %zu bytes", n, huge_size(b.p)); else if (__sanitizer_get_ownership(b.p)) CHECK(block_size(b.p) >= n, "alloc(%zu): the block has only %zu bytes", n, block_size(b.p));
        if (!mass || k_th++ % 64 == 0) for (auto &l2 : ls) for (auto &o : l2.live) CHECK(b.p + n <= o.p || o.p + o.n <= b.p, "alloc(%zu) overlaps a live block of %zu bytes", n, o.n);
        fill(b); l.live.push_back(b); l.na++; l.bytes += n; check_stats(l, op);
    };
    if (mass) { VPLOG("alloc x %zu", mass); label("thousands of live blocks"); for (size_t i = 0; i < mass; i++) take(ls[0], 1 + (i * 7) % 40, "alloc"); nops = 1 + nops % 30; }
    for (size_t k = 0; k < nops; k++) {
        Ledger &l = ls[s.n(nalloc - 1)]; size_t c = l.live.size(); int op = (int)s.n(9);
        if (c == 0 || op <= 2 || (hoard && op == 3)) { size_t n = blk_size(s); VPLOG("alloc %zu", n); take(l, n, "alloc"); }
        else if (op == 4) { size_t q = s.n(hoard ? 60 : 20); VPLOG("alloc x %zu", q); for (size_t i = 0; i < q; i++) take(l, 1 + (i * 7) % 40, "alloc"); }
        else if (op <= 6) {
            size_t i = s.n(c - 1); Blk b = l.live[i]; size_t n = s.chance(1, 6) ? b.n : s.coin() && b.n < SPARSE ? 1 + s.n(b.n - 1) : blk_size(s); VPLOG("realloc block %zu: %zu -> %zu", i, b.n, n);
            CHECK(intact(b, b.n), "block %zu (%zu bytes) changed while it was live", i, b.n);
            unsigned char *p = (unsigned char *)(s.coin() ? VT_ALLOCATOR_REALLOC(l.a, b.p, n) : vt_mallocator_realloc(l.a, b.p, n, WF(), WF(), LN())); CHECK(p, "realloc gives NULL");
            if (huge_size(p)) CHECK(huge_size(p) >= n, "realloc to %zu: the block has only %zu bytes", n, huge_size(p)); else if (__sanitizer_get_ownership(p)) CHECK(block_size(p) >= n, "realloc to %zu: the block has only %zu bytes", n, block_size(p));
            b.p = p; CHECK(intact(b, b.n >= SPARSE ? std::min(b.n - 1, n) : std::min(b.n, n)), "realloc %zu -> %zu did not keep the common prefix", b.n, n); if (n > b.n) grew = true;
            if (n < b.n) l.freed += b.n - n; l.bytes = l.bytes - b.n + n; l.nr++; b.n = n; b.seed = seed += 7919; fill(b); l.live[i] = b; check_stats(l, "realloc");
            for (size_t j = 0; j < c; j++) if (j != i) CHECK(b.p + n <= l.live[j].p || l.live[j].p + l.live[j].n <= b.p, "a reallocated block overlaps a live one");
        } else {
            size_t q = op == 9 ? 1 + s.n(c - 1) : 1; bool front = s.coin();
            for (size_t r = 0; r < q && !l.live.empty(); r++) {
                size_t i = q > 1 ? (front ? 0 : l.live.size() - 1) : s.n(l.live.size() - 1); Blk b = l.live[i]; VPLOG("free block %zu (%zu bytes)", i, b.n);
                CHECK(intact(b, b.n), "block %zu (%zu bytes) changed while it was live", i, b.n);
                if (s.coin()) VT_ALLOCATOR_FREE(l.a, b.p); else vt_mallocator_free(l.a, b.p, WF(), WF(), LN());
                l.live.erase(l.live.begin() + i); l.nf++; l.bytes -= b.n; l.freed += b.n; check_stats(l, "free"); reused = true;
            }
        }
        maxlive = std::max(maxlive, l.live.size());
        if (nalloc > 1 && s.chance(1, 40)) { Ledger &d = ls[0]; VPLOG("destroy and create again"); for (auto &b : d.live) CHECK(intact(b, b.n), "a live block changed"); vt_mallocator_destroy(d.a); d = Ledger(); d.a = vt_mallocator_create(); check_stats(d, "create"); }
    }
    if (maxlive > 16) label("more than 16 live blocks"); if (maxlive > 64) label("more than 64 live blocks"); if (maxlive > 256) label("more than 256 live blocks"); if (grew) label("grown by realloc");
    if (grew || (reused && maxlive > 1)) nontrivial();
    for (auto &l : ls) { for (size_t i = 0; i < l.live.size(); i++) CHECK(intact(l.live[i], l.live[i].n), "block %zu (%zu bytes) changed while it was live", i, l.live[i].n); check_stats(l, "history"); if (s.chance(1, 6)) check_report(l); }
    for (auto &l : ls) vt_mallocator_destroy(l.a);     // the leak check of the driver sees blocks that are not returned, the sanitizer those returned twice
}
PROP("C08", c08, 300000, 3000000, F_LEAK, "Random histories of up to 400 allocate/reallocate/free calls (sizes 1 to 200000, now and then several GB, up to several hundred and now and then thousands of live blocks, one or two allocators) against an outside ledger; new blocks zeroed, prefixes kept, patterns intact, no overlap, every block returned by destroy (heap counted by the sanitizer's hooks). Non-trivial: a block was grown, or freed while others were live.");

static size_t c27_size(Src &s, size_t usual) { if (s.chance(1, 1500)) { label("more than 64 KB"); return 65536 + s.n(s.coin() ? 1000 : 500000); } return s.chance(1, 12) ? 0 : s.big_size(usual); }
// more bytes than 31 or 32 bits can count (address space, see wrap.cpp: only the first 16 MB and the end are memory of their own)
static void c27_far(Src &s) {
    size_t n = ((size_t)1 << (31 + s.n(1))) + 100 + s.n(4 << 20); g_huge_ok = true; more_time(300); label("more than 2 GB"); nontrivial(); int how = (int)s.n(4); static const char *nm[] = {"set", "copy", "compare", "reallocate", "move"}; VPLOG("%s %zu bytes", nm[how], n);
    auto take = [&](size_t k) { char *p = (char *)(s.coin() ? VT_CALLOC(k) : VT_MALLOC(k)); CHECK(p && huge_size(p) >= k, "a block of %zu bytes was asked for, %zu given", k, p ? huge_size(p) : 0); return p; }; const size_t E = 4096, M = 5 << 20;
    auto edge = [&](char *p, int c, const char *what) { for (size_t i = 0; i < E; i++) CHECK(p[n - 1 - i] == (char)c && p[i] == (char)c, "%s of %zu bytes: byte %zu or %zu is wrong", what, n, i, n - 1 - i); };
    char *a = take(n + 64), *b = nullptr; memset(a + n, 0x33, 64); memset(a, 0x11, M); memset(a + n - M, 0x11, M);
    if (how == 0) { CHECK(vt_memset(a, 0x77, n) == a, "memset does not give its argument"); edge(a, 0x77, "memset"); }
    else if (how == 1) { b = take(n); memset(b, 0x44, M); memset(b + n - M, 0x44, M); CHECK(vt_memcopy(a, b, n) == a, "memcopy does not give its destination"); edge(a, 0x44, "memcopy"); edge(b, 0x44, "memcopy (source)"); }
    else if (how == 2) { b = take(n); memset(b, 0x11, M); memset(b + n - M, 0x11, M); memset(a + M, 0, n - 2 * M); memset(b + M, 0, n - 2 * M); CHECK(vt_memcmp(a, b, n), "memcmp of %zu equal bytes", n); b[n - 1 - s.n(50)] ^= 4; CHECK(!vt_memcmp(a, b, n), "memcmp of %zu bytes that differ at the end", n); }
    else if (how == 3) { size_t k = n + (4 << 20); char *q = (char *)VT_REALLOC(a, k); CHECK(q && huge_size(q) >= k, "realloc to %zu gives %zu bytes", k, q ? huge_size(q) : 0); a = q; for (size_t i = 0; i < M; i++) CHECK(a[i] == 0x11, "realloc lost byte %zu", i); VT_FREE(a); return; }
    else { memset(a + n - 100, 0x22, 100); size_t o = n - 1000; CHECK(vt_memmove(a + o, a + o + 500, 500) == a + o, "memmove does not give its destination"); for (size_t i = 0; i < 500; i++) CHECK(a[o + i] == (i < 400 ? 0x11 : 0x22), "memmove at %zu: byte %zu", o, i); }
    for (size_t i = 0; i < 64; i++) CHECK(a[n + i] == 0x33, "%s of %zu bytes changed byte %zu behind them", nm[how], n, i);
    VT_FREE(a); if (b) VT_FREE(b);
}
static void c27(Src &s) {
    if (far_case(s, 300000)) return c27_far(s);
    switch (s.n(7)) {
        case 0: case 1: { // copy / move
            bool move = s.coin(); size_t n = c27_size(s, 5000), slack = s.n(24); char *a, *b; size_t total;
            if (move) { total = n + slack + s.n(n + 8); a = (char *)malloc(total + 1); size_t o1 = s.n(total - n), o2 = s.chance(1, 3) ? std::min(total - n, o1 + s.n(3)) : s.n(total - n); S m; for (size_t i = 0; i < total; i++) { a[i] = (char)pat(n, i); m += a[i]; }
                VPLOG("memmove %zu bytes from %zu to %zu", n, o2, o1); S piece = m.substr(o2, n); m.replace(o1, n, piece);
                if (n) { ASAN_POISON_MEMORY_REGION(a + total, 0); } CHECK(vt_memmove(a + o1, a + o2, n) == a + o1, "memmove does not give its destination"); CHECK(S(a, total) == m, "memmove of %zu bytes from %zu to %zu (block of %zu)", n, o2, o1, total); if (n && o1 != o2 && (o1 > o2 ? o1 - o2 : o2 - o1) < n) { nontrivial(); label("overlapping move"); } free(a); }
            else { a = (char *)malloc(n + slack + 1); b = (char *)malloc(n + slack + 1); size_t o1 = s.n(slack), o2 = s.n(slack); for (size_t i = 0; i <= n + slack; i++) { a[i] = (char)pat(n, i); b[i] = (char)pat(n + 99, i); } S m(a, n + slack + 1), q(b, n + slack + 1); m.replace(o1, n, q.substr(o2, n)); VPLOG("memcopy %zu bytes", n);
                CHECK(vt_memcopy(a + o1, b + o2, n) == a + o1, "memcopy does not give its destination"); CHECK(S(a, n + slack + 1) == m, "memcopy of %zu bytes to offset %zu", n, o1); CHECK(S(b, n + slack + 1) == q, "memcopy changed its source"); if (n) nontrivial(); free(a); free(b); }
            break; }
        case 2: { size_t n = c27_size(s, 5000), slack = s.n(24), o = s.n(slack); int32_t v = (int32_t)s.bits64(); char *a = (char *)malloc(n + slack + 1); for (size_t i = 0; i <= n + slack; i++) a[i] = (char)pat(n, i); S m(a, n + slack + 1); m.replace(o, n, S(n, (char)v)); VPLOG("memset %zu bytes to %d", n, v);
            CHECK(vt_memset(a + o, v, n) == a + o, "memset does not give its argument"); CHECK(S(a, n + slack + 1) == m, "memset of %zu bytes to %d", n, v); if (n) nontrivial(); free(a); break; }
        case 3: { size_t n = 1 + c27_size(s, 3000); char *a = (char *)malloc(n), *b = (char *)malloc(n); for (size_t i = 0; i < n; i++) a[i] = b[i] = (char)pat(n, i); bool same = true; if (s.chance(2, 3)) { size_t i = s.coin() ? n - 1 : s.n(n - 1); b[i] ^= (char)(1 << s.n(7)); same = false; VPLOG("memcmp of %zu bytes, difference at %zu", n, i); }
            CHECK(vt_memcmp(a, b, n) == same, "memcmp of %zu bytes says %d", n, !same); size_t k = 1 + s.n(n - 1); CHECK(vt_memcmp(a, b, k) == (memcmp(a, b, k) == 0), "memcmp of the first %zu bytes", k); nontrivial(); free(a); free(b); break; }
        case 4: { // allocation wrappers
            size_t n = 1 + s.big_size(20000), n2 = 1 + s.big_size(20000); VPLOG("allocate %zu, reallocate to %zu", n, n2); lib_track(true); unsigned char *p; int how = s.n(2);
            if (how == 0) { p = (unsigned char *)VT_CALLOC(n); for (size_t i = 0; i < n; i++) CHECK(p[i] == 0, "calloc(%zu): byte %zu is not zero", n, i); } else if (how == 1) p = (unsigned char *)VT_MALLOC(n); else p = (unsigned char *)VT_REALLOC(nullptr, n);
            CHECK(p && block_size(p) >= n, "a block of %zu bytes was asked for, %zu given", n, p ? block_size(p) : 0); Blk b{p, n, n}; fill(b); unsigned char *q = (unsigned char *)VT_REALLOC(p, n2); CHECK(q && block_size(q) >= n2, "realloc(%zu)", n2); b.p = q; CHECK(intact(b, std::min(n, n2)), "realloc %zu -> %zu lost content", n, n2);
            void *keep = q; VT_FREE(q); CHECK((void *)q == keep, "free changed the caller's pointer"); VT_FREE(nullptr); CHECK(g_lib_live == 0, "free left %ld block(s)", (long)g_lib_live); lib_track(false); nontrivial(); break; }
        case 5: { size_t n = 1 + c27_size(s, 2000); char *a = (char *)malloc(n + 8), *b = (char *)malloc(n + 8); for (size_t i = 0; i < n + 8; i++) { a[i] = (char)pat(n, i); b[i] = (char)pat(n + 5, i); } S x(a, n), y(b, n), ta(a + n, 8), tb(b + n, 8); long live = heap_live(); VPLOG("gswap of %zu bytes", n); vt_gswap(a, b, n); CHECK(S(a, n) == y && S(b, n) == x && S(a + n, 8) == ta && S(b + n, 8) == tb, "gswap of %zu bytes", n); CHECK(heap_live() == live, "gswap leaves memory behind"); if (s.chance(1, 4)) { vt_gswap(a, a, n); CHECK(S(a, n) == y && S(a + n, 8) == ta, "gswap of %zu bytes with themselves", n); } nontrivial(); free(a); free(b); break; }
        case 6: { void *a = (void *)s.bits64(), *b = (void *)s.bits64(), *x = a, *y = b; VPLOG("pswap %p %p", a, b); vt_pswap(&x, &y); CHECK(x == b && y == a, "pswap"); vt_pswap(&x, &x); CHECK(x == b, "pswap with itself"); if (a != b) nontrivial(); break; }
        default: { std::set<S> seen; for (int e = 0; e < VT_STATUS_COUNT; e++) { const char *z = vt_status_to_str((enum VitaStatus)e); CHECK(z && *z, "status %d has no text", e); CHECK(seen.insert(z).second, "status %d shares its text with another", e); }
            uint64_t o = s.coin() ? s.bits64() : s.u(40); unsigned out = (unsigned)VT_STATUS_COUNT + (unsigned)(o % (UINT32_MAX - VT_STATUS_COUNT)); VPLOG("status %u", out); CHECK(vt_status_to_str((enum VitaStatus)out) == nullptr, "status %u, outside the range, has a text", out);
            for (int w = 0; w < 2; w++) { vt_version_t v = w ? vt_compiler_get_version() : vt_version_get(); char z[32]; snprintf(z, sizeof z, "%d.%d.%d", v.major, v.minor, v.patch); CHECK(v.str && S(v.str) == z, "the %s version is %s, its text %s", w ? "compiler" : "library", z, v.str ? v.str : "(null)"); } nontrivial(); break; }
    }
}
PROP("C27", c27, 9000000, 20000000, F_LEAK, "Random sizes (0 to 20000, now and then up to 560000, a few of more than 2 or 4 GB), offsets, overlaps and contents for copy, move, set, compare, the allocation wrappers, swaps; every status code and codes outside the range; whole surrounding blocks compared with a byte model. Non-trivial: at least one byte was acted on (moves: the ranges overlap).");
