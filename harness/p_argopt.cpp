// C16 command-line parsing.
#include "argopt_impl.cpp"
#include <fcntl.h>
static int g_out = -1, g_keep = -1;
static S captured(const std::function<void()> &f) {
    if (g_out < 0) { g_heap_pause = true; g_out = memfd_create("out", 0); g_keep = dup(1); g_heap_pause = false; }
    fflush(stdout); if (ftruncate(g_out, 0)) {} lseek(g_out, 0, SEEK_SET); dup2(g_out, 1);
    f(); fflush(stdout); dup2(g_keep, 1);
    off_t len = lseek(g_out, 0, SEEK_END); S z(len, 0); if (len && pread(g_out, &z[0], len, 0) != len) z.clear(); return z;
}
static S printed_help(const char *hd, const char *ft, size_t n, const vt_argopt_t *t) { return captured([&] { vt_argopt_print_help(hd, ft, n, t); }); }
static int parse_captured(size_t c, const char **v, size_t n, vt_argopt_t *t, Alloc *a, S &out) { int r = 0; out = captured([&] { r = vt_argopt_parse(c, v, n, t, a); }); return r; }
static void help_text(Src &s) {
    size_t n = 1 + s.n(s.chance(1, 20) ? 90 : 4); std::vector<S> L, H, D; for (size_t i = 0; i < n; i++) { L.push_back("--" + (s.chance(1, 8) ? s.big(s.n(400), "abc") : s.text(20, "abc")) + std::to_string(i)); H.push_back("-" + std::to_string(i % 10) + (i < 10 ? "" : S(1, (char)('a' + i / 10)))); D.push_back("desc <" + s.text(30, "ab %sdn") + "> " + std::to_string(i)); }
    std::vector<vt_argopt_t> t; t.reserve(n); int dummy = 0; for (size_t i = 0; i < n; i++) { vt_argopt_t a = {L[i].c_str(), H[i].c_str(), D[i].c_str(), (void **)&dummy, VT_TYPE_INT32}; t.push_back(a); }
    auto head = [&](const char *k) { return s.chance(1, 10) ? s.big(s.n(1500), "ab%s\xe9") : (s.chance(1, 6) ? S() : S(k)) + s.text(10, "ab%s"); }; S hd = head("Header "), ft = head("Footer "); bool h = s.coin(), f = s.coin(); S z = printed_help(h ? hd.c_str() : nullptr, f ? ft.c_str() : nullptr, n, t.data()); VPLOG("help %s", show(z).c_str());
    std::vector<S> lines; size_t p = 0; while (p < z.size()) { size_t q = z.find('\n', p); if (q == S::npos) q = z.size(); lines.push_back(z.substr(p, q - p)); p = q + 1; }
    CHECK(lines.size() == n + 1 + h + f, "the help has %zu lines for %zu options (header %d, footer %d)", lines.size(), n, (int)h, (int)f);
    if (h) CHECK(lines[0] == hd, "the help starts with %s", show(lines[0]).c_str()); if (f) CHECK(lines.back() == ft, "the help ends with %s", show(lines.back()).c_str());
    for (size_t i = 0; i < n; i++) { const S &l = lines[i + h]; CHECK(l.find(H[i]) != S::npos && l.find(L[i]) != S::npos && l.size() >= D[i].size() && l.compare(l.size() - D[i].size(), D[i].size(), D[i]) == 0, "help line %s for option %s %s %s", show(l).c_str(), H[i].c_str(), L[i].c_str(), show(D[i]).c_str()); }
    for (size_t i = 1; i < n; i++) CHECK(lines[i + h].size() - D[i].size() == lines[h].size() - D[0].size(), "the descriptions of options %s and %s start in different columns", H[0].c_str(), H[i].c_str());
    label("help text"); nontrivial();
}
static void refused(Src &s) {                                            // no table or no arguments at all: the program ends
    int target = 7; vt_argopt_t t = {"--num", "-n", "description", (void **)&target, VT_TYPE_INT32}; const char *av[] = {"prog", "--num=5", nullptr}; size_t how = s.n(5); VPLOG("refused call %zu", how); label("refused call");
    Death d = expect_death([&] { switch (how) { case 0: vt_argopt_parse(2, av, 0, &t, nullptr); break; case 1: vt_argopt_parse(0, av, 1, &t, nullptr); break; case 2: vt_argopt_parse(2, nullptr, 1, &t, nullptr); break; case 3: vt_argopt_parse(2, av, 1, nullptr, nullptr); break; case 4: vt_argopt_print_help("h", "f", 0, &t); break; default: vt_argopt_print_help("h", "f", 1, nullptr); } });
    CHECK_DIES(d, "a call without a table or without arguments"); CHECK(target == 7, "a refused call changed an option"); skip_leak_check();
}
static void c16(Src &s) {
    if (s.chance(1, 400)) return refused(s);
    if (s.chance(1, 20)) return help_text(s);
    Alloc *al = s.coin() ? vt_mallocator_create() : nullptr; VPLOG(al ? "with an allocator" : "on the heap");
    ao_captured = true; ao_parse = parse_captured; argopt_history(s, al, true);
    if (al) { CHECK(al->stats.count_bytes_allocated == 0, "%zu bytes are still taken from the allocator", al->stats.count_bytes_allocated); vt_mallocator_destroy(al); }
}
PROP("C16", c16, 4000000, 10000000, F_LEAK, "Random option tables (1-6 options, sometimes up to 111, of all 15 supported types, names with common prefixes, defaults NULL or set, occasionally invalid) and argument lists (opt value, opt=value, bare flags, repeats, values with '=' and spaces, long values, unknown arguments with more behind them, help requests), on the heap and on an allocator; scalar targets live in exactly sized heap blocks. Results compared with an independent model. Non-trivial: at least two options given, or help, an unknown argument or an invalid table.");
