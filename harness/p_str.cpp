// C03 string edits.
#include "str_impl.cpp"
static void c03(Src &s) { g_huge_ok = s.chance(1, 2500); Alloc *a = s.coin() ? vt_mallocator_create() : nullptr; if (far_case(s, 100000)) str_far(s, a); else str_history(s, a, true); if (a) vt_mallocator_destroy(a); }
PROP("C03", c03, 2500000, 10000000, F_LEAK, "Random histories of string edits (create variants, append/insert plain, counted and formatted, set, remove, resize, reserve, shrink, clear, dup; texts of any bytes, empty to 6000 characters, dense around the 1024 limit; now and then several GB reserved or at the end of a text of 2-4 GB) run against std::string. Non-trivial: the storage grew or the middle was edited.");
