// C18 path text, C19 directories.
#include "path_impl.cpp"
static void c18(Src &s) {
    if (s.chance(1, 8)) fs_reset(); Alloc *al = s.coin() ? vt_mallocator_create() : nullptr;
    path_history(s, al, true);
    if (al) { CHECK(al->stats.count_bytes_allocated == 0, "%zu bytes are still taken from the allocator", al->stats.count_bytes_allocated); vt_mallocator_destroy(al); }
}
PROP("C18", c18, 1500000, 10000000, F_LEAK | F_FS, "Random path texts (empty, root, relative, trailing and repeated separators, backslashes, tildes, up to 5000 characters) through build, pop, basename, tilde expansion, validate and the current-directory/executable queries, with fresh and reused destinations on heap and allocator and with the source inside the destination; compared with independent definitions. Non-trivial: the function had something to do (a separator, a leading tilde, a backslash, two parts).");
static void c19(Src &s) {
    Alloc *al = s.chance(1, 3) ? vt_mallocator_create() : nullptr;
    dir_history(s, al, true);
    if (al) { CHECK(al->stats.count_bytes_allocated == 0, "%zu bytes are still taken from the allocator", al->stats.count_bytes_allocated); vt_mallocator_destroy(al); }
}
PROP("C19", c19, 150000, 2000000, F_LEAK | F_FS, "Random directory trees (files, hidden entries, fifos, symbolic links to directories and files inside and outside, dangling and self-referring, odd and long names, deep and wide) in a scratch directory of an unprivileged user, random histories of create, list, query, rename and remove calls on existing, missing and link-traversing paths, and missing permissions inside; after each call the whole tree is compared with a model. Non-trivial: a call changed the tree or listed more than one entry.");
