// C17 files.
#include "file_impl.cpp"
static void c17(Src &s) {
    Alloc *al = s.chance(1, 3) ? vt_mallocator_create() : nullptr;
    file_history(s, al, true);
    if (al) { CHECK(al->stats.count_bytes_allocated == 0, "%zu bytes are still taken from the allocator", al->stats.count_bytes_allocated); vt_mallocator_destroy(al); }
}
PROP("C17", c17, 500000, 3000000, F_LEAK | F_FS, "Random histories of write, append and formatted-write calls of all eleven writers (texts of 0-200000 bytes) on four files, reads by all three readers into exactly sized buffers, binary data put there from outside, and faults: impossible destinations, a full device, file size limits at every offset, missing permission, short reads. After each history every file is compared byte for byte with a model. Non-trivial: at least two files exist at the end or an append to existing text.");
