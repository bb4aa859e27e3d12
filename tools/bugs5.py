H = r'''#include "vita/vita.h"
#include <stdio.h>
#include <string.h>
#define CK(x) do { if (!(x)) { fprintf(stderr, "demo: %s is false\n", #x); return 1; } } while (0)
'''
BUGS = [
dict(id="b62", property="C01", file="src/vita/container/vec.c",
 old="    memcpy(((char*)(v->ptr) + v->len++ * v->elsize), val, v->elsize);", new="    const uint32_t offset = v->len++ * v->elsize;\n    memcpy((char*)(v->ptr) + offset, val, v->elsize);",
 needs="a vector of more than 4 GB", what="the new element is written over one at the beginning",
 demo=H+r'''
int main(void) {
    const size_t n = ((size_t)1 << 32) / 4096 + 4; static char e[4096], f[4096]; memset(e, 'e', sizeof e); memset(f, 'f', sizeof f);
    vt_vec_t *v = vt_vec_create(n, sizeof e, NULL); vt_vec_resize(v, n); for (size_t i = 0; i < 4; i++) vt_vec_set(v, f, i);
    vt_vec_pop(v); vt_vec_push_back(v, e); CK(vt_vec_len(v) == n); CK(!memcmp(vt_vec_get(v, n - 1), e, sizeof e)); for (size_t i = 0; i < 4; i++) CK(!memcmp(vt_vec_get(v, i), f, sizeof f));
    vt_vec_destroy(v); return 0;
}'''),
dict(id="b64", property="C22", file="src/vita/math/math.c",
 old="    return (x - xMin) * (outMax - outMin) / (xMax - xMin) + outMin;", new="    const float t = (x - xMin) / (xMax - xMin);\n    return t * (outMax - outMin) + outMin;",
 needs="a position in the range that single precision cannot hold", what="the mapped value is off in the eighth digit",
 demo=H+r'''
#include <math.h>
int main(void) {
    double g = vt_math_map_to(1.0, 0.0, 3.0, 0.0, 3e9); CK(fabs(g - 1e9) < 1e-3); return 0;
}'''),
dict(id="b65", property="C19", file="src/vita/system/path.c",
 old="    int status = mkdir(z, VT_DIR_PERMISSIONS);", new="    int status = mkdir(z, VT_DIR_PERMISSIONS & ~S_IWGRP);",
 needs="a umask that leaves the group its write permission", what="new directories lack it",
 demo=H+r'''
#include <sys/stat.h>
int main(void) {
    umask(002); CK(vt_path_mkdir("d1")); struct stat st; CK(stat("d1", &st) == 0); CK((st.st_mode & 0777) == 0775); return 0;
}'''),
dict(id="b66", property="C02", file="src/vita/container/plist.c",
 old="    vt_memmove(((char*)(p->ptr2) + (at + 1) * p->elsize), ((char*)(p->ptr2) + at * p->elsize), ((p->len - at) * p->elsize));", new="    char *const slot = (char*)(p->ptr2) + (uint32_t)(at * p->elsize);\n    vt_memmove(slot + p->elsize, slot, (p->len - at) * p->elsize);",
 needs="an insertion beyond 4 GB into a pointer list", what="pointers at the beginning move, those behind the new one are lost",
 demo=H+r'''
int main(void) {
    const size_t n = ((size_t)1 << 32) / sizeof(void*) + 4; int a, b, c; vt_plist_t *p = vt_plist_create(n, NULL); vt_plist_resize(p, n);
    vt_plist_set(p, &a, 0); vt_plist_set(p, &b, 2); vt_plist_pop(p); vt_plist_set(p, &b, n - 2); vt_plist_insert(p, &c, n - 2);
    CK(vt_plist_len(p) == n); CK(vt_plist_get(p, n - 2) == &c); CK(vt_plist_get(p, n - 1) == &b); CK(vt_plist_get(p, 0) == &a); CK(vt_plist_get(p, 2) == &b); vt_plist_destroy(p); return 0;
}'''),
]
