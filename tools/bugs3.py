# planted bugs, third batch
H = r'''#include "vita/vita.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''
BUGS = [
dict(id="b47", property="C01", file="src/vita/container/vec.c",
 old="if (memcmp(iter, val, v->elsize) == 0)", new="if (memcmp(iter, val, v->elsize > 64 ? 64 : v->elsize) == 0)",
 needs="elements larger than 64 bytes that differ only behind the 64th byte", what="membership finds an element that is not there",
 demo=H+r'''
int main(void) {
    char a[100], b[100]; memset(a, 7, 100); memcpy(b, a, 100); b[99] = 8;
    vt_vec_t *v = vt_vec_create(2, 100, NULL); vt_vec_push_back(v, a);
    CK(vt_vec_can_find(v, a) == 0); CK(vt_vec_can_find(v, b) == -1);
    return 0;
}'''),
dict(id="b48", property="C02", file="src/vita/container/plist.c",
 old="const int64_t idx = vt_plist_can_find(p, ptr);", new="const int16_t idx = vt_plist_can_find(p, ptr);",
 needs="removing by pointer an element at position 32768 or later", what="nothing or another element is removed",
 demo=H+r'''
int main(void) {
    vt_plist_t *p = vt_plist_create(16, NULL); for (size_t i = 1; i <= 40000; i++) vt_plist_push_back(p, (void*)(i * 8));
    vt_plist_remove_element(p, (void*)(size_t)(39000 * 8), VT_REMOVE_STRATEGY_STABLE);
    CK(vt_plist_len(p) == 39999); CK(vt_plist_can_find(p, (void*)(size_t)(39000 * 8)) == -1);
    return 0;
}'''),
dict(id="b49", property="C06", file="src/vita/container/span.c",
 old=".instance.len = to_idx - from_idx,", new=".instance.len = (uint32_t)((to_idx - from_idx) * elsize) / elsize,",
 needs="a range of 4 GB or more", what="the span is shorter than the range asked for",
 demo=H+r'''
#include <sys/mman.h>
int main(void) {
    size_t n = ((size_t)1 << 32) + 100; char *m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CK(m != MAP_FAILED);
    vt_span_t s = vt_span_from_to(m, 0, n / 8, 8); CK(vt_span_len(s) == n / 8);
    return 0;
}'''),
dict(id="b50", property="C16", file="src/vita/util/argopt.c",
 old='vt_str_equals_z(value, "true")', new='strncmp(value, "true", 4) == 0',
 needs="a boolean option given a word that only begins with true", what="the option becomes true",
 demo=H+r'''
int main(void) {
    bool b = true; vt_argopt_t t[] = {{"--flag", "-f", "d", (void**)&b, VT_TYPE_BOOL}}; const char *av[] = {"prog", "--flag=truely"};
    CK(vt_argopt_parse(2, av, 1, t, NULL) == VT_ARGOPT_PARSE_SUCCESS); CK(!b);
    return 0;
}'''),
dict(id="b51", property="C16", file="src/vita/util/argopt.c",
 old="int32_t olPadding = 6;", new="int8_t olPadding = 6;",
 needs="an option name longer than 127 characters", what="the help text is no longer in columns",
 demo=H+r'''
#include <unistd.h>
int main(void) {
    char nm[301]; memset(nm, 'a', 300); nm[300] = 0; nm[0] = nm[1] = '-'; int x = 0;
    vt_argopt_t t[] = {{nm, "-a", "DESC", (void**)&x, VT_TYPE_INT32}, {"--bb", "-b", "DESC", (void**)&x, VT_TYPE_INT32}};
    FILE *f = tmpfile(); int keep = dup(1); dup2(fileno(f), 1); vt_argopt_print_help(NULL, NULL, 2, t); fflush(stdout); dup2(keep, 1);
    rewind(f); char l1[2000], l2[2000]; CK(fgets(l1, 2000, f)); CK(fgets(l2, 2000, f));
    CK(strstr(l1, "DESC") - l1 == strstr(l2, "DESC") - l2);
    return 0;
}'''),
]
