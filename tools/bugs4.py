# planted bugs, fourth batch
H = r'''#include "vita/vita.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''
BUGS = [
dict(id="b52", property="C15", file="src/vita/time/datetime.c",
 old="    stm.tm_year += delta.year;\n", new="    stm.tm_year += delta.year; if (delta.year && stm.tm_mon == 1 && stm.tm_mday == 29) stm.tm_mday = 28;\n",
 needs="a shift by years that starts on a leap day", what="the result is a day early",
 demo=H+r'''
int main(void) {
    setenv("TZ", "UTC0", 1); struct VitaDateTime t = vt_datetime_from_text("2020-02-29 10:00:00"), d = {0}; d.year = 4; d.month_day = 1;
    struct VitaDateTime r = vt_datetime_op(t, d); CK(r.year == 2024 && r.month == 3 && r.month_day == 1);
    return 0;
}'''),
dict(id="b53", property="C26", file="src/vita/network/sockets.c",
 old="ret = poll(pfd, (nfds_t)pfd_size, timeout);", new="ret = poll(pfd, (nfds_t)(pfd_size > 16 ? 16 : pfd_size), timeout);",
 needs="polling more than 16 descriptors, the ready one behind the 16th", what="readiness is not reported",
 demo=H+r'''
#include <unistd.h>
int main(void) {
    int p[2]; CK(pipe(p) == 0); int q[2]; CK(pipe(q) == 0); CK(write(q[1], "x", 1) == 1);
    struct pollfd f[40]; for (int i = 0; i < 40; i++) { f[i].fd = i == 30 ? q[0] : p[0]; f[i].events = POLLIN; f[i].revents = 0; }
    CK(vt_socket_poll(f, 40, 50) == 1); CK(f[30].revents == POLLIN);
    return 0;
}'''),
dict(id="b54", property="C20", file="src/vita/util/log.c",
 old="    for (size_t i = 0; i < vt_log_count; i++) {", new="    for (size_t i = 0; i < vt_log_count - (zfilename == NULL); i++) {",
 needs="a redirect of all levels taken back, then a failing log assertion", what="the assertion's line still goes to the old file",
 demo=H+r'''
#include <unistd.h>
#include <sys/wait.h>
int main(void) {
    vt_log_redirect_all_output("x.log"); vt_log_redirect_all_output(NULL);
    int p[2]; CK(pipe(p) == 0); pid_t c = fork(); if (!c) { dup2(p[1], 2); VT_LOG_ASSERT(1 == 2, "boo%d", 1); _exit(0); }
    close(p[1]); char b[500] = {0}; size_t n = 0; ssize_t k; while ((k = read(p[0], b + n, 400 - n)) > 0) n += k; int st; waitpid(c, &st, 0);
    CK(WIFEXITED(st) && WEXITSTATUS(st) != 0); CK(strstr(b, "boo1")); CK(access("x.log", F_OK) != 0);
    return 0;
}'''),
dict(id="b55", property="C07", file="src/vita/container/common.c",
 old="        return (char*)vbat->ptr + (vbat->slider_idx - 1) * vbat->elsize;", new="        return (char*)vbat->ptr + (uint16_t)(vbat->slider_idx - 1) * vbat->elsize;",
 needs="sliding over more than 65536 elements", what="the last ones are the wrong elements",
 demo=H+r"""
int main(void) {
    vt_vec_t *v = vt_vec_create(70000, sizeof(int32_t), NULL); for (int32_t i = 0; i < 70000; i++) vt_vec_push_back(v, &i);
    int32_t *p, e = 0; while ((p = vt_vec_slide_front(v)) != NULL) { CK(*p == e); e++; } CK(e == 70000);
    return 0;
}"""),
dict(id="b56", property="C19", file="src/vita/system/path.c",
 old="    if (z[0] == VT_PATH_SEPARATOR[0]) {\n        vt_str_append(sfull", new="    if (z[0] == VT_PATH_SEPARATOR[0] && z[1] != VT_PATH_SEPARATOR[0]) {\n        vt_str_append(sfull",
 needs="an absolute path with a doubled leading separator and missing parents", what="the directories are made below the current directory instead",
 demo=H+r'''
#include <unistd.h>
int main(void) {
    char cwd[4000], p[4200]; CK(getcwd(cwd, sizeof cwd)); snprintf(p, sizeof p, "/%s/d1/d2", cwd);
    CK(vt_path_mkdir_parents(p)); CK(access("d1/d2", F_OK) == 0);
    return 0;
}'''),
dict(id="b58", property="C14", file="src/vita/time/datetime.c",
 old="(struct VitaDateTime) {.month = month, .year = year}", new="(struct VitaDateTime) {.month = month}",
 needs="a day above 31 in February of a leap year", what="the day becomes the 28th",
 demo=H+r'''
int main(void) {
    struct VitaDateTime t = vt_datetime_create(2024, 2, 40, 0, 0, 0, -1, -1); CK(t.month_day == 29 && t.month == 2);
    return 0;
}'''),
dict(id="b59", property="C05", file="src/vita/container/str.c",
 old="        if (vt_plist_has_space(p) < strInstances + 1) {\n            vt_plist_reserve(p, (strInstances + 1) - vt_plist_has_space(p));", new="        if (vt_plist_capacity(p) < strInstances + 1) {\n            vt_plist_resize(p, strInstances + 1); return p;",
 needs="a destination list with less capacity than there are pieces", what="the list keeps what it held, without the pieces",
 demo=H+r"""
int main(void) {
    vt_str_t *s = vt_str_create("a,b,c", NULL); vt_plist_t *p = vt_plist_create(1, NULL); p = vt_str_split(p, s, ",");
    CK(p && vt_plist_len(p) == 3); CK(vt_plist_get(p, 0)); CK(vt_str_equals_z(vt_str_z((vt_str_t*)vt_plist_get(p, 0)), "a"));
    return 0;
}"""),
dict(id="b60", property="C21", file="src/vita/util/debug.c",
 old="    vt_debug_output_filename = zfilename;", new="    vt_debug_output_filename = zfilename; vt_debug_output_on |= zfilename != NULL;",
 needs="a redirect while output is switched off", what="the redirect switches the output on again",
 demo=H+r'''
#include <unistd.h>
int main(void) {
    vt_debug_disable_output(true); vt_debug_redirect_output("x.log"); VT_CHECK(1 == 2, "a%d", 1); CK(access("x.log", F_OK) != 0);
    return 0;
}'''),
dict(id="b61", property="C04", file="src/vita/container/str.c",
 old="    while (vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);", new="    for (size_t i = vt_str_can_find(s, z); i > 0; i--) vt_str_remove_first(s, z);",
 needs="a text in which removing an occurrence joins its sides to a new one", what="occurrences are left",
 demo=H+r'''
int main(void) {
    vt_str_t *s = vt_str_create("aabb", NULL); vt_str_remove_all(s, "ab"); CK(vt_str_len(s) == 0);
    return 0;
}'''),
]
