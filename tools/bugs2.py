import sys; sys.path.insert(0, '/verif/tools')
from bugs1 import H
BUGS = [
dict(id="b25", property="C11", file="src/vita/container/str.c",
 edits=[("src/vita/container/str.c", '''    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));

    // resize memory to (n + 1) elements''', '''    VT_ENFORCE(!s->is_view || n < s->len, "%s: Cannot modify a viewable-only object!\\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));

    // resize memory to (n + 1) elements''')],
 needs="resizing a view to fewer characters than it shows", what="the caller's buffer is handed to realloc instead of the edit being refused",
 demo=H+r'''
#include <sys/wait.h>
int main(void) {
    pid_t p = fork();
    if (!p) { freopen("/dev/null", "w", stderr); char *b = malloc(9000); memset(b, 'x', 8999); b[8999] = 0; vt_str_t s = vt_str_create_static(b); vt_str_resize(&s, 10); _exit(0); }
    int st; waitpid(p, &st, 0);
    CK(WIFEXITED(st)); CK(WEXITSTATUS(st) != 0);
    return 0;
}'''),
dict(id="b26", property="C21", file="src/vita/util/debug.c",
 old="        if (quit_on_failure) { exit(EXIT_FAILURE); }", new="        if (quit_on_failure && vt_debug_output_on) { exit(EXIT_FAILURE); }",
 needs="a failing assertion while debug output is disabled", what="the program goes on behind the failed assertion",
 demo=H+r'''
#include <sys/wait.h>
int main(void) {
    pid_t p = fork();
    if (!p) { vt_debug_disable_output(true); VT_ENFORCE(1 == 2, "%s\n", "no"); _exit(0); }
    int st; waitpid(p, &st, 0);
    CK(WIFEXITED(st)); CK(WEXITSTATUS(st) != 0);
    return 0;
}'''),
dict(id="b27", property="C23", file="src/vita/math/math.c",
 edits=[("src/vita/math/math.c", "        return (mu + std * X2);", "        return X2;"), ("src/vita/math/math.c", "    X2 = U2 * mult;", "    X2 = mu + std * U2 * mult;")],
 needs="two normal draws in a row with different mean or spread", what="the second draw uses the mean and spread of the first",
 demo=H+r'''
int main(void) {
    for (int i = 0; i < 50; i++) { const float a = vt_math_random_f32_normal(0, 1), b = vt_math_random_f32_normal(1000, 1); CK(a > -100 && a < 100); CK(b > 900 && b < 1100); }
    return 0;
}'''),
dict(id="b28", property="C24", file="src/vita/algorithm/comparison.c",
 old="        return x < y ? x : y;               \\", new="        return (double)x < (double)y ? x : y; \\",
 needs="two 64-bit values above 2^53 that are the same as doubles", what="the minimum of the two is the larger one",
 demo=H+r'''
int main(void) { CK(vt_cmp_mini64(INT64_MAX - 1, INT64_MAX) == INT64_MAX - 1); CK(vt_cmp_minu64(UINT64_MAX - 3, UINT64_MAX) == UINT64_MAX - 3); CK(vt_cmp_mini64(1, 2) == 1); return 0; }'''),
dict(id="b29", property="C27", file="src/vita/core/core.c",
 old="""    // allocate a temporary variable
    void *temp = VT_CALLOC(elsize);

    // swap values
    memcpy(temp, a, elsize);    // copy a to temp
    memcpy(a, b, elsize);       // copy b to a
    memcpy(b, temp, elsize);    // copy temp(a) to b

    // free temporary variable
    VT_FREE(temp);
""", new="""    // swap values block by block
    char temp[256];
    size_t done = 0;
    do {
        const size_t n = elsize - done < sizeof(temp) ? elsize : sizeof(temp);
        memcpy(temp, (char*)a + done, n < sizeof(temp) ? n : sizeof(temp));
        memcpy((char*)a + done, (char*)b + done, n < sizeof(temp) ? n : sizeof(temp));
        memcpy((char*)b + done, temp, n < sizeof(temp) ? n : sizeof(temp));
        done += n;
    } while (elsize - done >= sizeof(temp) && done < elsize);
""",
 needs="swapping values larger than 256 bytes whose size is not a multiple of 256", what="the bytes behind the last whole block are not exchanged",
 demo=H+r'''
int main(void) {
    for (size_t n = 1; n < 1200; n++) {
        char *a = malloc(n), *b = malloc(n); memset(a, 'a', n); memset(b, 'b', n);
        vt_gswap(a, b, n);
        for (size_t i = 0; i < n; i++) { CK(a[i] == 'b'); CK(b[i] == 'a'); }
        free(a); free(b);
    }
    return 0;
}'''),
dict(id="b30", property="C19", file="src/vita/system/path.c",
 old="        file_size = (int64_t)(info.st_size);", new="        file_size = (uint32_t)(info.st_size);",
 needs="a file of 4 GiB or more", what="the size is reported modulo 2^32",
 demo=H+r'''
#include <unistd.h>
int main(void) {
    char d[] = "/tmp/vdemoXXXXXX"; CK(mkdtemp(d)); char f[64]; sprintf(f, "%s/big", d);
    FILE *fp = fopen(f, "wb"); CK(fp); fclose(fp); int r = truncate(f, 5000000000LL);
    int64_t s = vt_path_get_file_size(f); unlink(f); rmdir(d);
    if (r == 0) CK(s == 5000000000LL);
    return 0;
}'''),
dict(id="b31", property="C20", file="src/vita/util/log.c",
 old="            vfprintf(fp, zfmt, args);\n            fprintf(fp, \"\\n\");", new="            char text[4096];\n            vsnprintf(text, sizeof(text), zfmt, args);\n            fprintf(fp, \"%s\\n\", text);",
 needs="a log message of 4096 characters or more", what="the end of the message is missing",
 demo=H+r'''
#include <unistd.h>
int main(void) {
    char d[] = "/tmp/vdemoXXXXXX"; CK(mkdtemp(d)); char f[64]; sprintf(f, "%s/log", d);
    char *z = calloc(9001, 1); memset(z, 'm', 9000); vt_log_redirect_all_output(f);
    VT_LOG_INFO("%sEND", z);
    FILE *fp = fopen(f, "r"); char *b = calloc(20000, 1); size_t n = fp ? fread(b, 1, 19999, fp) : 0; if (fp) fclose(fp); unlink(f); rmdir(d);
    CK(n > 9003); CK(strstr(b, "END\n"));
    return 0;
}'''),
dict(id="b32", property="C26", file="src/vita/network/sockets.c",
 old="    const int32_t size_received = recv(sock_fd, data_buf, data_len, 0);", new="    const int16_t size_received = recv(sock_fd, data_buf, data_len, 0);",
 needs="receiving 32768 bytes or more with one call", what="the number of bytes reported is wrong",
 demo=H+r'''
#include <sys/socket.h>
#include <unistd.h>
int main(void) {
    int sv[2]; CK(!socketpair(AF_UNIX, SOCK_STREAM, 0, sv)); char *b = calloc(60000, 1);
    CK(write(sv[0], b, 50000) == 50000);
    size_t got = 0; int32_t r; while (got < 50000) { r = vt_socket_receive(sv[1], b, 60000); CK(r > 0); got += (size_t)r; }
    CK(got == 50000);
    return 0;
}'''),
dict(id="b33", property="C14", file="src/vita/time/datetime.c",
 old="    return vt_datetime_is_leap_year(vdt) ? 366 : 365;", new="    return (vdt.year < 1582 ? vdt.year % 4 == 0 : vt_datetime_is_leap_year(vdt)) ? 366 : 365;",
 needs="a century year before 1582", what="such a year is given 366 days although its February has 28",
 demo=H+r'''
int main(void) {
    for (int y = 1; y < 10000; y++) { struct VitaDateTime d = {0}; d.year = (int16_t)y; d.month = 2; bool leap = y % 4 == 0 && (y % 100 || y % 400 == 0); CK(vt_datetime_find_days_in_year(d) == (leap ? 366 : 365)); }
    return 0;
}'''),
dict(id="b34", property="C12", file="src/vita/core/conv.c",
 old="VT_INSTANTIATE_CONV_TO_STR(uint64_t, u64, PRIu64)", new="VT_INSTANTIATE_CONV_TO_STR(uint64_t, u64, PRId64)",
 needs="an unsigned 64-bit value of 2^63 or more", what="it is written as a negative number",
 demo=H+r'''
int main(void) { char b[64]; vt_conv_u64_to_str(b, sizeof b, UINT64_MAX); CK(!strcmp(b, "18446744073709551615")); vt_conv_u64_to_str(b, sizeof b, 42); CK(!strcmp(b, "42")); return 0; }'''),
dict(id="b35", property="C13", file="src/vita/time/datetime.c",
 old='"%4d-%2d-%2dT%2d:%2d:%2d");', new='"%4d-%2d-%2dT%2d:%2d:%2i");',
 needs="an extended ISO text whose seconds are 08 or 09", what="the seconds are read as an octal number and come out as 0",
 demo=H+r'''
int main(void) {
    for (int i = 0; i < 60; i++) {
        char b[64]; snprintf(b, sizeof b, "2021-06-15T10:20:%02d", i);
        CK(vt_datetime_from_text_iso_ext(b).second == i);
    }
    return 0;
}'''),
dict(id="b36", property="C15", file="src/vita/time/datetime.c",
 old="    const struct tm stm = *localtime(&secs);", new="    const struct tm stm = *gmtime(&secs);",
 needs="a time zone other than UTC", what="converting to seconds and back shifts the time by the zone's offset",
 demo=H+r'''
int main(void) {
    setenv("TZ", "XYZ5", 1); tzset();
    for (time_t t = 1000000000; t < 1000900000; t += 12345) CK(vt_datetime_to_secs(vt_datetime_from_secs(t)) == t);
    return 0;
}'''),
dict(id="b37", property="C09", file="src/vita/container/str.c",
 old="    return vt_str_create(s->ptr, s->alloctr);", new="    return vt_str_create(s->ptr, s->len < VT_STR_TMP_BUFFER_SIZE ? s->alloctr : NULL);",
 needs="duplicating a text of 1024 characters or more that belongs to an allocator", what="the duplicate is taken from the heap and outlives the allocator",
 demo=H+r'''
int main(void) {
    vt_mallocator_t *m = vt_mallocator_create(); char *z = calloc(4000, 1); memset(z, 'x', 3000);
    vt_str_t *s = vt_str_create(z, m); size_t before = m->stats.count_bytes_allocated; vt_str_t *d = vt_str_dup(s);
    CK(m->stats.count_bytes_allocated >= before + 3000); CK(!strcmp(vt_str_z(d), z));
    return 0;
}'''),
dict(id="b38", property="C16", file="src/vita/util/argopt.c",
 old="vt_conv_str_to_u64(value);", new="(uint64_t)vt_conv_str_to_d(value);",
 needs="an unsigned 64-bit option given a value above 2^53", what="the option receives a rounded value",
 demo=H+r'''
int main(void) {
    uint64_t a = 0;
    vt_argopt_t o[] = { { "--all", "-a", "d", &a, VT_TYPE_UINT64 } };
    const char *v[] = { "x", "-a=9007199254740993" };
    CK(vt_argopt_parse(2, v, 1, o, NULL) == VT_ARGOPT_PARSE_SUCCESS); CK(a == 9007199254740993ull);
    return 0;
}'''),
dict(id="b42", property="C07", file="src/vita/container/plist.c",
 old="""    if (p->len > 0) {
        return p->ptr2[--p->len];
    }
""", new="""    if (p->len > 0) {
        const size_t last = --p->len;
        if (p->slider_idx > last) p->slider_idx = 0;
        return p->ptr2[last];
    }
""",
 needs="popping the last element right after a forward slide has yielded it", what="the slide starts over instead of ending",
 demo=H+r'''
int main(void) {
    int a, b, c; vt_plist_t *p = vt_plist_create(4, NULL); vt_plist_push_back(p, &a); vt_plist_push_back(p, &b); vt_plist_push_back(p, &c);
    CK(vt_plist_slide_front(p) == &a); CK(vt_plist_slide_front(p) == &b); CK(vt_plist_slide_front(p) == &c);
    CK(vt_plist_pop_get(p) == &c); CK(vt_plist_slide_front(p) == NULL); CK(vt_plist_slide_front(p) == &a);
    return 0;
}'''),
dict(id="b43", property="C17", file="src/vita/system/fileio.c",
 old="""    const size_t bytes_read = fread(buffer, sizeof(char), buffer_len <= (size_t)fsize ? buffer_len : (size_t)fsize, fp);""",
 new="""    size_t bytes_read = fread(buffer, sizeof(char), buffer_len <= (size_t)fsize ? buffer_len : (size_t)fsize, fp);
    if (bytes_read && bytes_read < buffer_len && buffer[bytes_read - 1] == 26) buffer[bytes_read - 1] = 0;""",
 needs="a file ending with the byte 0x1a read into a larger buffer", what="the last byte is replaced",
 demo=H+r'''
#include <unistd.h>
int main(void) {
    char d[] = "/tmp/vdemoXXXXXX"; CK(mkdtemp(d)); char f[64]; sprintf(f, "%s/x", d); FILE *fp = fopen(f, "wb"); fwrite("ab\x1a", 1, 3, fp); fclose(fp);
    char b[8] = {0}; const char *r = vt_file_read_to_buffer(f, b, sizeof b); unlink(f); rmdir(d);
    CK(r != NULL); CK(!memcmp(b, "ab\x1a", 3));
    return 0;
}'''),
dict(id="b44", property="C05", file="src/vita/container/str.c",
 old="        if (current == NULL || current[sepLen] == '\\0') {", new="        if (current == NULL || current[sepLen] == '\\0' || current[sepLen + 1] == '\\0') {",
 needs="a last piece of exactly one character", what="the last piece is lost",
 demo=H+r'''
int main(void) {
    vt_str_t *s = vt_str_create("ab,cd,e", NULL); vt_plist_t *p = vt_str_split(NULL, s, ",");
    CK(vt_plist_len(p) == 3);
    return 0;
}'''),
dict(id="b46", property="C03", file="src/vita/container/str.c",
 old="""    if (vt_str_has_space(s) < n) {
        vt_str_reserve(s, (n - vt_str_has_space(s)));
    }

    // copy z to vt_str_t
    vt_memmove((char*)(s->ptr) + s->len * s->elsize, z, n * s->elsize);""",
 new="""    if (vt_str_has_space(s) < n) {
        const size_t grow = n - vt_str_has_space(s);
        if (s->capacity > 4096 && grow < 8) { s->ptr = s->alloctr ? VT_ALLOCATOR_REALLOC(s->alloctr, s->ptr, s->capacity + grow) : VT_REALLOC(s->ptr, s->capacity + grow); s->capacity += grow; }
        else vt_str_reserve(s, grow);
    }

    // copy z to vt_str_t
    vt_memmove((char*)(s->ptr) + s->len * s->elsize, z, n * s->elsize);""",
 needs="appending one to seven characters to a full string of more than 4096 characters", what="the storage is one byte short: the terminator is written behind it",
 demo=H+r'''
#include <malloc.h>
int main(void) {
    vt_mallocator_t *m = vt_mallocator_create(); char *z = calloc(6000, 1); memset(z, 'x', 5000);
    vt_str_t *s = vt_str_create(z, m); vt_str_append(s, "abc");
    size_t have = 0; for (size_t i = 0; i < m->obj_list_len; i++) if (m->obj_list[i].ptr == s->ptr) have = m->obj_list[i].bytes;
    CK(vt_str_len(s) == 5003); CK(have >= 5004);
    return 0;
}'''),
]
