H = r'''
#include "vita/vita.h"
#define CK(c) do { if (!(c)) { fprintf(stderr, "demo line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
BUGS = [
dict(id="b01", property="C01", file="src/vita/container/vec.c",
 old="        vt_gswap((char*)(v->ptr) + at * v->elsize, (char*)(v->ptr) + (v->len - 1) * v->elsize, v->elsize);",
 new="""        uint64_t *const dst = (uint64_t*)((char*)(v->ptr) + at * v->elsize);
        const uint64_t *const src = (const uint64_t*)((char*)(v->ptr) + (v->len - 1) * v->elsize);
        if (v->elsize < sizeof(uint64_t)) vt_gswap((void*)dst, (void*)src, v->elsize);
        else for (size_t i = 0; i < v->elsize / sizeof(uint64_t); i++) dst[i] = src[i];""",
 needs="fast removal from a vector whose element size is above 8 and not a multiple of 8",
 what="the last bytes of the moved element are not carried over",
 demo=H+r'''
struct e { char b[12]; };
int main(void) {
    vt_vec_t *v = vt_vec_create(4, sizeof(struct e), NULL);
    for (int i = 0; i < 3; i++) { struct e x; memset(&x, 'a' + i, sizeof x); vt_vec_push_back(v, &x); }
    vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_FAST);
    struct e w; memset(&w, 'c', sizeof w);
    CK(vt_vec_len(v) == 2); CK(memcmp(vt_vec_get(v, 0), &w, sizeof w) == 0);
    return 0;
}'''),
dict(id="b02", property="C02", file="src/vita/container/plist.c",
 old="    if (idx >= 0) vt_plist_remove(p, idx, rs);", new="    if (idx > 0 || (idx == 0 && p->len > 1)) vt_plist_remove(p, idx, rs);",
 needs="removing by value the only element of a list", what="the single element stays in the list",
 demo=H+r'''
int main(void) {
    int a = 1; vt_plist_t *p = vt_plist_create(2, NULL); vt_plist_push_back(p, &a);
    vt_plist_remove_element(p, &a, VT_REMOVE_STRATEGY_STABLE);
    CK(vt_plist_len(p) == 0); CK(vt_plist_can_find(p, &a) < 0);
    return 0;
}'''),
dict(id="b03", property="C03", file="src/vita/container/str.c",
 old="            vsprintf(tmp_buf, fmt, args);", new="            vsnprintf(tmp_buf, VT_STR_TMP_BUFFER_SIZE - 2, fmt, args);",
 needs="vt_str_insertf with a formatted text of exactly VT_STR_TMP_BUFFER_SIZE - 2 characters", what="the last character of the inserted text is lost",
 demo=H+r'''
int main(void) {
    for (size_t n = 1; n < 3000; n++) {
        char *z = calloc(n + 1, 1); memset(z, 'x', n); vt_str_t *s = vt_str_create("ab", NULL);
        vt_str_insertf(s, 1, "%s", z);
        CK(strlen(vt_str_z(s)) == n + 2); CK(vt_str_len(s) == n + 2);
        vt_str_destroy(s); free(z);
    }
    return 0;
}'''),
dict(id="b04", property="C04", file="src/vita/container/str.c",
 old="        ptr = vt_str_z(s) + at_idx + rsubLen;", new="        ptr = vt_str_z(s) + at_idx + (subLen == rsubLen ? 1 : rsubLen);",
 needs="a replacement of equal length whose tail forms a new match with the text behind it", what="already replaced text is replaced again",
 demo=H+r'''
int main(void) {
    vt_str_t *s = vt_str_create("abb ab", NULL); vt_str_replace(s, "ab", "aa");
    CK(!strcmp(vt_str_z(s), "aab aa"));
    return 0;
}'''),
dict(id="b05", property="C05", file="src/vita/container/str.c",
 old="        if (i < n-1) {", new="        if (i < n-1 && vt_str_len(st)) {",
 needs="vt_str_join_n whose first pieces are empty", what="the separator after leading empty pieces is dropped",
 demo=H+r'''
int main(void) {
    vt_str_t *s = vt_str_join_n(NULL, "/", 3, "", "a", "b");
    CK(!strcmp(vt_str_z(s), "/a/b"));
    return 0;
}'''),
dict(id="b06", property="C08", file="src/vita/allocator/mallocator.c",
 old="            alloctr->obj_list[idx] = alloctr->obj_list[obj_list_len-1];", new="            alloctr->obj_list[idx].ptr = alloctr->obj_list[obj_list_len-1].ptr;",
 needs="freeing an object that is not the newest, then freeing the newest, with different sizes", what="the ledger gives the moved object the size of the freed one",
 demo=H+r'''
int main(void) {
    vt_mallocator_t *a = vt_mallocator_create();
    void *x = VT_ALLOCATOR_ALLOC(a, 10), *y = VT_ALLOCATOR_ALLOC(a, 100);
    VT_ALLOCATOR_FREE(a, x); VT_ALLOCATOR_FREE(a, y);
    CK(a->stats.count_bytes_allocated == 0); CK(a->stats.count_bytes_freed == 110);
    return 0;
}'''),
dict(id="b07", property="C09", file="src/vita/container/str.c",
 old="            vt_str_destroy(tmp_str);\n        }\n    } \n    va_end(args);", new="            if (!s->alloctr) vt_str_destroy(tmp_str); else vt_array_free(tmp_str);\n        }\n    } \n    va_end(args);",
 needs="vt_str_insertf of a text longer than the stack buffer into a string with an allocator", what="the temporary text buffer is never given back to the allocator",
 demo=H+r'''
int main(void) {
    vt_mallocator_t *a = vt_mallocator_create(); vt_str_t *s = vt_str_create("ab", a);
    char z[5000]; memset(z, 'x', 4999); z[4999] = 0;
    vt_str_insertf(s, 1, "%s", z); CK(vt_str_len(s) == 5001);
    vt_str_destroy(s); CK(a->stats.count_bytes_allocated == 0);
    return 0;
}'''),
dict(id="b08", property="C14", file="src/vita/time/datetime.c",
 old="        .month_day = month_day < 1 ? 1 : (month_day > 31 ? vt_datetime_find_days_in_month(\n            (struct VitaDateTime) {.month = month, .year = year}",
 new="        .month_day = month_day < 1 ? 1 : (month_day > 31 ? vt_datetime_find_days_in_month(\n            (struct VitaDateTime) {.month = month, .year = year % 100 ? year : year + 1}",
 needs="vt_datetime_create clamping a day above 31 in February of a year divisible by 400", what="the clamped day is the 28th instead of the 29th",
 demo=H+r'''
int main(void) {
    struct VitaDateTime d = vt_datetime_create(2000, 2, 40, 1, 2, 3, -1, -1);
    CK(d.month_day == 29 && d.month == 2);
    return 0;
}'''),
dict(id="b09", property="C16", file="src/vita/util/argopt.c",
 old="                    if (i + 1 < argc && argv[i+1][0] != '-') {", new="                    if (i + 1 < argc && argv[i+1][0] != '-' && argv[i+1][0] != '\\0') {",
 needs="an option followed by an empty argument as its value", what="the empty value is not assigned (the option gets 1) and the empty argument is then reported as unknown",
 demo=H+r'''
int main(void) {
    vt_str_t *s = vt_str_create("old", NULL);
    vt_argopt_t o[] = {{"--name", "-n", "name", &s, VT_TYPE_STR}};
    const char *av[] = {"prog", "-n", ""};
    CK(vt_argopt_parse(3, av, 1, o, NULL) == VT_ARGOPT_PARSE_SUCCESS);
    CK(vt_str_len(s) == 0 && vt_str_z(s)[0] == 0);
    return 0;
}'''),
dict(id="b10", property="C16", file="src/vita/util/argopt.c",
 old="            *(bool*)(opt->optionValue) = (value[0] == '1' || vt_str_equals_z(value, \"true\") ? true : false);",
 new="            if (value[0] == '1' || vt_str_equals_z(value, \"true\")) *(bool*)(opt->optionValue) = true;",
 needs="a boolean option whose variable starts as true and is set to false on the command line", what="the option stays true",
 demo=H+r'''
int main(void) {
    bool b = true; vt_argopt_t o[] = {{"--verbose", "-v", "v", &b, VT_TYPE_BOOL}};
    const char *av[] = {"prog", "--verbose=false"};
    CK(vt_argopt_parse(2, av, 1, o, NULL) == VT_ARGOPT_PARSE_SUCCESS); CK(b == false);
    return 0;
}'''),
dict(id="b11", property="C17", file="src/vita/system/fileio.c",
 old='(use_binary_mode ? (use_append_mode ? "ab" : "wb") : (use_append_mode ? "a" : "w"))', new='(use_binary_mode ? (use_append_mode && !add_ln ? "ab" : "wb") : (use_append_mode ? "a" : "w"))',
 needs="appending a line in binary mode to a file that has content", what="the earlier content of the file is lost",
 demo=H+r'''
int main(void) {
    CK(vt_file_write("f", "one")); CK(vt_file_appendbln("f", "two"));
    vt_str_t *s = vt_file_read("f", NULL); CK(s && !strcmp(vt_str_z(s), "onetwo\n"));
    return 0;
}'''),
dict(id="b12", property="C19", file="src/vita/system/path.c",
 old='            vt_str_equals_z(dirtree->d_name, "..")) \n        {\n            continue;\n        }\n\n        // append full path (my_path)',
 new='            strncmp(dirtree->d_name, "..", 2) == 0)\n        {\n            continue;\n        }\n\n        // append full path (my_path)',
 needs="a directory entry whose name starts with two dots (such as ..data)", what="recursive listing leaves the entry out, so recursive removal fails",
 demo=H+r'''
int main(void) {
    CK(vt_path_mkdir("d")); CK(vt_file_write("d/..data", "x")); CK(vt_file_write("d/y", "x"));
    CK(vt_path_rmdir_recurse("d")); CK(!vt_path_exists("d"));
    return 0;
}'''),
dict(id="b13", property="C20", file="src/vita/util/log.c",
 old="            FILE *fp = (logger_filename[0] == '\\0') ? stderr : fopen(logger_filename, \"a\");", new="            FILE *fp = (logger_filename[0] == '\\0') ? stderr : fopen(logger_filename, zexpr == NULL ? \"a\" : \"w\");",
 needs="an assertion-style log call (with an expression) into a file that already has log lines", what="the earlier lines of the log file are wiped",
 demo=H+r'''
int main(void) {
    vt_log("l.txt", vt_log_info, false, NULL, "f.c", 1, "first");
    vt_log("l.txt", vt_log_error, false, "a == b", "f.c", 2, "second");
    vt_str_t *s = vt_file_read("l.txt", NULL); CK(s && strstr(vt_str_z(s), "first") && strstr(vt_str_z(s), "second"));
    return 0;
}'''),
dict(id="b14", property="C26", file="src/vita/network/sockets.c",
 old="    address->port = src_addr.sin_port;\n", new="    if (size_received > 0) address->port = src_addr.sin_port;\n",
 needs="an empty datagram received with vt_socket_receive_from", what="the sender's port is not reported",
 demo=H+r'''
#include <arpa/inet.h>
int main(void) {
    int a = socket(AF_INET, SOCK_DGRAM, 0), b = socket(AF_INET, SOCK_DGRAM, 0);
    struct sockaddr_in x = {.sin_family = AF_INET}, y = {.sin_family = AF_INET}; x.sin_addr.s_addr = y.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    CK(!bind(a, (void*)&x, sizeof x)); CK(!bind(b, (void*)&y, sizeof y)); socklen_t l = sizeof x; getsockname(a, (void*)&x, &l); l = sizeof y; getsockname(b, (void*)&y, &l);
    struct VitaSocketAddress to = {.addr = x.sin_addr.s_addr, .port = x.sin_port}, from = {0}; char buf[8];
    CK(vt_socket_send_to(b, to, "", 0) == 0); CK(vt_socket_receive_from(a, &from, buf, 8) == 0); CK(from.port == y.sin_port);
    return 0;
}'''),
dict(id="b15", property="C12", file="src/vita/core/conv.c",
 old="VT_INSTANTIATE_CONV_FROM_STR(uint64_t, u64, strtoull)", new="VT_INSTANTIATE_CONV_FROM_STR(uint64_t, u64, strtoll)",
 needs="an unsigned 64-bit number of 2^63 or more", what="the number read is 2^63 - 1",
 demo=H+r'''
int main(void) { CK(vt_conv_str_to_u64("9223372036854775809") == 9223372036854775809ULL); return 0; }'''),
dict(id="b16", property="C18", file="src/vita/system/path.c",
 old="    while (zlen > 0) {\n        if (z[zlen-1] == need_fix_path_sep) {", new="    while (--zlen > 0) {\n        if (z[zlen-1] == need_fix_path_sep) {",
 needs="a path whose very last character is the wrong separator", what="the trailing separator is not repaired",
 demo=H+r'''
int main(void) { char z[] = "a\\b\\"; vt_path_validate(z); CK(!strcmp(z, "a/b/")); char y[] = "x"; vt_path_validate(y); return 0; }'''),
dict(id="b17", property="C13", file="src/vita/time/datetime.c",
 old='    const char fmt[] = "YYYYMMDDTHHMMSS";', new='    const char fmt[] = "YYYYMMDD HHMMSS"; // TODO\n    if (timebuf[8] != \'T\') return false;\n    if (timebuf[8] == \'T\') return vt_datetime_is_valid_fmt(timebuf, "YYYYMMDDTHHMM", 14) && strspn(timebuf + 13, "0123456789:") >= 2;',
 needs="a compact ISO text with a colon in the seconds", what="the validator accepts a text that is not in the form",
 demo=H+r'''
int main(void) { CK(vt_datetime_is_valid_text_iso("20240102T030405")); CK(!vt_datetime_is_valid_text_iso("20240102T0304:5")); return 0; }'''),
dict(id="b18", property="C07", file="src/vita/container/common.c", nth=0,
 old="    if (vbat->slider_idx < vbat->len) {", new="    if (vbat->slider_idx != vbat->len) {",
 needs="a vector that gets shorter than the slider's position in the middle of a slide", what="the slider runs on behind the end of the vector instead of stopping",
 demo=H+r'''
int main(void) {
    vt_vec_t *v = vt_vec_create(8, sizeof(int32_t), NULL); for (int i = 0; i < 5; i++) vt_vec_push_backi32(v, i);
    for (int i = 0; i < 4; i++) CK(*(int32_t*)vt_vec_slide_front(v) == i);
    vt_vec_pop(v); vt_vec_pop(v); CK(vt_vec_slide_front(v) == NULL); CK(*(int32_t*)vt_vec_slide_front(v) == 0);
    return 0;
}'''),
dict(id="b19", property="C25", file="src/vita/container/common.c",
 old="    const size_t idx_offset = idx - *depth * nrows * ncols;", new="    const size_t idx_offset = (uint32_t)idx - *depth * nrows * ncols;",
 needs="a 3-D index above 2^32", what="row and column of the index are wrong",
 demo=H+r'''
int main(void) {
    for (size_t i = 0; i < (1ULL << 40); i = i * 3 + 1) { size_t r, c, d; vt_index_1d_to_3d(&r, &c, &d, i, 2, 3); CK(vt_index_3d_to_1d(r, c, d, 2, 3) == i); CK(r < 2 && c < 3); }
    return 0;
}'''),
dict(id="b20", property="C10", file="src/vita/container/str.c",
 old="        at < s->len,\n        \"%s: Assigning at %zu, but vt_str_t length is %zu!\\n\", \n        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), \n        at, \n        s->len\n    );\n    \n    // add", new="        at <= s->len,\n        \"%s: Assigning at %zu, but vt_str_t length is %zu!\\n\", \n        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), \n        at, \n        s->len\n    );\n    \n    // add",
 needs="vt_str_set_c at exactly the length of the string", what="the call is not refused and the terminator is overwritten",
 demo=H+r'''
#include <sys/wait.h>
int main(void) {
    pid_t p = fork();
    if (!p) { freopen("/dev/null", "w", stderr); vt_str_t *s = vt_str_create("ab", NULL); vt_str_set_c(s, 'x', 2); _exit(0); }
    int st; waitpid(p, &st, 0); CK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE);
    return 0;
}'''),
dict(id="b21", property="C06", file="src/vita/container/span.c",
 old="        .instance.len = to_idx - from_idx,", new="        .instance.len = elsize > 16 ? to_idx : to_idx - from_idx,",
 needs="a span over elements larger than 16 bytes that does not start at the first", what="the span reaches behind its end",
 demo=H+r'''
int main(void) { char a[8][24] = {{0}}; vt_span_t s = vt_span_from_to(a, 3, 5, 24); CK(vt_span_len(s) == 2); return 0; }'''),
dict(id="b22", property="C22", file="src/vita/math/math.c",
 old="    uint64_t reversed = 0;", new="    uint32_t reversed = 0;",
 needs="a palindrome above 2^32", what="large palindromes are not recognised",
 demo=H+r'''
int main(void) { CK(vt_math_is_palindrome(12345678900987654321ULL)); CK(vt_math_is_palindrome(121)); return 0; }'''),
dict(id="b23", property="C15", file="src/vita/time/datetime.c",
 old="    return vt_datetime_diff_hours(vdt1, vdt2) / 24;", new="    const time_t h = vt_datetime_diff_hours(vdt1, vdt2);\n    return (h >= 0 ? h : h - 23) / 24;",
 needs="a negative difference that is not a whole number of days", what="the day difference is not the second difference divided towards zero",
 demo=H+r'''
int main(void) {
    struct VitaDateTime a = vt_datetime_create(2024, 3, 1, 0, 0, 0, -1, -1), b = vt_datetime_create(2024, 3, 1, 5, 0, 0, -1, -1);
    CK(vt_datetime_diff_days(a, b) == 0); CK(vt_datetime_diff_days(b, a) == 0);
    return 0;
}'''),
dict(id="b24", property="C28", file="src/vita/core/core.c",
 old='''    void *ptr_new = realloc(ptr, bytes);
    if (ptr_new == NULL) {''', new='''    void *ptr_new = realloc(ptr, bytes);
    if (ptr_new == NULL && bytes < 64) {
        ptr_new = ptr;
    }
    if (ptr_new == NULL && ptr == NULL) {''',
 needs="memory runs out while a container grows", what="the run goes on with a NULL buffer instead of ending with failure",
 demo=H+r'''
#include <sys/wait.h>
#include <sys/resource.h>
int main(void) {
    pid_t p = fork();
    if (!p) {
        freopen("/dev/null", "w", stderr); struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r); r.rlim_cur = r.rlim_max = 64 << 20; setrlimit(RLIMIT_AS, &r);
        vt_vec_t *v = vt_vec_create(1, 1 << 10, NULL); char b[1 << 10] = {0};
        for (int i = 0; i < 1 << 18; i++) vt_vec_push_back(v, b);
        _exit(0);
    }
    int st; waitpid(p, &st, 0); CK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE);
    return 0;
}'''),
]
