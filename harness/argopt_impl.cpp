// Model of command-line parsing, shared by C16 and the memory properties (C09/C28).
#include "seq.hpp"
#include <unistd.h>
#include <sys/mman.h>
typedef std::string S;

struct AoVal { std::string bytes; bool null = false; };                  // raw bytes of a scalar target, or the text of a string target
static bool ao_same(const AoVal &a, const AoVal &b) { return a.null == b.null && a.bytes == b.bytes; }
static const size_t ao_width[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, sizeof(real), sizeof(bool), 1};
static bool ao_number(const S &z) { return !z.empty() && z.find_first_not_of("0123456789.") == S::npos; }
template <class T> static S ao_raw(T v) { S b(sizeof(T), 0); memcpy(&b[0], &v, sizeof(T)); return b; }
static AoVal ao_convert(int type, const S &z) {                          // the value a text spells, by type
    AoVal v;
    if (type <= VT_TYPE_UINT64) { uint64_t x = 0; if (ao_number(z)) for (char c : z) x = x * 10 + (uint64_t)(c - '0'); v.bytes.assign((const char *)&x, ao_width[type]); }
    else if (type == VT_TYPE_FLOAT) v.bytes = ao_raw<float>(ao_number(z) ? strtof(z.c_str(), nullptr) : 0);
    else if (type == VT_TYPE_DOUBLE) v.bytes = ao_raw<double>(ao_number(z) ? strtod(z.c_str(), nullptr) : 0);
    else if (type == VT_TYPE_REAL) { v.bytes = ao_raw<real>(ao_number(z) ? strtold(z.c_str(), nullptr) : 0); v.bytes.resize(10); }
    else if (type == VT_TYPE_BOOL) v.bytes = ao_raw<bool>(z[0] == '1' || z == "true");
    else if (type == VT_TYPE_CHAR) v.bytes = S(1, z[0]);
    else v.bytes = z;
    return v;
}
static S ao_value_text(Src &s, int type) {
    if (s.chance(1, 20)) return "";
    if (type <= VT_TYPE_UINT64) { unsigned bits = 8u << (type / 2); bool sg = type % 2 == 0; uint64_t hi = bits == 64 ? (sg ? INT64_MAX : UINT64_MAX) : (1ull << (sg ? bits - 1 : bits)) - 1; uint64_t v = s.chance(1, 4) ? hi - s.u(2) : s.bits64() & hi; return s.chance(1, 12) ? S("x") + std::to_string(v) : s.chance(1, 12) ? S(1 + s.n(25), '0') + std::to_string(v) : std::to_string(v); }
    if (type <= VT_TYPE_REAL) { char b[64]; snprintf(b, sizeof b, "%llu.%0*llu", (unsigned long long)s.u(100000), 1 + (int)s.n(5), (unsigned long long)s.u(9)); return s.chance(1, 12) ? "nan" : s.chance(1, 4) ? std::to_string(s.u(1000000)) : b; }
    if (type == VT_TYPE_BOOL) { static const char *b[] = {"1", "true", "0", "false", "no", "10", "true1", "truely", "tru", "t", "True", "TRUE", "01", " true", "yes", "untrue"}; return b[s.chance(1, 3) ? s.n(15) : s.n(4)]; }
    if (type == VT_TYPE_CHAR) return S(1, "ab1?/%=Z\xe9\x01\xff"[s.n(10)]) + (s.chance(1, 4) ? s.text(s.chance(1, 6) ? 300 : 4, "xyz") : "");
    if (s.chance(1, 6)) return s.big(s.big_size(s.chance(1, 10) ? 9000 : 300), s.coin() ? "abc=-/ " : "%sn\xe9\xff\t\n\"'");
    return s.text(20, s.coin() ? "ab=- ./?1" : "%sdn=\xc3\xa9\t\n\\\"'-");
}
static bool ao_captured;
static int (*ao_parse)(size_t, const char **, size_t, vt_argopt_t *, Alloc *, S &) = [](size_t c, const char **v, size_t n, vt_argopt_t *t, Alloc *a, S &) { return (int)vt_argopt_parse(c, v, n, t, a); };
static void argopt_history(Src &s, Alloc *al, bool destroy) {
    struct Opt { S lng, shrt; int type; void *target; size_t width; AoVal dflt, want; };
    std::vector<Opt> os; size_t n = 1 + s.n(s.chance(1, 30) ? (s.coin() ? 40 : 110) : 5); std::set<S> names{"-h", "--help"};
    bool bad_table = s.chance(1, 25); size_t bad_at = 0, bad_how = 0; if (bad_table) { bad_at = s.n(n - 1); bad_how = s.n(5); }
    std::vector<vt_argopt_t> tab; tab.reserve(n);
    for (size_t i = 0; i < n; i++) {                                     // names with common prefixes
        Opt o; o.lng = "--" + S(1, "abv"[s.n(2)]) + s.text(6, "abv-"); if (s.chance(1, 20)) o.lng += s.chance(1, 4) ? s.big(s.n(300), "abv%s") : s.text(6, "%sn\xc3\xa9"); if (s.chance(1, 8)) o.lng = o.lng.substr(2);   // also without dashes
        o.shrt = "-" + s.text(2, "abv"); if (o.shrt == "-") o.shrt = "-a";
        if (!names.insert(o.lng).second) { o.lng += "q" + std::to_string(i); names.insert(o.lng); }
        if (!names.insert(o.shrt).second) { o.shrt = "-" + S(1, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZcdefgijkl"[i % 44]); if (i >= 44) o.shrt += S(1, "pqrst"[i / 44]); names.insert(o.shrt); }
        o.type = (int)s.n(VT_TYPE_STR); if (s.chance(1, 3)) o.type = s.coin() ? VT_TYPE_STR : VT_TYPE_CSTR;
        if (o.type == VT_TYPE_STR || o.type == VT_TYPE_CSTR) {
            o.width = sizeof(void *); void *d = nullptr; o.want.null = true;
            if (s.coin()) { S z = s.text(12, "default_"); o.want.null = false; o.want.bytes = z;
                if (o.type == VT_TYPE_STR) d = z.empty() || s.coin() ? (void *)vt_str_create_capacity(z.size() + 1 + s.n(8), al) : (void *)vt_str_create(z.c_str(), al);
                if (o.type == VT_TYPE_STR && !z.empty() && vt_str_len((vt_str_t *)d) == 0) vt_str_append((vt_str_t *)d, z.c_str());
                if (o.type == VT_TYPE_CSTR) { d = al ? VT_ALLOCATOR_ALLOC(al, z.size() + 1) : VT_MALLOC(z.size() + 1); memcpy(d, z.c_str(), z.size() + 1); } }
            o.target = malloc(sizeof(void *)); memcpy(o.target, &d, sizeof d);
        } else { o.width = ao_width[o.type]; o.target = malloc(o.width); memset(o.target, o.type == VT_TYPE_BOOL ? 1 : 0x41 + (int)i, o.width); o.want.bytes.assign((char *)o.target, o.type == VT_TYPE_REAL ? 10 : o.width); }
        o.dflt = o.want; os.push_back(o);
        VPLOG("option %s %s type %d%s", o.lng.c_str(), o.shrt.c_str(), o.type, o.want.null ? " (NULL)" : "");
    }
    for (size_t i = 0; i < n; i++) {
        Opt &o = os[i]; bool b = bad_table && i == bad_at; static const char longshort[] = "-abc";
        vt_argopt_t a = {b && bad_how == 0 ? nullptr : o.lng.c_str(), b && bad_how == 1 ? nullptr : b && bad_how == 2 ? longshort : o.shrt.c_str(), "description", b && bad_how == 3 ? nullptr : (void **)o.target, b && bad_how == 4 ? VT_TYPE_COUNT : b && bad_how == 5 ? (enum VitaTypeInfo)(VT_TYPE_COUNT + 1 + s.n(50)) : (enum VitaTypeInfo)o.type};
        tab.push_back(a);
    }
    // the argument list
    std::vector<S> av{"prog"}; bool unknown = false, help = false; int given = 0; S foreign;
    if (s.chance(1, 20)) { static const char *h[] = {"-h", "--help", "?"}; av.push_back(h[s.n(2)]); help = true; if (s.chance(1, 4)) { av.push_back(av[1]); help = false; unknown = true; foreign = av[1]; } }
    else for (size_t k = s.n(s.chance(1, 40) ? 60 : 6); k > 0; k--) {
        if (s.chance(1, 30)) {                                           // not an option: foreign name, prefix or extension of a known one, empty
            const Opt &o = os[s.n(n - 1)]; S z; switch (s.n(6)) { case 0: z = "--nosuch"; break; case 6: z = "--" + s.text(8, "%sdn\xe9"); if (z == "--") z = "--%"; break; case 1: z = o.lng + "x"; break; case 2: z = o.lng.substr(0, o.lng.size() - 1); break; case 3: z = o.shrt + "z"; break; case 4: z = ""; break; default: z = "=" + s.text(3, "ab="); }
            if (s.chance(1, 4) && !z.empty()) z += "=1"; bool known = false; S nm = z.substr(0, z.find('=')); for (auto &p : os) if (p.lng == nm || p.shrt == nm) known = true;
            if (known || z[0] == '?' || nm == "-h" || nm == "--help" || z == "-") continue;
            if (av.size() > 1 && av.back().find('=') == S::npos && (z.empty() || z[0] != '-')) continue;   // would be the value of a bare flag
            av.push_back(z); if (!unknown) foreign = z; unknown = true; if (s.coin()) break; label("arguments behind an unknown one"); continue;
        }
        Opt &o = os[s.n(n - 1)]; const S &nm = s.coin() ? o.lng : o.shrt; given++; AoVal before = o.want;
        if (s.chance(1, 5) && (av.size() == 1 || nm[0] == '-' || av.back().find('=') != S::npos)) { av.push_back(nm); o.want = ao_convert(o.type, "1"); label("bare flag"); }
        else {
            if (nm[0] != '-' && av.size() > 1) { bool prev_bare = false; for (auto &p : os) if (p.lng == av.back() || p.shrt == av.back()) prev_bare = true; if (prev_bare) { given--; continue; } }
            S v = ao_value_text(s, o.type);
            if (v[0] != '-' && s.coin()) { av.push_back(nm); av.push_back(v); label("opt value"); } else { av.push_back(nm + "=" + v); label("opt=value"); }
            o.want = ao_convert(o.type, v);
        }
        if (unknown) o.want = before;                                    // parsing stops at the first unknown argument
    }
    for (size_t i = 1; i < av.size(); i++) VPLOG("arg %s", show(av[i]).c_str());
    // a bare flag followed by a word that is not an option would swallow it: such lists are not built above except as 'opt value'
    std::vector<char *> argv; for (auto &a : av) { char *z = (char *)malloc(a.size() + 1); memcpy(z, a.c_str(), a.size() + 1); argv.push_back(z); }
    S printed; int r = ao_parse(argv.size(), (const char **)argv.data(), n, tab.data(), al, printed);
    for (size_t i = 0; i < av.size(); i++) { CHECK(av[i] == argv[i], "argument %zu was changed", i); free(argv[i]); }
    int er = bad_table ? VT_ARGOPT_PARSE_ERROR : help ? VT_ARGOPT_PARSE_HELP_WANTED : unknown ? VT_ARGOPT_PARSE_ERROR : VT_ARGOPT_PARSE_SUCCESS;
    CHECK(r == er, "the parser returns %d, expected %d", r, er);
    if (ao_captured && unknown && !bad_table) CHECK(printed.find(foreign) != S::npos, "the unknown argument %s is not named: %s", show(foreign).c_str(), show(printed).c_str());
    for (size_t i = 0; i < n; i++) {
        Opt &o = os[i]; AoVal g;
        if (o.type == VT_TYPE_STR) { vt_str_t *v; memcpy(&v, o.target, sizeof v); g.null = !v; if (v) { g.bytes = vt_str_z(v); CHECK(vt_str_len(v) == g.bytes.size(), "option %zu: length %zu of %s", i, vt_str_len(v), show(g.bytes).c_str()); } }
        else if (o.type == VT_TYPE_CSTR) { char *v; memcpy(&v, o.target, sizeof v); g.null = !v; if (v) g.bytes = v; }
        else g.bytes.assign((char *)o.target, o.type == VT_TYPE_REAL ? 10 : o.width);
        const AoVal &w = bad_table || help ? o.dflt : o.want;
        CHECK(ao_same(g, w), "option %zu (%s, type %d) is %s%s, expected %s%s", i, o.lng.c_str(), o.type, show(g.bytes).c_str(), g.null ? " NULL" : "", show(w.bytes).c_str(), w.null ? " NULL" : "");
    }
    label(bad_table ? "invalid table" : help ? "help" : unknown ? "unknown argument" : "parsed"); if (given >= 2 || unknown || help || bad_table) nontrivial();
    for (auto &o : os) {
        if (destroy && o.type == VT_TYPE_STR) { vt_str_t *v; memcpy(&v, o.target, sizeof v); if (v) vt_str_destroy(v); }
        if (destroy && o.type == VT_TYPE_CSTR) { char *v; memcpy(&v, o.target, sizeof v); if (v) { if (al) VT_ALLOCATOR_FREE(al, v); else VT_FREE(v); } }
        free(o.target);
    }
}
