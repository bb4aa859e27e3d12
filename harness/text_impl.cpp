// Reference definitions for text operations (C04, C05; C09/C28 workloads).
#include "seq.hpp"
typedef std::string S;
static const char *kSpaces = " \t\n\v\f\r";
static bool is_sp(char c) { return c && strchr(kSpaces, c); }
static bool is_pu(char c) { unsigned char u = c; return (u >= 33 && u <= 47) || (u >= 58 && u <= 64) || (u >= 91 && u <= 96) || (u >= 123 && u <= 126); }
static size_t count_nonoverlap(const S &t, const S &x) { size_t c = 0, p = 0; while ((p = t.find(x, p)) != S::npos) { c++; p += x.size(); } return c; }
static size_t last_nonoverlap(const S &t, const S &x) { size_t l = S::npos, p = 0; while ((p = t.find(x, p)) != S::npos) { l = p; p += x.size(); } return l; }
static S replace_all(const S &t, const S &x, const S &r) { S o; size_t p = 0, q; while ((q = t.find(x, p)) != S::npos) { o += t.substr(p, q - p) + r; p = q + x.size(); } return o + t.substr(p); }
static S remove_cascade(S t, const S &x) { size_t p; while ((p = t.find(x)) != S::npos) t.erase(p, x.size()); return t; }
static std::vector<S> split_ref(const S &t, const S &x) { std::vector<S> v; size_t p = 0, q; while ((q = t.find(x, p)) != S::npos) { if (q > p) v.push_back(t.substr(p, q - p)); p = q + x.size(); } if (p < t.size()) v.push_back(t.substr(p)); return v; }

static const char *alphabet(Src &s) { static const char *a[] = {"ab", "abc", "ab,", "ab ,.", "aAbB zZ09.,;\t\n", "\x80\xff\xe9" "a ", " \t\n.,!?ab", "0123456789.", "xyz_-=+*/ ABCxyz123", " \v\f\r\t\nab", "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ aZ5\x01\x1f\x7f", "AZaz@[`{MNmn"}; return a[s.n(11)]; }
// text and needle with a good chance of zero, one and many matches
static S gen_text(Src &s, const char *al, bool big) {
    if (big && s.chance(1, 60)) {                                        // longer than 16 bits can count: a filler with a few places where matches are likely
        size_t l = (s.coin() ? 32700 : 65500) + s.n(1200); S t(l, '~'); label("very long text"); for (size_t k = 1 + s.n(6); k > 0; k--) { S x = s.text(10, al); size_t at = s.coin() ? s.n(l) : l - std::min(l, s.n(1300)); t.insert(at, x); } return t; }
    if (big) { size_t l = s.n(3000); return s.big(l, al); } return s.text(s.coin() ? 12 : 60, al); }
static S gen_needle(Src &s, const S &t, const char *al) {
    if (t.empty()) return "";
    if (t.size() > 30000) { size_t from = t.find_first_not_of('~', s.coin() ? 0 : t.size() - 1300); if (from == S::npos) from = t.find_first_not_of('~'); if (from == S::npos) return S(20000, '~'); if (s.chance(1, 4)) return t.substr(from > 300 ? from - 300 : 0, 600); return t.substr(from, 1 + s.n(5)); }
    switch (s.n(5)) {
        case 0: return S(1, al[s.n(strlen(al) - 1)]);
        case 1: case 2: { size_t from = s.n(t.size() - 1), l = 1 + s.n(std::min<size_t>(t.size() - from - 1, 5)); return t.substr(from, l); }
        case 3: { size_t l = 1 + s.n(t.size() - 1); return t.substr(t.size() - l); }                  // a suffix
        case 4: { size_t l = 1 + s.n(t.size() - 1); S x = t.substr(0, l); if (s.coin()) x[x.size() - 1] = al[s.n(strlen(al) - 1)]; return x; }   // (almost) a prefix
        default: { S x = s.text(4, al); if (x.empty()) x = S(1, al[0]); if (x.size() > t.size()) x.resize(t.size()); return x; }
    }
}
struct Txt { vt_str_t *s; vt_str_t view; bool is_view; std::vector<char> *buf; };
static void same(const vt_str_t *s, const S &want, const char *op) {
    const char *z = vt_str_z(s); size_t n = vt_str_len(s);
    CHECK(strlen(z) == n, "%s: NUL at %zu, length %zu", op, strlen(z), n);
    CHECK(n == want.size() && !memcmp(z, want.data(), n), "%s: got %s, expected %s", op, show(S(z, n)).c_str(), show(want).c_str());
    CHECK(vt_str_capacity(s) >= n, "%s: capacity %zu below length %zu", op, vt_str_capacity(s), n);
}
// one text operation on *sp (owned or view: `grow` says whether it may need more room); model text m is updated
static bool text_op(Src &s, vt_str_t *x, S &m, const char *al, bool may_grow) {
    S nd = gen_needle(s, m, al); bool hit = !nd.empty() && m.find(nd) != S::npos; char op[160]; size_t len = m.size();
    S rep = s.text(6, al); if (rep.empty() || !may_grow) { S r2(nd.size(), 'R'); if (!rep.empty() && rep.size() <= nd.size()) r2 = rep; rep = r2; }
    if (s.chance(1, 4) && may_grow) rep = nd + rep;   // the replacement contains the needle
    switch (s.n(17)) {
        case 0: if (nd.empty()) break; snprintf(op, sizeof op, "find %.60s", show(nd).c_str()); VPLOG("%s", op); {
            size_t p = m.find(nd); const char *got = vt_str_find(x, nd.c_str()); CHECK((got == nullptr) == (p == S::npos), "%s in %s: %s", op, show(m).c_str(), got ? "found" : "not found"); if (got) CHECK(got == vt_str_z(x) + p, "%s in %s: at %td, expected %zu", op, show(m).c_str(), got - vt_str_z(x), p);
            int64_t i = vt_str_index_find(x, nd.c_str()); CHECK(i == (p == S::npos ? -1 : (int64_t)p), "index_%s in %s: %lld", op, show(m).c_str(), (long long)i);
            size_t c = vt_str_can_find(x, nd.c_str()); CHECK(c == count_nonoverlap(m, nd), "count of %s in %s: %zu, expected %zu", show(nd).c_str(), show(m).c_str(), c, count_nonoverlap(m, nd)); } break;
        case 1: { char c = s.coin() && len ? m[s.n(len - 1)] : al[s.n(strlen(al) - 1)]; size_t p = m.find(c); int64_t i = vt_str_index_of(x, c); VPLOG("index_of %d", c); CHECK(i == (p == S::npos ? -1 : (int64_t)p), "index_of %d in %s: %lld", c, show(m).c_str(), (long long)i); break; }
        case 2: { S y = s.coin() ? nd : s.coin() ? m : m + S(1, al[0]); VPLOG("starts/ends_with %s", show(y).c_str()); bool sw = vt_str_starts_with(x, y.c_str()), ew = vt_str_ends_with(x, y.c_str());
            CHECK(sw == (m.compare(0, y.size(), y) == 0 && y.size() <= len), "starts_with %s of %s: %d", show(y).c_str(), show(m).c_str(), sw); CHECK(ew == (y.size() <= len && m.compare(len - y.size(), y.size(), y) == 0), "ends_with %s of %s: %d", show(y).c_str(), show(m).c_str(), ew); hit = sw || ew; break; }
        case 3: { S y = m; int how = (int)s.n(3); if (how == 0 && len) { size_t at = s.n(len - 1); y[at] = (char)(y[at] == 'q' ? 'r' : 'q'); } else if (how == 1 && len) y.pop_back(); else if (how == 2) y += "a"; VPLOG("equals %s", show(y).c_str());
            vt_str_t v = vt_str_create_static(y.c_str()); bool want = y == m; hit = true;
            CHECK(vt_str_equals(x, &v) == want && vt_str_equals(&v, x) == want, "equals %s and %s: not %d", show(m).c_str(), show(y).c_str(), want); CHECK(vt_str_equals_z(m.c_str(), y.c_str()) == want && vt_str_equals_z(y.c_str(), m.c_str()) == want, "equals_z %s and %s: not %d", show(m).c_str(), show(y).c_str(), want);
            size_t mn = std::min(y.size(), len); if (mn) { size_t n = 1 + s.n(mn - 1); bool w2 = m.compare(0, n, y, 0, n) == 0; CHECK(vt_str_equals_n(m.c_str(), y.c_str(), n) == w2, "equals_n %s and %s over %zu: not %d", show(m).c_str(), show(y).c_str(), n, w2); } break; }
        case 4: if (nd.empty() || s.chance(1, 15)) { S a = s.coin() ? nd : S(), b = a.empty() && s.coin() ? rep : S(); VPLOG("replace %s by %s", show(a).c_str(), show(b).c_str()); vt_str_replace(x, a.c_str(), b.c_str()); same(x, m, "replace with an empty side"); break; } if (nd.empty()) break; snprintf(op, sizeof op, "replace %.50s by %.50s", show(nd).c_str(), show(rep).c_str()); VPLOG("%s", op); m = replace_all(m, nd, rep); vt_str_replace(x, nd.c_str(), rep.c_str()); same(x, m, op); break;
        case 5: if (nd.empty() || s.chance(1, 15)) { S a = s.coin() ? nd : S(), b = a.empty() && s.coin() ? rep : S(); VPLOG("replace_first %s by %s", show(a).c_str(), show(b).c_str()); vt_str_replace_first(x, a.c_str(), b.c_str()); same(x, m, "replace_first with an empty side"); break; } if (nd.empty()) break; snprintf(op, sizeof op, "replace_first %.50s by %.50s", show(nd).c_str(), show(rep).c_str()); VPLOG("%s", op); if (hit) m.replace(m.find(nd), nd.size(), rep); vt_str_replace_first(x, nd.c_str(), rep.c_str()); same(x, m, op); break;
        case 6: if (nd.empty() || s.chance(1, 15)) { S a = s.coin() ? nd : S(), b = a.empty() && s.coin() ? rep : S(); VPLOG("replace_last %s by %s", show(a).c_str(), show(b).c_str()); vt_str_replace_last(x, a.c_str(), b.c_str()); same(x, m, "replace_last with an empty side"); break; } if (nd.empty()) break; snprintf(op, sizeof op, "replace_last %.50s by %.50s", show(nd).c_str(), show(rep).c_str()); VPLOG("%s", op); if (hit) m.replace(last_nonoverlap(m, nd), nd.size(), rep); vt_str_replace_last(x, nd.c_str(), rep.c_str()); same(x, m, op); break;
        case 7: if (nd.empty()) break; { snprintf(op, sizeof op, "remove_first %.60s", show(nd).c_str()); VPLOG("%s", op); if (hit) m.erase(m.find(nd), nd.size()); enum VitaStatus r = vt_str_remove_first(x, nd.c_str()); same(x, m, op); CHECK(hit == (r == VT_STATUS_OPERATION_SUCCESS), "%s reports status %d", op, (int)r); break; }
        case 8: if (nd.empty()) break; { snprintf(op, sizeof op, "remove_last %.60s", show(nd).c_str()); VPLOG("%s", op); if (hit) m.erase(last_nonoverlap(m, nd), nd.size()); enum VitaStatus r = vt_str_remove_last(x, nd.c_str()); same(x, m, op); CHECK(hit == (r == VT_STATUS_OPERATION_SUCCESS), "%s reports status %d", op, (int)r); break; }
        case 9: if (nd.empty()) break; { snprintf(op, sizeof op, "remove_all %.60s", show(nd).c_str()); VPLOG("%s", op); m = remove_cascade(m, nd); CHECK(vt_str_remove_all(x, nd.c_str()) == VT_STATUS_OPERATION_SUCCESS, "%s reports failure", op); same(x, m, op); break; }
        case 10: { S c = s.text(4, al); VPLOG("remove_c %s", show(c).c_str()); S o; for (char k : m) if (c.find(k) == S::npos) o += k; hit = o != m; m = o; vt_str_remove_c(x, c.c_str()); same(x, m, "remove_c"); break; }
        case 11: { S c; for (const char *p = al; *p && c.size() < 4; p++) if (s.coin() && c.find(*p) == S::npos) c += *p; if (c.empty()) c = S(1, al[0]); size_t rn = 1 + s.n(c.size() - 1); S r; for (size_t i = 0; i < rn; i++) r += s.coin() ? (char)('0' + i) : al[s.n(strlen(al) - 1)]; VPLOG("replace_c %s by %s", show(c).c_str(), show(r).c_str());
            S o = m; for (char &k : o) { size_t j = c.find(k); if (j != S::npos) k = j < r.size() ? r[j] : r.back(); } hit = o != m; m = o; vt_str_replace_c(x, c.c_str(), r.c_str()); same(x, m, "replace_c"); break; }
        case 12: if (nd.empty() || !may_grow) break; snprintf(op, sizeof op, "insert_before %.50s, %.50s", show(nd).c_str(), show(rep).c_str()); VPLOG("%s", op); if (hit) m.insert(m.find(nd), rep); vt_str_insert_before(x, nd.c_str(), rep.c_str()); same(x, m, op); break;
        case 13: if (nd.empty() || !may_grow) break; snprintf(op, sizeof op, "insert_after %.50s, %.50s", show(nd).c_str(), show(rep).c_str()); VPLOG("%s", op); if (hit) m.insert(m.find(nd) + nd.size(), rep); vt_str_insert_after(x, nd.c_str(), rep.c_str()); same(x, m, op); break;
        case 14: { bool pu = s.coin(); S o = m; auto st = [&](char c) { return is_sp(c) || (pu && is_pu(c)); }; while (!o.empty() && st(o.back())) o.pop_back(); size_t i = 0; while (i < o.size() && st(o[i])) i++; o.erase(0, i); hit = o != m; VPLOG("%s", pu ? "strip_punct" : "strip"); S before = m; m = o; if (pu) vt_str_strip_punct(x); else vt_str_strip(x); snprintf(op, sizeof op, "%s of %.100s", pu ? "strip_punct" : "strip", show(before).c_str()); same(x, m, op); break; }
        case 15: { S c = s.text(4, al), o = m; while (!o.empty() && c.find(o.back()) != S::npos) o.pop_back(); size_t i = 0; while (i < o.size() && c.find(o[i]) != S::npos) i++; o.erase(0, i); hit = o != m; VPLOG("strip_c %s", show(c).c_str()); S before = m; m = o; vt_str_strip_c(x, c.c_str()); snprintf(op, sizeof op, "strip_c %.40s of %.80s", show(c).c_str(), show(before).c_str()); same(x, m, op); break; }
        case 16: { bool up = s.coin(); S o = m; for (char &c : o) { if (up && c >= 'a' && c <= 'z') c -= 32; else if (!up && c >= 'A' && c <= 'Z') c += 32; } hit = o != m; m = o; VPLOG("%s", up ? "to_uppercase" : "to_lowercase"); if (up) vt_str_to_uppercase(x); else vt_str_to_lowercase(x); same(x, m, up ? "to_uppercase" : "to_lowercase"); break; }
        default: { // the numeric test: digits with at most one dot are numbers, anything with a foreign character is not
            S t = s.text(12, "0123456789"); if (t.empty()) t = "7"; if (s.coin()) t.insert(s.n(t.size()), 1, '.'); bool want = true; if (s.coin()) { static const char f[] = "z#,_ wq/:"; t.insert(s.n(t.size()), 1, f[s.n(8)]); want = false; }
            VPLOG("is_numeric %s", show(t).c_str()); vt_str_t v = vt_str_create_static(t.c_str()); CHECK(vt_str_is_numeric(&v) == want, "is_numeric %s: not %d", show(t).c_str(), want); CHECK(vt_str_is_numeric_z(t.c_str(), t.size()) == want, "is_numeric_z %s: not %d", show(t).c_str(), want);
            size_t c = 1 + s.n(t.size() - 1); bool wc = true; for (size_t i = 0; i < c; i++) if (!((t[i] >= '0' && t[i] <= '9') || t[i] == '.')) wc = false; CHECK(vt_str_is_numeric_z(t.c_str(), c) == wc, "is_numeric_z %s over %zu: not %d", show(t).c_str(), c, wc); hit = true; break; }
    }
    same(x, m, "text operation");
    return hit;
}
void text_history(Src &s, Alloc *a, bool destroy) {
    const char *al = alphabet(s); bool big = s.chance(1, 30); S m = gen_text(s, al, big); bool nt = false;
    VPLOG("text %s%s", show(m).c_str(), a ? " on an allocator" : "");
    vt_str_t *x = vt_str_create(m.c_str(), a); if (s.chance(1, 4)) vt_str_reserve(x, 1 + s.n(50));
    size_t n = 1 + s.n(5); for (size_t i = 0; i < n; i++) { if (m.size() > 20000 && i > 1) break; bool h = text_op(s, x, m, al, true); if (h && !m.empty()) nt = true; if (s.chance(1, 8)) vt_str_shrink(x); }
    if (nt) nontrivial(); label(big ? "long text" : "short text");
    if (destroy || !a) vt_str_destroy(x);
}

// ------------------------------------------------------------------ split, join, pop, between
static void free_pieces(vt_plist_t *p, bool destroy) { for (size_t i = 0; i < vt_plist_len(p); i++) { vt_str_t *q = (vt_str_t *)vt_plist_get(p, i); if (destroy || !q->alloctr) vt_str_destroy(q); } vt_plist_clear(p); }
static void check_pieces(vt_plist_t *p, const std::vector<S> &want, const S &t, const S &sep) {
    S got; for (size_t i = 0; i < vt_plist_len(p); i++) { got += i ? "|" : ""; got += vt_str_z((vt_str_t *)vt_plist_get(p, i)); }
    CHECK(vt_plist_len(p) == want.size(), "split %s at %s gives %zu pieces (%s), expected %zu", show(t).c_str(), show(sep).c_str(), vt_plist_len(p), show(got).c_str(), want.size());
    for (size_t i = 0; i < want.size(); i++) { char op[48]; snprintf(op, sizeof op, "piece %zu of a split", i); same((vt_str_t *)vt_plist_get(p, i), want[i], op); }
}
static vt_str_t *fresh_dest(Src &s, Alloc *a, S &content) { content = s.text(20); vt_str_t *x = s.coin() ? vt_str_create(content.c_str(), a) : nullptr; if (!x) { x = vt_str_create_capacity(1 + s.n(30), a); content.clear(); if (s.coin()) { content = s.text(8); vt_str_append(x, content.c_str()); } } return x; }
#define KEEP(x) ((destroy || !(x)->alloctr) ? vt_str_destroy(x) : (void)0)

void split_history(Src &s, Alloc *a, bool destroy) {
    const char *al = alphabet(s); bool big = s.chance(1, 30); S t = gen_text(s, al, big);
    vt_plist_t *reuse = nullptr; if (s.coin()) { reuse = vt_plist_create(1 + s.n(6), a); label("reused list"); }
    size_t rounds = 1 + s.n(3); bool nt = false;
    for (size_t r = 0; r < rounds; r++) {
        switch (s.n(6)) {
            case 0: case 1: { // split
                if (t.empty()) { t = gen_text(s, al, false) + al[0]; } S sep = gen_needle(s, t, al); std::vector<S> want = split_ref(t, sep); bool found = t.find(sep) != S::npos;
                VPLOG("split %s at %s -> %zu pieces", show(t).c_str(), show(sep).c_str(), want.size());
                vt_str_t *x = vt_str_create(t.c_str(), s.coin() ? a : nullptr); bool stale = reuse && found && s.chance(1, 3); if (stale) { for (size_t i = 1 + s.n(9); i > 0; i--) vt_plist_push_back(reuse, (void *)(uintptr_t)(16 * i)); label("list in use before"); }
                vt_plist_t *p = vt_str_split(reuse, x, sep.c_str()); same(x, t, "split (source)");
                if (!found) CHECK(p == nullptr, "split %s at %s, which does not occur, gives a list", show(t).c_str(), show(sep).c_str());
                else { { CHECK(p != nullptr, "split %s at %s gives nothing", show(t).c_str(), show(sep).c_str()); } if (p) { if (reuse) CHECK(p == reuse, "split gives another list than the one passed in"); check_pieces(p, want, t, sep); free_pieces(p, destroy); if (p != reuse) vt_plist_destroy(p); } if (want.size() > 1) nt = true; }
                KEEP(x); t = gen_text(s, al, false); break; }
            case 2: { // join, then split again
                S sep = s.text(3, al); if (sep.empty()) sep = ","; size_t n = 1 + s.size(big ? 200 : 12); std::vector<S> ps; for (size_t i = 0; i < n; i++) ps.push_back(s.text(8, "pqr0")); S head, want;
                vt_plist_t *p = vt_plist_create(n, s.coin() ? a : nullptr); for (auto &q : ps) vt_plist_push_back(p, q.c_str());
                vt_str_t *d = s.coin() ? fresh_dest(s, a, head) : nullptr; want = head; for (size_t i = 0; i < n; i++) want += (i ? sep : S()) + ps[i];
                VPLOG("join %zu pieces with %s%s", n, show(sep).c_str(), d ? " onto an existing string" : "");
                vt_str_t *o = vt_str_join(d, sep.c_str(), p); CHECK(o && (!d || o == d), "join gives another string than the one passed in"); same(o, want, "join"); if (n > 1) nt = true;
                bool clean = head.empty(); for (auto &q : ps) if (q.empty() || q.find(sep) != S::npos) clean = false;
                if (clean && n > 1 && S("pqr0").find_first_of(sep) == S::npos) { vt_plist_t *sp = vt_str_split(reuse, o, sep.c_str()); CHECK(sp, "splitting a join gives nothing"); check_pieces(sp, ps, want, sep); free_pieces(sp, destroy); if (sp != reuse) vt_plist_destroy(sp); label("split of a join"); }
                KEEP(o); if (destroy || !p->alloctr) vt_plist_destroy(p); break; }
            case 3: { // join_n
                S sep = s.text(3, al), head; S p[5]; size_t n = 1 + s.n(4); for (auto &q : p) q = s.text(8, al); vt_str_t *d = s.coin() ? fresh_dest(s, a, head) : nullptr; S want = head; for (size_t i = 0; i < n; i++) want += (i ? sep : S()) + p[i];
                VPLOG("join_n %zu with %s", n, show(sep).c_str()); vt_str_t *o = vt_str_join_n(d, sep.c_str(), n, p[0].c_str(), p[1].c_str(), p[2].c_str(), p[3].c_str(), p[4].c_str()); CHECK(o && (!d || o == d), "join_n gives another string"); same(o, want, "join_n"); if (n > 1) nt = true; KEEP(o); break; }
            case 4: case 5: { // pop pieces off until nothing is left to pop
                if (t.empty()) t = gen_text(s, al, false); S m = t, sep = m.empty() ? S(1, al[0]) : gen_needle(s, m, al), rc; vt_str_t *x = vt_str_create(m.c_str(), s.coin() ? a : nullptr), *d = s.coin() ? fresh_dest(s, a, rc) : nullptr; bool given = d;
                VPLOG("pop pieces of %s at %s%s", show(m).c_str(), show(sep).c_str(), d ? " into an existing string" : "");
                for (int k = 0; k < 6; k++) {
                    bool first = s.coin(); size_t pos = first ? m.find(sep) : last_nonoverlap(m, sep);
                    S piece, rest; if (pos != S::npos) { piece = first ? m.substr(0, pos) : m.substr(pos + sep.size()); rest = first ? m.substr(pos + sep.size()) : m.substr(0, pos); }
                    VPLOG("pop_get_%s of %s", first ? "first" : "last", show(m).c_str());
                    vt_str_t *o = first ? vt_str_pop_get_first(d, x, sep.c_str()) : vt_str_pop_get_last(d, x, sep.c_str());
                    if (pos == S::npos) { CHECK(o == d, "pop_get without a separator gives a new string"); same(x, m, "pop_get without separator"); if (d) same(d, rc, "pop_get without separator (destination)"); break; }
                    if (piece.empty()) { CHECK(o == d, "pop_get of an empty piece gives a new string"); same(x, m, "pop_get of an empty piece"); if (d) same(d, rc, "pop_get of an empty piece (destination)"); break; }
                    CHECK(o && (!d || o == d), "pop_get_%s of %s at %s gives no string", first ? "first" : "last", show(m).c_str(), show(sep).c_str());
                    same(o, piece, first ? "pop_get_first (piece)" : "pop_get_last (piece)"); m = rest; same(x, m, first ? "pop_get_first (rest)" : "pop_get_last (rest)"); nt = true;
                    rc = piece; if (!d) { if (s.coin()) { KEEP(o); rc.clear(); } else { d = o; } }
                }
                if (d) { KEEP(d); } KEEP(x); t = gen_text(s, al, false); (void)given; break; }
            default: { // between two markers
                S l = s.text(3, "<[ab"), rr = s.text(3, ">]ab"); if (l.empty()) l = "<"; if (rr.empty()) rr = ">"; S z = s.text(10, "<>[]abxyz"); if (s.chance(2, 3)) { z += l; z += s.text(s.chance(1, 6) ? 200 : 8, "xyz<>"); z += rr; z += s.text(6, "xyz<>[]"); }
                size_t pl = z.find(l), pr = z.find(rr); S rc; vt_str_t *d = s.coin() ? fresh_dest(s, a, rc) : nullptr; VPLOG("split_between %s: %s %s", show(z).c_str(), show(l).c_str(), show(rr).c_str());
                vt_str_t *o = vt_str_split_between(d, z.c_str(), l.c_str(), rr.c_str());
                if (o && d) CHECK(o == d, "split_between gives another string than the one passed in");
                if (pl == S::npos || pr == S::npos) CHECK(o == nullptr, "split_between %s without both %s and %s gives %s", show(z).c_str(), show(l).c_str(), show(rr).c_str(), o ? show(vt_str_z(o)).c_str() : "");
                else if (pr >= pl + l.size()) { S want = z.substr(pl + l.size(), pr - pl - l.size()); if (!want.empty()) CHECK(o != nullptr, "split_between %s: %s %s gives nothing", show(z).c_str(), show(l).c_str(), show(rr).c_str()); if (o) same(o, want, "split_between"); nt = true; }
                else if (o) { size_t p2 = z.find(rr, pl + l.size()); CHECK(p2 != S::npos, "split_between with the right marker first gives %s", show(vt_str_z(o)).c_str()); same(o, z.substr(pl + l.size(), p2 - pl - l.size()), "split_between (right marker also before)"); }
                if (o && o != d) { KEEP(o); } if (d) { KEEP(d); } break; }
        }
    }
    if (nt) nontrivial();
    if (reuse && (destroy || !reuse->alloctr)) vt_plist_destroy(reuse);
}
