// C12 conversions, C22 number functions, C23 random numbers, C24 min/max/clamp, C25 index conversions.
#include "seq.hpp"
#include <numeric>
#include <cfloat>
#include <unistd.h>
#include <sys/wait.h>
typedef std::string S;
typedef unsigned __int128 u128; typedef __int128 i128;

// ------------------------------------------------------------------ C12
static S dec(u128 v) { if (!v) return "0"; S o; while (v) { o.insert(o.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return o; }
static S deci(i128 v) { return v < 0 ? "-" + dec((u128)-v) : dec((u128)v); }
struct IntConv { const char *name; int bits; bool sgn; void (*to)(char *, size_t, i128); i128 (*from)(const char *); };
#define IC(T, t, B, SG) { #t, B, SG, [](char *b, size_t n, i128 v) { vt_conv_##t##_to_str(b, n, (T)v); }, [](const char *z) -> i128 { return (i128)vt_conv_str_to_##t(z); } }
static const IntConv ints[] = { IC(int8_t, i8, 8, true), IC(uint8_t, u8, 8, false), IC(int16_t, i16, 16, true), IC(uint16_t, u16, 16, false), IC(int32_t, i32, 32, true), IC(uint32_t, u32, 32, false), IC(int64_t, i64, 64, true), IC(uint64_t, u64, 64, false) };
struct FltConv { const char *name; long double max, rel; S (*ref)(long double); void (*to)(char *, size_t, long double); long double (*from)(const char *); };
template <class T> static S ref6(long double v) { char b[6000]; snprintf(b, sizeof b, "%.6Lf", (long double)(T)v); return b; }
#define FC(T, t, MAX, REL) { #t, MAX, REL, ref6<T>, [](char *b, size_t n, long double v) { vt_conv_##t##_to_str(b, n, (T)v); }, [](const char *z) -> long double { return vt_conv_str_to_##t(z); } }
static const FltConv flts[] = { FC(float, f, FLT_MAX, 1.2e-7L), FC(double, d, DBL_MAX, 2.3e-16L), FC(real, r, LDBL_MAX, 1.1e-19L) };
static i128 int_value(Src &s, const IntConv &t) {
    i128 hi = ((i128)1 << (t.sgn ? t.bits - 1 : t.bits)) - 1, lo = t.sgn ? -hi - 1 : 0;
    switch (s.n(5)) { case 0: return lo + (i128)s.n(3); case 1: return hi - (i128)s.n(3); case 2: { i128 p = 1; for (size_t k = s.n(19); k > 0; k--) if (p * 10 <= hi) p *= 10; i128 v = p - 1 + (i128)s.n(2); return t.sgn && s.coin() ? -v : v > hi ? hi : v; } // around powers of ten
        case 3: return (i128)s.n(20); default: { i128 v = (i128)(u128)s.bits64(); if (t.sgn && s.coin()) v = -v; u128 span = (u128)(hi - lo) + 1; i128 r = (i128)((u128)(v - lo) % span); return lo + r; } }
}
static long double flt_value(Src &s, const FltConv &t) {
    long double v;
    switch (s.n(5)) { case 0: v = (long double)s.n(1000) / 8; break; case 1: v = (long double)s.bits64() / (long double)(1ull << s.n(63)); break; case 2: v = ldexpl((long double)(1 + s.u(1u << 24)), (int)s.range(-40, 90)); break; case 3: if (s.chance(1, 8)) v = t.max / (long double)(1 + s.n(1000)); else v = (long double)s.bits64(); break;
        case 4: { static const long double e[] = {0.0L, 0.0000005L, 0.0000015L, 0.9999995L, 0.99999949L, 999999.9999995L, 1.0L, 9.9999999L, 1e15L, 123456789.123456789L}; v = e[s.n(9)]; break; } default: v = (long double)s.u(1000000000) / 1000000.0L; }
    return s.chance(1, 4) ? -v : v;
}
static void too_small(Src &s, const S &want, std::function<void(char *, size_t)> f) {
    size_t n = s.coin() ? want.size() : s.n(want.size()); char *b = (char *)malloc(n ? n : 1); memset(b, 0x5a, n ? n : 1); VPLOG("into %zu bytes (too small)", n);
    Death d = expect_death([&] { f(b, n); }); CHECK(d.died && d.code != 0, "a buffer of %zu bytes for %s: no failure (text %s)", n, show(want).c_str(), show(S(b, strnlen(b, n))).c_str()); if (!n) CHECK(b[0] == 0x5a, "wrote into an empty buffer"); free(b); label("buffer too small");
}
static void c12(Src &s) {
    if (s.chance(2, 3)) {
        const IntConv &t = ints[s.n(7)]; i128 v = int_value(s, t); S want = deci(v); VPLOG("%s %s", t.name, want.c_str());
        if (s.chance(1, 3)) { too_small(s, want, [&](char *b, size_t n) { t.to(b, n, v); }); }
        size_t n = want.size() + 1 + (s.coin() ? 0 : s.n(40)); char *b = (char *)malloc(n); memset(b, 0x5a, n); t.to(b, n, v); CHECK(S(b, strnlen(b, n)) == want && strnlen(b, n) < n, "%s %s is written as %s", t.name, want.c_str(), show(S(b, strnlen(b, n))).c_str());
        if (v >= 0) { i128 g = t.from(b); CHECK(g == v, "%s %s reads back as %s", t.name, want.c_str(), deci(g).c_str()); S z = S(s.n(4), '0') + want; g = t.from(z.c_str()); CHECK(g == v, "%s %s reads as %s", t.name, z.c_str(), deci(g).c_str()); if (v > 9) nontrivial(); } else nontrivial();
        free(b);
        if (s.chance(1, 4)) { S z = want; static const char bad[] = "z#_ :wk/'x"; z.insert(s.n(z.size()), 1, bad[s.n(9)]); if (z[0] == '-') z.erase(0, 1); if (z.find_first_not_of("0123456789.") != S::npos) { VPLOG("not a number: %s", show(z).c_str()); i128 g = t.from(z.c_str()); CHECK(g == 0, "%s, which is not a number, reads as %s", show(z).c_str(), deci(g).c_str()); label("not a number"); } }
    } else {
        const FltConv &t = flts[s.n(2)]; long double v = flt_value(s, t); if (fabsl(v) > t.max) v = t.max; S want = t.ref(v); VPLOG("%s %s", t.name, show(want).c_str()); label("floating");
        if (s.chance(1, 3)) too_small(s, want, [&](char *b, size_t n) { t.to(b, n, v); });
        size_t n = want.size() + 1 + (s.coin() ? 0 : s.n(40)); char *b = (char *)malloc(n); memset(b, 0x5a, n); t.to(b, n, v); CHECK(S(b, strnlen(b, n)) == want && strnlen(b, n) < n, "%s %s is written as %s", t.name, want.c_str(), show(S(b, strnlen(b, n))).c_str());
        if (want[0] != '-') { long double g = t.from(b), x = v; CHECK(fabsl(g - x) <= 0.5000001e-6L + fabsl(x) * 2 * t.rel, "%s %s reads back as %.9Lf", t.name, want.c_str(), g); nontrivial();
            S z = dec(s.u(s.coin() ? 99999 : UINT64_MAX)) + "." + s.text(12, "0123456789"); long double w = strtold(z.c_str(), nullptr); g = t.from(z.c_str()); CHECK(fabsl(g - w) <= w * t.rel * 1.01L, "%s reads as %.12Lf (%s)", z.c_str(), g, t.name); }
        free(b);
        if (s.chance(1, 4)) { S z = want; static const char bad[] = "z#_ :wk/'"; z.insert(s.n(z.size()), 1, bad[s.n(8)]); if (z[0] == '-') z.erase(0, 1); if (z.find_first_not_of("0123456789.") != S::npos) { long double g = t.from(z.c_str()); CHECK(g == 0, "%s, which is not a number, reads as %Lf", show(z).c_str(), g); } }
    }
}
PROP("C12", c12, 4000000, 40000000, F_LEAK, "Random values of all eight integer types (extremes, around powers of ten, random bits) and three floating types written into exactly sized, larger and too small buffers, compared with an independent decimal formatter, read back (with and without leading zeros), and texts with a foreign character. Non-trivial: negative, or more than one digit, or a non-negative floating value.");

// ------------------------------------------------------------------ C22
static u128 mag(int64_t v) { return v < 0 ? (u128)(-(i128)v) : (u128)v; }
static u128 egcd(u128 a, u128 b) { while (b) { u128 r = a % b; a = b; b = r; } return a; }
static float any_float(Src &s, bool positive) { uint32_t b; switch (s.n(4)) { case 0: { float f = (float)s.n(1000) / (s.coin() ? 8.0f : 1.0f); if (!positive && s.coin()) f = -f; return f; } case 1: b = 0x00800000u + (uint32_t)s.u(3); break; case 2: b = 0x7f7fffffu - (uint32_t)s.u(3); break; default: b = 0x00800000u + (uint32_t)s.u(0x7f7fffffu - 0x00800000u); } float f; memcpy(&f, &b, 4); if (!positive && s.coin()) f = -f; return f; }
static void c22(Src &s) {
    switch (s.n(6)) {
        case 0: case 1: {
            int64_t a = s.coin() ? (int64_t)s.bits64() : s.integer(INT64_MIN, INT64_MAX), b = s.coin() ? (int64_t)s.bits64() : s.integer(INT64_MIN, INT64_MAX);
            if (s.coin()) { int64_t f = s.range(1, 1 << 20); a = (int64_t)s.n(1 << 20) * f; b = (int64_t)s.n(1 << 20) * f; if (s.coin()) a = -a; if (s.coin()) b = -b; }
            VPLOG("gcd/lcm %lld %lld", (long long)a, (long long)b); int64_t g = vt_math_gcd(a, b); u128 want = egcd(mag(a), mag(b)); CHECK(mag(g) == want, "gcd(%lld, %lld) = %lld, expected %s", (long long)a, (long long)b, (long long)g, dec(want).c_str());
            if (a >= 0 && b >= 0) CHECK(g >= 0, "gcd(%lld, %lld) = %lld is negative", (long long)a, (long long)b, (long long)g);
            int64_t l = vt_math_lcm(a, b); if (a == 0 || b == 0) { CHECK(l == 0, "lcm(%lld, %lld) = %lld", (long long)a, (long long)b, (long long)l); label("zero operand"); }
            else { u128 w = mag(a) / want * mag(b); if (mag(a) / want < ((u128)1 << 63) && w < ((u128)1 << 63)) { CHECK(mag(l) == w, "lcm(%lld, %lld) = %lld, expected %s", (long long)a, (long long)b, (long long)l, dec(w).c_str()); if (a > 0 && b > 0) CHECK(l > 0, "lcm(%lld, %lld) is negative", (long long)a, (long long)b); label("lcm"); } }
            if (want > 1) nontrivial(); break; }
        case 2: { uint64_t v; if (s.coin()) { S h = dec(s.u(9999999999ull)), r(h.rbegin(), h.rend()); S p = h + (s.coin() && r.size() > 1 ? r.substr(1) : r); if (s.chance(1, 3)) { size_t i = s.n(p.size() - 1); p[i] = (char)('0' + s.n(9)); } if (p.size() > 20) p.resize(20); u128 x = 0; for (char c : p) x = x * 10 + (c - '0'); v = (uint64_t)(x > UINT64_MAX ? x % UINT64_MAX : x); } else v = s.bits64();
            S d = dec(v), r(d.rbegin(), d.rend()); VPLOG("is_palindrome %s", d.c_str()); CHECK(vt_math_is_palindrome(v) == (d == r), "is_palindrome(%s) = %d", d.c_str(), d != r); if (d == r && d.size() > 1) { nontrivial(); label("palindrome"); } break; }
        case 3: { double a = (double)s.range(-1000000, 1000000) / 16, w = (double)s.range(1, 1000000) / 16, oa = (double)s.range(-1000000, 1000000) / 16, ob = (double)s.range(-1000000, 1000000) / 16, b = s.coin() ? a + w : a - w, x = s.chance(1, 4) ? (s.coin() ? a : b) : a + (b - a) * (double)s.range(-2000, 3000) / 1000; bool fine = s.chance(1, 2);
            if (fine) { int k = (int)s.range(-80, 20), m = (int)s.range(-80, 20); auto D = [&](int e) { return ldexp((double)s.range(-(1LL << 53), 1LL << 53), e); }; a = D(k); b = D(k); x = s.chance(1, 6) ? (s.coin() ? a : b) : D(k); oa = D(m); ob = D(m); if (fabs(b - a) < ldexp(1.0, 33 + k)) b = a + ldexp(1.0, 40 + k); label("full precision"); }     // all bits of the numbers in use
            VPLOG("map_to %g [%g, %g] -> [%g, %g]", x, a, b, oa, ob); double g = vt_math_map_to(x, a, b, oa, ob); long double want = (long double)oa + ((long double)x - a) / ((long double)b - a) * ((long double)ob - oa); long double tol = 1e-9L * ((fine ? 0 : 1) + fabsl(want) + fabsl((long double)oa) + fabsl((long double)ob)) ;
            CHECK(fabsl(g - want) <= tol, "map_to(%g, %g, %g, %g, %g) = %g, expected %Lg", x, a, b, oa, ob, g, want); if (x != a) nontrivial(); break; }
        case 4: case 5: { float v = any_float(s, true); if (v == 0) { CHECK(vt_math_sqrt_carmack(0) == 0, "sqrt(0) = %g", vt_math_sqrt_carmack(0)); vt_math_isqrt_carmack(0); break; } VPLOG("sqrt / isqrt %a", v); double r = sqrt((double)v), a = vt_math_sqrt_carmack(v), b = vt_math_isqrt_carmack(v); CHECK(fabs(a / r - 1) <= 1e-6, "sqrt_carmack(%a) = %.9g, expected %.9g", v, a, r); CHECK(fabs(b * r - 1) <= 1e-6, "isqrt_carmack(%a) = %.9g, expected %.9g", v, b, 1 / r); nontrivial(); break; }
        default: { float l = any_float(s, false), r = s.coin() ? any_float(s, false) : s.coin() ? l + (float)s.range(-200, 200) * FLT_EPSILON : nextafterf(l, s.coin() ? INFINITY : -INFINITY), tol = s.chance(1, 3) ? -1.0f * (float)(1 + s.n(3)) : s.coin() ? (float)s.n(100) / 64 : (float)s.n(200) * FLT_EPSILON;
            if (!std::isfinite(r)) r = l; long double t = tol < 0 ? (long double)FLT_EPSILON : (long double)tol, d = fabsl((long double)l - (long double)r); VPLOG("is_close %a %a %a", l, r, tol); bool g = vt_math_is_close(l, r, tol);
            if (d < t * 0.999999L) CHECK(g, "is_close(%a, %a, %a) is false", l, r, tol); else if (d > t * 1.000001L || d == 0) CHECK(!g || (d == 0 && t > 0), "is_close(%a, %a, %a) is true", l, r, tol); if (d != 0) { nontrivial(); } break; }
    }
}
PROP("C22", c22, 20000000, 100000000, 0, "Random arguments (any 64-bit values, common factors, extremes; mirrored and nearly mirrored digit strings; all positive normal floats; values a few units apart) against exact wide-integer, digit-string or extended-precision definitions. Non-trivial: common factor above 1, palindrome of several digits, or unequal / non-boundary values.");

// ------------------------------------------------------------------ C23
static void c23(Src &s) {
    static const time_t seeds[] = {1700000000, 1, 1234567890, 1735689600, 946684800, 0x7fffffff, 1600000001, 1111111111};
    g_fake_time = seeds[s.n(7)];                   // only matters before the first draw of the process
    size_t skip = s.n(500); for (size_t i = 0; i < skip; i++) vt_math_random_u64();
    switch (s.n(4)) {
        case 0: { std::set<uint64_t> seen; uint64_t mx = 0; for (int i = 0; i < 300; i++) { uint64_t v = vt_math_random_u64(); CHECK(v < (1u << 15), "random_u64 gives %llu", (unsigned long long)v); seen.insert(v); mx = std::max(mx, v); } VPLOG("300 x random_u64: %zu distinct", seen.size()); CHECK(seen.size() > 30, "300 draws of random_u64 have only %zu values", seen.size()); CHECK(mx > 16384, "300 draws of random_u64 all lie below %llu", (unsigned long long)mx); nontrivial(); break; }
        case 1: { uint32_t b = s.coin() ? 1 + (uint32_t)s.u(100) : (uint32_t)std::max<uint64_t>(1, s.bits64() & 0xffffffffu); float lo = INFINITY, hi = -INFINITY; VPLOG("random_f32(%u)", b); for (int i = 0; i < 300; i++) { float v = vt_math_random_f32(b); CHECK(v >= 0 && (double)v < (double)b, "random_f32(%u) gives %.9g", b, v); lo = std::min(lo, v); hi = std::max(hi, v); } CHECK(lo < 0.4 * b && hi > 0.6 * b, "300 draws of random_f32(%u) lie in [%g, %g]", b, lo, hi); nontrivial(); break; }
        case 2: { float a, b; switch (s.n(5)) { case 0: a = (float)s.range(-1000, 1000); b = a + 1 + (float)s.n(1000); break; case 1: a = any_float(s, false); b = nextafterf(a, INFINITY); break; case 2: a = any_float(s, false); b = any_float(s, false); break; case 3: a = -any_float(s, true); b = any_float(s, true); break; case 5: a = -FLT_MAX / (float)(1 + s.n(2)); b = FLT_MAX / (float)(1 + s.n(2)); break; default: a = 0; b = (float)(1 + s.n(3)) / (float)(1 + s.n(1000)); }
            if (a > b) std::swap(a, b); if (!(a < b) || !std::isfinite(b)) { a = 0; b = 1; } VPLOG("random_f32_uniform(%g, %g)", a, b); std::set<float> seen; float lo = INFINITY, hi = -INFINITY; for (int i = 0; i < 300; i++) { float v = vt_math_random_f32_uniform(a, b); CHECK(v >= a && v < b, "random_f32_uniform(%.9g, %.9g) gives %.9g", a, b, v); lo = std::min(lo, v); hi = std::max(hi, v); }
            double w = (double)b - a; if (w > 1e-3 * (fabs((double)a) + fabs((double)b)) && w > 1e-30) { CHECK(lo < (double)a + 0.4 * w && hi > (double)a + 0.6 * w, "300 draws of random_f32_uniform(%g, %g) lie in [%g, %g]", a, b, lo, hi); nontrivial(); } break; }
        case 3: { float mu = (float)s.range(-100000, 100000) / 16; VPLOG("random_f32_normal(%g, 0) and (0, 1)", mu); std::set<float> seen; size_t below[2] = {0, 0}, above[2] = {0, 0};
            for (int i = 0; i < 100; i++) { float v = vt_math_random_f32_normal(mu, 0); CHECK(v == mu, "random_f32_normal(%g, 0) gives %.9g", mu, v); v = vt_math_random_f32_normal(0, 1); CHECK(std::isfinite(v) && fabs(v) < 50, "random_f32_normal(0, 1) gives %g", v); seen.insert(v); v = vt_math_random_f32_normal(mu, 2); CHECK(std::isfinite(v), "random_f32_normal(%g, 2) gives %g", mu, v); }
            CHECK(seen.size() > 10, "normal draws are constant"); for (int i = 0; i < 240; i++) { float v = vt_math_random_f32_normal(0, 1); below[i & 1] += v < 0; above[i & 1] += v > 0; }
            for (int i = 0; i < 2; i++) CHECK(below[i] && above[i], "every other of 240 normal draws around 0: %zu below, %zu above", below[i], above[i]); nontrivial(); break; }
        default: { if (!s.chance(1, 20)) break; // the same generator state with two parameter sets: the draws are related by the affine map
            float mu = (float)s.range(-10000, 10000) / 16, sd = (float)s.range(1, 10000) / 16; enum { K = 40 }; float ref[K]; int p[2]; if (pipe(p)) break; g_heap_pause = true; if (s.coin()) vt_math_random_f32_normal(0, 1); pid_t c = fork();
            if (c == 0) { for (int i = 0; i < K; i++) ref[i] = vt_math_random_f32_normal(0, 1); ssize_t w = write(p[1], ref, sizeof ref); _exit(w == (ssize_t)sizeof ref ? 0 : 1); }
            close(p[1]); size_t got = 0; while (got < sizeof ref) { ssize_t r = read(p[0], (char *)ref + got, sizeof ref - got); if (r <= 0) break; got += r; } close(p[0]); int st; waitpid(c, &st, 0); g_heap_pause = false; if (got < sizeof ref) break;
            VPLOG("random_f32_normal(%g, %g) against (0, 1) from the same state", mu, sd); for (int i = 0; i < K; i++) { float v = vt_math_random_f32_normal(mu, sd); double want = (double)mu + (double)sd * ref[i]; CHECK(fabs(v - want) <= 1e-5 * (fabs(mu) + fabs(sd * ref[i]) + 1e-3), "draw %d of random_f32_normal(%g, %g) is %g, but %g of (0, 1)", i, mu, sd, v, ref[i]); } label("affine relation"); nontrivial(); break; }
    }
}
PROP("C23", c23, 1600000, 8000000, F_NOFUZZ, "300 draws per case from the running generator (several initial clocks, random positions in its sequence) for random bounds: small, huge, adjacent floats, wide ranges; range, variation, finiteness, and the affine relation of normal draws from one generator state (forked). Non-trivial: 300 draws with a range wide enough to judge variation.");

// ------------------------------------------------------------------ C24
template <class T> static T any_of(Src &s) {
    if (std::is_floating_point<T>::value) { switch (s.n(6)) { case 0: return (T)(s.range(-5, 5)); case 1: return std::numeric_limits<T>::infinity() * (s.coin() ? (T)1 : (T)-1); case 2: return std::numeric_limits<T>::max() * (s.coin() ? (T)1 : (T)-1); case 3: return std::numeric_limits<T>::denorm_min() * (T)s.range(-3, 3); case 4: return (T)s.range(-1000, 1000) + std::numeric_limits<T>::epsilon() * 2000 * (T)s.range(-2, 2); default: { T v = (T)ldexpl((long double)(int64_t)s.bits64(), (int)s.range(-80, 60)); return std::isfinite(v) ? v : (T)1; } } }
    switch (s.n(4)) { case 0: return (T)s.range(-4, 4); case 1: return (T)(std::numeric_limits<T>::max() - (T)s.n(2)); case 2: return (T)(std::numeric_limits<T>::min() + (T)s.n(2)); default: return (T)s.bits64(); }
}
template <class T> static void mmc(Src &s, const char *name, T (*mn)(T, T), T (*mx)(T, T), T (*cl)(T, T, T)) {
    T a = any_of<T>(s), b = s.chance(1, 4) ? a : any_of<T>(s), c = s.chance(1, 6) ? a : any_of<T>(s); long double A = a, B = b, C = c; VPLOG("%s: %Lg %Lg %Lg", name, A, B, C); label(name);
    T r = mn(a, b); CHECK(r == (b < a ? b : a), "min%s(%.20Lg, %.20Lg) = %.20Lg", name, A, B, (long double)r); r = mx(a, b); CHECK(r == (a < b ? b : a), "max%s(%.20Lg, %.20Lg) = %.20Lg", name, A, B, (long double)r);
    T l = b < c ? b : c, h = b < c ? c : b, want = a < l ? l : h < a ? h : a; r = cl(a, l, h); CHECK(r == want, "clamp%s(%.20Lg, %.20Lg, %.20Lg) = %.20Lg", name, A, (long double)l, (long double)h, (long double)r); if (a != b && b != c) nontrivial();
}
static void c24(Src &s) {
    switch (s.n(10)) {
#define M(N, T, t) case N: mmc<T>(s, #t, vt_cmp_min##t, vt_cmp_max##t, vt_cmp_clamp##t); break;
        M(0, int32_t, i32) M(1, int8_t, i8) M(2, uint8_t, u8) M(3, int16_t, i16) M(4, uint16_t, u16) M(5, uint32_t, u32) M(6, int64_t, i64) M(7, uint64_t, u64) M(8, float, f) M(9, double, d) default: mmc<real>(s, "r", vt_cmp_minr, vt_cmp_maxr, vt_cmp_clampr);
    }
}
PROP("C24", c24, 20000000, 200000000, 0, "Random triples of each of the 11 types: extremes, equal values, neighbours, zeros, infinities and subnormals for floats, random bit patterns; compared with the ordering. Non-trivial: the three values are not all alike.");

// ------------------------------------------------------------------ C25
static void c25(Src &s) {
    if (s.chance(1, 3)) { // a whole small grid: bijection, row-major
        size_t R = 1 + s.n(6), C = 1 + s.n(6), D = 1 + s.n(5), k = 0; VPLOG("grid %zu x %zu x %zu", R, C, D); label("whole grid");
        for (size_t d = 0; d < D; d++) for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++, k++) { size_t i = vt_index_3d_to_1d(r, c, d, R, C), r2 = 77, c2 = 77, d2 = 77; CHECK(i == k, "3d_to_1d(%zu, %zu, %zu) in %zu x %zu is %zu, expected %zu", r, c, d, R, C, i, k); vt_index_1d_to_3d(&r2, &c2, &d2, k, R, C); CHECK(r2 == r && c2 == c && d2 == d, "1d_to_3d(%zu) in %zu x %zu is (%zu, %zu, %zu), expected (%zu, %zu, %zu)", k, R, C, r2, c2, d2, r, c, d); }
        k = 0; for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++, k++) { size_t i = vt_index_2d_to_1d(r, c, C), r2 = 77, c2 = 77; CHECK(i == k, "2d_to_1d(%zu, %zu) with %zu columns is %zu, expected %zu", r, c, C, i, k); vt_index_1d_to_2d(&r2, &c2, k, C); CHECK(r2 == r && c2 == c, "1d_to_2d(%zu) with %zu columns is (%zu, %zu)", k, C, r2, c2); }
        if (R > 1 && C > 1 && D > 1) nontrivial();
    } else { // large grids: any shape whose element count fits
        unsigned b1 = (unsigned)s.n(40), b2 = (unsigned)s.n(std::min(40u, 63 - b1)), b3 = (unsigned)s.n(std::min(40u, 63 - b1 - b2)); auto dim = [&](unsigned b) { return s.chance(1, 4) ? (size_t)1 << b : 1 + s.u(((uint64_t)1 << b) - 1); }; size_t R = dim(b1), C = dim(b2), D = dim(b3);
        auto pos = [&](size_t n) { return s.chance(1, 4) ? n - 1 : s.chance(1, 5) ? 0 : s.n(n - 1); }; size_t r = pos(R), c = pos(C), d = pos(D), r2 = 77, c2 = 77, d2 = 77; VPLOG("(%zu, %zu, %zu) in %zu x %zu x %zu", r, c, d, R, C, D);
        u128 want = ((u128)d * R + r) * C + c; size_t i = vt_index_3d_to_1d(r, c, d, R, C); CHECK((u128)i == want, "3d_to_1d(%zu, %zu, %zu) in %zu x %zu is %zu, expected %s", r, c, d, R, C, i, dec(want).c_str()); vt_index_1d_to_3d(&r2, &c2, &d2, i, R, C); CHECK(r2 == r && c2 == c && d2 == d, "1d_to_3d(%zu) in %zu x %zu is (%zu, %zu, %zu), expected (%zu, %zu, %zu)", i, R, C, r2, c2, d2, r, c, d);
        want = (u128)r * C + c; i = vt_index_2d_to_1d(r, c, C); CHECK((u128)i == want, "2d_to_1d(%zu, %zu) with %zu columns is %zu, expected %s", r, c, C, i, dec(want).c_str()); r2 = c2 = 77; vt_index_1d_to_2d(&r2, &c2, i, C); CHECK(r2 == r && c2 == c, "1d_to_2d(%zu) with %zu columns is (%zu, %zu), expected (%zu, %zu)", i, C, r2, c2, r, c);
        if (r && c && d) nontrivial(); if (((u128)R * C * D) >> 32) label("beyond 32 bits");
    }
}
PROP("C25", c25, 24000000, 100000000, 0, "Whole small grids (all coordinates, both directions) and random coordinates in grids of up to 2^63 elements, corners included, against wide-integer row-major arithmetic. Non-trivial: all extents above 1 or all coordinates above 0.");
