// Property-based testing framework: choice sequences, oracles, death tests, fault injection.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <limits>
#include <type_traits>

extern "C" {
#include "vita/vita.h"
}

namespace vp {

// ---------------------------------------------------------------- choices
// Every random decision of a case is one draw(max) in [0,max]; the sequence of draws is the case.
struct Src {
    enum Mode { GEN, REPLAY, BYTES } mode = GEN;
    uint64_t st[4];
    const uint64_t *rv = nullptr; size_t rn = 0;
    const uint8_t *bp = nullptr; size_t bn = 0;
    size_t pos = 0;
    uint64_t hash = 1469598103934665603ull;
    void seed(uint64_t a, uint64_t b);
    uint64_t raw();
    uint64_t draw(uint64_t max);

    uint64_t u(uint64_t max) { return draw(max); }
    size_t n(size_t max) { return (size_t)draw(max); }
    int64_t range(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo)); }
    bool coin() { return draw(1); }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }   // 0 (shrunk) = false
    // size with a bias to small values and boundary-ish ones
    size_t size(size_t max);
    uint64_t bits64();                        // any 64-bit value, biased to extremes
    int64_t integer(int64_t lo, int64_t hi);  // biased to extremes of the interval and to 0
    std::string text(size_t maxlen, const char *alphabet = nullptr);
    std::string bytes(size_t maxlen);         // no NULs
    std::string big(size_t len, const char *alphabet = nullptr);  // given length, content from one draw
    size_t big_size(size_t max);              // mostly small, sometimes around powers of two, sometimes up to max
    template <class T> const T &pick(const std::vector<T> &v) { return v[n(v.size() - 1)]; }
};

// ---------------------------------------------------------------- case context
extern bool g_trace;
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // recorded only while tracing
#define VPLOG(...) do { if (vp::g_trace) vp::log(__VA_ARGS__); } while (0)
void label(const char *name);                 // classification counter
void nontrivial();                            // this case is non-trivial by the property's rule
[[noreturn]] void fail(const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
#define CHECK(c, ...) do { if (!(c)) vp::fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
void skip_leak_check();                       // this case is allowed to leave memory behind
std::string show(const std::string &s);       // printable form

// ---------------------------------------------------------------- death tests
// The library's objects are built with -fexceptions; its exit()/abort()/assert() throw Ended to here.
struct Death { bool died; int code; bool aborted; };
struct Ended { int code; bool aborted; };
struct SoftFail {};
extern volatile int g_death_armed;
template <class F> Death expect_death(F f) {
    Death d{false, 0, false}; int outer = g_death_armed;
    g_death_armed = 1;
    try { f(); } catch (const Ended &e) { d.died = true; d.code = e.code; d.aborted = e.aborted; }
    g_death_armed = outer;
    return d;
}
#define CHECK_DIES(d, what) CHECK((d).died && ((d).aborted || (d).code != 0), "%s: expected the program to end with failure (ended=%d status=%d)", what, (int)(d).died, (d).code)

// stderr of the current case
void err_clear();
std::string err_text();

// ---------------------------------------------------------------- heap
struct HeapMark { long live; };
long heap_live();                             // blocks currently live (all of the process)
void heap_count(long d);
void more_time(int secs);                     // this case may use so much CPU time from now on (several GB are walked over)
extern bool g_huge_ok;                        // the library's requests of more than 1 GB are served with address space only (see wrap.cpp)
size_t huge_size(const void *p);              // size of such a block, else 0
static inline size_t huge_number(Src &s);     // around 2 or 4 GB
extern bool g_heap_pause;
extern unsigned g_place_n;
size_t block_size(const void *p);             // what was asked for when the block was made or last reallocated
void block_forget(const void *p);
// allocation wrappers of the library (see wrap.cpp)
extern volatile long g_lib_allocs;            // allocation calls made by the library
extern volatile long g_lib_fail_at;           // fail the k-th one from now (0 = never)
extern volatile long g_lib_failed;            // how many requests were failed
extern volatile long g_lib_live;              // blocks the library currently holds
extern volatile long g_lib_live_bytes;
void lib_track(bool on);                      // remember the library's blocks from now on
void lib_free_all();                          // release every remembered live block

// time() seen by the library (0 = real)
extern time_t g_fake_time;

// scratch directory of this process (exists, empty at case start when fs_reset() is called)
const std::string &scratch();
void fs_reset();
extern volatile int g_escapes; std::string escape_text();

static inline bool far_case(Src &s, unsigned n) { bool y = s.chance(1, n);   // one case in n works on several GB (not in the coverage-guided search, which would dwell on them)
#ifdef VP_FUZZ
    y = false;
#endif
    return y; }
static inline size_t huge_number(Src &s) { size_t b = (size_t)1 << (31 + s.n(1)); size_t d = 20000 + s.n(100000); return s.coin() ? b + d : b - d; }

// ---------------------------------------------------------------- soft mode (C09): failed oracles only end the case
extern bool g_soft; void g_soft_rearm();
extern bool g_memory_faults; // memory requests fail on purpose: no other limits then, or the diagnostic could not be written

// ---------------------------------------------------------------- registry
typedef void (*PropFn)(Src &);
struct Prop {
    const char *id; PropFn fn;
    long quick_cases, thorough_cases;
    const char *rule;
    unsigned flags;
};
enum { F_LEAK = 1, F_FS = 2, F_WALL = 4, F_SOFT = 8, F_NOFUZZ = 16 };
std::vector<Prop> &registry();
struct Reg { Reg(Prop p) { registry().push_back(p); } };
#define PROP(ID, FN, QUICK, THOROUGH, FLAGS, RULE) static vp::Reg reg_##FN({ID, FN, QUICK, THOROUGH, RULE, FLAGS})

// sub-cases that C09/C28 run as workloads
struct Work { const char *name; void (*fn)(Src &, struct VitaBaseAllocatorType *alloctr, bool destroy); };
std::vector<Work> &workloads();
struct RegWork { RegWork(Work w) { workloads().push_back(w); } };
#define WORK(NAME, FN) static vp::RegWork work_##FN({NAME, FN})

// known findings that were re-observed: printed by the driver as KNOWN-FINDING lines
void known_finding(const char *text);

} // namespace vp
