// Stateful models of vec and plist, shared by C01/C02/C07 and the memory properties (C09/C28).
#pragma once
#include "vp.hpp"
#include <sanitizer/allocator_interface.h>
using namespace vp;
typedef struct VitaBaseAllocatorType Alloc;

// an object belongs to the allocator it was made on, for good
#define CHECK_OWNER(x, a, op) CHECK((x)->alloctr == (a) && vt_array_has_alloctr(x) == ((a) != nullptr), "after %s: the object %s an allocator", op, vt_array_has_alloctr(x) ? "claims to have" : "has lost")
// the storage behind an owned array really has the capacity it claims
static inline void check_storage(const struct VitaBaseArrayType *a, size_t extra, const char *what) {
    if (a->ptr && huge_size(a->ptr)) CHECK(huge_size(a->ptr) >= a->capacity * a->elsize + extra, "%s: capacity %zu (element size %zu) but only %zu bytes of storage", what, a->capacity, a->elsize, huge_size(a->ptr));
    else if (a->ptr && __sanitizer_get_ownership(a->ptr))
        CHECK(block_size(a->ptr) >= a->capacity * a->elsize + extra, "%s: capacity %zu (element size %zu) but only %zu bytes of storage", what, a->capacity, a->elsize, block_size(a->ptr));
}

// ------------------------------------------------------------------ typed access to vectors
struct VecOps {
    const char *name; size_t elsize, cmpsize; bool generic_find;
    void (*push_front)(vt_vec_t *, const void *); void (*push_back)(vt_vec_t *, const void *);
    void (*pop_get)(vt_vec_t *, void *); void (*set)(vt_vec_t *, const void *, size_t);
    void (*get)(vt_vec_t *, size_t, void *); void (*insert)(vt_vec_t *, const void *, size_t);
    int64_t (*can_find)(vt_vec_t *, const void *);
};
#define VEC_OPS(T, t, CMP, GF) { #t, sizeof(T), CMP, GF, \
    [](vt_vec_t *v, const void *x) { vt_vec_push_front##t(v, *(const T *)x); }, \
    [](vt_vec_t *v, const void *x) { vt_vec_push_back##t(v, *(const T *)x); }, \
    [](vt_vec_t *v, void *o) { T r = vt_vec_pop_get##t(v); memcpy(o, &r, sizeof r); }, \
    [](vt_vec_t *v, const void *x, size_t i) { vt_vec_set##t(v, *(const T *)x, i); }, \
    [](vt_vec_t *v, size_t i, void *o) { T r = vt_vec_get##t(v, i); memcpy(o, &r, sizeof r); }, \
    [](vt_vec_t *v, const void *x, size_t i) { vt_vec_insert##t(v, *(const T *)x, i); }, \
    [](vt_vec_t *v, const void *x) { return vt_vec_can_find##t(v, *(const T *)x); } }
static const VecOps vec_types[] = {
    VEC_OPS(int32_t, i32, 4, true), VEC_OPS(int8_t, i8, 1, true), VEC_OPS(uint8_t, u8, 1, true), VEC_OPS(int16_t, i16, 2, true), VEC_OPS(uint16_t, u16, 2, true),
    VEC_OPS(uint32_t, u32, 4, true), VEC_OPS(int64_t, i64, 8, true), VEC_OPS(uint64_t, u64, 8, true), VEC_OPS(float, f, 4, true), VEC_OPS(double, d, 8, true), VEC_OPS(real, r, 10, false),
};
enum { NVT = 11 };

// an element value of a given kind (type index < NVT, else raw bytes); few distinct values so that membership matters
static inline std::string elem_value(Src &s, int type, size_t elsize) {
    std::string v(elsize, 0);
    bool wide = s.chance(1, 3);
    uint64_t x = wide ? s.bits64() : s.u(6);
    if (type == 8) { float f = wide ? (float)(int64_t)x * 0.5f + 1.0f : (float)x + 1; if (x & 1) f = -f; memcpy(&v[0], &f, 4); }
    else if (type == 9) { double f = wide ? (double)(int64_t)x * 0.5 + 1.0 : (double)x + 1; if (x & 1) f = -f; memcpy(&v[0], &f, 8); }
    else if (type == 10) { long double f = wide ? (long double)(int64_t)x * 0.5L + 1.0L : (long double)x + 1; if (f == 0) f = 1; if (x & 1) f = -f; memcpy(&v[0], &f, 10); }
    else if (type < NVT) memcpy(&v[0], &x, elsize);
    else { for (size_t i = 0; i < elsize; i++) { v[i] = (char)(x >> (8 * (i % 8))); if (i % 8 == 7) x = x * 6364136223846793005ull + 1442695040888963407ull; } }
    return v;
}
static inline std::string hex(const std::string &v) { std::string o; char b[4]; for (size_t i = 0; i < v.size() && i < 16; i++) { snprintf(b, 4, "%02x", (unsigned char)v[i]); o += b; } if (v.size() > 16) o += ".."; return o; }

struct ApplyCtx { std::vector<std::pair<void *, size_t>> calls; };
extern ApplyCtx *g_apply;

struct VecInst { vt_vec_t *v; std::vector<std::string> m; Alloc *a; };
void vec_history(Src &s, Alloc *alloctr, bool destroy);
void vec_far(Src &s, Alloc *alloctr);
void plist_far(Src &s, Alloc *alloctr);
struct ListInst { vt_plist_t *p; std::vector<void *> m; Alloc *a; };
void plist_history(Src &s, Alloc *alloctr, bool destroy);
