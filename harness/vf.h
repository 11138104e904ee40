// Interface between the harnesses and the symbolic executor (engine/psym.cpp)
// or, when a counterexample is replayed natively, engine/replay_rt.cpp.
#pragma once

// histories are longer in the thorough tier
#ifdef VF_DEEP
#define HIST(calls) ((calls) + 1)
#else
#define HIST(calls) (calls)
#endif

#include <concepts>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

extern "C" {
int vf_nondet_i32(void);
long vf_nondet_i64(void);
short vf_nondet_i16(void);
unsigned char vf_nondet_i8(void);
bool vf_nondet_bool(void);
double vf_nondet_double(void);
float vf_nondet_float(void);

// uninterpreted functions: the same (unknown) result for the same arguments
int vf_uf0(int id);
int vf_uf1(int id, int a);
int vf_uf2(int id, int a, int b);
int vf_uf3(int id, int a, int b, int c);
int vf_uf4(int id, int a, int b, int c, int d);
int vf_uf5(int id, int a, int b, int c, int d, int e);
int vf_uf6(int id, int a, int b, int c, int d, int e, int f);
long vf_ufl1(int id, long a);
long vf_ufl2(int id, long a, long b);

void vf_assume(bool c);
void vf_assert(bool c, const char *id);
void vf_cover(const char *id);
void vf_trace(long v);
int vf_live_heap(void); // number of heap blocks in use
}

// An entry point, explored on its own
#define HARNESS(name) extern "C" void h_##name()

#define CHECK(id, ...) vf_assert(bool(__VA_ARGS__), id)
#define COVER(id) vf_cover(id)

inline int vf_range(int lo, int hi) { // lo <= r < hi
    int v = vf_nondet_i32();
    vf_assume(lo <= v && v < hi);
    return v;
}
inline unsigned vf_choose(unsigned n) {
    unsigned v = vf_nondet_i8();
    vf_assume(v < n);
    return v;
}
// the same, but one path for each value
inline unsigned vf_pick(unsigned n) {
    unsigned v = vf_choose(n);
    for (unsigned i = 0; i < n; ++i)
        if (v == i) return i;
    return 0;
}

// more than six arguments: the first five, and a function of the others
template<typename... Fs>
inline int vf_uf(int id, const Fs &...a);
template<typename A, typename B, typename C, typename D, typename E, typename... Fs>
inline int vf_uf_more(int id, const A &a, const B &b, const C &c, const D &d, const E &e, const Fs &...f) {
    return vf_uf6(id, int(a), int(b), int(c), int(d), int(e), vf_uf(id + 100, f...));
}
template<typename... Fs>
inline int vf_uf(int id, const Fs &...a) {
    if constexpr (sizeof...(a) == 0) return vf_uf0(id);
    else if constexpr (sizeof...(a) == 1) return vf_uf1(id, int(a)...);
    else if constexpr (sizeof...(a) == 2) return vf_uf2(id, int(a)...);
    else if constexpr (sizeof...(a) == 3) return vf_uf3(id, int(a)...);
    else if constexpr (sizeof...(a) == 4) return vf_uf4(id, int(a)...);
    else if constexpr (sizeof...(a) == 5) return vf_uf5(id, int(a)...);
    else if constexpr (sizeof...(a) == 6) return vf_uf6(id, int(a)...);
    else return vf_uf_more(id, a...);
}
