// Interface between the harnesses and the symbolic executor (or, for replay, the native runtime in native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
    uint64_t vp_sym(const char* name, unsigned bits);           // fresh symbolic value of `bits` bits, zero-extended
    void     vp_assume(bool c);
    void     vp_assert(bool c, const char* msg);
    uint64_t vp_concretize(uint64_t v);                         // split over every feasible value
    uint64_t vp_select(uint64_t c, uint64_t a, uint64_t b);     // branch-free c ? a : b
    void     vp_reach(const char* tag);                         // vacuity witness
    void     vp_note(const char* name, uint64_t v);             // shown with a counterexample
    uint64_t vp_param(const char* name, uint64_t dflt);         // concrete parameter of this run
    uint64_t vp_heap_live();                                    // number of live heap blocks
    void     vp_step_limit(uint64_t n);                         // termination bound from here on, in executed IR instructions
    void     vp_fail_alloc(int64_t n);                          // the n-th allocation from here on fails (std::bad_alloc), -1: none
    void     vp_end();                                          // ends this path (held so far)
    void     harness();
}
template <typename T> static inline T vp_val(const char* n, unsigned bits = sizeof(T) * 8) { return static_cast<T>(vp_sym(n, bits)); }
static inline uint64_t vp_range(const char* n, uint64_t lo, uint64_t hi) { // lo..hi inclusive, symbolic
    unsigned bits = 1; while (bits < 64 && ((hi - 0) >> bits)) { ++bits; }
    uint64_t v = vp_sym(n, bits); vp_assume((v >= lo) & (v <= hi)); return v;
}
static inline uint64_t vp_pick(const char* n, uint64_t lo, uint64_t hi) { return vp_concretize(vp_range(n, lo, hi)); }
