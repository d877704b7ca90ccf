// Index <-> coordinate conversion. Macros: KD, VT. Parameters: lo/hi (range of each dimension's size), or d0..d4 (fixed sizes, fixed=1).
#include "common.hpp"
#ifndef KD
#define KD 3
#endif
#ifdef VT
using T = VT;
#else
using T = uint32_t;
#endif
extern "C" void harness() {
    using C = chdr::coord<T, KD>;
    static const char* dn[] = {"d0", "d1", "d2", "d3", "d4", "d5"};
    C size{}; uint64_t total = 1;
    const bool fixed = vp_param("fixed", 0) != 0;
    for (unsigned i = 0; i < KD; ++i) { size[i] = fixed ? (T)vp_param(dn[i], 2) : (T)vp_pick("size", vp_param("lo", 1), vp_param("hi", 4)); total *= size[i]; }
    vp_note("total", total);
    // every index maps to a coordinate inside the bounds and back to itself
    const T index = (T)vp_range("index", 0, total - 1);
    const C c = chdr::utils::to_nd<C>(index, size);
    bool in = true; for (unsigned i = 0; i < KD; ++i) in &= c[i] < size[i];
    vp_assert(in, "to_nd returned a coordinate outside the bounds");
    vp_assert((uint64_t)chdr::utils::to_1d(c, size) == index, "to_1d does not invert to_nd");
    // the first dimension varies fastest (adjacent along dimension 0 = adjacent indices)
    uint64_t ref = 0; for (unsigned i = KD; i-- > 0;) ref = ref * size[i] + c[i];
    vp_assert(ref == index, "to_nd does not follow the documented dimension order");
    // every coordinate inside the bounds maps to an index in range and back to itself
    C d{}; for (unsigned i = 0; i < KD; ++i) d[i] = (T)vp_range("coord", 0, size[i] - 1);
    const uint64_t j = (uint64_t)chdr::utils::to_1d(d, size);
    vp_assert(j < total, "to_1d returned an index outside the grid");
    const C e = chdr::utils::to_nd<C>((T)j, size);
    bool same = true; for (unsigned i = 0; i < KD; ++i) same &= e[i] == d[i];
    vp_assert(same, "to_nd does not invert to_1d");
    vp_assert(chdr::utils::product<size_t>(size) == total, "product of the sizes is wrong");
    vp_reach("converted");
}
