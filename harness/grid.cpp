// Grid queries against a reference. Macros: KD, CELL, VT (coordinate type), WHAT (1 axis, 2 diagonal, 4 single-direction, 8 containment and access).
#include "common.hpp"
#ifndef KD
#define KD 2
#endif
#ifndef CELL
#define CELL char
#endif
#ifdef VT
using T = VT;
#else
using T = uint32_t;
#endif
#ifndef WHAT
#define WHAT 15
#endif
using C = chdr::coord<T, KD>;
using G = chdr::mazes::grid<C, CELL>;
#ifndef MAXN
#define MAXN 512
#endif
static C size; static unsigned n; static bool open[MAXN]; static CELL val[MAXN];
static unsigned idx(const C& c) { unsigned r = 0, st = 1; for (unsigned i = 0; i < KD; ++i) { r += (unsigned)c[i] * st; st *= (unsigned)size[i]; } return r; }
static C at(unsigned i) { C c{}; for (unsigned d = 0; d < KD; ++d) { c[d] = (T)(i % (unsigned)size[d]); i /= (unsigned)size[d]; } return c; }
static bool adjacent(const C& a, const C& b, bool diag) { unsigned s = 0, m = 0; for (unsigned i = 0; i < KD; ++i) { unsigned t = (unsigned)(a[i] > b[i] ? a[i] - b[i] : b[i] - a[i]); s += t; if (t > m) m = t; } return diag ? m == 1 : s == 1; }
// a cell is blocked if it holds the largest value, and open with any other
static void any(unsigned i) { val[i] = vp_val<CELL>("cell", std::is_same_v<CELL, bool> ? 1 : 8 * sizeof(CELL)); open[i] = val[i] != std::numeric_limits<CELL>::max(); }
static void set(unsigned i) { open[i] = (i * 7 + i / 5) % 3 != 0; val[i] = CELL(vp::cell<CELL>(open[i], i)); }
static auto cells_with(const CELL* v) { if constexpr (std::is_same_v<CELL, bool>) { static bool o[MAXN]; for (unsigned i = 0; i < n; ++i) o[i] = !v[i]; return vp::bool_cells(o, n); } else return std::vector<CELL>(v, v + n); }
// the listed neighbours that are active are exactly the open cells one step away, each listed once
template <typename N> void check(const N& list, unsigned me, bool diag) {
    const C c = at(me);
    static unsigned listed[MAXN]; for (unsigned i = 0; i < n; ++i) listed[i] = 0;
    for (const auto& [active, coord] : list) {
        bool inb = true; for (unsigned k = 0; k < KD; ++k) inb &= (coord[k] >= 0) & (coord[k] < size[k]);
        if (!inb) { vp_assert(!active, "an active neighbour lies outside the grid"); continue; }
        const unsigned i = idx(coord);
        if (!adjacent(c, coord, diag)) { vp_assert(!active, "an active neighbour is not one step away"); continue; }
        vp_assert(!(active & !open[i]), "a blocked cell is listed as an active neighbour");
        listed[i] += active;
    }
    for (unsigned i = 0; i < n; ++i) if (adjacent(c, at(i), diag)) {
        vp_assert(!(open[i] & (listed[i] == 0)), "an open cell one step away is not listed as an active neighbour");
        vp_assert(listed[i] <= 1, "a neighbour is listed twice");
    }
}
extern "C" void harness() {
    static const char* dn[] = {"d0", "d1", "d2", "d3", "d4"};
    n = 1; for (unsigned i = 0; i < KD; ++i) { const unsigned f = (unsigned)vp_param(dn[i], 0); size[i] = f ? (T)f : (T)vp_pick("size", 1, vp_param("hi", 3)); n *= (unsigned)size[i]; }
    const unsigned every = (unsigned)vp_param("every", 1); // of large grids only so many cells are symbolic
    const unsigned far = (unsigned)vp_param("stride", 1); // of huge grids every so many cells are asked about and the cells around them are symbolic
    const unsigned pick = far == 1 ? (unsigned)vp_pick("cell", 0, n - 1) : (unsigned)vp_pick("cell", 0, n / far) * far, me = pick < n ? pick : n - 1; const C c = at(me);
    if (far > 1) for (unsigned i = 0; i < n; ++i) { const C o = at(i); bool close = true; for (unsigned k = 0; k < KD; ++k) close &= o[k] - c[k] + T(1) <= T(2) && o[k] - c[k] + T(1) >= 0; close ? any(i) : set(i); }
    else for (unsigned i = 0; i < n; ++i) every > 1 && i % every ? set(i) : any(i);
    const G g(size, cells_with(val));
    vp_note("cells", n);
#if WHAT & 1
    check(g.template get_neighbours<false>(c), me, false);
    check(g.template get_neighbours<false>((T)me), me, false);
    vp_reach("axis");
#endif
#if WHAT & 2
    check(g.template get_neighbours<true>(c), me, true);
    check(g.template get_neighbours<true>((T)me), me, true);
    vp_reach("diagonal");
#endif
#if WHAT & 4
    { // direction component 0: towards lower, 1: stay, 2: towards higher coordinates
        C dir{}; C to{}; bool inb = true;
        for (unsigned i = 0; i < KD; ++i) { dir[i] = (T)vp_pick("direction", 0, 2); to[i] = (T)(c[i] + dir[i] - 1); inb &= (to[i] >= 0) & (to[i] < size[i]); }
        const auto r = g.check_neighbour(c, dir);
        if (!inb) vp_assert(!r.first, "check_neighbour reports a cell outside the grid as active");
        else {
            vp_assert(r.first == open[idx(to)], "check_neighbour reports the wrong state");
            bool same = true; for (unsigned i = 0; i < KD; ++i) same &= r.second[i] == to[i];
            vp_assert(same, "check_neighbour reports the wrong coordinate"); vp_reach("direction");
        }
    }
#endif
#if WHAT & 8
    vp_assert(g.count() == n, "count is not the number of cells");
    bool same = true; for (unsigned i = 0; i < KD; ++i) same &= g.size()[i] == size[i];
    vp_assert(same, "size does not report the dimensions");
    { C q{}; bool in = true; for (unsigned i = 0; i < KD; ++i) { q[i] = (T)vp_sym("any", 8 * sizeof(T)); in &= (q[i] >= 0) & (q[i] < size[i]); }
      vp_assert(g.contains(q) == in, "contains(coordinate) is wrong");
      const T any = (T)vp_sym("anyindex", 8 * sizeof(T)); vp_assert(g.contains(any) == ((any >= 0) & ((uint64_t)any < n)), "contains(index) is wrong");
      const size_t big = vp_sym("anysize", 64); vp_assert(g.contains(big) == (big < n), "contains(index) is wrong for large indices"); }
    vp_assert(g[c].is_active() == open[me], "a cell's state read by coordinate is wrong");
    vp_assert(g[(T)me].is_active() == open[me], "a cell's state read by index is wrong");
    vp_assert(g[c].value() == val[me] && g[(T)me].value() == val[me], "a cell's value is wrong");
    unsigned deg = 0; for (unsigned i = 0; i < n; ++i) if (adjacent(c, at(i), false)) deg += open[i];
    vp_assert(g.is_transitory((size_t)me) == (deg == 2), "is_transitory is wrong");
    vp_assert(g.is_transitory(g.template get_neighbours<false>(c)) == (deg == 2), "is_transitory(neighbours) is wrong");
    unsigned seen = 0; for (auto it = g.begin(); it != g.end(); ++it, ++seen) if (seen == me) vp_assert(*it == val[me], "iteration yields the wrong value");
    vp_assert(seen == n, "iteration does not visit every cell");
    // replacing the cells
    const CELL val2 = vp_val<CELL>("cell2", std::is_same_v<CELL, bool> ? 1 : 8 * sizeof(CELL)); const bool open2 = val2 != std::numeric_limits<CELL>::max(); static CELL other[MAXN]; for (unsigned i = 0; i < n; ++i) other[i] = i == me ? val2 : val[i];
    G h(size); const auto cells = cells_with(other);
    vp_assert(h.count() == n && h.nodes().size() == n, "a default grid has the wrong number of cells");
    vp_assert(h[c].is_active(), "a default grid's cells are open");
    h.nodes(cells); vp_assert(h[c].is_active() == open2 && h[c].value() == val2, "replacing the cells has no effect");
    G moved(std::move(h)); vp_assert(moved.count() == n && moved[c].is_active() == open2 && moved[c].value() == val2, "moving a grid loses its cells");
    vp_reach("queried");
#endif
}
