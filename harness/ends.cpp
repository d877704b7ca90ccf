// Endpoints anywhere: coordinates over the whole range of their type, any cells. Macros ALGO KD OCT REV LAZY NOCLEAN CELL GRAPH.
#include "common.hpp"
#ifndef ALGO
#define ALGO astar
#endif
#ifndef KD
#define KD 2
#endif
#ifndef CELL
#define CELL char
#endif
#ifndef REV
#define REV 1
#endif
#ifndef OCT
#define OCT 0
#endif
#ifndef LAZY
#define LAZY 0
#endif
#ifndef NOCLEAN
#define NOCLEAN 0
#endif
using namespace vp;
extern "C" void harness() {
#ifdef GRAPH
    using C = co<1>; using M = chdr::mazes::graph<INDEX, SCALAR>; using P = params<M, C, uint32_t, REV, false, LAZY, NOCLEAN>;
    M g; const unsigned n = (unsigned)vp_param("n", 3); uint32_t id[8];
    for (unsigned i = 0; i < n; ++i) { id[i] = i ? 3 * i + (uint32_t)vp_param("gap", 1) : 0; g.add(id[i]); }
    for (unsigned i = 1; i < n; ++i) { g.add(id[i - 1], {id[i], 1}); g.add(id[i], {id[i - 1], 1}); }
    const uint32_t s = (uint32_t)vp_sym("start", (unsigned)vp_param("bits", 32)), e = (uint32_t)vp_sym("end", (unsigned)vp_param("bits", 32));
    bool hs = false, he = false; for (unsigned i = 0; i < n; ++i) { hs |= s == id[i]; he |= e == id[i]; }
    vp_assume(!(hs & he) | (s == e));
    // the conversion of a node to a coordinate is the identity when the one dimension is larger than every identifier
    P p{g, C{(COORD)s}, C{(COORD)e}, C{(COORD)~0u}, &h_zero<SCALAR, C>, nullptr, nullptr, nullptr};
    P::pools pools; pools.into(p);
    auto path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p));
    vp_note("path_cells", path.size());
    if (path.empty()) { vp_reach("no path"); vp_assert(!(hs & he), "no path from a node to itself"); }
    else { vp_reach("path"); vp_assert(hs & he, "a path was returned although an endpoint is not in the graph"); vp_assert(path.size() == 1 && path[0][0] == s, "start equals end: the path must be that node"); }
#else
    static constexpr size_t K = KD; using C = co<K>; using M = chdr::mazes::grid<C, CELL>; using P = params<M, C, CELL, REV, OCT, LAZY, NOCLEAN>;
    static const char* const dn[] = {"d0", "d1", "d2", "d3"};
    C size{}; for (size_t i = 0; i < K; ++i) size[i] = (uint32_t)vp_param(dn[i], 3);
    const auto g = spec<K>(size, OCT); const unsigned n = g.n;
    bool open[64]; for (unsigned i = 0; i < n; ++i) open[i] = vp_sym("open", 1) != 0;
    M maze(size, cells_of<C, CELL>::make(open, n));
    C start, end; bool in = true, same = true;
    for (size_t i = 0; i < K; ++i) { start[i] = vp_val<COORD>("start"); end[i] = vp_val<COORD>("end"); in &= (start[i] >= 0) & (start[i] < size[i]) & (end[i] >= 0) & (end[i] < size[i]); same &= start[i] == end[i]; }
    const bool inside = vp_concretize(in) != 0; bool os = false, oe = false;
    if (inside) {
        C cs, ce; for (size_t i = 0; i < K; ++i) { cs[i] = (COORD)vp_concretize(start[i]); ce[i] = (COORD)vp_concretize(end[i]); }
        start = cs; end = ce; const unsigned s = index<K>(cs, size), e = index<K>(ce, size); os = open[s]; oe = open[e];
        vp_assume(!(os & oe) | (s == e));                          // the rest is C01's
        vp_reach("inside");
    } else vp_reach("outside");
    P p{maze, start, end, size, &h_manhattan<SCALAR, C>, nullptr, nullptr, nullptr};
    P::pools pools; pools.into(p);
    auto path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p));
    vp_note("path_cells", path.size());
    if (!inside) { vp_assert(path.empty(), "a path was returned although an endpoint lies outside the maze"); return; }
    if (path.empty()) { vp_reach("no path"); vp_assert(!(os & oe), "no path from an open cell to itself"); }
    else {
        vp_reach("path"); vp_assert(os & oe, "a path was returned although an endpoint is blocked");
        bool eq = path.size() == 1; for (size_t i = 0; eq && i < K; ++i) eq = path[0][i] == start[i];
        vp_assert(eq, "start equals end: the path must be that cell");
    }
#endif
}
