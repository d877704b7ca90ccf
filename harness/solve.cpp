// One solver, one grid shape, symbolic cells; start/end fixed by parameters or left to vary over every cell.
// Macros: ALGO, KD (number of dimensions), CELL, REV, OCT, LAZY, NOCLEAN, HEUR. Parameters: d0..d3 sizes, and see below.
#include "common.hpp"
#ifndef ALGO
#define ALGO astar
#endif
#ifndef KD
#define KD 2
#endif
#ifndef CELL
#define CELL char
#endif
#ifndef REV
#define REV 1
#endif
#ifndef OCT
#define OCT 0
#endif
#ifndef LAZY
#define LAZY 0
#endif
#ifndef NOCLEAN
#define NOCLEAN 1
#endif
#ifndef HEUR
#define HEUR manhattan
#endif
#ifndef POOL
#define POOL 4096
#endif
#ifndef CALL
#define CALL 0
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
using namespace vp;
static constexpr size_t K = KD;
using C = co<K>;
using maze_t = chdr::mazes::grid<C, CELL>;
using P = params<maze_t, C, CELL, REV, OCT, LAZY, NOCLEAN, POOL>;

#ifdef HTABLE  // the heuristic is any function of the cell
static uint32_t estimate[64];
static C shape;
static SCALAR h_table(const C& a, const C&) noexcept { size_t i = 0; for (size_t d = K; d-- > 0;) i = i * shape[d] + a[d]; return estimate[i]; }
#define H &h_table
#else
#define H &CAT(h_, HEUR)<SCALAR, C>
#endif
extern "C" void harness() {
    static const char* const dn[] = {"d0", "d1", "d2", "d3", "d4"};
    C size{}; for (size_t i = 0; i < K; ++i) size[i] = (uint32_t)vp_param(dn[i], 3);
    const auto g = spec<K>(size, OCT);
    const unsigned n = g.n;
    // what is checked: 1 a path is returned iff one exists; 2 the path is valid; 4 the path is as short as possible;
    // 8 pools reset: memory; 16 a second solve gives the same answer
    const unsigned mode = (unsigned)vp_param("mode", 7);
    const uint64_t pat = vp_param("pattern", ~0ull);       // cells outside `free` take their openness from here
    const uint64_t free_ = vp_param("free", ~0ull);       // cells whose openness is symbolic
    bool open[64];
    for (unsigned i = 0; i < n; ++i) open[i] = ((free_ >> i) & 1u) ? (vp_param("split", 0) ? vp_concretize(vp_sym("open", 1)) : vp_sym("open", 1)) != 0 : ((pat >> i) & 1u) != 0;
    const unsigned ps = (unsigned)vp_param("s", 255), pe = (unsigned)vp_param("e", 255);
    const unsigned s = ps == 255 ? (unsigned)vp_pick("start", 0, n - 1) : ps, e = pe == 255 ? (unsigned)vp_pick("end", 0, n - 1) : pe;
    if (vp_param("distinct", 0)) vp_assume(s != e);
    if (vp_param("bothopen", 0)) vp_assume(open[s] & open[e]);
    if (vp_param("reachable", 0)) vp_assume(g.connected(open, s, e) | !(open[s] & open[e])); // restrict to mazes with a path (or a blocked endpoint)
#ifdef HTABLE
    shape = size; for (unsigned i = 0; i < n; ++i) estimate[i] = ((vp_param("hfree", ~0ull) >> i) & 1) ? (uint32_t)vp_range("estimate", 0, vp_param("hmax", 3)) : i % 3;
#endif
    maze_t maze(size, cells_of<C, CELL>::make(open, n));
    P p{maze, coordof<K>(s, size), coordof<K>(e, size), size, H, nullptr, nullptr, nullptr};
    P::pools pools; pools.into(p);
    p.capacity = vp::capacity(); p.memory_limit = vp_param("memory_limit", 90); p.weight = (SCALAR)vp_param("weight", 1);
    if (vp_param("steps", 0)) vp_step_limit(vp_param("steps", 0));
    using run = chdr::solvers::solver<chdr::solvers::ALGO, P>;
#if CALL == 1   // the documented ways to call a solver
    auto path = run::solve(p.maze, p.start, p.end, p.size, p.h, p.monotonic_pmr, p.heterogeneous_pmr, p.homogeneous_pmr, p.weight, p.capacity, p.memory_limit);
#elif CALL == 2
    auto path = run::solve(p);
#elif CALL == 3
    run functor; auto path = functor(std::as_const(p));
#elif CALL == 4
    run functor; auto path = functor(p.maze, p.start, p.end, p.size, p.h, p.monotonic_pmr, p.heterogeneous_pmr, p.homogeneous_pmr, p.weight, p.capacity, p.memory_limit);
#elif CALL == 5
    auto path = run::solve(P{p});
#else
    auto path = run::solve(std::as_const(p));
#endif
    const size_t len = check_path<K>(g, open, s, e, size, path, mode);
    if (mode & 16) {
        auto again = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p));
        bool same = again.size() == len; for (size_t i = 0; same && i < len; ++i) same = again[i] == path[i];
        vp_assert(same, "solving again with the same pools gives a different answer");
    }
}
