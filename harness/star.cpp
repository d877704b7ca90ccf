// A graph whose hub has many neighbours; the goal hangs off a leaf chosen by the solver. Macros: ALGO, NOCLEAN.
#include "common.hpp"
#ifndef ALGO
#define ALGO gbfs
#endif
#ifndef NOCLEAN
#define NOCLEAN 0
#endif
#ifndef LAZY
#define LAZY 0
#endif
using namespace vp;
using C = co<1>;
using G = chdr::mazes::graph<uint32_t, uint32_t>;
using P = params<G, C, uint32_t, true, false, LAZY, NOCLEAN, 4096>;
extern "C" void harness() {
    const uint32_t leaves = (uint32_t)vp_param("leaves", 300), goal = leaves + 2; // 0 start, 1 hub, 2.. leaves
    uint32_t via = (uint32_t)vp_range("via", 2, leaves + 1); vp_assume(((via & 63) == 2) | (via == leaves + 1)); via = (uint32_t)vp_concretize(via);
    G g; g.add(0, {1, 1}); g.add(1, {0, 1});
    for (uint32_t i = 2; i < goal; ++i) { g.add(1, {i, 1}); g.add(i, {1, 1}); }
    g.add(via, {goal, 1}); g.add(goal, {via, 1});
    P p{g, C{0}, C{goal}, C{goal + 1}, &h_zero<uint32_t, C>, nullptr, nullptr, nullptr};
    P::pools pools; pools.into(p); p.memory_limit = 4096;
    auto path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p));
    vp_note("path_nodes", path.size());
    vp_assert(!path.empty(), "no path was returned although one exists");
    const uint32_t want[4] = {0, 1, via, goal}; const size_t m = path.size(); bool fwd = m <= 4 && m >= 2, bwd = fwd; // either direction, either end may be left out
    bool hit[4] = {}; for (size_t off = 0; off < 3; ++off) { bool f = m + off <= 4, r = f; for (size_t i = 0; i < m && m + off <= 4; ++i) { f &= path[i][0] == want[i + off]; r &= path[m - 1 - i][0] == want[i + off]; } hit[off] = f || r; }
    const bool ok = (fwd || bwd) && ((m == 4 && hit[0]) || (m == 3 && (hit[0] || hit[1])) || (m == 2 && hit[1]));
    vp_assert(ok, "the path does not lead through the hub to the goal"); vp_reach("path");
}
