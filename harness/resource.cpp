// One solver drawing on memory resources that keep account of every block: who handed it out, how it was asked for, whether
// it is still in use. Parameters: mode (as in solve.cpp), fail (an allocation among the next `fail` fails, 0 none), twice.
// GRAPH: the maze is a graph of n nodes whose edges are symbolic, otherwise a grid as in solve.cpp.
#include "common.hpp"
#ifndef ALGO
#define ALGO astar
#endif
#ifndef KD
#define KD 2
#endif
#ifndef REV
#define REV 1
#endif
#ifndef OCT
#define OCT 0
#endif
#ifndef LAZY
#define LAZY 0
#endif
#ifndef NOCLEAN
#define NOCLEAN 0
#endif
#ifndef HEUR
#define HEUR manhattan
#endif
#include "account.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
using namespace vp;

// Runs the solver under the given fault plan; returns false when it reported bad_alloc.
template <typename P, typename path_t> bool attempt(const P& p, path_t& out, int64_t fault, uint64_t base) {
    bool done = false;
    vp_fail_alloc(fault);
    try { out = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(p); done = true; }
    catch (const std::bad_alloc&) { vp_fail_alloc(-1); vp_reach("allocation failure reported"); vp_assert(fault >= 0, "bad_alloc although memory was available"); }
    vp_fail_alloc(-1);
    if constexpr (!NOCLEAN) {
        vp_assert(p.monotonic_pmr->used == 0 && p.heterogeneous_pmr->used == 0 && p.homogeneous_pmr->used == 0, "a resource was not reset after solving");
        vp_assert(vp_heap_live() == base + (out.capacity() != 0), "memory was not given back after solving");
    }
    return done;
}

extern "C" void harness() {
    const unsigned mode = (unsigned)vp_param("mode", 3), fail = (unsigned)vp_param("fail", 0);
#ifdef GRAPH
    using C = co<1>; using maze_t = chdr::mazes::graph<uint32_t, uint32_t>; using P = rparams<maze_t, C, uint32_t>;
    const unsigned n = (unsigned)vp_param("n", 4); bool has[8][8] = {}; const uint64_t free_ = vp_param("free", ~0ull), edges = vp_param("edges", ~0ull), wmax = vp_param("wmax", 1);
    maze_t maze; unsigned k = 0; for (unsigned a = 0; a < n; ++a) maze.add(a);
    for (unsigned a = 0; a < n; ++a) for (unsigned b = a + 1; b < n; ++b, ++k) {
        bool on = (edges >> k) & 1; if (on && ((free_ >> k) & 1)) on = vp_concretize(vp_sym("edge", 1)) != 0;
        if (on) { const uint32_t x = wmax == 1 ? 1 : (uint32_t)vp_range("weight", 1, wmax); has[a][b] = has[b][a] = true; maze.add(a, {b, x}); maze.add(b, {a, x}); }
    }
    const unsigned s = 0, e = n - 1; bool reach[8] = {true}; for (unsigned r = 0; r < n; ++r) for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (reach[a] && has[a][b]) reach[b] = true;
    P p{maze, C{s}, C{e}, C{n}, &h_zero<uint32_t, C>, nullptr, nullptr, nullptr};
    auto judge = [&](const auto& path) { vp_note("path_cells", path.size()); vp_reach(path.empty() ? "no path" : "path"); vp_assert(path.empty() ? !(mode & 1) || !reach[e] : reach[e], "a path is returned exactly when one exists"); };
#else
    static constexpr size_t K = KD; using C = co<K>; using maze_t = chdr::mazes::grid<C, char>; using P = rparams<maze_t, C, char>;
    static const char* const dn[] = {"d0", "d1", "d2", "d3"};
    C size{}; for (size_t i = 0; i < K; ++i) size[i] = (uint32_t)vp_param(dn[i], 3);
    const auto g = spec<K>(size, OCT); const unsigned n = g.n;
    const uint64_t pat = vp_param("pattern", ~0ull), free_ = vp_param("free", ~0ull);
    bool open[64];
    for (unsigned i = 0; i < n; ++i) open[i] = ((free_ >> i) & 1u) ? vp_sym("open", 1) != 0 : ((pat >> i) & 1u) != 0;
    const unsigned ps = (unsigned)vp_param("s", 255), pe = (unsigned)vp_param("e", 255);
    const unsigned s = ps == 255 ? (unsigned)vp_pick("start", 0, n - 1) : ps, e = pe == 255 ? (unsigned)vp_pick("end", 0, n - 1) : pe;
    maze_t maze(size, cells_of<C, char>::make(open, n));
    P p{maze, coordof<K>(s, size), coordof<K>(e, size), size, &CAT(h_, HEUR)<uint32_t, C>, nullptr, nullptr, nullptr};
    auto judge = [&](const auto& path) { check_path<K>(g, open, s, e, size, path, mode); };
#endif
    p.capacity = vp_param("capacity", 0); p.memory_limit = vp_param("memory_limit", 90);
    if (vp_param("limits", 0)) p.memory_limit = vp_range("memory_limit", 1, vp_param("limits", 0)); // every limit up to that
    int64_t fault = -1;
    if (fail) { fault = (int64_t)vp_pick("failing_allocation", 0, fail) - 1; }
    resource<false> mono; resource<true> het, hom; p.monotonic_pmr = &mono; p.heterogeneous_pmr = &het; p.homogeneous_pmr = &hom;
    const uint64_t base = vp_heap_live();
    {
        std::vector<typename P::coord_type> path;
        if (attempt(std::as_const(p), path, fault, base)) { vp_reach("answered"); judge(path); }
    }
    if (vp_param("peak", 0)) vp_assert(hom.peak <= p.memory_limit, "more search nodes are kept than the memory limit allows");
    if (vp_param("twice", 0)) { // the same resources serve again
        std::vector<typename P::coord_type> path; const uint64_t b2 = vp_heap_live();
        vp_assert(attempt(std::as_const(p), path, -1, b2), "solving again fails"); judge(path);
    }
}
