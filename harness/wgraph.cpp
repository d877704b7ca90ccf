// One solver on an undirected graph whose edge weights are symbolic. Macros: ALGO, LAZY, REV, NOCLEAN, W (weight type).
// The topology is a parameter: bit k of `edges` = k-th pair (a<b, lexicographic) present; bits also in `free` are symbolic.
#include "common.hpp"
#ifndef ALGO
#define ALGO dijkstra
#endif
#ifndef REV
#define REV 1
#endif
#ifndef LAZY
#define LAZY 0
#endif
#ifndef NOCLEAN
#define NOCLEAN 0
#endif
#ifndef POOL
#define POOL 4096
#endif
#ifndef UNIT      // what a weight of one is (a power of two, so that sums are exact)
#define UNIT 1
#endif
using namespace vp;
using C = co<1>;
using G = chdr::mazes::graph<INDEX, SCALAR>;
using P = params<G, C, uint32_t, REV, false, LAZY, NOCLEAN, POOL>;
#ifdef HTABLE   // the heuristic is any table of values that is zero at the end and consistent with the weights
static SCALAR estimate[8];
static SCALAR h_table(const C& a, const C&) noexcept { return estimate[a[0]]; }
#define H &h_table
#else
#define H &h_zero<SCALAR, C>
#endif
static SCALAR exact(uint32_t x) { return SCALAR(std::is_floating_point_v<SCALAR> ? (uint32_t)vp_concretize(x) : x) * UNIT; } // floating-point values are told apart one by one
extern "C" void harness() {
    const unsigned n = (unsigned)vp_param("n", 4), mode = (unsigned)vp_param("mode", 7);
    const uint64_t edges = vp_param("edges", ~0ull), free_ = vp_param("free", 0), wmax = vp_param("wmax", 15), wmin = vp_param("wmin", 1);
    uint32_t w[8][8]; bool has[8][8] = {};
    G g; unsigned k = 0;
    for (unsigned a = 0; a < n; ++a) g.add((INDEX)a);
    const bool directed = vp_param("directed", 0) != 0;
    for (unsigned a = 0; a < n; ++a) for (unsigned b = directed ? 0 : a + 1; b < n; ++b) {
        if (a == b) continue;
        bool on = (edges >> k) & 1; if (on && ((free_ >> k) & 1)) on = vp_concretize(vp_sym("edge", 1)) != 0;
        ++k; has[a][b] = on; if (!directed) has[b][a] = on; if (!on) { w[a][b] = 0; if (!directed) w[b][a] = 0; continue; }
        static const char* const wn[] = {"w0", "w1", "w2", "w3", "w4", "w5"};
        const uint32_t fixed = k < 7 ? (uint32_t)vp_param(wn[k - 1], 0) : 0; // a weight given by a parameter
        const uint32_t x = fixed ? fixed : wmin == wmax ? (uint32_t)wmax : (uint32_t)vp_range("weight", wmin, wmax); const SCALAR y = exact(x); w[a][b] = x; g.add((INDEX)a, {(INDEX)b, y}); if (!directed) { w[b][a] = x; g.add((INDEX)b, {(INDEX)a, y}); }
    }
    const unsigned s = vp_param("s", 0) == 255 ? (unsigned)vp_pick("start", 0, n - 1) : (unsigned)vp_param("s", 0), e = vp_param("e", n - 1) == 255 ? (unsigned)vp_pick("end", 0, n - 1) : (unsigned)vp_param("e", n - 1);
    bool reach[8] = {}; reach[s] = true; for (unsigned r = 0; r < n; ++r) for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (reach[a] && has[a][b]) reach[b] = true;
#ifdef HTABLE
    uint32_t est[8]; for (unsigned a = 0; a < n; ++a) { est[a] = a == e && !vp_param("anyh", 0) ? 0 : (uint32_t)vp_range("estimate", 0, vp_param("hmax", wmax * 3)); }
    if (!vp_param("anyh", 0)) for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (has[a][b]) vp_assume(est[a] <= w[a][b] + est[b]);
    for (unsigned a = 0; a < n; ++a) estimate[a] = exact(est[a]);
#endif
    P p{g, C{(COORD)s}, C{(COORD)e}, C{(COORD)n}, H, nullptr, nullptr, nullptr};
    P::pools pools; pools.into(p);
    const uint32_t halves = (uint32_t)vp_param("halves", vp_param("hw", 1) * 2), slack = halves < 2 ? 2 : halves; // how much the estimates count (in halves); so many times the least cost is allowed
    p.weight = SCALAR(SCALAR(halves) / 2); p.memory_limit = vp_param("memory_limit", 90); p.capacity = vp::capacity();
    auto path = chdr::solvers::solver<chdr::solvers::ALGO, P>::solve(std::as_const(p));
    vp_note("path_nodes", path.size());
    if (path.empty()) { vp_reach("no path"); if (mode & 1) vp_assert(!reach[e], "no path was returned although one exists"); return; }
    vp_reach("path");
    if (s == e) { if (mode & 3) vp_assert(path.size() == 1 && path[0][0] == s, "start equals end: exactly that node expected"); return; }
    if (mode & 1) vp_assert(reach[e], "a path was returned although none exists");
    unsigned node[12]; vp_assert(path.size() <= n, "the path is longer than the number of nodes");
    for (size_t i = 0; i < path.size(); ++i) { node[i] = (unsigned)vp_concretize(path[i][0]); vp_assert(node[i] < n, "a path node does not exist"); }
    const unsigned m = (unsigned)path.size();
    if (directed && !(node[m - 1] == e || node[0] == s)) std::reverse(node, node + m); // the listing may run from end to start, the travel may not
    auto joins = [&](unsigned a, unsigned b) { return a == b || has[a][b]; }; // a step from a to b
    bool adj = true; for (unsigned i = 1; i < m; ++i) adj &= has[node[i - 1]][node[i]];
    const bool fwd = joins(s, node[0]) && joins(node[m - 1], e), bwd = !directed && joins(e, node[0]) && joins(node[m - 1], s);
    if (mode & 2) { vp_assert(adj, "consecutive path nodes are not connected"); vp_assert(fwd || bwd, "the path does not connect start and end"); bool dup = false; for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < i; ++j) dup |= node[i] == node[j]; vp_assert(!dup, "the path visits a node twice"); }
    if (mode & 4) {
        uint32_t cost = 0; for (unsigned i = 1; i < m; ++i) cost += w[node[i - 1]][node[i]];
        uint32_t best = ~0u >> 1;
        if (fwd) best = cost + (node[0] != s ? w[s][node[0]] : 0) + (node[m - 1] != e ? w[node[m - 1]][e] : 0);
        if (bwd) { const uint32_t c2 = cost + (node[0] != e ? w[e][node[0]] : 0) + (node[m - 1] != s ? w[node[m - 1]][s] : 0); best = (uint32_t)vp_select(c2 < best, c2, best); }
        // every other way from s to e costs at least as much
        bool least = true; bool on[8] = {};
        auto walk = [&](auto& self, unsigned at, uint32_t sum) -> void { if (at == e) { least &= best * 2 <= slack * sum; return; } on[at] = true; for (unsigned b = 0; b < n; ++b) if (has[at][b] && !on[b]) self(self, b, sum + w[at][b]); on[at] = false; };
        walk(walk, s, 0);
        vp_assert(least, "the path costs more than the cheapest one");
    }
}
